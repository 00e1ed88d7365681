from vc.contract import *
from contracts.mesh import *
HARNESS = "C24"
CONTRACTS = []
def cell(v, p):
    """bounds of the cells of mesh p (0: velocity, 1: pressure)"""
    r = []
    for d in range(2):
        xs, xm, mx, gxs, gxm, per = (G if p else GV)(v, d)
        r.append((xs, S.ite(S.land(S.eq(per, 0), S.eq(xs + xm, mx)), xs + xm - 1, xs + xm)))
    return r
def ghost(p, end):
    return lambda v: [(lambda m: m[3] + m[4] if end else m[3])((G if p else GV)(v, d)) for d in range(2)]
# the refined mesh holds the refined nodes of the local cells; one more row all round to see stray writes
def fine(p, end): return lambda v: [(cell(v, p)[d][1] * v.r[d] + 2 if end else cell(v, p)[d][0] * v.r[d] - 1) for d in range(2)]
def val(v, x, a, i, j, k):
    """bilinear interpolant of x in cell a at the fraction (i/r0, j/r1), component k"""
    s = c(0)
    for e in range(4):
        w = c(1)
        for d, q in ((0, i), (1, j)):
            f = S.real(q) / S.real(v.r[d]); w = w * (f if e >> d & 1 else c(1) - f)
        s = s + w * x(a[0] + (e & 1), a[1] + (e >> 1), k)
    return s
def ens(v):
    yield "success", S.eq(v.ret, 0)
    for p, n in ((0, "velocity"), (1, "pressure")):
        l = [v.log[12 * p + k] for k in range(12)]
        yield n + ": refined by the given factors", S.land(S.eq(l[0], v.r[0]), S.eq(l[1], v.r[1]), S.eq(l[2], 1))
        yield n + ": place in the refined problem", S.eq(l[3], p + 1)
        yield n + ": ghost values received, result sent", S.land(S.le(1, l[4]), S.le(1, l[5]))
    yield "refined problem and vector returned", S.land(S.eq(v.log[24], 1), S.eq(v.log[25], 1))
    for p, n, x, y, y0, nd in ((0, "velocity", v.xv, v.yv, v.yv0, 2), (1, "pressure", v.xp, v.yp, v.yp0, 1)):
        C = cell(v, p); F0, F1 = fine(p, 0)(v), fine(p, 1)(v)
        if S.symbolic:
            l = [v.log[12 * p + k] for k in range(12)]
            yield n + ": over the cells of the local box", S.land(*[S.land(S.eq(l[6 + d], C[d][0]), S.eq(l[8 + d], C[d][1])) for d in range(2)])
            yield n + ": ghost values received before, result sent after", S.land(S.le(1, l[10]), S.eq(l[11], 0))
            a = [v.pos[2 * p + d] for d in range(2)]
            for k in range(nd):
                for q in v.all((F0[0], F1[0]), (F0[1], F1[1])):
                    i, j = q[0] - a[0] * v.r[0], q[1] - a[1] * v.r[1]
                    inside = S.land(S.le(0, i), S.le(i, v.r[0]), S.le(0, j), S.le(j, v.r[1]))
                    yield n + ": interpolant at the refined nodes of the cell, component %d" % k, S.imp(inside, S.eq(y(*q, k), val(v, x, a, i, j, k)))
                    yield n + ": nothing else written, component %d" % k, S.imp(S.lnot(inside), S.eq(y(*q, k), y0(*q, k)))
                # the cells agree on the nodes they share, and keep the coarse values
                for (i,) in v.all((0, v.r[0] + 1)): yield n + ": same value from the cell above, component %d" % k, S.eq(val(v, x, a, i, v.r[1], k), val(v, x, [a[0], a[1] + 1], i, 0, k))
                for (j,) in v.all((0, v.r[1] + 1)): yield n + ": same value from the cell on the right, component %d" % k, S.eq(val(v, x, a, v.r[0], j, k), val(v, x, [a[0] + 1, a[1]], 0, j, k))
                yield n + ": coarse value kept, component %d" % k, S.eq(val(v, x, a, 0, 0, k), x(*a, k))
        else:
            for k in range(nd):
                for q in v.all((F0[0], F1[0]), (F0[1], F1[1])):
                    lab = n + ": interpolant at the refined nodes of the cell, component %d" % k
                    if any(hi <= lo for lo, hi in C) or any(not C[d][0] * v.r[d] <= q[d] <= C[d][1] * v.r[d] for d in range(2)):
                        yield n + ": nothing else written, component %d" % k, S.eq(y(*q, k), y0(*q, k)); continue
                    a = [min(q[d] // v.r[d], C[d][1] - 1) for d in range(2)]
                    yield lab, S.eq(y(*q, k), val(v, x, a, q[0] - a[0] * v.r[0], q[1] - a[1] * v.r[1], k))
def req(v):
    r = g_req(2)(v) + vel_req(2)(v) + [S.le(1, v.r[d]) for d in range(2)] + [S.lt(c(0), v.h[d]) for d in range(2)]
    for p in (0, 1):
        for d in range(2): lo, hi = cell(v, p)[d]; r += [S.le(lo, v.pos[2 * p + d]), S.lt(v.pos[2 * p + d], hi)]
    return r
def psamp(rng, v, i): lo, hi = cell(v, i // 2)[i % 2]; return lo
CONTRACTS.append(Contract("linear_interpolation<2D>", "interp", [MESH(2, dof=1, mxmax=4), InI("gv", 13, velsamp(2), fix={0: 2}), InI("r", 2, (1, 4)), In("h", 2, (.1, 1)),
    Grid("xv", 2, ghost(0, 0), ghost(0, 1), lambda v: 2, "in"), Grid("xp", 2, ghost(1, 0), ghost(1, 1), lambda v: 1, "in"), Grid("yv", 2, fine(0, 0), fine(0, 1), lambda v: 2), Grid("yp", 2, fine(1, 0), fine(1, 1), lambda v: 1),
    InI("pos", 4, psamp), OutI("log", 27)], ens, req, ret="I", samples=150,
    functions="posttraitement::linear_interpolation, petsc_vec::petsc_vec, at, local_to_global, global_to_local, get_DM_bounds, P1_integration, get_element"))
