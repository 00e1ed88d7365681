from vc.contract import *
from contracts.mesh import *
HARNESS = "C19"; VECMODEL = True
CONTRACTS = []
def cross(dim, w, r):
    """w x r: w the spin (a list of one number in 2D)"""
    return [-w[0] * r[1], w[0] * r[0]] if dim == 2 else [w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]]
def moment(dim, r, g):
    """r x g, a list of one number in 2D"""
    return [r[0] * g[1] - r[1] * g[0]] if dim == 2 else cross(3, r, g)
def mk(dim):
    C = 1 if dim == 2 else 3
    vecs = "f" * dim
    n = lambda k: (lambda v: k * v.n)
    sz = InI("sz", lambda v: v.n, (0, 3), lo=0)
    R = lambda v, i, j: [v.r(i, j, d) for d in range(dim)]
    G0 = lambda v, i, j: [v.g0(i, j, d) for d in range(dim)]
    def ens(v):
        yield "success", S.eq(v.ret, 0)
        for (i,) in v.all((0, v.n)):
            for (j,) in v.all((0, v.sz(i))):
                x = cross(dim, [v.w(C * i + k) for k in range(C)], R(v, i, j))
                for d in range(dim): yield "velocity v + w x r of the particle taken away, component %d" % d, S.eq(v.g(i, j, d), v.g0(i, j, d) - (v.v(dim * i + d) + x[d]))
    CONTRACTS.append(Contract("interp_rigid_motion_<%dD>" % dim, "rigid_%d" % dim, [Int("n", (0, 3)), sz, In("v", n(dim)), In("w", n(C)), Jag("r", lambda v: v.n, "sz", vecs), Jag("g", lambda v: v.n, "sz", vecs, "io")],
        ens, lambda v: [S.le(0, v.n)], ret="I", functions="problem::interp_rigid_motion_, geometry::cross_product"))
    def M(v, i): return [(S.sum(0, v.sz(i), lambda j: v.g0(i, j, d)) + v.om(dim * i + d)) / S.real(v.nb(i)) for d in range(dim)]
    def X(v, i): return [(S.sum(0, v.sz(i), lambda j: moment(dim, R(v, i, j), G0(v, i, j))[k]) + v.oc(C * i + k)) * v.cd(i) / S.real(v.nb(i)) for k in range(C)]
    def ens2(v):
        yield "success, sums in place over all processes", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0), S.eq(v.bad[1], 2))
        for (i,) in v.all((0, v.n)):
            m, x = M(v, i), X(v, i)
            for d in range(dim): yield "mean density over all processes, component %d" % d, S.eq(v.mean(dim * i + d), m[d])
            for k in range(C): yield "rotation carried by the moment, component %d" % k, S.eq(v.cr(C * i + k), x[k])
            for (j,) in v.all((0, v.sz(i))):
                y = cross(dim, [v.cr(C * i + k) for k in range(C)], R(v, i, j))
                for d in range(dim): yield "mean and rotation taken away, component %d" % d, S.eq(v.g(i, j, d), v.g0(i, j, d) - v.mean(dim * i + d) - y[d])
            # every point of the particle on this process, the points centred and their second moments those of the shape
            one = [S.eq(v.nb(i), v.sz(i)), S.lt(0, v.sz(i))] + [S.eq(v.om(dim * i + d), c(0)) for d in range(dim)] + [S.eq(v.oc(C * i + k), c(0)) for k in range(C)]
            tot = lambda f: v.sum(0, v.sz(i), f)
            cen = [S.eq(tot(lambda j: v.r(i, j, d)), c(0)) for d in range(dim)]
            M2 = lambda a, b: tot(lambda j: v.r(i, j, a) * v.r(i, j, b))
            iso = [S.eq((M2(0, 0) + M2(1, 1)) * v.cd(i), S.real(v.nb(i)))] if dim == 2 else \
                  [S.eq(M2(a, b) * v.cd(i), S.real(v.nb(i)) / c(2) if a == b else c(0)) for a in range(3) for b in range(a, 3)]
            for _ in v.given(*(one + cen)):
                for d in range(dim): yield "no net force is left, component %d" % d, S.eq(tot(lambda j: v.g(i, j, d)), c(0))
                for _ in v.given(*iso):
                    for k in range(C): yield "no net torque is left, component %d" % k, S.eq(tot(lambda j: moment(dim, R(v, i, j), [v.g(i, j, d) for d in range(dim)])[k]), c(0))
    P = lambda: [Int("n", (0, 3)), InI("sz", lambda v: v.n, (0, 3), lo=0), InI("nb", lambda v: v.n, (1, 9), lo=1), In("cd", n(1), (.2, 2)), Jag("r", lambda v: v.n, "sz", vecs), Jag("g", lambda v: v.n, "sz", vecs, "io"), In("om", n(dim)), In("oc", n(C)), Out("mean", n(dim)), Out("cr", n(C)), OutI("bad", 2)]
    def req(v):
        r = [S.le(0, v.n)]
        return r
    CONTRACTS.append(Contract("simple_layer<%dD>" % dim, "layer_%d" % dim, P(), ens2, req, ret="I", functions="problem::simple_layer, geometry::cross_product"))
def mkproj(dim):
    C = 1 if dim == 2 else 3
    n = lambda k: (lambda v: k * v.n)
    def boxs(rng, v, i): return rng.randint(0, 1) if i % (2 * dim) < dim else rng.randint(1, 3)
    def over(v, i, f):
        """sum of f(cell, sub-cell) over the cells of this process in the box of the particle"""
        pb = lambda d: v.pb(2 * dim * i + d)
        b = v.b; lo = [S.ite(S.lt(b[d], pb(d)), pb(d), b[d]) for d in range(dim)]
        hi = [S.ite(S.lt(pb(dim + d), b[dim + d]), pb(dim + d), b[dim + d]) for d in range(dim)]
        def cell(d, p): return S.sum(lo[d], hi[d], lambda x: cell(d - 1, [x] + p) if d else sub(dim - 1, [x] + p, []))
        def sub(d, p, q): return S.sum(0, v.scale, lambda x: sub(d - 1, p, [x] + q) if d else f(p, [x] + q))
        return cell(dim - 1, [])
    def meet(v, i):
        b = v.b; return S.land(*[S.land(S.le(b[d], v.pb(2 * dim * i + dim + d)), S.le(v.pb(2 * dim * i + d), b[dim + d])) for d in range(dim)])
    def X(v, p, q): return [S.real(p[d]) * v.h[d] + S.real(q[d]) * (v.h[d] / S.real(v.scale)) for d in range(dim)]
    def u(v, p, q):
        """the field at the sub-cell's corner, by the shape functions of its cell"""
        out = [c(0)] * dim
        for corner in range(2 ** dim):
            w = c(1); e = [corner >> d & 1 for d in range(dim)]
            for d in range(dim):
                t_ = S.real(q[d]) / S.real(v.scale); w = w * (t_ if e[d] else 1 - t_)
            for d in range(dim): out[d] = out[d] + w * v.u(*[p[k] + e[k] for k in range(dim)], d)
        return out
    def ens(v):
        for (i,) in v.all((0, v.n)):
            inside = lambda p, q: v.inside(S.real(i), *X(v, p, q))
            res = [("mean velocity over the particle's part on this process, component %d" % d, v.mean, dim * i + d, lambda p, q, d=d: u(v, p, q)[d]) for d in range(dim)]
            res += [("mean moment, component %d" % k, v.cr, C * i + k, lambda p, q, k=k: moment(dim, [X(v, p, q)[d] - v.ce(dim * i + d) for d in range(dim)], u(v, p, q))[k]) for k in range(C)]
            for nm, f, j, g in res:
                for _ in v.given(S.lnot(meet(v, i))): yield nm + ", none here", S.eq(f(j), c(0))
                for _ in v.given(meet(v, i)): yield nm, S.eq(f(j) * S.real(v.num(i)), over(v, i, lambda p, q: S.ite(inside(p, q), g(p, q), c(0))))
    P = [InI("num", n(1), (1, 9), lo=1), Int("scale", (1, 3)), In("h", dim, (.2, 1)), In("ce", n(dim)), Pred("inside", dim + 1)]
    req = lambda v: [S.le(0, v.n), S.le(1, v.scale)] + [S.lt(c(0), x) for x in v.h]
    CONTRACTS.append(Contract("projection_impl<%dD>" % dim, "proj_%d" % dim, [Int("n", (0, 3)), InI("b", 2 * dim, lambda rng, v, i: rng.randint(0, 1) if i < dim else rng.randint(1, 3)), InI("pb", n(2 * dim), boxs)] + P +
        [Grid("u", dim, lambda v: v.b[:dim], lambda v: [x + 1 for x in v.b[dim:]], dim, "in"), IO("mean", n(dim)), IO("cr", n(C))],
        ens, lambda v: req(v) + [S.lt(v.b[d], v.b[dim + d]) for d in range(dim)], functions="problem::projection_impl, kernel_projection, fem::P1_integration, get_element, geometry::box_inside, intersect"))
def mkall(dim):
    """the sums of each process are those of the contracts above"""
    C = 1 if dim == 2 else 3
    n = lambda k: (lambda v: k * v.n)
    def ens(v):
        yield "success; vectors used on their own mesh; one pass over the nodes with the particles, numbers and spacing of the context; two sums over the processes", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0), S.eq(v.bad[1], 2), S.eq(v.bad[2], 0), S.eq(v.bad[3], 1), S.eq(v.bad[4], 0))
        for d in range(dim):
            ys, ym, my, hxs, hxm, per = GV(v, d)
            yield "over the cells that start at the nodes of this process, direction %d" % d, S.land(S.eq(v.b[d], ys), S.eq(v.b[dim + d], ys + ym - S.ite(S.land(S.eq(ys + ym, my), S.eq(per, 0)), 1, 0)))
        for q in v.all(*[(bnd(0)(v)[d], bnd(1)(v)[d]) for d in range(dim)]):
            for d in range(dim): yield "of the velocity of the solution, ghost nodes included, component %d" % d, S.eq(v.seen(*q, d), v.u(*q, d))
        for (i,) in v.all((0, v.n)):
            for d in range(dim): yield "mean velocity: sum over the processes, component %d" % d, S.eq(v.mean(dim * i + d), v.lm(dim * i + d) + v.om(dim * i + d))
            for k in range(C): yield "mean moment: sum over the processes, component %d" % k, S.eq(v.cr(C * i + k), v.lc(C * i + k) + v.oc(C * i + k))
    bnd = lambda end: lambda v: [GV(v, d)[3] + (GV(v, d)[4] if end else 0) for d in range(dim)]
    gr = lambda nm, m="io": Grid(nm, dim, bnd(0), bnd(1), lambda v: dim, m)
    CONTRACTS.append(Contract("projection<%dD>" % dim, "projall_%d" % dim, [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), Int("n", (0, 3)), InI("num", n(1), (1, 9), lo=1), Int("scale", (1, 3)), In("h", dim, (.2, 1)), In("lm", n(dim)), In("lc", n(C)),
        gr("u", "in"), gr("v0"), gr("v1"), gr("seen"), In("om", n(dim)), In("oc", n(C)), IO("mean", n(dim)), IO("cr", n(C)), OutI("b", 2 * dim), OutI("bad", 5)],
        ens, lambda v: [S.le(0, v.n), S.le(1, v.scale)] + [S.lt(c(0), x) for x in v.h] + g_req(dim)(v) + vel_req(dim)(v), ret="I", harness="C19p", samples=100, functions="problem::projection, fem::get_DM_bounds, petsc_vec::global_to_local"))
for dim in (2, 3): mk(dim); mkproj(dim); mkall(dim)
