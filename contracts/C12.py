from vc.contract import *
from contracts.C03 import lap, mass, strain, pint
HARNESS = "C12"
CONTRACTS = []
bit = lambda k, d: k >> d & 1
def off(m, k, dim): return [k // m ** d % m for d in range(dim)]
def total(xs):
    r = 0
    for x in xs: r = r + x
    return r
box = lambda s, n, dim: (lambda v: [v.p[d] * s for d in range(dim)], lambda v: [v.p[d] * s + n for d in range(dim)])
def node_all(v, lo, hi, dim, dof):
    yield from v.all(*[(lo[d], hi[d]) for d in range(dim)], (0, dof))
# ---------------- per-cell kernels (any elementary matrix, any number of components)
for dim in (2, 3):
    N, M = 2 ** dim, 3 ** dim
    smp = 60 if dim == 3 else 200
    lo1, hi1 = box(1, 2, dim); lo2, hi2 = box(2, 3, dim)
    # the fields are given on a strictly larger box, so that writes outside the cell would be seen
    L1 = lambda v, f=lo1: [x - 1 for x in f(v)]; H1 = lambda v, f=hi1: [x + 1 for x in f(v)]
    L2 = lambda v, f=lo2: [x - 1 for x in f(v)]; H2 = lambda v, f=hi2: [x + 1 for x in f(v)]
    dofs = lambda v: v.dof
    Pp = InI("p", dim, (-3, 5))
    def e_diag(v, dim=dim, N=N, L=L1, H=H1):
        for q in node_all(v, L(v), H(v), dim, v.dof):
            d = q[-1]; x = [q[k] - v.p[k] for k in range(dim)]
            old = v.y0(*q)
            w = old
            for k1 in range(N):
                here = S.land(*[S.eq(x[k], bit(k1, k)) for k in range(dim)])
                add = total(v.x(*[v.p[k] + bit(k2, k) for k in range(dim)], d) * v.m[N * k1 + k2] for k2 in range(N))
                w = w + S.ite(here, add, c(0))
            yield "y += M x on the nodes of the cell, nothing elsewhere", S.eq(v.y(*q), w)
    CONTRACTS.append(Contract("kernel_diag_block<%dD>" % dim, "kdiag_%d" % dim, [Int("dof", (1, 3)), Pp, In("m", N * N), Grid("x", dim, L1, H1, dofs, "in"), Grid("y", dim, L1, H1, dofs)],
        e_diag, lambda v: [S.le(1, v.dof)], functions="fem::kernel_diag_block, petsc_vec::at, get_element", samples=smp))
    def e_dd(v, dim=dim, N=N, L=L1, H=H1):
        for q in node_all(v, L(v), H(v), dim, v.dof):
            x = [q[k] - v.p[k] for k in range(dim)]; w = v.y0(*q)
            for k1 in range(N): w = w + S.ite(S.land(*[S.eq(x[k], bit(k1, k)) for k in range(dim)]), v.m[N * k1 + k1], c(0))
            yield "diagonal entry added on the nodes of the cell, nothing elsewhere", S.eq(v.y(*q), w)
    CONTRACTS.append(Contract("kernel_diag_diag_block<%dD>" % dim, "kdiagdiag_%d" % dim, [Int("dof", (1, 3)), Pp, In("m", N * N), Grid("y", dim, L1, H1, dofs)],
        e_dd, lambda v: [S.le(1, v.dof)], functions="fem::kernel_diag_diag_block", samples=smp))
    def e_tens(v, dim=dim, N=N, L=L1, H=H1):
        for d in range(dim):
          for q in v.all(*[(L(v)[k], H(v)[k]) for k in range(dim)]):
            x = [q[k] - v.p[k] for k in range(dim)]
            w = v.y0(*q, d)
            for k1 in range(N):
                here = S.land(*[S.eq(x[k], bit(k1, k)) for k in range(dim)])
                add = total(v.x(*[v.p[k] + bit(k2, k) for k in range(dim)], e) * v.m[((N * k1 + k2) * dim + d) * dim + e] for k2 in range(N) for e in range(dim))
                w = w + S.ite(here, add, c(0))
            yield "y_%d += sum of M[..][%d][e] x_e, nothing elsewhere" % (d, d), S.eq(v.y(*q, d), w)
    cd = lambda v, dim=dim: dim
    CONTRACTS.append(Contract("kernel_tensor_block<%dD>" % dim, "ktens_%d" % dim, [Pp, In("m", N * N * dim * dim), Grid("x", dim, L1, H1, cd, "in"), Grid("y", dim, L1, H1, cd)],
        e_tens, functions="fem::kernel_tensor_block", samples=smp))
    def e_off(v, dim=dim, N=N, M=M, L1=L1, H1=H1, L2=L2, H2=H2):
        for q in v.all(*[(L1(v)[k], H1(v)[k]) for k in range(dim)]):
            w = v.yp0(*q, 0)
            for kp in range(N):
                here = S.land(*[S.eq(q[k] - v.p[k], bit(kp, k)) for k in range(dim)])
                add = total(v.xv(*[2 * v.p[k] + off(3, kv, dim)[k] for k in range(dim)], d) * v.m[(M * kp + kv) * dim + d] for kv in range(M) for d in range(dim))
                w = w + S.ite(here, add, c(0))
            yield "pressure += B u on the cell, nothing elsewhere", S.eq(v.yp(*q, 0), w)
        for d in range(dim):
          for q in v.all(*[(L2(v)[k], H2(v)[k]) for k in range(dim)]):
            w = v.yv0(*q, d)
            for kv in range(M):
                here = S.land(*[S.eq(q[k] - 2 * v.p[k], off(3, kv, dim)[k]) for k in range(dim)])
                add = total(v.xp(*[v.p[k] + bit(kp, k) for k in range(dim)], 0) * v.m[(M * kp + kv) * dim + d] for kp in range(N))
                w = w - S.ite(here, add, c(0))
            yield "velocity component %d -= B^T p on the cell, nothing elsewhere" % d, S.eq(v.yv(*q, d), w)
    one = lambda v: 1
    CONTRACTS.append(Contract("kernel_off_diag_block<%dD>" % dim, "koff_%d" % dim, [Pp, In("m", N * M * dim), Grid("xv", dim, L2, H2, cd, "in"), Grid("xp", dim, L1, H1, one, "in"), Grid("yv", dim, L2, H2, cd), Grid("yp", dim, L1, H1, one)],
        e_off, functions="fem::kernel_off_diag_block, get_element, get_element_4Q1", samples=smp))
# ---------------- whole operators over the local box of any mesh
def G(v, d, dim): return [v.g[1 + 6 * d + k] for k in range(6)]      # xs, xm, mx, gxs, gxm, periodic
def gsamp(dim):
    def f(rng, v, i):
        if i == 0: f.g = [rng.randint(1, 3)] + [x for d in range(dim) for x in f.dir(rng)]
        return f.g[i]
    def dr(rng):
        xm = rng.randint(1, 3); per = rng.randint(0, 1); xs = rng.choice([0, rng.randint(0, 3)]); mx = xs + xm + rng.choice([0, rng.randint(0, 2)])
        if per: gxs, ge = xs - 1, xs + xm + 1
        else: gxs, ge = max(0, xs - 1), min(mx, xs + xm + 1)
        return [xs, xm, mx, gxs, ge - gxs, per]
    f.dir = dr
    return f
def g_req(dim, per01=True):
    def f(v):
        r = [S.le(1, v.g[0])]
        for d in range(dim):
            xs, xm, mx, gxs, gxm, per = G(v, d, dim)
            P = S.ne(per, 0)
            r += [S.le(0, xs), S.le(1, xm), S.le(xs + xm, mx), S.le(0, per), S.le(per, 1),
                  S.imp(P, S.land(S.eq(gxs, xs - 1), S.eq(gxs + gxm, xs + xm + 1))),
                  S.imp(S.lnot(P), S.land(S.eq(gxs, S.max(0, xs - 1)), S.eq(gxs + gxm, S.min(mx, xs + xm + 1))))]
        return r
    return f
def glo(dim): return lambda v: [G(v, d, dim)[3] for d in range(dim)]
def ghi(dim): return lambda v: [G(v, d, dim)[3] + G(v, d, dim)[4] for d in range(dim)]
def cell_in(v, cell, dim):
    """cell is one of the cells of the local box"""
    cs = []
    for d in range(dim):
        xs, xm, mx, gxs, gxm, per = G(v, d, dim)
        cs += [S.le(xs, cell[d]), S.lt(cell[d], xs + xm), S.lor(S.ne(per, 0), S.lt(cell[d], mx - 1))]
    return S.land(*cs)
def op(name, entry, dim, el, fn, diag=False, tensor=False):
    N = 2 ** dim
    def ens(v):
        for q in v.all(*[(glo(dim)(v)[k], ghi(dim)(v)[k]) for k in range(dim)], *([] if tensor else [(0, v.g[0])])):
            for dd in (range(dim) if tensor else (q[-1],)):
                q_ = q[:dim]; w = v.y0(*q_, dd)
                for k1 in range(N):
                    cell = [q_[k] - bit(k1, k) for k in range(dim)]
                    for _ in [0]:
                        def contrib():
                            if diag: return el(k1, k1, v.h)
                            if tensor: return total(v.x(*[cell[k] + bit(k2, k) for k in range(dim)], e) * el(k1, k2, dd, e, v.h) for k2 in range(N) for e in range(dim))
                            return total(v.x(*[cell[k] + bit(k2, k) for k in range(dim)], dd) * el(k1, k2, v.h) for k2 in range(N))
                        inn = cell_in(v, cell, dim)
                        if inn is False: continue
                        w = w + (contrib() if inn is True else S.ite(inn, contrib(), c(0)))
                yield "node value = old + contributions of exactly the cells of the box", S.eq(v.y(*q_, dd), w)
    dof = (lambda v: dim) if tensor else (lambda v: v.g[0])
    ps = [InI("g", 1 + 6 * dim, gsamp(dim)), In("h", dim, (0.1, 1))] + ([] if diag else [Grid("x", dim, glo(dim), ghi(dim), dof, "in")]) + [Grid("y", dim, glo(dim), ghi(dim), dof)]
    CONTRACTS.append(Contract("%s<%dD>" % (name, dim), entry, ps, ens, lambda v: g_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)], functions=fn, samples=30 if dim == 3 else 120, weight=5, merge=True))
for dim in (2, 3):
    L = lambda i, j, h, dim=dim: lap(dim, i, j, h)
    Mm = lambda i, j, h, dim=dim: mass(dim, i, j, h)
    St = lambda i, j, a, b, h, dim=dim: strain(dim, i, j, a, b, h)
    op("laplacian_mult", "lap_%d" % dim, dim, L, "fem::laplacian_mult, diag_block_mult, iterate, get_DM_bounds")
    op("mass_mult", "mass_%d" % dim, dim, Mm, "fem::mass_mult, diag_block_mult, iterate, get_DM_bounds")
    op("diag_laplacian_mult", "dlap_%d" % dim, dim, L, "fem::diag_laplacian_mult, diag_diag_block_mult", diag=True)
    op("diag_mass_mult", "dmass_%d" % dim, dim, Mm, "fem::diag_mass_mult, diag_diag_block_mult", diag=True)
    op("strain_tensor_mult", "strain_%d" % dim, dim, St, "fem::strain_tensor_mult, diag_block_mult", tensor=True)
# ---------------- the coupling of the composite mesh
import itertools
from contracts.C03 import pint as Bel
def vlo(dim): return lambda v: [2 * G(v, d, dim)[3] for d in range(dim)]
def vhi(dim): return lambda v: [2 * (G(v, d, dim)[3] + G(v, d, dim)[4]) - 1 for d in range(dim)]
def bbt(dim):
    N, M = 2 ** dim, 3 ** dim
    def ens(v):
        def on(cell, f):
            inn = cell_in(v, cell, dim)
            return c(0) if inn is False else f() if inn is True else S.ite(inn, f(), c(0))
        for q in v.all(*[(glo(dim)(v)[k], ghi(dim)(v)[k]) for k in range(dim)]):
            w = v.yp0(*q, 0)
            for kp in range(N):
                cell = [q[k] - bit(kp, k) for k in range(dim)]
                w = w + on(cell, lambda: total(v.xv(*[2 * cell[k] + off(3, kv, dim)[k] for k in range(dim)], d) * Bel(dim, kp, kv, d, v.h) for kv in range(M) for d in range(dim)))
            yield "pressure node = old + B u over exactly the cells of the box", S.eq(v.yp(*q, 0), w)
        for r in itertools.product((0, 1), repeat=dim):
            for cc in v.all(*[(glo(dim)(v)[k], ghi(dim)(v)[k] - r[k]) for k in range(dim)]):
                q = [2 * cc[k] + r[k] for k in range(dim)]
                for d in range(dim):
                    w = v.yv0(*q, d)
                    for kv in range(M):
                        o = off(3, kv, dim)
                        if any((o[k] - r[k]) % 2 for k in range(dim)): continue
                        cell = [cc[k] - (o[k] - r[k]) // 2 for k in range(dim)]
                        w = w - on(cell, lambda: total(v.xp(*[cell[k] + bit(kp, k) for k in range(dim)], 0) * Bel(dim, kp, kv, d, v.h) for kp in range(N)))
                    yield "velocity node = old - B^T p over exactly the cells of the box", S.eq(v.yv(*q, d), w)
    CONTRACTS.append(Contract("B_and_BT_mult<%dD>" % dim, "bbt_%d" % dim, [InI("g", 1 + 6 * dim, gsamp(dim)), In("h", dim, (0.1, 1)),
        Grid("xv", dim, vlo(dim), vhi(dim), lambda v: dim, "in"), Grid("xp", dim, glo(dim), ghi(dim), lambda v: 1, "in"),
        Grid("yv", dim, vlo(dim), vhi(dim), lambda v: dim), Grid("yp", dim, glo(dim), ghi(dim), lambda v: 1)],
        ens, lambda v: g_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)], functions="fem::B_and_BT_mult, off_diag_block_mult, kernel_off_diag_block", samples=20 if dim == 3 else 80, weight=9, merge=True))
for dim in (2, 3): bbt(dim)
# ---------------- the operators as the solver calls them: global vectors in, global vectors out
import contracts.mesh as me
def bnd(GG, dim, end): return lambda v: [(lambda m: m[3] + m[4] if end else m[3])(GG(v, d)) for d in range(dim)]
def inside(v, GG, cell, dim):
    cs = []
    for d in range(dim):
        xs, xm, mx, gxs, gxm, per = GG(v, d)
        cs += [S.le(xs, cell[d]), S.lt(cell[d], xs + xm), S.lor(S.ne(per, 0), S.lt(cell[d], mx - 1))]
    return S.land(*cs)
def when(b, f): return c(0) if b is False else f() if b is True else S.ite(b, f(), c(0))
def row(v, GG, dim, q, k, x, el, diag=False):
    """entry at node q of the product with the matrix assembled over the local cells"""
    w = c(0)
    for k1 in range(2 ** dim):
        cell = [q[d] - bit(k1, d) for d in range(dim)]
        w = w + when(inside(v, GG, cell, dim), lambda: el(k1, k1) if diag else total(x(*[cell[d] + bit(k2, d) for d in range(dim)], k) * el(k1, k2) for k2 in range(2 ** dim)))
    return w
def bound(v, GG, dim, q, d, w, val):
    """w, or val at an owned node of a face with a condition on component d"""
    own = []; on = []
    for e in range(dim):
        xs, xm, mx, gxs, gxm, per = GG(v, e); own += [S.le(xs, q[e]), S.lt(q[e], xs + xm)]
        on += [S.land(S.eq(per, 0), S.eq(q[e], 0), v.bc_set[dim * 2 * e + d]), S.land(S.eq(per, 0), S.eq(q[e], mx - 1), v.bc_set[dim * (2 * e + 1) + d])]
    B = S.land(S.ne(v.setbc, 0), *own, S.lor(*on))
    return B if w is True else S.ite(B, val, w)
def shells(dim):
    gr = lambda n, GG, nd, m="io": Grid(n, dim, bnd(GG, dim, 0), bnd(GG, dim, 1), lambda v: nd, m)
    h = In("h", dim, (.1, 1)); hp = lambda v: [S.lt(c(0), v.h[d]) for d in range(dim)]; sm = 60 if dim == 2 else 8
    pos = lambda v: me.g_req(dim)(v) + hp(v)
    bc = Fns("bc", 2 * dim * dim, dim); mis = lambda n: OutI("mis", n); sb = Int("setbc", (0, 1))
    M1 = me.MESH(dim, dof=dim); two = [me.MESH(dim, dof=1), InI("gv", 1 + 6 * dim, me.velsamp(dim), fix={0: dim})]
    req2 = lambda v: me.g_req(dim)(v) + me.vel_req(dim)(v) + hp(v)
    nodes = lambda v, GG: v.all(*[(a, b) for a, b in zip(bnd(GG, dim, 0)(v), bnd(GG, dim, 1)(v))])
    def e1(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.mis[0], 0))
        own = al = dim
        for d in range(dim): m = me.G(v, d); own = own * m[1]; al = al * m[2]
        yield "size of the operator: numbers of degrees of freedom", S.land(S.eq(v.mis[1], own), S.eq(v.mis[2], al))
        yield "no diagonal without a diagonal operator", S.eq(v.mis[3], 1)
        for d in range(dim):
            for q in nodes(v, me.G): yield "product, and given values at the boundary nodes with a condition, component %d" % d, S.eq(v.y(*q, d), bound(v, me.G, dim, q, d, row(v, me.G, dim, q, d, v.x, lambda i, j: mass(dim, i, j, v.h)), v.x(*q, d)))
    CONTRACTS.append(Contract("diag_block_matrix<%dD>" % dim, "mshell_%d" % dim, [M1, h, sb, bc, gr("x", me.G, dim, "in"), gr("y", me.G, dim), gr("l0", me.G, dim), gr("l1", me.G, dim), mis(4)], e1, pos, ret="I", samples=sm, merge=True, weight=8,
        functions="fem::diag_block_matrix, make_matrix, get_DM_sizes, SetDirichletOnVec, petsc_vec"))
    def e2(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.mis[0], 0))
        for d in range(dim):
            for q in nodes(v, me.G): yield "diagonal, component %d" % d, S.eq(v.y(*q, d), row(v, me.G, dim, q, d, None, lambda i, j: mass(dim, i, j, v.h), True))
    CONTRACTS.append(Contract("diag_diag_block_matrix<%dD>" % dim, "mdiag_%d" % dim, [M1, h, gr("y", me.G, dim), gr("l0", me.G, dim), gr("l1", me.G, dim), mis(1)], e2, pos, ret="I", samples=sm, merge=True, weight=3,
        functions="fem::diag_diag_block_matrix, make_matrix, petsc_vec"))
    def e4(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.mis[0], 0))
        for GG, y, nd, n, h_ in ((me.GV, v.yv, dim, "velocity", [v.h[d] for d in range(dim)]), (me.G, v.yp, 1, "pressure", [v.h[dim + d] for d in range(dim)])):
            for d in range(nd):
                for q in nodes(v, GG): yield "diagonal of the %s block, component %d" % (n, d), S.eq(y(*q, d), row(v, GG, dim, q, d, None, lambda i, j: mass(dim, i, j, h_), True))
    CONTRACTS.append(Contract("diag_diag_block_matrix of two meshes<%dD>" % dim, "mdd_%d" % dim, two + [In("h", 2 * dim, (.1, 1)), gr("yv", me.GV, dim), gr("yp", me.G, 1), gr("v0", me.GV, dim), gr("v1", me.GV, dim), gr("p0", me.G, 1), gr("p1", me.G, 1), mis(1)],
        e4, lambda v: req2(v) + [S.lt(c(0), v.h[dim + d]) for d in range(dim)], ret="I", samples=sm, merge=True, weight=4, functions="fem::diag_diag_block_matrix, make_matrix, petsc_vec"))
    N, M = 2 ** dim, 3 ** dim
    def e3(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.mis[0], 0))
        for q in nodes(v, me.G):
            w = c(0)
            for kp in range(N):
                cell = [q[k] - bit(kp, k) for k in range(dim)]
                w = w + when(inside(v, me.G, cell, dim), lambda: total(v.xv(*[2 * cell[k] + off(3, kv, dim)[k] for k in range(dim)], d) * Bel(dim, kp, kv, d, v.h) for kv in range(M) for d in range(dim)))
            yield "pressure row: B u", S.eq(v.yp(*q, 0), w)
        glo, ghi = bnd(me.GV, dim, 0)(v), bnd(me.GV, dim, 1)(v)
        for r in itertools.product((0, 1), repeat=dim):
            for cc in v.all(*[(bnd(me.G, dim, 0)(v)[k] - 1, bnd(me.G, dim, 1)(v)[k] + 1) for k in range(dim)]):
                q = [2 * cc[k] + r[k] for k in range(dim)]
                here = S.land(*[S.land(S.le(glo[k], q[k]), S.lt(q[k], ghi[k])) for k in range(dim)])
                if here is False: continue
                for d in range(dim):
                    w = v.h[0] * v.w(*q, d) * v.xv(*q, d)
                    for kv in range(M):
                        o = off(3, kv, dim)
                        if any((o[k] - r[k]) % 2 for k in range(dim)): continue
                        cell = [cc[k] - (o[k] - r[k]) // 2 for k in range(dim)]
                        w = w - when(inside(v, me.G, cell, dim), lambda: total(v.xp(*[cell[k] + bit(kp, k) for k in range(dim)], 0) * Bel(dim, kp, kv, d, v.h) for kp in range(N)))
                    B = bound(v, me.GV, dim, q, d, True, False)
                    for _ in v.given(here, S.lnot(B)): yield "velocity row: given operator - B^T p, component %d" % d, S.eq(v.yv(*q, d), w)
                    for _ in v.given(here, B): yield "given values at the boundary nodes with a condition, component %d" % d, S.eq(v.yv(*q, d), v.xv(*q, d))
    CONTRACTS.append(Contract("stokes_matrix<%dD>" % dim, "mstokes_%d" % dim, two + [h, sb, bc, gr("w", me.GV, dim, "in"), gr("xv", me.GV, dim, "in"), gr("xp", me.G, 1, "in"), gr("yv", me.GV, dim), gr("yp", me.G, 1), gr("v0", me.GV, dim), gr("v1", me.GV, dim), gr("p0", me.G, 1), gr("p1", me.G, 1), mis(1)],
        e3, req2, ret="I", samples=sm, merge=True, weight=20 if dim == 3 else 8, functions="fem::stokes_matrix, make_matrix, B_and_BT_mult, SetDirichletOnVec, petsc_vec"))
for dim in (2, 3): shells(dim)
