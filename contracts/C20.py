from vc.contract import *
from contracts.mesh import *
from contracts.C19 import cross
HARNESS = "C20"; VECMODEL = True
CONTRACTS = []
def bnd(dim, end): return lambda v: [(lambda m: m[3] + m[4] if end else m[3])(GV(v, d)) for d in range(dim)]
def mk(dim):
    C = 1 if dim == 2 else 3
    vecs = "f" * dim
    n = lambda k: (lambda v: k * v.n)
    # the cell of a point has all its nodes on this process; the offset is in the cell
    def within(v, f):
        if f < dim: return bnd(dim, 0)(v)[f], bnd(dim, 1)(v)[f] - 1
    def spsamp(rng, v, i, j, f):
        if f < dim:
            lo, hi = within(v, f); return rng.randint(lo, max(lo, hi - 1))
        return rng.random() * v.h[f - dim]
    def N(v, i, j, k):
        w = c(1)
        for d in range(dim):
            x = v.sp(i, j, dim + d) / v.h[d]; w = w * (x if k >> d & 1 else c(1) - x)
        return w
    def node(v, i, j, k): return [v.sp(i, j, d) + (k >> d & 1) for d in range(dim)]
    gr = lambda nm, m="io": Grid(nm, dim, bnd(dim, 0), bnd(dim, 1), lambda v: dim, m)
    sz = lambda: InI("sz", lambda v: v.n, (0, 3), lo=0)
    sp = lambda: Jag("sp", lambda v: v.n, "sz", "i" * dim + "f" * dim, sample=spsamp, within=within)
    head = lambda: [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), In("h", dim, (.1, 1)), Int("n", (0, 3)), sz()]
    def req(v):
        r = [S.le(0, v.n)] + g_req(dim)(v) + vel_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)]
        if not S.symbolic: r += [hi - lo >= 2 for lo, hi in zip(bnd(dim, 0)(v), bnd(dim, 1)(v))]
        return r
    def ens(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.bad[3], 0), S.eq(v.bad[0], 0))
        for (i,) in v.all((0, v.n)):
            for (j,) in v.all((0, v.sz(i))):
                x = cross(dim, [v.w(C * i + k) for k in range(C)], [v.rv(i, j, d) for d in range(dim)])
                for d in range(dim):
                    u = c(0)
                    for k in range(2 ** dim): u = u + N(v, i, j, k) * v.xv(*node(v, i, j, k), d)
                    yield "value of the field at the point, less the rigid motion when asked for, component %d" % d, S.eq(v.gg(i, j, d), u - S.ite(S.ne(v.rigid, 0), v.ve(dim * i + d) + x[d], c(0)))
                # affine fields are interpolated exactly
                aff = lambda q, d: v.af[(dim + 1) * d + dim] + sum(v.af[(dim + 1) * d + e] * S.real(q[e]) * v.h[e] for e in range(dim))
                for _ in v.given(*[S.eq(v.xv(*node(v, i, j, k), d), aff(node(v, i, j, k), d)) for k in range(2 ** dim) for d in range(dim)], S.eq(v.rigid, 0)):
                    for d in range(dim):
                        yield "an affine field is interpolated exactly, component %d" % d, S.eq(v.gg(i, j, d), v.af[(dim + 1) * d + dim] + sum(v.af[(dim + 1) * d + e] * (S.real(v.sp(i, j, e)) * v.h[e] + v.sp(i, j, dim + e)) for e in range(dim)))
    CONTRACTS.append(Contract("interp_fluid_to_surf<%dD>" % dim, "surf_%d" % dim, head() + [In("ve", n(dim)), In("w", n(C)), Int("rigid", (0, 1)), sp(), Jag("rv", lambda v: v.n, "sz", vecs), Jag("gg", lambda v: v.n, "sz", vecs, "io"),
        gr("xv", "in"), gr("v0"), gr("v1"), OutI("bad", 4)] + [GhostArr("af", dim * (dim + 1))], ens, req, ret="I", samples=100, functions="problem::interp_fluid_to_surf, interp_rigid_motion_, fem::P1_integration, get_element, petsc_vec::at, global_to_local"))
    def ens2(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.bad[3], 0))
        yield "then null Dirichlet conditions on the velocity of the right-hand side", S.land(S.eq(v.bad[0], 1), S.eq(v.bad[1], 1), S.eq(v.bad[2], 0))
        for q in v.all(*[(bnd(dim, 0)(v)[d], bnd(dim, 1)(v)[d]) for d in range(dim)]):
            for d in range(dim):
                tot = c(0)
                for k in range(2 ** dim):
                    tot = tot + S.sum(0, v.n, lambda i: v.area(i) / S.real(v.nb(i)) * S.sum(0, v.sz(i), lambda j: S.ite(S.land(*[S.eq(a, b) for a, b in zip(node(v, i, j, k), q)]), v.gg(i, j, d) * N(v, i, j, k), c(0))))
                yield "each node receives the density of the points of its cells, by their shape functions, component %d" % d, S.eq(v.xv(*q, d), tot)
    CONTRACTS.append(Contract("SL_to_Rhs<%dD>" % dim, "spread_%d" % dim, head() + [InI("nb", n(1), (1, 9), lo=1), In("area", n(1), (.2, 2)), sp(), Jag("gg", lambda v: v.n, "sz", vecs), gr("xv"), gr("v0"), gr("v1"), OutI("bad", 4)],
        ens2, req, ret="I", samples=60, functions="problem::SL_to_Rhs, fem::P1_integration, get_element, petsc_vec::at, fill, local_to_global"))
for dim in (2, 3): mk(dim)
