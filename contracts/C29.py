from vc.contract import *
from contracts.mesh import *
from contracts.C19 import cross
HARNESS = "C29"; VECMODEL = True
CONTRACTS = []
def mk(dim):
    C = 1 if dim == 2 else 3
    n = lambda k: (lambda v: k * v.n)
    def bnd(end, ghost=True): return lambda v: [(lambda m: (m[3] + m[4] if end else m[3]) if ghost else (m[0] + m[1] if end else m[0]))(GV(v, d)) for d in range(dim)]
    # the nodes of this process, without the last ones of a direction that is not periodic
    def cells(v, f):
        xs, xm, mx, gxs, gxm, per = GV(v, f)
        return xs, xs + xm - S.ind(S.land(S.eq(xs + xm, mx), S.eq(per, 0)))
    within = cells
    def ptsamp(rng, v, i, j, f):
        if not hasattr(v, "_used") or (i, j, f) == (0, 0, 0) : v._used = getattr(v, "_used", set()) if (i, j) != (0, 0) else set()
        if f == 0:
            while True:
                q = tuple(rng.randint(within(v, d)[0], max(within(v, d)) - 1) for d in range(dim))
                if q not in v._used: break
            v._used.add(q); v._q = q
        return v._q[f]
    def szsamp(rng, v, i):
        room = 1
        for d in range(dim): room = room * (within(v, d)[1] - within(v, d)[0])
        return rng.randint(0, max(0, min(3, room // 3)))
    def boxs(rng, v, i): return rng.randint(0, 1) if i % (2 * dim) < dim else rng.randint(0, 3)
    def meet(v, i): return S.land(*[S.land(S.le(cells(v, d)[0], v.pb(2 * dim * i + dim + d)), S.le(v.pb(2 * dim * i + d), cells(v, d)[1])) for d in range(dim)])
    def start(v, i): return S.isum(0, i, lambda k: S.ite(meet(v, k), v.sz(k), 0))
    def total(v): return dim * (start(v, v.n) if S.symbolic else sum((v.sz(k) for k in range(v.n)), 0))
    gr = lambda nm, m="io": Grid(nm, dim, bnd(0), bnd(1), lambda v: dim, m)
    def P(mode, extra): return [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), Int("n", (0, 3)), InI("pb", n(2 * dim), boxs), InI("sz", lambda v: v.n, szsamp, lo=0),
        Jag("pts", lambda v: v.n, "sz", "i" * dim, sample=ptsamp, within=within, inverse=("own", "rank")), In("h", dim, (.1, 1)), In("ce", n(dim)), gr("u", mode), gr("v0"), gr("v1"), OutI("bad", 2)] + extra
    req = lambda v: [S.le(0, v.n)] + g_req(dim)(v) + vel_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)]
    ok = lambda v: S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0), S.eq(v.bad[1], 0))
    def ens(v):
        yield "success; the nodes asked for are those of the particle owned by this process", ok(v)
        for q in v.all(*[(bnd(0, False)(v)[d], bnd(1, False)(v)[d]) for d in range(dim)]):
            if not S.symbolic and not v.pts_has(*q):
                for d in range(dim): yield "other node unchanged", S.eq(v.u(*q, d), v.u0(*q, d))
                continue
            i, j = v.own(*q), v.rank(*q)
            for _ in v.given(S.lnot(S.land(v.pts_has(*q), meet(v, i)))):
                for d in range(dim): yield "a node of no particle is unchanged, component %d" % d, S.eq(v.u(*q, d), v.u0(*q, d))
            for _ in v.given(v.pts_has(*q), meet(v, i)):
                for d in range(dim): yield "a node of a particle gets its control, with the force density when asked for, component %d" % d, S.eq(v.u(*q, d), v.x(dim * (start(v, i) + j) + d) + S.ite(S.ne(v.forces, 0), v.rho(i) * v.f(dim * i + d), c(0)))
    CONTRACTS.append(Contract("set_rhs_problem_impl<%dD>" % dim, "control_%d" % dim, P("io", [In("x", total), In("rho", n(1)), In("f", n(dim)), Int("forces", (0, 1))]), ens, req, ret="I", samples=150, functions="problem::set_rhs_problem_impl, petsc_vec::at_g, geometry::intersect, overlap_box"))
    def ensy(rigid):
        def f(v):
            yield "success; the nodes asked for are those of the particle owned by this process", ok(v)
            for (i,) in v.all((0, v.n)):
                for _ in v.given(meet(v, i)):
                    for (j,) in v.all((0, v.sz(i))):
                        q = [v.pts(i, j, d) for d in range(dim)]; r = [S.real(q[d]) * v.h[d] - v.ce(dim * i + d) for d in range(dim)]
                        x = cross(dim, [v.cr(C * i + k) for k in range(C)], r) if rigid else None
                        for d in range(dim):
                            yield "value of the field at the node%s, component %d" % (", less the rigid motion of the particle" if rigid else "", d), \
                                S.eq(v.x(dim * (start(v, i) + j) + d), v.u(*q, d) - ((v.me(dim * i + d) + v.ci(i) * x[d]) if rigid else c(0)))
        return f
    CONTRACTS.append(Contract("compute_y rigid motion<%dD>" % dim, "y_rigid_%d" % dim, P("in", [Out("x", total), In("ci", n(1)), In("me", n(dim)), In("cr", n(C))]), ensy(True), req, ret="I", samples=150, functions="problem::compute_y, geometry::cross_product, petsc_vec::at_g"))
    CONTRACTS.append(Contract("compute_y<%dD>" % dim, "y_%d" % dim, P("in", [Out("x", total)]), ensy(False), req, ret="I", samples=150, functions="problem::compute_y, petsc_vec::at_g"))
for dim in (2, 3): mk(dim)
