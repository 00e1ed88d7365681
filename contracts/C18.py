from vc.contract import *
HARNESS = "C18"; VECMODEL = True
CONTRACTS = []
def mk(dim):
    C = 1 if dim == 2 else 3
    n = lambda k: (lambda v: k * v.n)
    def boxs(rng, v, i): return rng.randint(0, 1) if i % (2 * dim) < dim else rng.randint(0, 3)
    def meet(v, i): return S.land(*[S.land(S.le(v.b[d], v.pb(2 * dim * i + dim + d)), S.le(v.pb(2 * dim * i + d), v.b[dim + d])) for d in range(dim)])
    def start(v, i): return S.isum(0, i, lambda k: S.ite(meet(v, k), v.sz(k), 0))
    def ctl(v, i, j, d): return v.control(dim * (start(v, i) + j) + d)
    def pos(v, i, j): return [S.real(v.pts(i, j, d)) * v.h[d] - v.ce(dim * i + d) for d in range(dim)]
    def mom(v, i, j):
        r = pos(v, i, j); g = [ctl(v, i, j, d) for d in range(dim)]
        return [r[0] * g[1] - r[1] * g[0]] if dim == 2 else [r[1] * g[2] - r[2] * g[1], r[2] * g[0] - r[0] * g[2], r[0] * g[1] - r[1] * g[0]]
    def ens(v):
        yield "success; the nodes asked for are those of the particle in the box of this process", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0), S.eq(v.bad[1], 2), S.eq(v.bad[2], 0))
        for (i,) in v.all((0, v.n)):
            w = v.vol(i) / S.real(v.num(i))
            sg = lambda d: S.ite(S.eq(v.sing, 0), c(0), v.sf(dim * i + d))
            for m, here in ((S.lnot(meet(v, i)), False), (meet(v, i), True)):
                for _ in v.given(m):
                    for d in range(dim): yield "force: weighted sum over the particle's nodes, component %d, %s" % (d, "here" if here else "none here"), \
                        S.eq(v.force(dim * i + d), (w * v.sum(0, v.sz(i), lambda j: ctl(v, i, j, d)) if here else c(0)) + v.of(dim * i + d) + sg(d))
                    for k in range(C): yield "torque: weighted sum of the moments about the centre, component %d, %s" % (k, "here" if here else "none here"), \
                        S.eq(v.torque(C * i + k), (w * v.sum(0, v.sz(i), lambda j: mom(v, i, j)[k]) if here else c(0)) + v.ot(C * i + k))
    def total(v): return sum((v.sz(k) for k in range(v.n)), 0)
    CONTRACTS.append(Contract("forces_torques_with_control<%dD>" % dim, "forces_%d" % dim,
        [Int("n", (0, 3)), InI("b", 2 * dim, lambda rng, v, i: rng.randint(0, 1) if i < dim else rng.randint(1, 3)), InI("pb", n(2 * dim), boxs), InI("sz", lambda v: v.n, (0, 3), lo=0),
         Jag("pts", lambda v: v.n, "sz", "i" * dim), In("control", lambda v: dim * (start(v, v.n) if S.symbolic else total(v))), In("h", dim, (.2, 1)), In("ce", n(dim)), In("vol", n(1), (.2, 2)), InI("num", n(1), (1, 9), lo=1), Int("sing", (0, 1)),
         In("sf", n(dim)), In("of", n(dim)), In("ot", n(C)), Out("force", n(dim)), Out("torque", n(C)), OutI("bad", 3)],
        ens, lambda v: [S.le(0, v.n)] + [S.lt(c(0), x) for x in v.h] + [S.lt(v.b[d], v.b[dim + d]) for d in range(dim)], ret="I",
        functions="forces_torques_with_control, set_torques, geometry::intersect, overlap_box"))
for dim in (2, 3): mk(dim)
