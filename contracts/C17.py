from vc.contract import *
HARNESS = "C17"; VECMODEL = True
CONTRACTS = []
def boxs(dim, lo=0, hi=5):
    def f(rng, v, i): return rng.randint(lo, 3) if i < dim else rng.randint(1, hi)
    return f
def mk(dim):
    box = lambda: InI("b", 2 * dim, boxs(dim)); h = lambda: In("h", dim, (0.1, 1))
    hp = lambda v: [S.lt(c(0), x) for x in v.h]
    pos = lambda v: [S.le(0, v.b[d]) for d in range(2 * dim)]
    def ens(v):
        for q in v.all(*[(None, None)] * dim):
            inb = S.land(*[S.land(S.le(v.b[d], q[d]), S.lt(q[d], v.b[dim + d])) for d in range(dim)])
            yield "node listed once iff in the box and strictly inside the shape, else not listed", \
                S.eq(v.cnt(*q), S.ite(S.land(inb, v.inside(*[S.real(q[d]) * v.h[d] for d in range(dim)])), 1, 0))
    CONTRACTS.append(Contract("find_fluid_points_insides<%dD>" % dim, "fluid_%d" % dim, [box(), h(), Pred("inside", dim), Count("cnt", dim)], ens,
        lambda v: hp(v) + pos(v), ret="I", functions="find_fluid_points_insides", samples=150))
    cell = lambda v, i, d: S.floor(v.sp(dim * i + d) / v.h[d])
    inb = lambda v, i: S.land(*[S.land(S.le(v.b[d], cell(v, i, d)), S.lt(cell(v, i, d), v.b[dim + d])) for d in range(dim)])
    rank = lambda v, i: S.isum(0, i, lambda j: S.ind(inb(v, j)))
    sp = lambda: [Int("n", (0, 6)), Arr("sp", lambda v: dim * v.n, "R", "in", (-1, 4))]
    req = lambda v: hp(v) + pos(v) + [S.le(0, v.n)]
    def ens2(v):
        yield "as many entries as surface points with their cell in the box", S.eq(v.out_n, rank(v, v.n))
        for (i,) in v.all((0, v.n)):
            for _ in v.given(inb(v, i)):
                r = rank(v, i)
                for d in range(dim):
                    yield "cell %d of the point" % d, S.eq(v.out(r, d), cell(v, i, d))
                    yield "cell*h + offset = point, component %d" % d, S.eq(S.real(v.out(r, d)) * v.h[d] + v.out(r, dim + d), v.sp(dim * i + d))
                    yield "offset %d not negative" % d, S.le(c(0), v.out(r, dim + d))
                    yield "offset %d less than the spacing" % d, S.lt(v.out(r, dim + d), v.h[d]) if S.symbolic else v.out(r, dim + d) < v.h[d] * (1 + 1e-9)
    CONTRACTS.append(Contract("find_surf_points_insides<%dD>" % dim, "surf_%d" % dim, sp() + [box(), h(), OutRec("out", "i" * dim + "f" * dim, lambda v: v.n)], ens2, req,
        functions="find_surf_points_insides, geometry::point_inside", samples=150))
    def ens3(v):
        yield "as many vectors as surface points with their cell in the box", S.eq(v.out_n, rank(v, v.n))
        for (i,) in v.all((0, v.n)):
            for _ in v.given(inb(v, i)):
                for d in range(dim): yield "radial vector = point - centre, component %d, at the place of its point" % d, S.eq(v.out(rank(v, i), d), v.sp(dim * i + d) - v.c[d])
    CONTRACTS.append(Contract("find_radial_surf_points_insides<%dD>" % dim, "radial_%d" % dim, sp() + [box(), h(), In("c", dim), OutRec("out", "f" * dim, lambda v: v.n)], ens3, req,
        functions="find_radial_surf_points_insides, geometry::point_inside", samples=150))
# set_materials: the lists of the particles (contracts above) are arbitrary; k is the number of an arbitrary entry
def mkall(dim):
    n = lambda k: (lambda v: k * v.n)
    def pb(v, i): return lambda d: v.pb(2 * dim * i + d)
    def meet(v, i): return S.land(*[S.land(S.le(v.b[d], pb(v, i)(dim + d)), S.le(pb(v, i)(d), v.b[dim + d])) for d in range(dim)])
    def over(v, i, f):
        lo = [S.ite(S.lt(v.b[d], pb(v, i)(d)), pb(v, i)(d), v.b[d]) for d in range(dim)]
        hi = [S.ite(S.lt(pb(v, i)(dim + d), v.b[dim + d]), pb(v, i)(dim + d), v.b[dim + d]) for d in range(dim)]
        def cell(d, p): return S.isum(lo[d], hi[d], lambda x: cell(d - 1, [x] + p) if d else sub(dim - 1, [x] + p, []))
        def sub(d, p, q): return S.isum(0, v.scale, lambda x: sub(d - 1, p, [x] + q) if d else f(p, [x] + q))
        return cell(dim - 1, [])
    def X(v, p, q): return [S.real(p[d]) * v.h[d] + S.real(q[d]) * (v.h[d] / S.real(v.scale)) for d in range(dim)]
    def boxs(rng, v, i): return rng.randint(0, 2) if i % (2 * dim) < dim else rng.randint(1, 4)
    P = lambda: [Int("n", (0, 3)), InI("b", 2 * dim, lambda rng, v, i: rng.randint(0, 1) if i < dim else rng.randint(1, 3)), InI("pb", n(2 * dim), boxs), In("h", dim, (.2, 1)), In("ce", n(dim)), Real("dp", (.1, 1)), Int("scale", (1, 3)),
        Pred("inside", dim + 1), InI("nf", lambda v: v.n, (0, 5), lo=0), InI("sz", lambda v: v.n, (0, 4), lo=0), Jag("sp", lambda v: v.n, "sz", "i" * dim + "f" * dim), Jag("rv", lambda v: v.n, "sz", "f" * dim),
        InI("onb", lambda v: v.n, (0, 9), lo=0), InI("onum", lambda v: v.n, (0, 9), lo=0), Int("k", (0, 3)), OutI("ns", lambda v: v.n), Out("rs", n(2 * dim)), OutI("nr", lambda v: v.n), Out("rr", n(dim)), OutI("nb", lambda v: v.n), OutI("num", lambda v: v.n), OutI("bad", 7)]
    def ens(v):
        yield "the lists asked for are those of each particle over the part of its box in this process; two sums over the processes; one entry per particle", S.land(*[S.eq(v.bad[i], 0) for i in range(7)])
        yield "number of nodes inside the particles on this process", S.eq(v.ret, S.isum(0, v.n, lambda i: S.ite(meet(v, i), v.nf(i), 0)))
        for (i,) in v.all((0, v.n)):
            yield "as many surface points as the list of the particle, none where it is not met", S.eq(v.ns(i), S.ite(meet(v, i), v.sz(i), 0))
            yield "as many radial vectors", S.eq(v.nr(i), S.ite(meet(v, i), v.sz(i), 0))
            for _ in v.given(meet(v, i), S.lt(v.k, v.sz(i))):
                for d in range(dim):
                    yield "surface point k: cell %d" % d, S.eq(v.rs(2 * dim * i + d), S.real(v.sp(i, v.k, d)))
                    yield "surface point k: offset %d" % d, S.eq(v.rs(2 * dim * i + dim + d), v.sp(i, v.k, dim + d))
                    yield "radial vector k: component %d" % d, S.eq(v.rr(dim * i + d), v.rv(i, v.k, d))
            yield "number of surface points over all processes", S.eq(v.nb(i), S.ite(meet(v, i), v.sz(i), 0) + v.onb(i))
            sub = over(v, i, lambda p, q: S.ind(v.inside(S.real(i), *X(v, p, q))))
            yield "number of sub-points inside the particle over all processes", S.eq(v.num(i), S.ite(meet(v, i), sub, 0) + v.onum(i))
    CONTRACTS.append(Contract("set_materials<%dD>" % dim, "materials_%d" % dim, P(), ens,
        lambda v: [S.le(0, v.n), S.le(0, v.k), S.le(1, v.scale)] + [S.lt(c(0), x) for x in v.h] + [S.lt(v.b[d], v.b[dim + d]) for d in range(dim)], ret="I", harness="C17s", samples=80,
        functions="set_materials, kernel_num_count, algorithm::iterate, geometry::intersect, box_inside"))
for dim in (2, 3): mk(dim); mkall(dim)
