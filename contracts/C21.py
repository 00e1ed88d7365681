from vc.contract import *
import re
HARNESS = "C21"
CONTRACTS = []
def quiet(E, ctx):
    # printing has no effect on the computation
    E.hpat.append((re.compile(r"[^(]*operator<<"), lambda E, st, args, n: args[0]))
dot = lambda a, b: sum((x * y for x, y in zip(a, b)), c(0))
class Unit(Arr):
    """a unit vector"""
    def __init__(s, name, n): Arr.__init__(s, name, n)
    def gen(s, rng, v):
        while True:
            a = [rng.choice([0., 1., -1.]) for _ in range(s.n)] if rng.random() < .3 else [rng.uniform(-1, 1) for _ in range(s.n)]
            l = math.sqrt(sum(x * x for x in a))
            if l > .1: setattr(v, s.name, [x / l for x in a]); return
import math
def P(dim):
    return [In("c1", dim, (0, 1.2)), In("v1", dim, [0., 1., -.5, .3]), Real("r1", (.2, 1)), Real("L", (.4, 3)), Unit("n", dim), In("v2", dim, [0., 1., -.7, .2]), Real("r2", (.2, 1)), Real("h", (.01, .1))]
def req(v):
    # two disjoint particles closer than the distance under which a singularity is set up
    return [S.eq(dot(v.n, v.n), c(1)), S.lt(c(0), v.L), S.lt(c(0), v.r1), S.lt(c(0), v.r2), S.lt(c(0), v.h), S.lt(v.r1 + v.r2, v.L), S.lt(v.L, v.r1 + v.r2 + c(1))]
def mk(dim):
    N = 2 * dim - 4
    def ens(v):
        b = [[v.b[i * dim + d] for d in range(dim)] for i in range(dim)]
        n = v.n; w = [v.v2[d] - v.v1[d] for d in range(dim)]
        for d in range(dim): yield "normal axis: unit vector from the first centre to the second, component %d" % d, S.eq(b[N][d], n[d])
        for i in range(dim):
            for j in range(i, dim): yield "axes %d and %d orthonormal" % (i, j), S.eq(dot(b[i], b[j]), c(int(i == j)))
        if dim == 2: yield "direct frame", S.eq(b[0][0] * b[1][1] - b[0][1] * b[1][0], c(1))
        else:
            for d in range(3):
                e, f = (d + 1) % 3, (d + 2) % 3
                yield "direct frame, component %d" % d, S.eq(b[2][e] * b[0][f] - b[2][f] * b[0][e], b[1][d])
        for d in range(dim): yield "origin: point of the first particle facing the second, component %d" % d, S.eq(v.o[d], v.c1[d] + v.r1 * n[d])
        for i in range(dim): yield "velocity of the second relative to the first along axis %d" % i, S.eq(v.vs[i], dot(w, b[i]))
        yield "normal part", S.eq(v.s[0], dot(w, n))
        yield "tangential part", S.eq(v.s[1], dot(w, b[1 if dim == 2 else 0]))
        if dim == 3:
            lab = "no relative velocity along the third axis"; wn = dot(w, n); par = S.eq(wn * wn, dot(w, w))
            for _ in v.given(S.lnot(par)): yield lab, S.eq(dot(w, b[1]), c(0))
            for _ in v.given(par):
                sq = S.eq(dot([w[d] - wn * n[d] for d in range(3)], [w[d] - wn * n[d] for d in range(3)]), c(0))
                yield "relative velocity along the normal: nothing else remains", sq
                for _ in v.given(sq):
                    al = [S.eq(w[d], wn * n[d]) for d in range(3)]
                    for _ in v.only(sq):
                        for d in range(3): yield "relative velocity along the normal, component %d" % d, al[d]
                    yield lab, S.eq(dot(al and [wn * n[d] for d in range(3)], b[1]), c(0))
        yield "gap", S.eq(v.s[2], v.L - v.r1 - v.r2)
        yield "curvatures", S.land(S.eq(v.s[3] * v.r1, c(1)), S.eq(v.s[4] * v.r2, c(1)))
        yield "width of the truncation", S.eq(v.s[6] * c(2), v.s[5] * v.s[5])
        yield "singular", S.eq(v.s[7], c(1))
    CONTRACTS.append(Contract("singularity<%dD>: frame" % dim, "frame%d" % dim, P(dim) + [Out("b", dim * dim), Out("o", dim), Out("vs", dim), Out("s", 8)], ens, req,
        functions="singularity::singularity, construct_base, position_diff, velocity_diff, distance, cross_product, circle/sphere and super_ellipsoid constructors", handlers=quiet, samples=200, merge=(dim == 2)))
for dim in (2, 3): mk(dim)

class Ortho(Arr):
    """an orthogonal matrix, rows first"""
    def __init__(s, name, dim): Arr.__init__(s, name, dim * dim); s.dim = dim
    def gen(s, rng, v):
        while True:
            R = []
            for _ in range(s.dim):
                a = [rng.uniform(-1, 1) for _ in range(s.dim)]
                for r in R:
                    k = sum(x * y for x, y in zip(a, r)); a = [x - k * y for x, y in zip(a, r)]
                l = math.sqrt(sum(x * x for x in a))
                if l < .1: break
                R.append([x / l for x in a])
            if len(R) == s.dim: setattr(v, s.name, [x for r in R for x in r]); return
def ortho(v, dim):
    b = [[v.b[i * dim + d] for d in range(dim)] for i in range(dim)]
    return [S.eq(dot(b[i], b[j]), c(int(i == j))) for i in range(dim) for j in range(i, dim)] + [S.eq(dot([b[k][i] for k in range(dim)], [b[k][j] for k in range(dim)]), c(int(i == j))) for i in range(dim) for j in range(i, dim)]
def maps(dim):
    def ens(v):
        b = [[v.b[i * dim + d] for d in range(dim)] for i in range(dim)]
        x = [v.p[d] - v.o[d] for d in range(dim)]
        for i in range(dim): yield "coordinate %d in the frame" % i, S.eq(v.inn[i], dot(b[i], x))
        for d in range(dim): yield "coordinate %d from the frame" % d, S.eq(v.out[d], v.o[d] + dot([b[i][d] for i in range(dim)], v.p))
        for d in range(dim): yield "inverse of each other, coordinate %d" % d, S.eq(v.back[d], v.p[d])
        yield "isometry", S.eq(dot([v.inn[i] for i in range(dim)], [v.inn[i] for i in range(dim)]), dot(x, x))
    CONTRACTS.append(Contract("singularity<%dD>: maps" % dim, "maps%d" % dim, [Ortho("b", dim), In("o", dim), In("p", dim), Out("inn", dim), Out("out", dim), Out("back", dim)], ens, lambda v: ortho(v, dim),
        functions="singularity::get_pos_in_part_ref, get_pos_from_part_ref", handlers=quiet, samples=100))
def apex(dim):
    N = 2 * dim - 4
    def ens(v):
        for d in range(dim):
            k = c(int(d == N))
            yield "on the first particle: its velocity along the axis less the mean of both, component %d" % d, S.eq(v.u1[d], c(-1) / c(2) * v.U * k)
            yield "on the second particle: its velocity along the axis less the mean of both, component %d" % d, S.eq(v.u2[d], c(1) / c(2) * v.U * k)
    CONTRACTS.append(Contract("singularity<%dD>: velocity at the facing points" % dim, "apex%d" % dim, [Real(x, (.4, 1.5)) for x in "HMaUP"] + [Out("u1", dim), Out("u2", dim)], ens,
        lambda v: [S.lt(c(0), v.H), S.lt(c(0), v.M), S.lt(c(0), v.a), S.lt(c(0), v.P)],
        functions="singularity::get_u_sing_ref, u*_sing_normalMvt", handlers=quiet, samples=50))
KIND = re.compile(r"\d+((?:d[xyz])?u[xyz]_sing_normalMvt\dD|p_sing_withT_normalMvt\dD)")
NAT = {}
def opaque(E, ctx):
    # the analytic fields by name (their contracts are in C23)
    quiet(E, ctx)
    class _f: k = "f"; size = 8; w = 64
    def h(E, st, args, n):
        k = KIND.search(n).group(1); dim = int(k[-2])
        # position2d is passed by value: two doubles or a pointer to the object
        a = list(args)
        if isinstance(a[0], ex.Ptr):
            p = a.pop(0); X = [E.real(st, E.load(st, ex.Ptr(p.r, p.off + 8 * d, p.idx), _f)) for d in range(dim)]
        else: X = [E.real(st, a.pop(0)) for d in range(dim)]
        return t.app(k, [E.sol.norm(x) for x in X] + [E.real(st, x) for x in a[:6]], "R")
    E.hpat.append((re.compile(r"^cafes::singularity::((d[xyz])?u[xyz]_sing_normalMvt|p_sing_withT_normalMvt)"), h))
def field(dim):
    un = ["ux", "uz"] if dim == 2 else ["ux", "uy", "uz"]; xs = ["x", "z"] if dim == 2 else ["x", "y", "z"]
    def ens(v):
        b = [[v.b[i * dim + d] for d in range(dim)] for i in range(dim)]
        if S.symbolic:
            X = [dot(b[i], [v.p[d] - v.o[d] for d in range(dim)]) for i in range(dim)]
            F = lambda k: t.app(k + "_%dD" % dim if 0 else k, X + [v.H, v.M, v.a, v.U, v.P, v.P], "R")
            u = [F("%s_sing_normalMvt%dD" % (n, dim)) for n in un]; G = [[F("d%s%s_sing_normalMvt%dD" % (y, n, dim)) for y in xs] for n in un]
            for i in range(dim): yield "velocity turned to the global frame, component %d" % i, S.eq(v.u[i], sum((b[m][i] * u[m] for m in range(dim)), c(0)))
            for i in range(dim): yield "velocity in the frame, component %d" % i, S.eq(v.u[dim + i], u[i])
            for i in range(dim):
                for j in range(dim): yield "gradient turned to the global frame, d%d of component %d" % (j, i), S.eq(v.g[i * dim + j], sum((b[m][i] * b[n][j] * G[m][n] for m in range(dim) for n in range(dim)), c(0)))
            yield "pressure", S.eq(v.pr[0], F("p_sing_withT_normalMvt%dD" % dim))
        else:
            for i in range(dim): yield "velocity turned to the global frame, component %d" % i, S.eq(v.u[i], sum(b[m][i] * v.u[dim + m] for m in range(dim)))
            sc = sum(abs(v.g[k]) for k in range(dim * dim)) + 1
            for i in range(dim):
                for j in range(dim): yield "gradient turned to the global frame, d%d of component %d" % (j, i), abs(v.g[i * dim + j] - v.g[dim * dim + i * dim + j]) <= 1e-4 * sc
    CONTRACTS.append(Contract("singularity<%dD>: field" % dim, "field%d" % dim, [Ortho("b", dim), In("o", dim, (-.2, .2))] + [Real(x, (.4, 1.5)) for x in "HMaUP"] + [In("p", dim, (-.4, .4)), Out("u", 2 * dim), Out("g", 2 * dim * dim), Out("pr", 1)], ens,
        lambda v: ortho(v, dim) + [S.lt(c(0), v.H), S.lt(c(0), v.M), S.lt(c(0), v.a), S.lt(c(0), v.P)], functions="singularity::get_u_sing, get_u_sing_ref, get_grad_u_sing, get_grad_u_sing_ref, get_p_sing, get_pos_in_part_ref", handlers=opaque, samples=100))
for dim in (2, 3): maps(dim); apex(dim); field(dim)

def box(dim):
    N = 2 * dim - 4; T = [i for i in range(dim) if i != N]
    class Q(Arr):
        """mostly at the rim of the region"""
        def gen(s, rng, v):
            r = v.C * rng.choice([1, 1, rng.random()]) * .999999; w = rng.uniform(-math.pi, math.pi) if dim == 3 else rng.choice([0, math.pi]); x = [r * math.cos(w), r * math.sin(w)]
            l = math.sqrt(v.r1 ** 2 - r * r) - v.r1; u = v.a + v.r2 - math.sqrt(v.r2 ** 2 - r * r); n = rng.choice([l + 1e-9, u - 1e-9, rng.uniform(l, u)])
            v.q = [n, x[0]] if dim == 2 else [x[0], x[1], n]
    def ens(v):
        b = lambda i, d: v.b[i * dim + d]
        q = v.q; C = v.C
        cs = lambda r: r * S.sqrt(c(1) - C / r * (C / r))
        lo_n = -v.r1 + cs(v.r1); hi_n = v.a + v.r2 - cs(v.r2)
        ext = {N: (lo_n, hi_n)}; ext.update({i: (-C, C) for i in T})
        # a point between the particles, in neither, within the cut-off distance of the axis
        qt = dot([q[i] for i in T], [q[i] for i in T]); n1 = q[N] + v.r1; n2 = v.a + v.r2 - q[N]
        reg = [S.le(c(0), n1), S.le(c(0), n2), S.le(v.r1 * v.r1, n1 * n1 + qt), S.le(v.r2 * v.r2, n2 * n2 + qt), S.le(qt, C * C)]
        pos = [S.lt(c(0), v.r1), S.lt(c(0), v.r2), S.lt(c(0), C), S.le(C, v.r1), S.le(C, v.r2)]
        if not S.symbolic:
            # a point of the region: in the box
            for _ in v.given(*reg):
                for d in range(dim):
                    p = v.o[d] + sum(b(i, d) * q[i] for i in range(dim))
                    yield "every point of the region is in the box, direction %d" % d, S.land(S.le(v.lo[d] * v.h[d], p), S.le(p, v.hi[d] * v.h[d]))
            return
        for _ in v.given(*reg):
            inside = []
            for i in T:
                for lab, g in (("lower", S.le(-C, q[i])), ("upper", S.le(q[i], C))):
                    for _ in v.only(S.lt(c(0), C), reg[4]): yield "a point of the region is within the cut-off along axis %d, %s" % (i, lab), g
                    inside.append(g)
            for lab, n, r, k, g in (("first", n1, v.r1, 2, S.le(lo_n, q[N])), ("second", n2, v.r2, 3, S.le(q[N], hi_n))):
                sq = S.le(cs(r) * cs(r), n * n)
                py = S.eq(cs(r) * cs(r), r * r - C * C)
                w = c(1) - C / r * (C / r); rt = S.eq(S.sqrt(w) * S.sqrt(w), w); w0 = S.le(c(0), w)
                yield "the cut-off is at most the %s radius" % lab, w0
                for _ in v.given(w0):
                    for _ in v.only(w0): yield "square of the %s cosine" % lab, rt
                for _ in v.given(rt):
                    for _ in v.only(rt, S.lt(c(0), r)): yield "distance of the %s surface at the cut-off" % lab, py
                for _ in v.given(py): yield "a point of the region is as far from the %s centre as its surface at the cut-off, squared" % lab, sq
                nn = S.le(c(0), cs(r))
                yield "%s surface at the cut-off" % lab, nn
                for _ in v.given(sq, nn):
                    for _ in v.only(sq, nn, reg[k - 2]): yield "a point of the region is beyond the %s surface at the cut-off" % lab, S.le(cs(r), n)
                inside.append(g)
            for _ in v.given(*inside):
                for d in range(dim):
                    p = v.o[d]
                    for i in range(dim): p = p + b(i, d) * q[i]
                    for sg in itertools.product((0, 1), repeat=dim):
                        sgn = [S.le(c(0), b(i, d)) if s_ else S.le(b(i, d), c(0)) for i, s_ in enumerate(sg)]
                        for _ in v.given(*sgn):
                            x = [v.o[d], v.o[d]]
                            for i in range(dim):
                                for e in (0, 1): x[e] = x[e] + b(i, d) * ext[i][e if sg[i] else 1 - e]
                            cor = [S.le(S.real(v.lo[d]) * v.h[d], x[0]), S.le(x[1], S.real(v.hi[d]) * v.h[d])]
                            mono = []
                            for i in range(dim):
                                g = [S.le(b(i, d) * ext[i][0 if sg[i] else 1], b(i, d) * q[i]), S.le(b(i, d) * q[i], b(i, d) * ext[i][1 if sg[i] else 0])]
                                k = [h for h in inside + sgn]
                                for e in (0, 1):
                                    for _ in v.only(*k): yield "a point of the region is on the right side of the corners %s along axis %d, direction %d, side %d" % ("".join(map(str, sg)), i, d, e), g[e]
                                mono += g
                            for e, lab in ((0, "below"), (1, "above")):
                                yield "extreme corner %s, direction %d, %s" % ("".join(map(str, sg)), d, lab), cor[e]
                                for _ in v.given(cor[e], *mono):
                                    for _ in v.only(cor[e], *mono): yield "every point of the region is in the box, signs %s, direction %d, %s" % ("".join(map(str, sg)), d, lab), S.le(S.real(v.lo[d]) * v.h[d], p) if e == 0 else S.le(p, S.real(v.hi[d]) * v.h[d])
    CONTRACTS.append(Contract("singularity<%dD>: box" % dim, "box%d" % dim, [Ortho("b", dim), In("o", dim), Real("r1", (.3, 1)), Real("r2", (.3, 1)), Real("a", (0, .3)), Real("C", (.05, .3)), In("h", dim, (.01, .1)), Q("q", dim), OutI("lo", dim), OutI("hi", dim)], ens,
        lambda v: ortho(v, dim) + [S.lt(c(0), v.r1), S.lt(c(0), v.r2), S.le(c(0), v.a), S.lt(c(0), v.C), S.le(v.C, v.r1), S.le(v.C, v.r2)] + [S.lt(c(0), v.h[d]) for d in range(dim)],
        functions="singularity::get_box", handlers=quiet, samples=200))
import itertools
for dim in (2, 3): box(dim)
