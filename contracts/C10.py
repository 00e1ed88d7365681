from vc.contract import *
from contracts.C09 import Rot, L, sq, add, turned, unit, conj
from contracts.C08 import rotspec
HARNESS = "C10"; VECMODEL = True
CONTRACTS = []
def trig(apps):
    "the sine and cosine of angles between 0 and a quarter turn are positive; at 0 they are 0 and 1"
    out = []
    for nm in ("sin", "cos"):
        for x in apps.get(nm, ()): out += [t.implies(t.land(t.lt(c(0), x.args[1]), t.lt(x.args[1], c("3.14159") / 2)), t.lt(c(0), x)), t.implies(t.eq(x.args[1], c(0)), t.eq(x, c(0 if nm == "sin" else 1)))]
    return out
def powers(apps):
    "powers: positive for positive bases, 0^y = 0 and 1^y = 1, (x^a)^b = x^2 when ab = 2, x^b growing in x"
    out = []; P = list(apps.get("pow", ()))
    for p in P:
        x, a = p.args[1:]
        out += [t.implies(t.lt(c(0), x), t.lt(c(0), p)), t.implies(t.land(t.eq(x, c(0)), t.lt(c(0), a)), t.eq(p, c(0))), t.implies(t.eq(x, c(1)), t.eq(p, c(1)))]
        if x.op == "app" and x.args[0] == "pow": out.append(t.implies(t.land(t.eq(x.args[2] * a, c(2)), t.le(c(0), x.args[1])), t.eq(p, x.args[1] * x.args[1])))
        for p2 in P:
            x2, a2 = p2.args[1:]
            if p2 is not p: out.append(t.implies(t.land(t.eq(a * a2, c(1)), t.lt(c(0), a), t.le(c(0), x2), t.le(p2, x)), t.le(x2, p)))     # x2^a2 <= x  =>  x2 <= x^a
    return out
def theta(r1, r2, th, eps, K, tol):
    if th >= tol: return K / eps * math.cos(th) * math.sin(th) / math.sqrt(r1 * r1 * math.cos(th) ** (2 * eps) * math.sin(th) ** 4 + r2 * r2 * math.sin(th) ** (2 * eps) * math.cos(th) ** 4)
    return abs(K / r2 + (th ** eps if th > 0 else 0)) ** (1 / eps) - th
def angles(v, eps, K, tol, r=1., which=-1):
    """(number, i -> i-th) of the angles of the points of the first octant"""
    if S.symbolic:
        n, f = v.recs[which]
        return n, lambda i: t.app(f, (t.lift(i, "I"),), "R")
    e = 0.; l = []
    while e < math.pi / 4: l.append(e); e = math.pi / 4 if r == 0 else e + theta(r, r, e, eps, K, tol)
    return len(l), lambda i: l[i]
def sides(N, i):
    """the part of the boundary point i of the 8N-4 is on: (hypotheses, index of its angle, octant swapped?, signs)
    first quarter: the angles upwards along the first axis, then downwards along the second; the others mirror it; the first point closes the list"""
    j = i + 1
    yield [S.lt(j, N)], j, False, (1, 1)
    yield [S.le(N, j), S.lt(j, 2 * N)], 2 * N - 1 - j, True, (1, 1)
    m = j - 2 * N + 1       # 1 <= m < 2N in the second quarter: mirror of point 2N-1-m
    for q, (sg, back) in enumerate((((-1, 1), True), ((-1, -1), False), ((1, -1), True))):
        w = m - q * (2 * N - 1); hyp = [S.le(1, w), S.lt(w, 2 * N)]
        k = 2 * N - 1 - w if back else w
        yield hyp + [S.lt(k, N)], k, False, sg
        yield hyp + [S.le(N, k)], 2 * N - 1 - k, True, sg
class Rt(Rot):
    def __init__(s, dim, rot): Rot.__init__(s, dim); s.rot = rot
    def gen(s, rng, v):
        while True:
            Rot.gen(s, rng, v)
            if any(v.q) == s.rot: return
def case(v, rot): return [turned(v)] if rot else [S.eq(v.q[i], c(0)) for i in range(4)]
def p_(x, a): return x if a is None else S.pow(x, a)
def corner(u, w, n):
    """u^n + w^n = 1 for coordinates of the first quarter, relative to the semi-axes"""
    return S.eq(sq(u) + sq(w) if n is None else S.pow(u, n) + S.pow(w, n), c(1))
def points(name, entry, P, req, circ, rot):
    def ens(v):
        a = [v.r, v.r] if circ else L(v.a, 2); m = None if circ else c(2) / v.n
        N, ang = angles(v, 1. if circ else m, v.k, c("0.01") if circ else v.tol)
        yield "the number of points", S.eq(v.ret, 8 * N - 4)
        if circ:
            ex = [S.eq(ang(x), S.real(x) * v.k) for x in (0, N - 1, N)] if S.symbolic else []
            for x in ex: yield "lemma: angles are multiples of the spacing", x
            for _ in v.given(*ex): yield "as many angles, multiples of the spacing, as are below an eighth of a turn", S.land(S.lt(S.real(N - 1) * v.k, S.pi / 4), S.le(S.pi / 4, S.real(N) * v.k))
        if True:
            for hyp, k, swap, sg in sides(N, v.i):
                for _ in v.given(S.le(0, v.i), S.lt(v.i, v.ret), *hyp):
                    th = ang(k)
                    if circ: yield "angles are multiples of the spacing", S.eq(th, S.real(k) * v.k)
                    cs, sn = S.cos(th), S.sin(th)
                    u = [p_(sn if swap else cs, m), p_(cs if swap else sn, m)]
                    x = [u[d] * a[d] * sg[d] for d in (0, 1)]
                    if rot: x = rotspec(L(v.q, 4), x + [c(0)])[:2]
                    for d in (0, 1): yield "%spoint at its angle, on its side, direction %d" % ("turned " if rot else "", d), S.eq(v.o[d], v.c[d] + x[d])
                    if not rot: yield "that point is on the boundary", corner(u[0], u[1], None if circ else v.n)
    CONTRACTS.append(Contract(name + (", turned" if rot else ""), entry, P, ens, lambda v: req(v) + case(v, rot), ret="I", axioms=[trig] + ([] if circ else [powers]), recinv=lambda v, x, k: [S.eq(x, S.real(k) * v.k)] if circ else [S.le(c(0), x)], functions="super_ellipsoid::surface, uniform_sampling, theta" + (", circle, make_circle" if circ else "")))
for rot in (False, True):
  points("circle surface", "circle_pts", [In("c", 2), Real("r", (.2, 3)), Rt(2, rot), Real("k", (.02, 1.2)), Int("i", (0, 40)), Out("o", 2)], lambda v: [S.lt(c(0), v.r), S.lt(c(0), v.k)] + unit(2)(v), True, rot)
  points("super_ellipsoid 2D surface", "ell2_pts", [In("c", 2), In("a", 2, (.3, 2)), Real("n", (1, 6)), Rt(2, rot), Real("k", (.05, 1)), Real("tol", (.001, .1)), Int("i", (0, 40)), Out("o", 2)],
    lambda v: [S.lt(c(0), v.a[0]), S.lt(c(0), v.a[1]), S.lt(c(0), v.n), S.lt(c(0), v.k), S.lt(c(0), v.tol)] + unit(2)(v), False, rot)

REC = lambda v, x, k: [S.le(c(0), x)]
def slice_():
    def ens(v):
        N, ang = angles(v, v.eps, v.k, v.tol, v.phi)
        yield "the number of points", S.eq(v.ret, 8 * N - 4)
        for hyp, k, swap, sg in sides(N, v.i):
            for _ in v.given(S.le(0, v.i), S.lt(v.i, v.ret), *hyp):
                th = ang(k); cs, sn = S.cos(th), S.sin(th)
                u = [S.pow(sn if swap else cs, v.eps), S.pow(cs if swap else sn, v.eps)]
                for d in (0, 1): yield "point of the slice at its angle, on its side, direction %d" % d, S.eq(v.o[d], u[d] * v.a[d] * sg[d] * v.phi)
                yield "point of the slice at its height", S.eq(v.o[2], v.z)
                yield "that point is on the boundary of the slice", corner(u[0], u[1], c(2) / v.eps)
    CONTRACTS.append(Contract("slice of a 3D shape", "slice_pts", [In("a", 3, (.3, 2)), Real("eps", (.4, 2)), Real("k", (.05, 1)), Real("z"), Real("phi", (0, 1)), Real("tol", (.001, .1)), Int("i", (0, 40)), Out("o", 3)], ens,
        lambda v: [S.lt(c(0), v.a[0]), S.lt(c(0), v.a[1]), S.lt(c(0), v.eps), S.lt(c(0), v.k), S.lt(c(0), v.tol), S.le(c(0), v.phi)], ret="I", axioms=[trig, powers], recinv=REC, functions="uniform_sampling (3D), theta"))
slice_()
def at(dim):
    def ens(v):
        sg = lambda x: S.ite(S.lt(x, c(0)), c(-1), c(1))
        def cp(f, w, m): x = f(w); return sg(x) * S.pow(S.abs(x), m)
        n = c(2) / v.n
        if dim == 2: x = [v.a[0] * cp(S.cos, v.u(v.i), n), v.a[1] * cp(S.sin, v.u(v.i), n)]
        else:
            e = c(2) / v.e; p, w = v.u(v.i), v.v(v.i)
            x = [v.a[0] * cp(S.cos, w, n) * cp(S.cos, p, e), v.a[1] * cp(S.cos, w, n) * cp(S.sin, p, e), v.a[2] * cp(S.sin, w, n)]
        yield "as many points as angles", S.eq(v.ret, v.m)
        for d in range(dim):
            for nm, A, off in (("surface(angles)", v.o, v.c[d]), ("radial_vector(angles)", v.w, c(0)), ("at(angle)", v.at, v.c[d]), ("radial(angle)", v.rad, c(0))): yield "%s: the point of the parametric equation, direction %d" % (nm, d), S.eq(A[d], x[d] + off)
    CONTRACTS.append(Contract("super_ellipsoid %dD points at angles" % dim, "ell%d_at" % dim, [Int("m", (1, 6)), Int("i", (0, 3)), In("c", dim), In("a", dim, (.3, 2)), Real("n", (1, 6))] + ([Real("e", (1, 6))] if dim == 3 else []) + [In("u", lambda v: v.m, (-4, 4))] + ([In("v", lambda v: v.m, (-4, 4))] if dim == 3 else []) + [Out("o", dim), Out("w", dim), Out("at", dim), Out("rad", dim)], ens,
        lambda v: [S.lt(c(0), v.n), S.le(0, v.i), S.lt(v.i, v.m)] + ([S.lt(c(0), v.e)] if dim == 3 else []), ret="I", axioms=[powers], functions="super_ellipsoid::at, radial, surface, radial_vector, c, s"))
at(2); at(3)
def consts(dim):
    def ens(v):
        P = S.pi; r2 = v.r * v.r
        ref = [2 * P * v.r, P * r2, c(1) / r2, c(2) / r2] if dim == 2 else [4 * P * r2, c(4) / 3 * P * r2 * v.r, c(3) / 2 / r2, c(5) / 2 / r2]
        for d, nm in enumerate(("perimeter or area", "volume", "Cd_R: volume over mass drag factor", "Ci_R: volume over moment of inertia")): yield nm, S.eq(v.o[d], ref[d])
    CONTRACTS.append(Contract("constants of the %s" % ("circle" if dim == 2 else "sphere"), "constants%d" % dim, [In("c", dim), Real("r", (.2, 3)), Out("o", 4)], ens, lambda v: [S.lt(c(0), v.r)], functions="surface_area, volume, Cd_R, Ci_R"))
consts(2); consts(3)

def surf3(rot):
    """one iteration of the loop over the latitudes, from any of them: a slice up from the equator, one down from the pole (natively: the first iteration)"""
    def nlat(v):
        try: return angles(v, 2 / v.n, v.k[1], v.tol)[0] == 1
        except ZeroDivisionError: return False
    def ens(v):
        e, n = c(2) / v.e, c(2) / v.n
        w = v.start if S.symbolic else 0.
        blocks = []; start = 0
        for b in range(2):
            if S.symbolic: N, ang = angles(v, None, None, None, which=b)
            z = S.pow(S.cos(w), n) if b % 2 else S.pow(S.sin(w), n); phi = S.pow(S.sin(w), n) if b % 2 else S.pow(S.cos(w), n)
            if not S.symbolic: N, ang = angles(v, e, v.k[0], v.tol, phi)
            blocks.append((start, N, ang, z, phi)); start = start + 8 * N - 4
        yield "the number of points: every slice, above and below", S.eq(v.ret, 2 * start)
        for s0, N, ang, z, phi in blocks: yield "the slices are in the shape", corner(phi, z, v.n)
        for low in (False, True):
            i = v.i - start if low else v.i
            for b, (s0, N, ang, z, phi) in enumerate(blocks):
                for hyp, k, swap, sg in sides(N, i - s0):
                    if True:
                        for _ in v.given(S.le(0, v.i), S.lt(v.i, v.ret), S.le(s0, i), S.lt(i, s0 + 8 * N - 4), *hyp):
                            th = ang(k); cs, sn = S.cos(th), S.sin(th)
                            u = [S.pow(sn if swap else cs, e), S.pow(cs if swap else sn, e)]
                            x = [u[d] * v.a[d] * sg[d] * phi for d in (0, 1)] + [v.a[2] * (-z if low else z)]
                            if rot: x = rotspec(L(v.q, 4), x)
                            for d in range(3): yield "%spoint of slice %d at its angle, on its side, %s the equator, direction %d" % ("turned " if rot else "", b, "below" if low else "above", d), S.eq(v.o[d], v.c[d] + x[d])
                            if not rot and not low: yield "that point is on the boundary of the slice", corner(u[0], u[1], v.e)
    CONTRACTS.append(Contract("super_ellipsoid 3D surface, any latitudes" + (", turned" if rot else ""), "ell3_pts", [In("c", 3), In("a", 3, (.3, 2)), Real("n", (1, 6)), Real("e", (1, 6)), Rt(3, rot), In("k", 2, (.1, 1.5)), Real("tol", (.001, .1)), Int("i", (0, 40)), Out("o", 3)], ens,
        lambda v: [S.lt(c(0), x) for x in L(v.a, 3) + [v.n, v.e, v.k[0], v.k[1], v.tol]] + unit(3)(v) + case(v, rot) + ([] if S.symbolic else [nlat(v)]), ret="I", axioms=[trig, powers], recinv=REC, unroll=("super_ellipsoid<double, 3ul>::surface", 1, lambda v, x: [S.le(c(0), x)]), functions="super_ellipsoid::surface (3D), uniform_sampling (3D), theta",
        note="bounded: one iteration of the loop over the latitudes, at an arbitrary latitude that satisfies its invariant, on an empty list"))
surf3(False); surf3(True)
def theta_():
    def ens(v):
        cs, sn = S.cos(v.th), S.sin(v.th); m = c(2) * v.eps
        for _ in v.given(S.le(v.tol, v.th)):
            # speed of (r1 cos^eps, r2 sin^eps), times cos sin / eps
            w = S.sqrt(v.r1 * v.r1 * S.pow(cs, m) * sn * sn * sn * sn + v.r2 * v.r2 * S.pow(sn, m) * cs * cs * cs * cs)
            yield "a step moves the point by the spacing, to first order", S.eq(v.ret * v.eps * w, v.K * cs * sn)
        for _ in v.given(S.eq(v.th, c(0))): yield "the first step moves the point by the spacing along the second axis", S.eq(v.ret, S.pow(v.K / v.r2, c(1) / v.eps))
        for _ in v.given(S.lt(c(0), v.th), S.lt(v.th, v.tol)): yield "a step close to the axis moves the point by the spacing along the second axis", S.eq(v.th + v.ret, S.pow(v.K / v.r2 + S.pow(v.th, v.eps), c(1) / v.eps))
    CONTRACTS.append(Contract("step of the parameter", "theta_step", [Real("r1", (.3, 2)), Real("r2", (.3, 2)), Real("th", (0, 1.5)), Real("eps", (.4, 2)), Real("K", (.05, 1)), Real("tol", (.001, .1))], ens,
        lambda v: [S.lt(c(0), x) for x in (v.r1, v.r2, v.eps, v.K, v.tol)] + [S.le(c(0), v.th), S.lt(v.th, c("1.57"))], ret="R", axioms=[trig, powers], functions="theta"))
theta_()
