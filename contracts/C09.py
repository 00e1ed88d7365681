from vc.contract import *
from contracts.C08 import UnitIn, ZIn, rotspec, dot
import itertools
HARNESS = "C09"; VECMODEL = True
CONTRACTS = []
L = lambda a, n: [a[i] for i in range(n)]
sq = lambda x: x * x
add = lambda l: sum(l[1:], l[0])
def disc(dim):
    def ens(v):
        d2 = add([sq(v.p[d] - v.c[d]) for d in range(dim)])
        for k in (0, 1):
            for _ in v.given(S.eq(v.turned, k)): yield "inside exactly when the distance to the centre is less than the radius", S.iff(v.ret, S.lt(d2, v.r * v.r))
    q = (ZIn if dim == 2 else UnitIn)("q", 4)
    CONTRACTS.append(Contract("%s contains" % ("circle" if dim == 2 else "sphere"), "circle_in" if dim == 2 else "sphere_in", [In("c", dim), Real("r", (.2, 3)), q, Int("turned", (0, 1)), In("p", dim)], ens,
        lambda v: [S.lt(c(0), v.r), S.le(0, v.turned), S.le(v.turned, 1)] + [S.eq(dot(v.q, v.q), c(1))] + ([S.eq(v.q[0], c(0)), S.eq(v.q[1], c(0))] if dim == 2 else []), ret="B", functions="super_ellipsoid::contains, implicit, circle, sphere, quaternion::rotate, conj"))
disc(2); disc(3)
class Rot(UnitIn):
    """unit quaternion (about z in the plane), or zero: not turned"""
    def __init__(s, dim): Arr.__init__(s, "q", 4, "R", "in", (-1, 1)); s.dim = dim
    def gen(s, rng, v):
        if rng.random() < .3: v.q = [0.] * 4
        elif s.dim == 2: a = rng.uniform(-4, 4); v.q = [0., 0., math.sin(a), math.cos(a)]
        else: UnitIn.gen(s, rng, v)
def turned(v): return S.lnot(S.land(*[S.eq(v.q[i], c(0)) for i in range(4)]))
def unit(dim): return lambda v: [S.lor(S.land(*[S.eq(v.q[i], c(0)) for i in range(4)]), S.eq(dot(v.q, v.q), c(1)))] + ([S.eq(v.q[0], c(0)), S.eq(v.q[1], c(0))] if dim == 2 else [])
def conj(q): return [-q[0], -q[1], -q[2], q[3]]
def back(v, dim):
    p = [v.p[d] - v.c[d] for d in range(dim)] + ([c(0)] if dim == 2 else [])
    return rotspec(conj(L(v.q, 4)), p)[:dim]
def ell(dim, maker):
    def ens(v):
        for m, rot in ((S.lnot(turned(v)), False), (turned(v), True)):
            x = back(v, dim) if rot else [v.p[d] - v.c[d] for d in range(dim)]
            t_ = [S.abs(x[d] / v.a[d]) for d in range(dim)]
            if dim == 2: f = S.pow(t_[0], v.n) + S.pow(t_[1], v.n)
            else: f = S.pow(S.pow(t_[0], v.e) + S.pow(t_[1], v.e), v.n / v.e) + S.pow(t_[2], v.n)
            for _ in v.given(m): yield "inside exactly when the point %sis inside the equation of the shape" % ("turned back " if rot else ""), S.iff(v.ret, S.lt(f, c(1)))
    CONTRACTS.append(Contract("%s%dD contains" % ("make_ellipsoid " if maker else "super_ellipsoid ", dim), ("maker%d_in" if maker else "ell%d_in") % dim, [In("c", dim), In("a", dim, (.3, 2)), Real("n", (1, 6))] + ([Real("e", (1, 6))] if dim == 3 else []) + [Rot(dim), In("p", dim)], ens,
        lambda v: [S.lt(c(0), x) for x in L(v.a, dim)] + [S.lt(c(0), v.n)] + ([S.lt(c(0), v.e)] if dim == 3 else []) + unit(dim)(v), ret="B", functions="super_ellipsoid::contains, implicit" + (", make_ellipsoid" if maker else "")))
for dim in (2, 3):
    for maker in (False, True): ell(dim, maker)
def box(dim, kind):
    def ens(v):
        a = [v.r] * dim if kind else L(v.a, dim)
        for d in range(dim):
            lo, hi = v.o[d], v.o[dim + d]
            i = v.i[d]; x = S.real(i) * v.h[d]
            for _ in v.given(S.lt(lo, x), S.lt(x, hi)):
                yield "a grid node in the box is between the bounds of the grid box, direction %d" % d, S.land(S.le(v.ob[d], i), S.lt(i, v.ob[dim + d]))
            for _ in v.given(S.lnot(turned(v))) if not kind else (0,):
                yield "the box of a shape that is not turned is the tightest, direction %d" % d, S.land(S.eq(lo, v.c[d] - a[d]), S.eq(hi, v.c[d] + a[d]))
        if kind: return
        # a point of the shape: centre plus the turned local point y, |y_d| <= a_d
        y = L(v.y, dim)
        R = [rotspec(L(v.q, 4), [c(1) if e == d else c(0) for e in range(3)])[:dim] for d in range(dim)]     # R[e][d]: component d of the image of e_e
        for d in range(dim):
            for sg in itertools.product((False, True), repeat=dim):
                hyp = [turned(v)] + [S.le(c(0), R[e][d]) if sg[e] else S.le(R[e][d], c(0)) for e in range(dim)]
                for _ in v.given(*hyp):
                    ext = [R[e][d] * a[e] if sg[e] else -(R[e][d] * a[e]) for e in range(dim)]
                    for e in range(dim): yield "lemma: extent of axis %d along direction %d" % (e, d), S.land(S.le(R[e][d] * y[e], ext[e]), S.le(-(R[e][d] * y[e]), ext[e]))
                    yield "the box of a turned shape reaches the corner of the local box, direction %d" % d, S.land(S.le(v.o[d], v.c[d] - add(ext)), S.le(v.c[d] + add(ext), v.o[dim + d]))
    if kind: P = [In("c", dim), Real("r", (.2, 3))]
    else: P = [In("c", dim), In("a", dim, (.3, 2)), Real("n", (1, 6))] + ([Real("e", (1, 6))] if dim == 3 else []) + [Rot(dim)]
    P += [In("h", dim, (.1, 1)), Out("o", 2 * dim), OutI("ob", 2 * dim), GhostArr("y", dim, "R", (-.3, .3)), GhostArr("i", dim, "I", (-20, 20))]
    req = lambda v: [S.lt(c(0), x) for x in L(v.h, dim)] + ([S.lt(c(0), v.r)] if kind else [S.lt(c(0), x) for x in L(v.a, dim)] + [S.lt(c(0), v.n)] + ([S.lt(c(0), v.e)] if dim == 3 else []) + unit(dim)(v) + [S.land(S.le(-v.a[d], v.y[d]), S.le(v.y[d], v.a[d])) for d in range(dim)])
    CONTRACTS.append(Contract("%s bounding_box" % (("circle" if dim == 2 else "sphere") if kind else "super_ellipsoid %dD" % dim), (("circle_box" if dim == 2 else "sphere_box") if kind else "box%d" % dim), P, ens, req, functions="super_ellipsoid::bounding_box, box::get_box_points, quaternion::rotate, is_rotate"))
for dim in (2, 3):
    for kind in (False, True): box(dim, kind)
