from vc.contract import *
HARNESS = "C08"
CONTRACTS = []
dot = lambda a, b: sum((a[i] * b[i] for i in range(1, len(a))), a[0] * b[0])
cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
L = lambda o, n: [o[i] for i in range(n)]
unit = lambda n: (lambda v: [S.eq(dot(getattr(v, n), getattr(v, n)), c(1))])
def gunit(k):
    def g(rng, v, i): raise NotImplementedError
    return g
class UnitIn(Arr):
    """unit vector of n reals"""
    def gen(s, rng, v):
        a = [rng.gauss(0, 1) for _ in range(s.n)]
        if rng.random() < 0.2: a = [0.] * s.n; a[rng.randrange(s.n)] = rng.choice([-1., 1.])
        if s.n == 4 and s.name == "z": a[0] = a[1] = 0.
        n = math.sqrt(sum(x * x for x in a)); setattr(v, s.name, [x / n for x in a])
class ZIn(UnitIn):
    """unit quaternion about the z axis"""
    def gen(s, rng, v):
        UnitIn.gen(s, rng, v); a = getattr(v, s.name); n = math.hypot(a[2], a[3]) or 1.
        setattr(v, s.name, [0., 0., a[2] / n if math.hypot(a[2], a[3]) else 1., a[3] / n])
def ea(v):
    h = v.angle / c(2); s, co = S.sin(h), S.cos(h)
    for i in range(3): yield "component %d is sin(angle/2) axis" % i, S.eq(v.o[i], s * v.a[i])
    yield "real part is cos(angle/2)", S.eq(v.o[3], co)
    o = L(v.o, 4); yield "unit norm", S.eq(dot(o, o), c(1))
CONTRACTS.append(Contract("quaternion(angle, unit axis)", "from_axis", [Real("angle", (-7, 7)), UnitIn("a", 3), Out("o", 4)], ea, unit("a"), functions="quaternion(double, vector), normalize"))
def eng(v):
    h = v.angle / c(2)
    for i, w in enumerate([c(0), c(0), S.sin(h), S.cos(h)]): yield "component %d" % i, S.eq(v.o[i], w)
CONTRACTS.append(Contract("quaternion(angle)", "from_angle", [Real("angle", (-7, 7)), Out("o", 4)], eng, functions="quaternion(double)"))
def en(v):
    o = L(v.o, 4); n2 = dot(v.c, v.c)
    yield "unit norm", S.eq(dot(o, o), c(1))
    n = S.sqrt(n2)
    for i in range(4): yield "component %d parallel, same direction" % i, S.eq(o[i] * n, v.c[i])
CONTRACTS.append(Contract("normalize", "norml", [In("c", 4), Out("o", 4)], en, lambda v: [S.lt(c(0), dot(v.c, v.c))], functions="quaternion::normalize"))
def ec(v):
    for i in range(4):
        yield "conjugate component %d" % i, S.eq(v.o[i], -v.c[i] if i < 3 else v.c[i])
        yield "unchanged %d" % i, S.eq(v.c1[i], v.c[i])
CONTRACTS.append(Contract("conj", "conjg", [In("c", 4), Out("o", 4), Out("c1", 4)], ec, functions="quaternion::conj"))
def rotspec(q, p):
    "p + 2 w (u x p) + 2 u x (u x p), for a unit quaternion (u, w)"
    u, w = q[:3], q[3]; a = cross(u, p); b = cross(u, a)
    return [p[i] + c(2) * w * a[i] + c(2) * b[i] for i in range(3)]
def e3(v):
    q, p, o = L(v.c, 4), L(v.p, 3), L(v.o, 3)
    w = rotspec(q, p)
    for i in range(3): yield "rotation formula, component %d" % i, S.eq(o[i], w[i])
    yield "length preserved", S.eq(dot(o, o), dot(p, p))
    # lemma on the (proved) formula: dot products and orientation
    w2 = rotspec(q, L(v.p2, 3)); w3 = rotspec(q, L(v.p3, 3))
    yield "dot products preserved", S.eq(dot(w, w2), dot(p, L(v.p2, 3)))
CONTRACTS.append(Contract("rotate 3D", "rot3", [UnitIn("c", 4), In("p", 3), Out("o", 3), GhostArr("p2", 3), GhostArr("p3", 3)], e3, unit("c"), functions="quaternion::rotate(position<double,3>)"))
def eo(v):
    # orientation: columns of the matrix are a direct basis
    q = L(v.c, 4); e = [[c(1), c(0), c(0)], [c(0), c(1), c(0)], [c(0), c(0), c(1)]]
    R = [rotspec(q, x) for x in e]; x = cross(R[0], R[1])
    for i in range(3): yield "orientation preserved %d" % i, S.eq(x[i], R[2][i])
    o = L(v.o, 3)
    for i in range(3): yield "linear, component %d" % i, S.eq(o[i], sum((v.p[k] * R[k][i] for k in (1, 2)), v.p[0] * R[0][i]))
CONTRACTS.append(Contract("rotate 3D, orientation and linearity", "rot3", [UnitIn("c", 4), In("p", 3), Out("o", 3)], eo, unit("c"), functions="quaternion::rotate(position<double,3>)"))
zq = lambda n: (lambda v: [S.eq(v.c[0], c(0)), S.eq(v.c[1], c(0)), S.eq(v.c[2] * v.c[2] + v.c[3] * v.c[3], c(1))])
def e2(v):
    z, w = v.c[2], v.c[3]; co = w * w - z * z; si = c(2) * z * w
    yield "x: plane rotation", S.eq(v.o[0], co * v.p[0] - si * v.p[1])
    yield "y: plane rotation", S.eq(v.o[1], si * v.p[0] + co * v.p[1])
    yield "length preserved", S.eq(v.o[0] * v.o[0] + v.o[1] * v.o[1], v.p[0] * v.p[0] + v.p[1] * v.p[1])
CONTRACTS.append(Contract("rotate 2D (axis z)", "rot2", [ZIn("c", 4), In("p", 2), Out("o", 2)], e2, zq("c"), functions="quaternion::rotate(position<double,2>)"))
def eb(n):
    def f(v):
        for i in range(n): yield "rotating back gives the point, component %d" % i, S.eq(v.o[i], v.p[i])
    return f
CONTRACTS.append(Contract("conj undoes rotate 3D", "rotback3", [UnitIn("c", 4), In("p", 3), Out("o", 3)], eb(3), unit("c"), functions="quaternion::rotate, conj"))
CONTRACTS.append(Contract("conj undoes rotate 2D", "rotback2", [ZIn("c", 4), In("p", 2), Out("o", 2)], eb(2), zq("c"), functions="quaternion::rotate, conj"))
CONTRACTS.append(Contract("is_rotate", "isrot", [In("c", 4, [0., 0., 0., 1., -.5])], lambda v: [("is_rotate <=> some component is non-zero", S.iff(v.ret, S.lor(*[S.ne(v.c[i], c(0)) for i in range(4)])))], ret="B", functions="quaternion::is_rotate"))
def et(v):
    a, p = L(v.a, 3), L(v.p, 3); h = v.angle / c(2); s, co = S.sin(h), S.cos(h)
    C2 = co * co - s * s; S2 = c(2) * s * co     # cos(angle), sin(angle): double-angle formulas
    k = cross(a, p); d = dot(a, p)
    for i in range(3): yield "Rodrigues formula (turns by angle about the axis), component %d" % i, S.eq(v.o[i], p[i] * C2 + k[i] * S2 + a[i] * d * (c(1) - C2))
CONTRACTS.append(Contract("rotate by angle about axis", "turn3", [Real("angle", (-7, 7)), UnitIn("a", 3), In("p", 3), Out("o", 3)], et, unit("a"), functions="quaternion(double, vector), rotate"))
def et2(v):
    h = v.angle / c(2); s, co = S.sin(h), S.cos(h); C2 = co * co - s * s; S2 = c(2) * s * co
    yield "x", S.eq(v.o[0], C2 * v.p[0] - S2 * v.p[1]); yield "y", S.eq(v.o[1], S2 * v.p[0] + C2 * v.p[1])
CONTRACTS.append(Contract("rotate by angle in the plane", "turn2", [Real("angle", (-7, 7)), In("p", 2), Out("o", 2)], et2, functions="quaternion(double), rotate"))
