from vc.contract import *
HARNESS = "C07"
FN = "cafes::geometry::cross_product"
CONTRACTS = []
dot = lambda a, b: sum((a[i] * b[i] for i in range(1, len(a))), a[0] * b[0])
def e3(v):
    a, b, r = v.a, v.b, [v.o[i] for i in range(3)]
    w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    for i in range(3): yield "component %d" % i, S.eq(r[i], w[i])
    yield "orthogonal to the first factor", S.eq(dot(r, a), c(0))
    yield "orthogonal to the second factor", S.eq(dot(r, b), c(0))
    yield "Lagrange identity", S.eq(dot(r, r), dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b))
    for i in range(3):
        yield "first operand unchanged", S.eq(v.ab[i], a[i]); yield "second operand unchanged", S.eq(v.ab[3 + i], b[i])
for n in ("p", "v"):
    CONTRACTS.append(Contract("cross_product 3D (%s)" % n, "c3_" + n, [In("a", 3), In("b", 3), Out("o", 3), Out("ab", 6)], e3, functions=FN))
def e2(v):
    yield "out-of-plane component", S.eq(v.ret, v.a[0] * v.b[1] - v.a[1] * v.b[0])
    for i in range(2):
        yield "first operand unchanged", S.eq(v.ab[i], v.a[i]); yield "second operand unchanged", S.eq(v.ab[2 + i], v.b[i])
for n in ("pp", "vv", "pv", "vp"):
    CONTRACTS.append(Contract("cross_product 2D (%s)" % n, "c2_" + n, [In("a", 2), In("b", 2), Out("ab", 4)], e2, ret="R", functions=FN))
def es(sign):
    def f(v):
        w = v.w[0] * c(sign)
        yield "w e_z x v, x", S.eq(v.o[0], -w * v.b[1])
        yield "w e_z x v, y", S.eq(v.o[1], w * v.b[0])
        yield "orthogonal to the vector", S.eq(v.o[0] * v.b[0] + v.o[1] * v.b[1], c(0))
        yield "spin unchanged", S.eq(v.ab[0], v.w[0])
        for i in range(2): yield "vector unchanged", S.eq(v.ab[1 + i], v.b[i])
    return f
for k, sg in (("sl", 1), ("sr", -1), ("al", 1), ("ar", -1)):
    for n in ("p", "v"):
        CONTRACTS.append(Contract("cross_product spin %s (%s)" % ({"sl": "scalar x v", "sr": "v x scalar", "al": "1-vector x v", "ar": "v x 1-vector"}[k], n), "%s_%s" % (k, n),
                                  [In("w", 1), In("b", 2), Out("o", 2), Out("ab", 3)], es(sg), functions=FN))
