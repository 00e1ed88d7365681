from vc.contract import *
import re
HARNESS = "C23"
CONTRACTS = []
PAT = re.compile(r"^cafes::singularity::(d?|d2|d3|d4)chiTrunc\(")
KIND = re.compile(r"\d+(d?|d2|d3|d4)chiTrunc")
ORD = {"": 0, "d": 1, "d2": 2, "d3": 3, "d4": 4}
def handlers(E, ctx):
    # the truncation functions by their contracts (C22): chi_k a function of the squared distance, and chi_{k+1} its derivative
    def h(E, st, args, n):
        a = [E.real(st, x) for x in args]
        return t.app("chi%d" % ORD[KIND.search(n).group(1)], [E.sol.norm(t.mul(a[0], a[0])), a[1], a[2]], "R")
    E.hpat.append((PAT, h))
RULES = {"chi%d" % k: (lambda a, d, k=k: t.mul(t.app("chi%d" % (k + 1), a, "R"), d[0])) for k in range(4)}
def D(v, f, i, x, k):
    """derivative of output i with respect to x (finite difference k in the replay)"""
    if S.symbolic: return t.diff(v.o[i], x, RULES)
    return v.fd[k]
def close(a, b, *scale):
    if S.symbolic: return t.eq(a, b)
    s = sum(abs(x) for x in scale) + abs(a) + abs(b)
    return abs(a - b) <= 3e-5 * s + 1e-7
def req(v): return [S.lt(c(0), v.H), S.lt(c(0), v.M), S.lt(c(0), v.a), S.lt(c(0), v.e), S.le(v.e, v.l)]
PAR = lambda: [Real("H", (.3, 2)), Real("M", (.3, 2)), Real("a", (.2, 1)), Real("U", (-2, 2)), Real("l", (.3, .8)), Real("e", (.1, .3))]
def two(nm, entry, fam):
    def ens(v):
        f = v.fd if not S.symbolic else None
        sc = [x for x in ([v.o[k] for k in range(6)] if not S.symbolic else [])]
        for k, (i, x, lab) in enumerate([(0, v.x, "dxux"), (0, v.y, "dzux"), (1, v.x, "dxuz"), (1, v.y, "dzuz")]):
            yield "%s is the derivative of u%s" % (lab, lab[3]), close(v.o[2 + k], D(v, fam, i, x, k), *sc)
        yield "div u = 0", close(v.o[2] + v.o[5], c(0), *sc)
    CONTRACTS.append(Contract(nm, entry, [Real("x", (-.3, .8)), Real("y", (-1.2, 1.2))] + PAR() + [Out("o", 6), Out("fd", 4)], ens, req, functions=fam, handlers=handlers, samples=300))
two("2D normal motion", "n2", "ux/uz/dxux/dzux/dxuz/dzuz_sing_normalMvt2D")
two("2D tangential motion", "t2", "ux/uz/dxux/dzux/dxuz/dzuz_sing_tangMvt2D")
def three(nm, entry, fam):
    def ens(v):
        sc = [x for x in ([v.o[k] for k in range(12)] if not S.symbolic else [])]
        for _ in v.given(S.lt(c(0), v.x * v.x + v.y * v.y)):
            k = 0
            for i in range(3):
                for x, nx in ((v.x, "x"), (v.y, "y"), (v.z, "z")):
                    yield "d%su%s is the derivative of u%s" % (nx, "xyz"[i], "xyz"[i]), close(v.o[3 + k], D(v, fam, i, x, k), *sc); k += 1
            yield "div u = 0", close(v.o[3] + v.o[7] + v.o[11], c(0), *sc)
    CONTRACTS.append(Contract(nm, entry, [Real("x", (-1, 1)), Real("y", (-1, 1)), Real("z", (-.3, .8))] + PAR() + [Out("o", 12), Out("fd", 9)], ens, req, functions=fam, handlers=handlers, samples=300))
three("3D normal motion", "n3", "ux/uy/uz and the nine derivatives _sing_normalMvt3D")
three("3D tangential motion", "t3", "ux/uy/uz and the nine derivatives _sing_tangMvt3D")

NAMES = ["ux", "uy", "uz"] + ["d%su%s" % (x, i) for i in "xyz" for x in "xyz"]
def axis(nm, entry, fam):
    def ens(v):
        for k in range(12):
            if S.symbolic: yield "%s on the axis is its limit" % NAMES[k], S.eq(v.b[k], S.limit0(v.o[k], v.x))
            else: yield "%s on the axis is its limit" % NAMES[k], abs(v.b[k] - v.o[k]) <= 1e-3 * (abs(v.b[k]) + abs(v.o[k])) + 1e-4
    CONTRACTS.append(Contract(nm, entry, [Real("x", [1e-6, 3e-7]), Real("z", (-.3, .8))] + PAR() + [Out("o", 12), Out("b", 12)], ens, lambda v: req(v) + [S.lt(c(0), v.x), S.lt(v.x, c(1) / c(100000))], functions=fam, handlers=handlers, samples=100))
axis("3D normal motion, axis", "n3a", "ux/uy/uz and the nine derivatives _sing_normalMvt3D")
axis("3D tangential motion, axis", "t3a", "ux/uy/uz and the nine derivatives _sing_tangMvt3D")
