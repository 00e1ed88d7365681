from vc.contract import *
from fractions import Fraction as F
HARNESS = "C22"
CONTRACTS = []
# alpha is the odd polynomial with derivative 315/128 (s^2-1)^4; all the others follow from it
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return r
def pder(a): return [k * x for k, x in enumerate(a)][1:]
q = [F(-1), F(0), F(1)]; d1 = [F(315, 128) * x for x in pmul(pmul(q, q), pmul(q, q))]
AL = [[F(0)] + [x / (k + 1) for k, x in enumerate(d1)]]
for _ in range(4): AL.append(pder(AL[-1]))
def ev(p, s):
    r = c(0)
    for x in reversed(p): r = r * s + c(x)
    return r
for k in range(5):
    def ens(v, k=k):
        yield ("%s derivative of the cut-off polynomial" % "0th 1st 2nd 3rd 4th".split()[k]) if k else "cut-off polynomial", S.eq(v.ret, ev(AL[k], v.x))
        if k == 0:
            for _ in v.given(S.eq(v.x, c(1))): yield "1 at 1", S.eq(v.ret, c(1))
            for _ in v.given(S.eq(v.x, c(-1))): yield "-1 at -1", S.eq(v.ret, c(-1))
    CONTRACTS.append(Contract("%salphaTrunc" % ("", "d", "d2", "d3", "d4")[k], "alpha%d" % k, [Real("x", (-1.2, 1.2))], ens, ret="R", functions="%salphaTrunc" % ("", "d", "d2", "d3", "d4")[k]))
def xs(rng, v, *a): return rng.choice([rng.uniform(-2, 2), 0., rng.uniform(-.3, .3)])
par = lambda: [Real("l", (.3, 2)), Real("e", (.05, .3))]
req = lambda v: [S.lt(c(0), v.e), S.le(v.e, v.l)]
for k in range(5):
    def ens(v, k=k):
        X2 = v.x * v.x; s = (X2 - v.l) / v.e
        for _ in v.given(S.lt(X2, v.l - v.e)): yield "%d in the core" % (k == 0), S.eq(v.ret, c(1 if k == 0 else 0))
        for _ in v.given(S.le(v.l + v.e, X2)): yield "0 outside", S.eq(v.ret, c(0))
        for _ in v.given(S.le(v.l - v.e, X2), S.lt(X2, v.l + v.e)):
            if k == 0:
                yield "cut-off polynomial in the transition", S.eq(v.ret, (c(1) - ev(AL[0], s)) / c(2))
            else:
                # chain rule for (1 - alpha((X2 - l)/e))/2, k times in X2
                r = c(-1) / c(2) * ev(AL[k], s)
                for _ in range(k): r = r / v.e
                yield "derivative of order %d in the squared distance, in the transition" % k, S.eq(v.ret, r)
    CONTRACTS.append(Contract("%schiTrunc" % ("", "d", "d2", "d3", "d4")[k], "chi%d" % k, [Real("x", (-1.6, 1.6))] + par(), ens, req, ret="R",
        functions="%schiTrunc" % ("", "d", "d2", "d3", "d4")[k], samples=400))
def mono(v):
    """alpha(t) - alpha(s) = (t-s) * combination of products of 1-s, 1-t, 1+s, 1+t with positive coefficients"""
    s = (v.x * v.x - v.l) / v.e; t = (v.y * v.y - v.l) / v.e
    yield "at most 1", S.le(v.o[0], c(1)); yield "not negative", S.le(c(0), v.o[0])
    for _ in v.given(S.le(v.x * v.x, v.y * v.y)):
        yield "farther is smaller", S.le(v.o[1], v.o[0])
CONTRACTS.append(Contract("chiTrunc bounds and monotonicity", "mono", [Real("x", (-1.6, 1.6)), Real("y", (-1.6, 1.6))] + par() + [Out("o", 2)], mono, req, functions="chiTrunc, alphaTrunc", samples=400))
