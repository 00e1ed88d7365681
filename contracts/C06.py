from vc.contract import *
import re, os
HARNESS = "C06"
CONTRACTS = []
OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
def opof(n):
    n = n.split("_", 1)[1]
    if n.startswith("imul"): return "mul"
    if n == "smul": return "mul"
    if n == "sadd": return "add"
    return n[:3]
# entry, kind of a, kind of b ("S" scalar real, "s" scalar int), kind of result, text
TAB = []
def fam(names, ka, kb, ko):
    for n in names.split(): TAB.append((n, ka, kb, ko))
fam("pos_mul pos_mula pos_sub pos_add pos_addv pos_diva vec_mul vec_add vec_sub vec_addv vec_subv vel_add for_add for_sub", "R", "R", "inplace")
fam("pos_adds pos_subs pos_divs vec_muls vec_divs for_muls for_adds", "R", "S", "inplace")
fam("posi_mul posi_mula posi_sub posi_add", "I", "I", "inplace")
fam("posi_adds posi_subs posi_divs", "I", "s", "inplace")
fam("bpos_addv bpos_add bpos_sub bpos_mul bpos_mula bpos_diva bvec_add bvec_subv bvel_subv bvel_add bfor_add bfor_sub", "R", "R", "R")
fam("bpos_adds bpos_subs bpos_divs bvec_muls bvec_smul bvec_divs bfor_muls bfor_smul bfor_adds bfor_sadd", "R", "S", "R")
fam("bvec_divi", "R", "s", "R")
fam("bpos_imula bpos_imuld", "I", "R", "R")
fam("bposi_add bposi_mul", "I", "I", "I")
fam("bposi_sub", "I", "I", "R")
fam("bposi_adds bposi_subs", "I", "s", "I")
SMALL = [-3, -2, -1, 1, 2, 3, 5]
def div(a, b, isint):
    if not isint: return a / b
    if isinstance(a, T): return t.idiv_trunc(a, b)
    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
R = lambda x: S.real(x) if not isinstance(x, float) else x
for n, ka, kb, ko in TAB:
    for D in (2, 3):
        op = opof(n); isint = ka == "I" and kb in ("I", "s") and ko in ("inplace", "I")
        num = (lambda x: x) if isint else R
        def ens(v, D=D, op=op, ko=ko, kb=kb, isint=isint, num=num):
            for d in range(D):
                a = num(v.pa[d]); b = num(v.pb[d] if kb in ("R", "I") else v.s)
                w = div(a, b, isint) if op == "div" else OPS[op](a, b)
                yield "component %d of the result" % d, S.eq(num(v.o[d]) if ko == "R" else v.o[d], w)
                if ko != "inplace": yield "left operand unchanged, component %d" % d, S.eq(v.a1[d], v.pa[d])
                if kb in ("R", "I"): yield "right operand unchanged, component %d" % d, S.eq(v.b1[d], v.pb[d])
            if ko == "inplace": yield "returns its left operand", S.eq(v.ref[0], 1)
        def req(v, op=op, kb=kb, D=D):
            if op != "div": return []
            return [S.ne(x, c(0) if kb in ("R", "S") else 0) for x in ([v.pb[d] for d in range(D)] if kb in ("R", "I") else [v.s])]
        ra = ka if ko == "inplace" else ko
        ps = [Arr("pa", D, ka, "in", (-4, 4))]
        ps.append(Arr("pb", D, kb, "in", (-4, 4)) if kb in ("R", "I") else (Real("s") if kb == "S" else Int("s", SMALL)))
        ps.append(Arr("o", D, ra, "out"))
        if ko != "inplace": ps.append(Arr("a1", D, ka, "out"))
        if kb in ("R", "I"): ps.append(Arr("b1", D, kb, "out"))
        if ko == "inplace": ps.append(OutI("ref", 1))
        CONTRACTS.append(Contract("%s<%d>" % (n, D), "%s_%d" % (n, D), ps, ens, req, functions="operator of " + n, samples=100))
def un(n, D, ka, ko, spec):
    def ens(v):
        for d in range(D):
            for lab, g in spec(v.o[d], v.pa[d], d): yield lab, g
            yield "operand unchanged %d" % d, S.eq(v.a1[d], v.pa[d])
    CONTRACTS.append(Contract("%s<%d>" % (n, D), "%s_%d" % (n, D), [Arr("pa", D, ka, "in", (-4, 4)), Arr("o", D, ko, "out"), Arr("a1", D, ka, "out")], ens, samples=300))
for D in (2, 3):
    un("pos_ceil", D, "R", "I", lambda o, a, d: [("ceil: smallest integer not below, component %d" % d, S.land(S.le(a, S.real(o)), S.lt(S.real(o) - c(1), a)))])
    un("pos_floor", D, "R", "I", lambda o, a, d: [("floor: largest integer not above, component %d" % d, S.land(S.le(S.real(o), a), S.lt(a, S.real(o) + c(1))))])
    un("pos_fromi", D, "I", "R", lambda o, a, d: [("conversion %d" % d, S.eq(o, S.real(a)))])
    un("pos_toi", D, "R", "I", lambda o, a, d: [("truncation %d" % d, S.land(S.imp(S.le(c(0), a), S.land(S.le(S.real(o), a), S.lt(a, S.real(o) + c(1)))), S.imp(S.lt(a, c(0)), S.land(S.le(a, S.real(o)), S.lt(S.real(o) - c(1), a)))))])
    un("bvec_neg", D, "R", "R", lambda o, a, d: [("negation %d" % d, S.eq(o, -a))])
    un("vec_fromp", D, "R", "R", lambda o, a, d: [("conversion %d" % d, S.eq(o, a))])
    un("vec_fromv", D, "R", "R", lambda o, a, d: [("conversion %d" % d, S.eq(o, a))])
    CONTRACTS.append(Contract("force::fill<%d>" % D, "for_fill_%d" % D, [Real("x"), Out("o", D)], lambda v, D=D: [("component %d" % d, S.eq(v.o[d], v.x)) for d in range(D)], samples=50))
    def ec(v, D=D):
        for k, nm in enumerate(("position", "vector", "velocity", "force")):
            for d in range(D): yield "%s component %d" % (nm, d), S.eq(v.o[k * D + d], getattr(v, "xyz"[d]))
    CONTRACTS.append(Contract("constructors<%d>" % D, "ctor_%d" % D, [Real("xyz"[d]) for d in range(D)] + [Out("o", 4 * D)], ec, samples=50))
