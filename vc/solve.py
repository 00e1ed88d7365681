"""Back ends: polynomial normal form (exact), z3, cvc5."""
import time, math, z3
from fractions import Fraction
from . import term as t
from .term import T, TRUE, FALSE, const_r, const_i, land, lnot, eq

class Poly:
    """sparse multivariate polynomials with rational coefficients over atom ids"""
    pass
def padd(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(x for x in d.items() if x[1]))
class TooBig(Exception): pass
def pmul(a, b, lim=400000):
    if len(a) * len(b) > 8 * lim: raise TooBig()
    if len(a) > len(b): a, b = b, a
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * e
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > lim: raise TooBig()
    return r

class Solver:
    def __init__(self, timeout_ms=4000):
        self.zc = {}; self.timeout = timeout_ms; self.time = 0.0; self.stats = {}; self.cache = {}; self.axioms_on = True
        self.pmemo = {}; self.nmemo = {}; self.user_axioms = []; self.pmi = {}; self.ipc = {}
        self.fcache = {}; self.lins = {}; self.ncmemo = {}
    itesum = {}
    def count(self, k): self.stats[k] = self.stats.get(k, 0) + 1

    # ---------------------------------------------------------------- polys
    # rational functions num/den with den a product of atoms' polynomials: we
    # represent a term as polynomial over atoms where 1/atom-poly is the atom
    # ("inv", id).  Equality is decided after clearing them.
    def rat(self, x):
        """(num, den) polynomials over atom ids; den as dict {polykey: (poly, exp)}"""
        r = self.pmemo.get(x)
        if r is not None: return r
        o = x.op
        if o == "rc": r = ({(): x.args[0]} if x.args[0] else {}, {})
        elif o == "radd":
            a, b = self.rat(x.args[0]), self.rat(x.args[1]); r = self.ratadd(a, b)
        elif o == "rmul":
            a, b = self.rat(x.args[0]), self.rat(x.args[1]); r = (pmul(self.red(a[0]), self.red(b[0])), self.dmul(a[1], b[1]))
            r = (self.red(r[0]), r[1])
        elif o == "rdiv":
            a, b = self.rat(x.args[0]), self.rat(x.args[1])
            # a / (bn/bd) = a*bd/bn
            n = a[0]; den = dict(a[1])
            for k, (p, e) in b[1].items():
                if k in den:
                    p0, e0 = den[k]; m = min(e, e0)
                    if e0 - m: den[k] = (p0, e0 - m)
                    else: del den[k]
                    e -= m
                for _ in range(e): n = pmul(n, p)
            if len(b[0]) == 1:
                (m, c), = b[0].items()
                n = {mm: cc / c for mm, cc in n.items()}
                for a_, e in m:
                    n, den = self.ddiv(n, den, {((a_, 1),): Fraction(1)}, e)
            else:
                # normalise leading coefficient
                lc = b[0][max(b[0])] if b[0] else None
                if lc is None: raise ZeroDivisionError
                p = {mm: cc / lc for mm, cc in b[0].items()}
                n = {mm: cc / lc for mm, cc in n.items()}
                n, den = self.ddiv(n, den, p, 1)
            r = (n, den)
        else:
            r = None
            if o == "sum": r = self.ratsum(x)
            if o == "ite" and t.is_rc(x.args[1]) and t.is_rc(x.args[2]):
                y = t.ite(self.normcond(x.args[0]), x.args[1], x.args[2])
                if y is not x: r = self.rat(y)
            if o == "app" and x.args[0] == "sqrt":
                a = self.rat(x.args[1])
                if not a[1] and len(a[0]) <= 1 and all(m == () for m in a[0]):
                    q = a[0].get((), Fraction(0)); n, d = q.numerator, q.denominator
                    if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                        f = Fraction(math.isqrt(n), math.isqrt(d)); r = ({(): f} if f else {}, {})
            if r is None:
                key = self.canon_atom(x)
                r = (self.red({((key, 1),): Fraction(1)}), {})
        self.pmemo[x] = r
        return r
    def ratsum(self, x):
        """a sum is linear: constant factors and terms come out of it"""
        v = t._asI(x.args[0]); cv = t.var("%%sum%d" % self.sumdepth(x.args[3]), "I"); ca = t.atom_of(cv)
        lo, hi = x.args[1], x.args[2]
        # counted from 0
        if lo.args: x = t.mk("sum", (ca, const_i(0), t.sub(hi, lo), t.subst(x.args[3], {v: t.add(lo, cv)})), "R"); v = cv
        b = t.subst(x.args[3], {v: cv}); ind = None
        if b.op == "ite" and t.is_rc(b.args[2]) and b.args[2].args[0] == 0:
            ind = t.ite(self.normcond(b.args[0]), const_r(1), const_r(0)); b = b.args[1]
        try:
            n, den = self.rat(b)
            if ind is not None:
                r = self.rat(ind)
                n = pmul(n, r[0]); den = self.dmul(den, r[1])
        except TooBig: return None
        dep = lambda a: ca in t.free_atoms(self.atomterm[a])
        if len(n) > 2000: return None
        n, den = self.dens_in(n, den, dep)
        out = ({}, {})
        for m, c in n.items():
            inner = tuple(x_ for x_ in m if dep(x_[0])); outer = tuple(x_ for x_ in m if not dep(x_[0]))
            if not inner:
                cnt = t.sub(x.args[2], x.args[1]); pos = t.lt(const_i(0), cnt)
                r = self.rat(t.toreal(cnt if pos in self.known else t.ite(pos, cnt, const_i(0))))
            else:
                ba = ca; b = const_r(1)
                for a, e in inner:
                    for _ in range(e): b = t.mul(b, self.atomterm[a])
                if t.var("%%sum%d" % self.sumdepth(b), "I") is not cv:
                    # sums that were nested here came out: name the index by what is left
                    v2 = t.var("%%sum%d" % self.sumdepth(b), "I"); ba = t.atom_of(v2)
                    b = const_r(1)
                    for a, e in inner:
                        y = t.subst(self.atomterm[a], {cv: v2})
                        if y.op == "ite": y = t.ite(self.normcond(y.args[0]), y.args[1], y.args[2])
                        for _ in range(e): b = t.mul(b, y)
                    n2, d2 = self.dens_in(*self.rat(b), lambda a: True)
                    if len(n2) != 1 or d2: return None
                    (inner, c2), = n2.items(); c = c * c2
                key = ("sum", x.args[1].id, x.args[2].id, inner)
                i = self.atoms.get(key)
                if i is None:
                    b = const_r(1)
                    for a, e in inner:
                        for _ in range(e): b = t.mul(b, self.atomterm[a])
                    y = t.mk("sum", (ba, x.args[1], x.args[2], b), "R")
                    i = self.atoms[key] = y.id; self.atomterm[i] = y
                r = ({((i, 1),): Fraction(1)}, {})
            out = self.ratadd(out, (pmul(r[0], {outer: c}), r[1]))
        return (out[0], self.dmul(out[1], den))
    def dens_in(self, n, den, dep):
        """the denominators with an atom satisfying dep as factors of the numerator"""
        for k, (p, e) in list(den.items()):
            if not any(dep(a) for m in p for a, _ in m): continue
            i = self.atoms.get(("inv", k))
            if i is None:
                y = t.rdiv(const_r(1), self.pterm(p)); i = self.atoms[("inv", k)] = y.id; self.atomterm[i] = y
            n = pmul(n, {((i, e),): Fraction(1)}); den = dict(den); del den[k]
        return n, den
    def normcond(self, c):
        """the condition with its Real arguments of functions, its integer comparisons and the order of its parts in normal form"""
        r = self.ncmemo.get(c)
        if r is None:
            m = {}
            for y in self.apps(c):
                z = t.mk(y.op, tuple(self.norm(a) if isinstance(a, T) and a.sort == "R" else a for a in y.args), y.sort)
                if z is not y: m[y] = z
            r = self.ncmemo[c] = self.canon(t.subst(c, m) if m else c)
        return r
    def canon(self, c):
        o = c.op
        if o in ("and", "or"):
            xs = []
            for x in c.args:
                x = self.canon(x); xs.extend(x.args if x.op == o else (x,))
            return (land if o == "and" else t.lor)(*sorted(xs, key=lambda x: x.id))
        if o == "not": return lnot(self.canon(c.args[0]))
        if o in ("eq", "lt", "le") and c.args[0].sort == "I":
            d = t.sub(c.args[1], c.args[0])
            if o == "eq":
                ms = sorted(((tuple(x.id for x in m), k) for m, k in d.args if m != ()))
                if ms and ms[0][1] < 0: d = t.neg(d)
                return t.eq(d, const_i(0))
            return t.lt(const_i(0), t.add(d, const_i(1)) if o == "le" else d)
        return c
    def apps(self, c):
        out = []; st = [c]; seen = set()
        while st:
            y = st.pop()
            if y in seen: continue
            seen.add(y)
            if y.op in ("app", "iapp"): out.append(y)
            else: st.extend(t.children(y))
        return out
    def ddiv(self, n, den, p, e):
        k = tuple(sorted(p.items()))
        # cancel a monomial factor of the numerator
        if len(p) == 1 and n:
            (m, c), = p.items()
            a_ = m[0][0]
            mn = min((dict(mm).get(a_, 0) for mm in n), default=0)
            x = min(mn, e)
            if x:
                n = {tuple((b, f - x if b == a_ else f) for b, f in mm if not (b == a_ and f == x)): cc for mm, cc in n.items()}
                e -= x
        if e:
            den = dict(den)
            p0, e0 = den.get(k, (p, 0)); den[k] = (p, e0 + e)
        return n, den
    def dmul(self, a, b):
        d = dict(a)
        for k, (p, e) in b.items():
            d[k] = (p, d[k][1] + e) if k in d else (p, e)
        return d
    def ratadd(self, a, b):
        if a[1] == b[1]: return (self.red(padd(a[0], b[0])), a[1])
        den = dict(a[1]); na = a[0]; nb = b[0]
        for k, (p, e) in b[1].items():
            e0 = den[k][1] if k in den else 0
            if e > e0:
                for _ in range(e - e0): na = pmul(na, p)
                den[k] = (p, e)
        for k, (p, e) in den.items():
            eb = b[1][k][1] if k in b[1] else 0
            for _ in range(e - eb): nb = pmul(nb, p)
        return (self.red(padd(na, nb)), den)
    def red(self, p):
        """reduce sqrt(x)^2 -> x, sin^2 -> 1-cos^2"""
        if self.rules: p = self.apply_rules(p)
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.sq: hit = a; break
                if hit is not None: break
            if hit is None: return p
            rp = self.sq[hit]
            if rp is None: return p
            out = {}
            for m, c in p.items():
                d = dict(m); e = d.get(hit, 0)
                if e >= 2:
                    d[hit] = e % 2
                    base = {tuple(sorted(x for x in d.items() if x[1])): c}
                    for _ in range(e // 2): base = pmul(base, rp)
                    out = padd(out, base)
                else: out = padd(out, {m: c})
            p = self.apply_rules(out) if self.rules else out
    sq = {}
    rules = ()
    def apply_rules(self, p):
        """rewrite by the equalities of the hypotheses: leading monomial -> rest"""
        n = 0
        work = dict(p); out = {}
        while work:
            m, c = work.popitem()
            n += 1
            if n > 20000: raise TooBig()
            d = None
            for lm, rest in self.rules:
                d = dict(m)
                for a, e in lm:
                    f = d.get(a, 0) - e
                    if f < 0: d = None; break
                    d[a] = f
                if d is not None: break
            if d is None:
                v = out.get(m, 0) + c
                if v: out[m] = v
                else: out.pop(m, None)
                continue
            q = tuple(sorted(x for x in d.items() if x[1]))
            for mm, cc in rest.items():
                k = mmul(q, mm); v = work.get(k, 0) + c * cc
                if v: work[k] = v
                else: work.pop(k, None)
        return out
    subs = None
    def under(self, pc):
        """a normaliser that rewrites with the real equalities among the hypotheses pc"""
        eqs = tuple(h for h in pc if h.op == "eq" and h.args[0].sort in "RI")
        if not any(h.args[0].sort == "R" for h in eqs): return None
        if self.subs is None: self.subs = {}
        known = frozenset(h for h in pc if h.op == "lt" and h.args[0].sort == "I")
        key = (eqs, known)
        if key in self.subs: return self.subs[key]
        S = Solver(self.timeout); S.atoms = {}; S.atomterm = {}; S.sq = {}; S.rules = []; S.known = known
        for h in eqs:
            try: n, d = S.rat(t.toreal(t.sub(h.args[0], h.args[1])))
            except (TooBig, ZeroDivisionError): continue
            if not n or len(n) > 60: continue
            lm = max(n, key=lambda m: (sum(e for _, e in m), m))
            if lm == (): continue
            lc = n[lm]
            S.rules = S.rules + [(lm, {m: -c / lc for m, c in n.items() if m != lm})]
            S.pmemo = {}
        if not S.rules: S = None
        self.subs[key] = S
        return S
    def polyeq_under(self, pc, a, b):
        S = self.under(pc)
        if S is None: return False
        try: return S.polyeq(a, b)
        except RecursionError: return False
    def root(self, pc, x):
        """the square root of x when x, modulo the hypotheses, is the square of a monomial of atoms known to be >= 0"""
        key = (pc, x)
        if key in self.roots: return self.roots[key]
        res = None
        for S in (self, self.under(pc)):
            if S is None: continue
            try:
                n, d = S.rat(x); n = S.red(n)
                if len(n) != 1: continue
                (m, q), = n.items()
                a, b = q.numerator, q.denominator
                if a < 0 or math.isqrt(a) ** 2 != a or math.isqrt(b) ** 2 != b or any(e % 2 for _, e in m) or any(e % 2 for p, e in d.values()): continue
                r = const_r(Fraction(math.isqrt(a), math.isqrt(b)))
                f = [(S.atomterm[k], e // 2) for k, e in m]; g = [(S.pterm(p), e // 2) for p, e in d.values()]
                if not all(self.prove(pc, t.le(const_r(0), y)) for y, e in f + g): continue
                for y, e in f: r = t.mul(r, y ** e)
                for y, e in g: r = t.rdiv(r, y ** e)
                res = r; break
            except (TooBig, ZeroDivisionError, RecursionError): pass
        self.roots[key] = res
        return res
    roots = {}; known = frozenset()
    def canon_atom(self, x):
        """atom id for an opaque term; app arguments are normalised first"""
        if x.op == "app" and x.args[0] in ("sqrt", "sin", "cos") or x.op == "app":
            args = []
            for a in x.args[1:]:
                if a.sort == "R":
                    try: args.append(("r",) + self.ratkey(self.rat(a)))
                    except TooBig: args.append(("t", a.id))
                else: args.append(("t", a.id))
            key = ("app", x.args[0], tuple(args))
            i = self.atoms.get(key)
            if i is None:
                i = self.atoms[key] = x.id; self.atomterm[i] = x
                if x.args[0] == "sqrt":
                    r = self.rat(x.args[1])
                    if not r[1]: self.sq[i] = r[0]
                    else: self.sq.setdefault(i, None) ; 
                    if r[1]:
                        del self.sq[i]
                if x.args[0] == "sin":
                    c = self.canon_atom(t.fn("cos", x.args[1]))
                    self.sq[i] = {(): Fraction(1), ((c, 2),): Fraction(-1)}
            return i
        if x.op == "sum":
            # alpha-normalise the bound variable
            v = t._asI(x.args[0]); cv = t.var("%%sum%d" % self.sumdepth(x.args[3]), "I")
            b = t.subst(x.args[3], {v: cv})
            key = ("sum", x.args[1].id, x.args[2].id, ("r",) + self.ratkey(self.rat(b)))
            i = self.atoms.get(key)
            if i is None: i = self.atoms[key] = x.id; self.atomterm[i] = x
            return i
        if x.op == "ite":
            try: key = ("ite", x.args[0].id, ("r",) + self.ratkey(self.rat(x.args[1])), ("r",) + self.ratkey(self.rat(x.args[2])))
            except TooBig: key = ("t", x.id)
            i = self.atoms.get(key)
            if i is None: i = self.atoms[key] = x.id; self.atomterm[i] = x
            return i
        self.atomterm[x.id] = x
        return x.id
    def sumdepth(self, b):
        if b.op in ("sum",): return 1 + self.sumdepth(b.args[3])
        return max([self.sumdepth(c) for c in t.children(b)] or [0])
    def ratkey(self, r):
        return (tuple(sorted(r[0].items())), tuple(sorted((k, e) for k, (p, e) in r[1].items())))
    atoms = {}; atomterm = {}
    def norm(self, x):
        """rebuild a Real term from its normal form (cancels syntactically)"""
        if x.sort != "R": return x
        r = self.nmemo.get(x)
        if r is None:
            try:
                n, d = self.rat(x)
                if len(n) > 5000: r = x
                else:
                    r = self.pterm(n)
                    for k, (p, e) in d.items():
                        pt = self.pterm(p)
                        for _ in range(e): r = t.rdiv(r, pt)
            except (TooBig, ZeroDivisionError): r = x
            self.nmemo[x] = r
        return r
    def pterm(self, p):
        r = const_r(0)
        for m, c in sorted(p.items()):
            q = const_r(c)
            for a, e in m:
                for _ in range(e): q = t.mul(q, self.atomterm[a])
            r = t.add(r, q)
        return r
    def polyeq(self, a, b):
        """exact normal-form equality (True / False=unknown)"""
        try:
            n, d = self.rat(t.sub(t.toreal(a), t.toreal(b)))
            return not self.red(n)
        except (TooBig, ZeroDivisionError): return False

    # ---------------------------------------------------------------- z3
    def z(self, x):
        r = self.zc.get(x)
        if r is not None: return r
        o = x.op; a = x.args
        if o == "ipoly":
            s = None
            for m, c in a:
                p = z3.IntVal(c)
                for y in m: p = self.z(y) if (p is not None and z3.is_int_value(p) and p.as_long() == 1) else p * self.z(y)
                s = p if s is None else s + p
            r = s if s is not None else z3.IntVal(0)
        elif o == "rc": r = z3.Q(a[0].numerator, a[0].denominator)
        elif o == "true": r = z3.BoolVal(True)
        elif o == "false": r = z3.BoolVal(False)
        elif o == "var": r = z3.Bool(str(a[0])) if x.sort == "B" else z3.Real(str(a[0]))
        elif o == "ivar": r = z3.Int(str(a[0]))
        elif o == "radd": r = self.z(a[0]) + self.z(a[1])
        elif o == "rmul": r = self.z(a[0]) * self.z(a[1])
        elif o == "rdiv": r = self.z(a[0]) / self.z(a[1])
        elif o == "i2r": r = z3.ToReal(self.z(a[0]))
        elif o == "idiv":
            p, q = self.z(a[0]), self.z(a[1])
            if t.is_ic(a[1]) and t.icv(a[1]) > 0: r = z3.If(p >= 0, p / q, -((-p) / q))
            else: r = z3.If(p >= 0, z3.If(q > 0, p / q, -(p / -q)), z3.If(q > 0, -((-p) / q), (-p) / (-q)))
        elif o == "floor": r = z3.ToInt(self.z(a[0]))
        elif o in ("ite", "iite"): r = z3.If(self.z(a[0]), self.z(a[1]), self.z(a[2]))
        elif o == "lt": r = self.z(a[0]) < self.z(a[1])
        elif o == "le": r = self.z(a[0]) <= self.z(a[1])
        elif o == "eq": r = self.z(a[0]) == self.z(a[1])
        elif o == "not": r = z3.Not(self.z(a[0]))
        elif o == "and": r = z3.And(*[self.z(y) for y in a])
        elif o == "or": r = z3.Or(*[self.z(y) for y in a])
        elif o in ("app", "iapp"):
            args = [self.z(self.norm(y)) for y in a[1:]]
            f = z3.Function(str(a[0]), *([y.sort() for y in args] + [z3.RealSort() if o == "app" else z3.IntSort()]))
            r = f(*args)
        elif o in ("sum", "isum"):
            r = z3.Real("sum#%d" % self.canon_atom(x)) if o == "sum" else z3.Int("isum#%d" % x.id)
        else: raise NotImplementedError(o)
        self.zc[x] = r
        return r
    def axioms(self, terms):
        """instances of the function axioms for the applications occurring"""
        seen = set(); out = []; stack = list(terms); apps = {}
        while stack:
            x = stack.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ("app", "iapp"): apps.setdefault(x.args[0], []).append(x)
            for c in t.children(x): stack.append(c)
            if x.op == "var" and x.args[0] == "PI":
                out.append(t.lt(const_r(Fraction(314159, 100000)), x)); out.append(t.lt(x, const_r(Fraction(314160, 100000))))
            if x.op == "var" and x.args[0] == "INF": pass
        for x in apps.get("sqrt", []):
            y = x.args[1]
            out.append(t.implies(t.le(const_r(0), y), land(t.le(const_r(0), x), t.mk("eq", (t.mk("rmul", (x, x), "R"), y), "B"))))
        for nm in ("sin", "cos"):
            for x in apps.get(nm, []):
                s = t.fn("sin", x.args[1]); c = t.fn("cos", x.args[1])
                out.append(t.mk("eq", (t.add(t.mul(s, s), t.mul(c, c)), const_r(1)), "B"))
        for x in apps.get("exp", []): out.append(t.lt(const_r(0), x))
        pi = t.var("PI")
        for f in self.user_axioms:
            n = f(apps); out.extend(n)
            if pi not in seen and any(pi in t.free_atoms(x) for x in n):
                seen.add(pi); out.append(t.lt(const_r(Fraction(314159, 100000)), pi)); out.append(t.lt(pi, const_r(Fraction(314160, 100000))))
        return out
    def _run(self, fs, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for f in fs: s.add(self.z(f))
        for ax in self.axioms(fs): s.add(self.z(ax))
        t0 = time.time()
        r = s.check()
        self.time += time.time() - t0
        return r, s
    def prove(self, pc, g, timeout=None, want_model=False):
        if g is TRUE: return True
        if g in pc: return True
        key = (pc, g)
        if key in self.cache and not want_model: return self.cache[key]
        res = self.quick(pc, g)
        if res is None and self.ints(pc, lnot(g)) is False: res = True
        if res is None:
            r = self.inc_check(pc, lnot(g))
            if r == z3.unknown:
                r, s = self._run(list(pc) + [lnot(g)], timeout or 1500)
            res = r == z3.unsat
            self.count("z3 query")
        else: self.count("linear")
        self.cache[key] = res
        return res
    def pureint(self, x):
        r = self.pmi.get(x)
        if r is None:
            r = self.pmi[x] = x.sort in ("I", "Ia", "B") and x.op not in ("app", "iapp", "sum", "isum") and not (x.op == "var" and x.sort == "R") and all(self.pureint(y) for y in t.children(x))
        return r
    def ints(self, pc, c):
        """False: c contradicts the purely integer hypotheses (cheap to decide, away from the nonlinear real ones)"""
        if not self.pureint(c): return None
        hs = self.ipc.get(pc)
        if hs is None:
            hs = self.ipc[pc] = tuple(x for h in pc for x in (h.args if h.op == "and" else (h,)) if self.pureint(x))
            # no detour where there is nothing to leave out
            if not any(self.impure(h) for h in pc): hs = self.ipc[pc] = None
        if hs is None: return None
        if self.isol is None: self.isol = z3.Solver(); self.isol.set("timeout", 200)
        s = self.isol; s.push()
        for h in hs: s.add(self.z(h))
        s.add(self.z(c))
        t0 = time.time(); r = s.check(); self.time += time.time() - t0
        s.pop()
        return False if r == z3.unsat else None
    def settle(self, pc, x, memo=None):
        """x with the conditionals decided by the purely integer hypotheses replaced by the branch they take"""
        if memo is None:
            self.ints(pc, TRUE)
            if self.ipc.get(pc) is None: return x
            memo = {}
        r = memo.get(x)
        if r is not None: return r
        if x.op in ("ite", "iite"):
            c = x.args[0]
            if self.ints(pc, lnot(c)) is False: r = self.settle(pc, t._asI(x.args[1]), memo)
            elif self.ints(pc, c) is False: r = self.settle(pc, t._asI(x.args[2]), memo)
        if r is None:
            r = t._asI(x) if x.op in ("sum", "isum") or not t.children(x) else t.rebuild(x, lambda y: self.settle(pc, y, memo))
        memo[x] = r
        return r
    def impure(self, h):
        seen = set(); st = [h]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ("app", "iapp", "rmul"): return True
            st.extend(t.children(x))
        return False
    isol = None
    # incremental solver: the stack mirrors a path condition
    def inc_check(self, pc, f, want=False):
        if self.inc is None:
            self.inc = z3.Solver(); self.inc.set("timeout", 400); self.incpc = []
        s = self.inc; n = 0
        while n < len(self.incpc) and n < len(pc) and self.incpc[n] is pc[n]: n += 1
        if n < len(self.incpc):
            s.pop(len(self.incpc) - n); del self.incpc[n:]
        for h in pc[n:]:
            s.push(); s.add(self.z(h)); self.incpc.append(h)
            for ax in self.axioms((h,)): s.add(self.z(ax))
        s.push(); s.add(self.z(f))
        for ax in self.axioms((f,)): s.add(self.z(ax))
        t0 = time.time(); r = s.check(); self.time += time.time() - t0
        m = s.model() if r == z3.sat and want else None
        s.pop()
        return (r, m) if want else r
    def inc_model(self, pc, f):
        self.count("z3 query")
        return self.inc_check(pc, f, True)
    inc = None
    def indicator(self, pc, a, b, depth=0, budget=None):
        if self.find_ite(a, set()) is None and self.find_ite(b, set()) is None: return False
        if budget is None: budget = [60]
        budget[0] -= 1
        if depth and (self.sums([a]) or self.sums([b])): a, b = self.narrow(pc, a), self.narrow(pc, b)
        try:
            B = Indicators(self, pc)
            n, d = B.rat(t.sub(t.toreal(a), t.toreal(b)))
            left = B.left(B.red(n))
        except (TooBig, ZeroDivisionError, RecursionError): return False
        if left is None: return True
        if left is TRUE or depth > 10 or budget[0] <= 0: return False
        for c in (left, lnot(left)):
            if not self.feasible(pc, c): continue
            if not self.indicator(pc + (c,), a, b, depth + 1, budget) : return False
        return True
    def quick(self, pc, g):
        """decide a linear integer g from at most two hypotheses; True or None"""
        if g.op == "and":
            return True if all(self.quick(pc, x) or x in pc for x in g.args) else None
        if g.op not in ("lt", "le") or g.args[0].sort != "I": return None
        d = t.sub(g.args[1], g.args[0])
        if g.op == "lt": d = d - 1      # to show: d >= 0
        key = pc
        lin = self.lins.get(key)
        if lin is None:
            lin = []
            for h in pc:
                for x in (h.args if h.op == "and" else (h,)):
                    if x.op in ("lt", "le") and x.args[0].sort == "I":
                        e = t.sub(x.args[1], x.args[0])
                        lin.append(e - 1 if x.op == "lt" else e)
            self.lins[key] = lin
        rest = []
        for e in lin:
            r = t.sub(d, e)
            if t.is_ic(r):
                if t.icv(r) >= 0: return True
            elif len(r.args) <= len(d.args) : rest.append(r)
        for r in rest[:12]:
            for e in lin:
                q = t.sub(r, e)
                if t.is_ic(q) and t.icv(q) >= 0: return True
        return None
    def slice(self, pc, g): return list(pc)
    def feasible(self, pc, c):
        key = (pc, c)
        if key in self.fcache: return self.fcache[key]
        n = lnot(c)
        if n in pc or self.quick(pc, n): res = False
        elif self.ints(pc, c) is False: res = False
        else:
            r = self.inc_check(pc, c)
            if r == z3.unknown: r, s = self._run(list(pc) + [c], 800)
            self.count("z3 query")
            res = r != z3.unsat
        self.fcache[key] = res
        return res
    def model(self, pc, timeout=3000):
        r, s = self._run(list(pc), timeout)
        return s.model() if r == z3.sat else None

    # ---------------------------------------------------------------- sums
    def sums(self, xs):
        seen = set(); out = []; stack = list(xs)
        while stack:
            x = stack.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ("sum", "isum"): out.append(x); continue
            stack.extend(t.children(x))
        return sorted(out, key=lambda x: x.id)
    def unify(self, pc, x):
        """rewrite sums over the same range whose terms are provably equal to one representative"""
        reps = []; m = {}
        for s in self.sums([x]):
            for r in reps:
                if r.op != s.op: continue
                (l1, h1), (l2, h2) = s.args[1:3], r.args[1:3]
                n1, n2 = t.sub(h1, l1), t.sub(h2, l2)
                if not (n1 is n2 or self.prove(pc, eq(n1, n2))): continue
                j = t.var("j~%d" % s.id, "I")      # same number of terms, each equal
                b1 = t.subst(s.args[3], {t._asI(s.args[0]): t.add(l1, j)}); b2 = t.subst(r.args[3], {t._asI(r.args[0]): t.add(l2, j)})
                pc2 = pc + (t.le(const_i(0), j), t.lt(j, n1))
                if b1 is b2 or self.discharge(pc2, eq(b1, b2), 1500, deep=False)[0] == "proved":
                    m[s] = t._asI(r) if s.op == "isum" else r; break
            else: reps.append(s)
        if not m: return x
        return t.subst(x, m)
    def ite_sum(self, x):
        """x holds a real sum with a conditional term, or one that may be empty"""
        r = self.itesum.get(x)
        if r is None:
            r = x.op == "sum" and (self.find_ite(x.args[3], set()) is not None) or any(self.ite_sum(y) for y in t.children(x))
            self.itesum[x] = r
        return r
    def narrow(self, pc, x, top=True):
        """the same term: conditions on the index of a sum become its range (or its only index), decided conditionals and empty sums go away"""
        if not (self.sums([x]) if top else self.find_ite(x, set()) is not None or self.sums([x])): return x
        if x.op in ("ite", "iite"):
            c, a, b = x.args
            if self.prove(pc, c, 1000): return self.narrow(pc, a, top)
            if self.prove(pc, lnot(c), 1000): return self.narrow(pc, b, top)
            return t.ite(c, self.narrow(pc + (c,), a, top), self.narrow(pc + (lnot(c),), b, top))
        if x.op != "sum":
            if x.op in ("lt", "le", "eq", "not", "and", "or", "app", "iapp", "isum") and not x.op == "eq": return x
            if x.op == "ipoly" and top: return x
            return t.rebuild(x, lambda y: self.narrow(pc, y, top) if y.op != "isum" else t._asI(y))
        v0 = t._asI(x.args[0]); v = t.var("n~%d" % x.id, "I"); lo, hi = x.args[1], x.args[2]
        if self.prove(pc, t.le(hi, lo), 1000): return const_r(0)
        body = self.narrow(pc + (t.le(lo, v), t.lt(v, hi)), t.subst(x.args[3], {v0: v}), False)
        return self.narrow_parts(pc, v, lo, hi, body)
    def narrow_parts(self, pc, v, lo, hi, body):
        va = t.atom_of(v)
        if body.op == "radd": return t.add(self.narrow_parts(pc, v, lo, hi, body.args[0]), self.narrow_parts(pc, v, lo, hi, body.args[1]))
        conds = []; f = const_r(1)
        while True:
            if body.op == "rmul":
                a, b = body.args
                if a.op == "ite": a, b = b, a
                if b.op == "ite": f = t.mul(f, a); body = b; continue
                if b.op == "radd" and not t.depends(a, v) and f.op == "rc": return t.mul(t.mul(f, a), self.narrow_parts(pc, v, lo, hi, b)) if not conds else t.tsum(v, lo, hi, self.under_conds(conds, t.mul(f, body)))
            if body.op == "ite" and t.is_rc(body.args[2]) and body.args[2].args[0] == 0:
                c = body.args[0]; conds += list(c.args) if c.op == "and" else [c]; body = body.args[1]; continue
            break
        body = t.mul(f, body)
        # one index only
        for c in conds:
            if c.op == "eq" and c.args[0].sort == "I":
                e = self.linear_in(t.sub(*c.args), va)
                if e is None: continue
                k, r = e
                at = t.exact_div(r, -k) if k < 0 else t.exact_div(-r, k) if k > 0 else None
                if at is None: continue
                rest = [y for y in conds if y is not c] + [t.le(lo, v), t.lt(v, hi)]
                return self.narrow(pc, t.ite(t.subst(land(*rest), {v: at}), t.subst(body, {v: at}), const_r(0)))
        keep = []; fresh = False
        for c in conds:
            done = False
            if c.op in ("lt", "le") and c.args[0].sort == "I":
                d = t.sub(c.args[1], c.args[0])
                if c.op == "lt": d = d - 1
                e = self.linear_in(d, va)         # k v + r >= 0
                if e is not None and e[0]:
                    k, r = e; m = abs(k)
                    r = t._ip({mon: co for mon, co in r.args if mon}) ; r0 = t.icv(t.sub(e[1], r))
                    q = t.exact_div(r, m) if r.args else const_i(0)
                    if q is not None:
                        q = q + (r0 // m)        # floor: v >= -q or v <= q
                        if k > 0:
                            b = -q
                            if self.prove(pc, t.le(b, lo), 1000): done = True
                            elif self.prove(pc, t.le(lo, b), 1000): lo = b; done = fresh = True
                        else:
                            b = q + 1
                            if self.prove(pc, t.le(hi, b), 1000): done = True
                            elif self.prove(pc, t.le(b, hi), 1000): hi = b; done = fresh = True
            if not done: keep.append(c)
        if fresh and self.prove(pc, t.le(hi, lo), 1000): return const_r(0)
        return t.tsum(v, lo, hi, self.under_conds(keep, body))
    def under_conds(self, cs, b): return t.ite(land(*cs), b, const_r(0)) if cs else b
    def linear_in(self, d, va):
        k = 0; r = {}
        for m, co in d.args:
            if m == (va,): k = co
            elif any(va in t.free_atoms(y) for y in m): return None
            else: r[m] = co
        return k, t._ip(r)
    def isums(self, x):
        """the integer sums in x that mention no variable bound around them"""
        seen = set(); out = []; bound = set(); stack = [x]
        while stack:
            y = stack.pop()
            if y in seen: continue
            seen.add(y)
            if y.op in ("sum", "isum"): bound.add(y.args[0])
            if y.op == "isum": out.append(y)
            stack.extend(t.children(y))
        return sorted([y for y in out if not (t.free_atoms(y) & bound)], key=lambda y: y.id)
    def same_isums(self, pc, x):
        """integer sums whose terms are provably equal get the same terms"""
        reps = []; m = {}
        xs = self.isums(x)
        if len(xs) < 2: return x
        for s in xs:
            for r in reps:
                if s.args[1] is not r.args[1]: continue
                if s.args[0] is r.args[0] and s.args[3] is r.args[3]: break
                j = t.var("j~%d" % r.id, "I")
                b1 = t.subst(s.args[3], {t._asI(s.args[0]): j}); b2 = t.subst(r.args[3], {t._asI(r.args[0]): j})
                if b1 is b2 or self.prove(pc + (t.le(s.args[1], j),), eq(b1, b2)):
                    m[t._asI(s)] = t._asI(t.mk("isum", (r.args[0], s.args[1], s.args[2], r.args[3]), "Ia")); break
            else: reps.append(s)
        return t.subst(x, m) if m else x
    def isum_facts(self, pc, x):
        """sums of non-negative terms: non-negative, and growing with the range"""
        out = []; xs = self.isums(x); pos = {}
        for s in xs:
            k = (s.args[0], s.args[1], s.args[3])
            if k not in pos:
                j = t.var("j~%d" % s.id, "I")
                pos[k] = self.prove(pc + (t.le(s.args[1], j),), t.le(const_i(0), t.subst(s.args[3], {t._asI(s.args[0]): j})))
            if pos[k]: out.append(t.le(const_i(0), t._asI(s)))
        for s in xs:
            for r in xs:
                if s is r or s.args[0] is not r.args[0] or s.args[1] is not r.args[1] or s.args[3] is not r.args[3] or not pos[(s.args[0], s.args[1], s.args[3])]: continue
                a, b = t._asI(s), t._asI(r); at = t.subst(s.args[3], {t._asI(s.args[0]): s.args[2]})
                out.append(t.implies(t.le(s.args[2], r.args[2]), t.le(a, b)))
                out.append(t.implies(land(t.lt(s.args[2], r.args[2]), t.le(s.args[1], s.args[2])), t.le(t.add(a, at), b)))
        return out
    # ---------------------------------------------------------------- discharge
    def discharge(self, pc, g, timeout=None, deep=True, unify=True):
        """-> (status, backend, model) status in proved/refuted/unknown"""
        t0 = time.time()
        if g is TRUE or g in pc: return "proved", "syntactic", None
        if g.op == "and":
            for c in g.args:
                r = self.discharge(pc, c, timeout, deep)
                if r[0] != "proved": return r
            return r
        if deep:
            g2 = self.same_isums(pc, g)
            if g2 is not g: return self.discharge(pc, g2, timeout, deep, unify)
        if g.op == "eq" and g.args[0].sort == "R":
            if self.polyeq(*g.args):
                self.time += time.time() - t0; return "proved", "normal-form", None
            if self.polyeq_under(pc, *g.args):
                self.time += time.time() - t0; return "proved", "normal-form modulo hypotheses", None
            if self.contradictory(pc):
                self.time += time.time() - t0; return "proved", "normal-form (no such case)", None
            if self.squares(pc, *g.args):
                self.time += time.time() - t0; return "proved", "vanishing sum of squares", None
            g2 = self.settle(pc, g)
            if g2 is not g:
                if g2 is TRUE or g2.op == "eq" and (self.polyeq(*g2.args) or self.polyeq_under(pc, *g2.args)):
                    self.time += time.time() - t0; return "proved", "normal-form+settled", None
                if g2.op == "eq": g = g2
            # conditionals as 0/1 indicators, conditions identified up to provable equivalence
            r = self.indicator(pc, *g.args)
            if r: self.time += time.time() - t0; return "proved", "normal-form+indicators", None
            if self.ite_sum(g):
                g2 = self.narrow(pc, g)
                if g2 is TRUE or g2 is not g and g2.op == "eq" and (self.polyeq(*g2.args) or self.indicator(pc, *g2.args)):
                    self.time += time.time() - t0; return "proved", "normal-form+ranges", None
            # case split over the conditions of ite terms
            r = self.split(pc, g)
            if r: self.time += time.time() - t0; return "proved", "normal-form+split", None
            self.time += time.time() - t0
        if g.op == "not" and g.args[0].op == "eq" and g.args[0].args[0].sort == "R":
            r = self.nonzero(pc, t.sub(*g.args[0].args))
            if r: self.time += time.time() - t0; return "proved", "normal-form modulo hypotheses", None
        if self.contradictory(pc):
            self.time += time.time() - t0; return "proved", "normal-form (no such case)", None
        if unify and len(self.sums([g])) > 1:
            g2 = self.unify(pc, g)
            if g2 is not g:
                r = self.discharge(pc, g2, timeout, deep, False)
                if r[0] == "proved": return "proved", r[1] + "+equal sums", None
        if deep:
            if self.linmon(pc, g): return "proved", "normal-form+linear", None
            g2 = self.rounding(pc, g)
            if g2 is True: return "proved", "normal-form+rounding", None
            if g2 is not None:
                r = self.discharge(pc, g2, timeout, False, unify)
                if r[0] == "proved": return "proved", r[1] + "+rounding", None
        if self.isums(g):
            pc = tuple(pc) + tuple(self.isum_facts(pc, g))
        r, s = self._run(list(pc) + [lnot(g)], timeout or self.timeout)
        if r == z3.unsat: return "proved", "z3", None
        if r == z3.sat: return "refuted", "z3", s.model()
        if deep:
            try: g2 = self.atoms_nf(pc, g)
            except (TooBig, ZeroDivisionError, RecursionError): g2 = g
            if g2 is not g:
                if g2 is TRUE: return "proved", "normal-form modulo hypotheses", None
                for hs in ([], list(pc)):
                    r, _ = self._run(hs + [lnot(g2)], timeout or self.timeout)
                    if r == z3.unsat: return "proved", "normal-form modulo hypotheses+z3", None
            r2 = self.cvc5(list(pc) + [lnot(g)], timeout or 10000)
            if r2 == "unsat": return "proved", "cvc5", None
            r, s = self._run(list(pc) + [lnot(g)], 4 * (timeout or self.timeout))
            if r == z3.unsat: return "proved", "z3", None
            if r == z3.sat: return "refuted", "z3", s.model()
        return "unknown", "z3+cvc5", None
    def rounding(self, pc, g):
        """a <= b with floor(y) in a or b with a coefficient k of known sign: y - 1 < floor(y) <= y gives a sufficient comparison"""
        if g.op not in ("le", "lt") or g.args[0].sort != "R": return None
        done = False
        for _ in range(3):
            fl = []; seen = set(); stack = [g]
            while stack:
                x = stack.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == "i2r" and x.args[0].op == "floor": fl.append(x)
                stack.extend(t.children(x))
            if not fl: break
            F = min(fl, key=lambda x: x.id); y = F.args[0].args[0]; z = t.var("floor!z", "R")
            if any(x is not F and F in self.below(x) for x in fl): return None
            try: n, den = self.rat(t.subst(t.sub(g.args[1], g.args[0]), {F: z}))
            except (TooBig, ZeroDivisionError): return None
            dep = lambda a: a != z.id and z in t.free_atoms(self.atomterm[a])
            if any(a == z.id or dep(a) for q, _ in den.values() for m in q for a, e in m): return None
            if any(dep(a) or a == z.id and e > 1 for m in n for a, e in m): return None
            D = const_r(1)
            for q, e in den.values():
                for _ in range(e): D = t.mul(D, self.pterm(q))
            k = t.rdiv(self.pterm({tuple(f for f in m if f[0] != z.id): c for m, c in n.items() if any(a == z.id for a, e in m)}), D)
            r = t.rdiv(self.pterm({m: c for m, c in n.items() if not any(a == z.id for a, e in m)}), D)
            k = self.norm(k)
            if self.prove(pc, t.le(k, const_r(0))): new = t.add(r, t.mul(k, y))
            elif self.prove(pc, t.le(const_r(0), k)): new = t.add(r, t.mul(k, t.sub(y, const_r(1))))
            else: return None
            g = t.mk(g.op, (const_r(0), self.norm(new)), "B"); done = True
        if not done: return None
        if self.compared(pc, g): return True
        return g
    def below(self, x):
        out = set(); st = list(t.children(x))
        while st:
            y = st.pop()
            if y not in out: out.add(y); st.extend(t.children(y))
        return out
    def linmon(self, pc, g):
        """a comparison that is a linear combination of comparisons among the hypotheses, monomials of the normal forms taken as unknowns"""
        if g.op not in ("le", "lt") or g.args[0].sort != "R": return False
        vs = {}
        def lin(a, b):
            n, den = self.rat(t.sub(b, a)); dk = tuple(sorted((k, e) for k, (q, e) in den.items())) if den else ()
            r = None
            for m, co in self.red(n).items():
                k = (m, dk)
                if m == () and not dk: x = z3.RealVal(str(co))
                else:
                    if k not in vs: vs[k] = z3.Real("m%d" % len(vs))
                    x = z3.RealVal(str(co)) * vs[k]
                r = x if r is None else r + x
            return z3.RealVal(0) if r is None else r
        s = z3.Solver(); s.set("timeout", 1000); t0 = time.time()
        try:
            e = lin(*g.args); s.add(e < 0 if g.op == "le" else e <= 0)
            for h in pc:
                for x in (h.args if h.op == "and" else (h,)):
                    if x.op in ("le", "lt", "eq") and x.args[0].sort == "R":
                        try: e = lin(*x.args)
                        except (TooBig, ZeroDivisionError): continue
                        s.add(e >= 0 if x.op == "le" else e > 0 if x.op == "lt" else e == 0)
        except (TooBig, ZeroDivisionError): return False
        r = s.check() == z3.unsat; self.time += time.time() - t0
        return r
    def compared(self, pc, g):
        """the difference of g is that of a hypothesis"""
        d = t.sub(g.args[1], g.args[0])
        for h in pc:
            for x in (h.args if h.op == "and" else (h,)):
                if x.op in ("le", "lt") and x.args[0].sort == "R" and (x.op == "lt" or g.op == "le") and self.polyeq(d, t.sub(x.args[1], x.args[0])): return True
        return False
    def atoms_nf(self, pc, g):
        """g with every comparison of reals written as a polynomial, reduced by the equalities among the hypotheses, against 0,
        and the arguments of functions and the branches of conditionals inside it in normal form"""
        S = self.under(pc) or self; memo = {}
        def term(x):
            r = memo.get(x)
            if r is None:
                if x.op in ("sum", "isum"): r = x
                elif x.op in ("and", "or", "not", "lt", "le", "eq"): r = atom(x)
                else:
                    r = t.rebuild(x, term)
                    if r.op == "app" and r.sort == "R": r = t.mk("app", (r.args[0],) + tuple(S.norm(a) if a.sort == "R" else a for a in r.args[1:]), "R")
                    elif r.op == "ite" and r.sort == "R": r = t.ite(r.args[0], S.norm(r.args[1]), S.norm(r.args[2]))
                memo[x] = r
            return r
        def atom(c):
            if c.op in ("and", "or"): return (land if c.op == "and" else t.lor)(*[atom(x) for x in c.args])
            if c.op == "not": return lnot(atom(c.args[0]))
            if c.op not in ("lt", "le", "eq") or c.args[0].sort != "R": return c
            a, b = (term(x) for x in c.args)
            n, d = S.rat(t.sub(b, a)); n = S.red(n); sg = 1
            for p, e in d.values():
                if e % 2 == 0 or c.op == "eq": continue
                y = S.pterm(p)
                if self.prove(pc, t.lt(const_r(0), y)): continue
                if self.prove(pc, t.lt(y, const_r(0))): sg = -sg; continue
                return t.mk(c.op, (a, b), "B")
            if not n: return t.TRUE if c.op != "lt" else t.FALSE
            lm = max(n, key=lambda m: (sum(e for _, e in m), m)); q = abs(n[lm]) if c.op != "eq" else n[lm]
            y = S.pterm({m: sg * k / q for m, k in n.items()})
            return {"lt": t.lt, "le": t.le, "eq": t.eq}[c.op](const_r(0), y)
        return atom(g)
    def squares(self, pc, a, b):
        """a hypothesis says that a sum of squares is zero, and a - b is one of the squared terms"""
        for h in pc:
            if h.op != "eq" or h.args[0].sort != "R": continue
            x, y = h.args
            if t.is_rc(x): x, y = y, x
            if not t.is_rc(y) or y.args[0] != 0: continue
            todo = [x]; sq = []; ok = True
            while todo:
                x = todo.pop()
                if x.op == "radd": todo.extend(x.args)
                elif x.op == "rmul" and x.args[0] is x.args[1]: sq.append(x.args[0])
                else: ok = False; break
            if ok and any(self.polyeq(t.sub(a, b), s) or self.polyeq(t.sub(b, a), s) for s in sq): return True
        return False
    def contradictory(self, pc):
        """a hypothesis a != b whose sides are equal modulo the equations among the hypotheses"""
        ne = tuple(h for h in pc if h.op == "not" and h.args[0].op == "eq" and h.args[0].args[0].sort == "R")
        if not ne: return False
        S = self.under(pc)
        if S is None: return False
        key = (ne, id(S))
        if key not in self.contra:
            try: self.contra[key] = any(S.polyeq(*h.args[0].args) for h in ne)
            except RecursionError: self.contra[key] = False
        return self.contra[key]
    contra = {}
    def nonzero(self, pc, x):
        """x != 0 because it is a constant times a - b for a hypothesis a != b (x may be a square root of such)"""
        if x.op == "app" and x.args[0] == "sqrt": x = x.args[1]
        elif x.op == "rmul" and t.is_rc(x.args[0]) and x.args[1].op == "app" and x.args[1].args[0] == "sqrt": x = x.args[1].args[1]
        for S in (self, self.under(pc)):
            if S is None: continue
            try:
                n, d = S.rat(x); n = S.red(n)
                if len(n) == 1 and () in n: return True
                for h in pc:
                    if h.op == "not" and h.args[0].op == "eq" and h.args[0].args[0].sort == "R":
                        m, e = S.rat(t.sub(*h.args[0].args)); m = S.red(m)
                        if len(m) == len(n) and m.keys() == n.keys() and m:
                            k = next(iter(m)); q = n[k] / m[k]
                            if all(n[y] == q * m[y] for y in m): return True
            except (TooBig, ZeroDivisionError, RecursionError): pass
        return False
    def find_ite(self, x, seen):
        if x in seen: return None
        seen.add(x)
        if x.op in ("ite", "iite"):
            c = self.find_ite(x.args[0], seen)
            return c if c is not None else x.args[0]
        if x.op in ("sum", "isum"): return None
        for c in t.children(x):
            r = self.find_ite(c, seen)
            if r is not None: return r
        return None
    def assume_in(self, x, c, val):
        """replace condition c by a constant inside x"""
        m = {c: TRUE if val else FALSE}
        if c.op == "lt": m[t.mk("le", (c.args[1], c.args[0]), "B")] = FALSE if val else TRUE
        if c.op == "le": m[t.mk("lt", (c.args[1], c.args[0]), "B")] = FALSE if val else TRUE
        if c.op == "and" and val:
            for y in c.args: m[y] = TRUE
        if c.op == "or" and not val:
            for y in c.args: m[y] = FALSE
        return t.subst(x, m)
    def split(self, pc, g, depth=0, budget=None):
        if budget is None: budget = [400]
        c = self.find_ite(g, set())
        if c is None: return False
        # reduce compound conditions to a literal
        while c.op in ("and", "or", "not"): c = c.args[0]
        if depth > 24 or budget[0] <= 0: return False
        for val in (True, False):
            budget[0] -= 1
            lit = c if val else lnot(c)
            if not self.feasible(pc, lit): continue
            g2 = self.assume_in(g, c, val)
            if g2 is TRUE: continue
            pc2 = pc + (lit,)
            if g2.op == "eq" and self.polyeq(*g2.args): continue
            if self.find_ite(g2, set()) is not None:
                if self.split(pc2, g2, depth + 1, budget): continue
                return False
            if g2.op == "eq" and self.polyeq_under(pc2, *g2.args): continue
            if self.prove(pc2, g2, 2000): continue
            return False
        return True
    def cvc5(self, fs, timeout):
        import subprocess, tempfile, os
        s = z3.Solver()
        for f in fs: s.add(self.z(f))
        for ax in self.axioms(fs): s.add(self.z(ax))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
        t0 = time.time()
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--nl-cov", p], capture_output=True, text=True, timeout=timeout / 1000 + 10)
            out = r.stdout.strip().splitlines()
            res = out[0] if out else "unknown"
        except Exception: res = "unknown"
        finally: os.unlink(p); self.time += time.time() - t0
        self.count("cvc5 query")
        return res

class Indicators(Solver):
    """polynomials in which ite(c,u,w) is [c]*(u-w)+w with an indicator [c], [c]^2=[c];
    conditions provably equivalent under pc share one indicator"""
    def __init__(s, parent, pc):
        s.zc = parent.zc; s.P = parent; s.pc = pc; s.pmemo = {}; s.nmemo = {}; s.atoms = {}; s.atomterm = {}; s.sq = {}; s.models = []; s.reps = []; s.cmemo = {}; s.ncmemo = {}
        s.bat = {}; s.rels = {}; s.rules = []; s.user_axioms = parent.user_axioms; s.conj = {}; s.pmi = parent.pmi; s.ipc = parent.ipc
        for h in pc:
            if h.op != "eq" or h.args[0].sort != "R": continue
            try: n, d = s.rat(t.sub(h.args[0], h.args[1]))
            except (TooBig, ZeroDivisionError): continue
            if not n or len(n) > 60: continue
            lm = max(n, key=lambda m: (sum(e for _, e in m), m))
            if lm == (): continue
            s.rules = s.rules + [(lm, {m: -c / n[lm] for m, c in n.items() if m != lm})]; s.pmemo = {}
    def ev(s, m, c):
        v = m.eval(s.z(c), model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None
    def ask(s, f):
        """is f unsatisfiable with pc"""
        if f is FALSE: return True
        if lnot(f) in s.pc or s.P.quick(s.pc, lnot(f)) or s.P.ints(s.pc, f) is False: return True
        r, m = s.P.inc_model(s.pc, f)
        if r == z3.sat and m is not None: s.models.append(m)
        return r == z3.unsat
    def sig(s, c, old=()):
        return tuple(old) + tuple(s.ev(m, c) for m in s.models[len(old):])
    def classify(s, c):
        """TRUE, FALSE or (representative, positive?)"""
        r = s.cmemo.get(c)
        if r is None: r = s.cmemo[c] = s.classify_(c)
        return r
    def classify_(s, c):
        if c is TRUE or c is FALSE: return c
        if c.op == "not":
            r = s.classify(c.args[0])
            return (FALSE if r is TRUE else TRUE if r is FALSE else (r[0], not r[1]))
        g = s.sig(c)
        if all(g) and s.ask(lnot(c)): return TRUE
        g = s.sig(c, g)
        if not any(g) and s.ask(c): return FALSE
        for e in s.reps:
            g = s.sig(c, g); e[1] = s.sig(e[0], e[1])
            if all(x == y for x, y in zip(g, e[1])) and s.ask(t.lnot(t.eq(c, e[0]))): return (e[0], True)
            g = s.sig(c, g); e[1] = s.sig(e[0], e[1])
            if all(x != y for x, y in zip(g, e[1])) and s.ask(t.eq(c, e[0])): return (e[0], False)
        s.reps.append([c, s.sig(c, g)])
        return (c, True)
    def batom(s, c):
        """indicator polynomial of c"""
        r = s.classify(c)
        if r is TRUE: return {(): Fraction(1)}
        if r is FALSE: return {}
        v = t.mk("var", ("[%d]" % r[0].id,), "R"); s.atomterm[v.id] = t.ite(r[0], const_r(1), const_r(0))
        s.bat[v.id] = r[0]; s.sq[v.id] = {((v.id, 1),): Fraction(1)}
        b = {((v.id, 1),): Fraction(1)}
        return b if r[1] else padd({(): Fraction(1)}, b, -1)
    def rat(s, x):
        r = s.pmemo.get(x)
        if r is not None: return r
        if x.op == "i2r" and x.args[0].op == "iite":
            c, a, b = x.args[0].args; return s.rat(t.ite(c, t.toreal(a), t.toreal(b)))
        if x.op == "ite":
            b = s.batom(x.args[0])
            if not b: r = s.rat(x.args[2])
            elif b == {(): Fraction(1)}: r = s.rat(x.args[1])
            else:
                u, w = s.rat(x.args[1]), s.rat(x.args[2])
                d = s.ratadd(u, ({m: -c for m, c in w[0].items()}, w[1]))
                r = s.ratadd((s.red(s.bmul(d[0], b)), d[1]), w)
            s.pmemo[x] = r
            return r
        return Solver.rat(s, x)
    def rel(s, a, b):
        """'x' exclusive, '<' a implies b, '>' b implies a, '' neither"""
        k = (a, b); r = s.rels.get(k)
        if r is None:
            ca, cb = s.bat[a], s.bat[b]
            ga, gb = s.sig(ca), s.sig(cb); ms = list(zip(ga, gb))
            def tryq(bad, f): return not any(bad(x, y) for x, y in zip(s.sig(ca), s.sig(cb))) and s.ask(f)
            if tryq(lambda x, y: x and y, land(ca, cb)): r = "x"
            elif tryq(lambda x, y: x and not y, land(ca, lnot(cb))): r = "<"
            elif tryq(lambda x, y: y and not x, land(cb, lnot(ca))): r = ">"
            else: r = ""
            s.rels[k] = r; s.rels[(b, a)] = {"<": ">", ">": "<"}.get(r, r)
        return r
    def bmul(s, p, b):
        """p * (indicator polynomial b = [c] or 1-[c]), dropping impossible products"""
        out = {}
        for bm, bc in b.items():
            if bm == ():
                out = padd(out, {m: c * bc for m, c in p.items()}); continue
            (bi, _), = bm; q = {}
            for m, c in p.items():
                drop = need = None; rem = []
                for a, e in m:
                    if a not in s.bat: continue
                    if a == bi: need = False; break
                    r = s.rel(a, bi)
                    if r == "x": drop = True; break
                    if r == "<": need = False; break
                    if r == ">": rem.append(a)
                if drop: continue
                k = m if need is False else mmul(tuple(x for x in m if x[0] not in rem), bm)
                v = q.get(k, 0) + c * bc
                if v: q[k] = v
                else: q.pop(k, None)
            out = padd(out, q)
        return out
    def left(s, n):
        """None when the polynomial vanishes, else a condition worth splitting on"""
        groups = {}
        for m, c in n.items():
            bs = tuple(a for a, e in m if a in s.bat); rest = tuple((a, e) for a, e in m if a not in s.bat)
            groups.setdefault(bs, {})[rest] = c
        acc = {}
        for bs, p in groups.items():
            k = TRUE
            if bs:
                r = s.classify(land(*[s.bat[a] for a in bs]))
                if r is FALSE: continue
                if r is TRUE: k = TRUE
                elif r[1]: k = r[0]
                else:
                    acc[TRUE] = padd(acc.get(TRUE, {}), p); p = {m: -c for m, c in p.items()}; k = r[0]
            acc[k] = padd(acc.get(k, {}), p)
        acc = {k: p for k, p in acc.items() if p}
        if not acc: return None
        for k in acc:
            if k is not TRUE:
                while k.op in ("and", "or", "not"): k = k.args[0] if k.op == "not" else next((y for y in k.args if s.classify(y) not in (TRUE, FALSE)), k.args[0])
                return k
        return TRUE
