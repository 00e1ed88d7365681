"""Hash-consed terms over Int, Real and Bool.

Int terms are kept in polynomial normal form (so address arithmetic compares
syntactically); Real terms are a DAG with constant folding, normalised only by
the back ends (solve.py).  Machine doubles are read as reals (assumption A1).
"""
from fractions import Fraction
import math

_tab = {}
class T:
    __slots__ = ("op", "args", "sort", "id", "fv_")
    def __repr__(self): return pp(self)
    # arithmetic sugar ----------------------------------------------------
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return rdiv(toreal(a), toreal(lift(b, "R")))
    def __rtruediv__(a, b): return rdiv(toreal(lift(b, "R")), toreal(a))
    def __neg__(a): return neg(a)
    def __pow__(a, n):
        assert isinstance(n, int)
        if n < 0: return rdiv(const_r(1), a ** (-n))
        r = lift(1, a.sort)
        for _ in range(n): r = mul(r, a)
        return r
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self): raise TypeError("symbolic boolean used concretely: %r" % self)

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = len(_tab) + 1; t.fv_ = None
        _tab[key] = t
    return t

# --- constants ------------------------------------------------------------
def const_i(n): return mk("ipoly", (((), int(n)),) if n else (), "I")
def const_r(q): return mk("rc", (Fraction(q),), "R")
TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")
def const_b(b): return TRUE if b else FALSE
PI = mk("var", ("PI",), "R")

def lift(x, sort="R"):
    if isinstance(x, T):
        if sort == "R" and x.sort == "I": return toreal(x)
        return x
    if isinstance(x, bool): return const_b(x)
    if sort == "I": return const_i(x)
    if isinstance(x, float): return const_r(simplest(x))
    return const_r(x)

def var(name, sort="R"):
    if sort == "I":
        a = mk("ivar", (name,), "Ia")
        return _ip({(a,): 1})
    return mk("var", (name,), sort)

def app(f, args, sort="R"):
    args = tuple(args)
    if sort == "I":
        return _ip({(mk("iapp", (f,) + args, "Ia"),): 1})
    return mk("app", (f,) + args, sort)

def simplest(x):
    """the simplest rational that rounds to the double x (assumption A2)"""
    if x == int(x) and abs(x) < 2**62: return Fraction(int(x))
    if math.isinf(x) or math.isnan(x): raise ValueError("non-finite literal")
    s = -1 if x < 0 else 1
    a = abs(x)
    lo = (Fraction(a) + Fraction(math.nextafter(a, 0))) / 2
    hi = (Fraction(a) + Fraction(math.nextafter(a, math.inf))) / 2
    # Stern-Brocot simplest in (lo,hi)
    def simp(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl + 1 < hi: return Fraction(fl + 1) if Fraction(fl) != lo or fl == 0 else Fraction(fl + 1)
        if Fraction(fl) == lo:
            # need fl < r < hi
            n = 1
            d = hi - fl
            q = d.denominator // d.numerator + 1
            return fl + Fraction(1, q)
        r = simp(1 / (hi - fl), 1 / (lo - fl))
        return fl + 1 / r
    r = simp(lo, hi)
    if float(r) != a or r.numerator * r.denominator > 2**46:
        d = Fraction(repr(a))
        if len(repr(a)) < 18 or float(r) != a: r = d
    return s * r

# --- Int polynomials --------------------------------------------------------
def _ip(d):
    return mk("ipoly", tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda mc: tuple(a.id for a in mc[0]))), "I")
def is_ic(t): return t.op == "ipoly" and (t.args == () or (len(t.args) == 1 and t.args[0][0] == ()))
def icv(t): return t.args[0][1] if t.args else 0
def is_rc(t): return t.op == "rc"
def is_const(t): return is_ic(t) or is_rc(t) or t is TRUE or t is FALSE

def add(a, b):
    if a.sort == "I" and b.sort == "I":
        d = dict(a.args)
        for m, c in b.args: d[m] = d.get(m, 0) + c
        return _ip(d)
    a = toreal(a); b = toreal(b)
    if is_rc(a):
        if a.args[0] == 0: return b
        if is_rc(b): return const_r(a.args[0] + b.args[0])
    if is_rc(b) and b.args[0] == 0: return a
    if b.id < a.id: a, b = b, a
    return mk("radd", (a, b), "R")
def neg(a):
    if a.sort == "I": return _ip({m: -c for m, c in a.args})
    return mul(const_r(-1), a)
def sub(a, b):
    if a is b: return const_i(0) if a.sort == "I" else const_r(0)
    return add(a, neg(b))
def mul(a, b):
    if a.sort == "I" and b.sort == "I":
        d = {}
        for m, c in a.args:
            for n, e in b.args:
                k = tuple(sorted(m + n, key=lambda x: x.id))
                d[k] = d.get(k, 0) + c * e
        return _ip(d)
    a = toreal(a); b = toreal(b)
    if is_rc(b): a, b = b, a
    if is_rc(a):
        if a.args[0] == 0: return a
        if a.args[0] == 1: return b
        if is_rc(b): return const_r(a.args[0] * b.args[0])
        if b.op == "rmul" and is_rc(b.args[0]): return mul(const_r(a.args[0] * b.args[0].args[0]), b.args[1])
        return mk("rmul", (a, b), "R")
    if b.op == "rmul" and is_rc(b.args[0]):
        return mul(b.args[0], mul(a, b.args[1]))
    if a.op == "rmul" and is_rc(a.args[0]):
        return mul(a.args[0], mul(a.args[1], b))
    if b.id < a.id: a, b = b, a
    return mk("rmul", (a, b), "R")
def rdiv(a, b):
    if is_rc(b) and b.args[0] != 0: return mul(const_r(1 / b.args[0]), a)
    if is_rc(a) and a.args[0] == 0: return a
    return mk("rdiv", (a, b), "R")
def toreal(t):
    if t.sort == "R": return t
    if t.sort == "B": return ite(t, const_r(1), const_r(0))
    if is_ic(t): return const_r(icv(t))
    # homomorphic lifting keeps real arithmetic over integer atoms polynomial
    r = const_r(0)
    for m, c in t.args:
        p = const_r(c)
        for a in m:
            p = mul(p, mk("i2r", (a,), "R"))
        r = add(r, p)
    return r

def idiv_trunc(a, b):
    if is_ic(b) and icv(b) != 0:
        n = icv(b)
        if is_ic(a):
            q = abs(icv(a)) // abs(n)
            return const_i(q if (icv(a) >= 0) == (n > 0) else -q)
        if all(c % n == 0 for _, c in a.args): return _ip({m: c // n for m, c in a.args})
    return _ip({(mk("idiv", (a, b), "Ia"),): 1})
def irem_trunc(a, b):
    if is_ic(b) and icv(b) != 0 and all(c % icv(b) == 0 for _, c in a.args): return const_i(0)
    if is_ic(a) and is_ic(b) and icv(b):
        return const_i(int(math.fmod(icv(a), icv(b))))
    return sub(a, mul(b, _ip({(mk("idiv", (a, b), "Ia"),): 1})))
def exact_div(a, n):
    """a/n as an Int polynomial when the division is exact, else None (n int)"""
    if n and all(c % n == 0 for _, c in a.args): return _ip({m: c // n for m, c in a.args})
    return None
def floor_i(x):
    """Int floor of a Real"""
    if is_rc(x): return const_i(math.floor(x.args[0]))
    q = real_as_int(x)
    if q is not None: return q
    return _ip({(mk("floor", (x,), "Ia"),): 1})
def real_as_int(x):
    """if the Real x is syntactically an integer polynomial, return it as Int"""
    try: return _rai(x)
    except ValueError: return None
def _rai(x):
    if is_rc(x):
        if x.args[0].denominator != 1: raise ValueError
        return const_i(int(x.args[0]))
    if x.op == "i2r": return _ip({(x.args[0],): 1})
    if x.op == "radd": return add(_rai(x.args[0]), _rai(x.args[1]))
    if x.op == "rmul": return mul(_rai(x.args[0]), _rai(x.args[1]))
    raise ValueError
def trunc_i(x):
    q = real_as_int(x)
    if q is not None: return q
    return ite(le(const_r(0), x), floor_i(x), neg(floor_i(neg(x))))
def ceil_i(x): return neg(floor_i(neg(x)))

# --- Bool -------------------------------------------------------------------
def lnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "lt": return le(a.args[1], a.args[0])
    if a.op == "le": return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")
def land(*xs):
    out = []
    for x in xs:
        if x is TRUE or x in out: continue
        if x is FALSE: return FALSE
        if x.op == "and": out.extend(y for y in x.args if y not in out)
        else: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")
def lor(*xs):
    out = []
    for x in xs:
        if x is FALSE or x in out: continue
        if x is TRUE: return TRUE
        out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), "B")
def implies(a, b): return lor(lnot(a), b)
def _c2(a, b):
    a = lift(a) if not isinstance(a, T) else a
    b = lift(b, a.sort) if not isinstance(b, T) else b
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    return a, b
def lt(a, b):
    if not isinstance(a, T) and isinstance(b, T): a = lift(a, b.sort)
    a, b = _c2(a, b)
    if a.sort == "I":
        d = sub(b, a)
        if is_ic(d): return const_b(icv(d) > 0)
    elif is_rc(a) and is_rc(b): return const_b(a.args[0] < b.args[0])
    if a is b: return FALSE
    return mk("lt", (a, b), "B")
def le(a, b):
    if not isinstance(a, T) and isinstance(b, T): a = lift(a, b.sort)
    a, b = _c2(a, b)
    if a.sort == "I":
        d = sub(b, a)
        if is_ic(d): return const_b(icv(d) >= 0)
    elif is_rc(a) and is_rc(b): return const_b(a.args[0] <= b.args[0])
    if a is b: return TRUE
    return mk("le", (a, b), "B")
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if not isinstance(a, T) and isinstance(b, T): a = lift(a, b.sort)
    a, b = _c2(a, b)
    if a is b: return TRUE
    if a.sort == "I":
        d = sub(b, a)
        if is_ic(d): return const_b(icv(d) == 0)
        g = 0; r = 0
        for m, co in d.args:
            if m == (): r = co
            else: g = math.gcd(g, co)
        if g > 1 and r % g: return FALSE
    elif a.sort == "R" and is_rc(a) and is_rc(b): return const_b(a.args[0] == b.args[0])
    elif a.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return lnot(b)
        if b is FALSE: return lnot(a)
    if b.id < a.id: a, b = b, a
    return mk("eq", (a, b), "B")
def ne(a, b): return lnot(eq(a, b))
def ite(c, a, b):
    if not isinstance(c, T): return a if c else b
    if not isinstance(a, T) and isinstance(b, T): a = lift(a, b.sort)
    if not isinstance(b, T): b = lift(b, a.sort)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "le": c, a, b = lt(c.args[1], c.args[0]), b, a
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    if a.sort == "B":
        return lor(land(c, a), land(lnot(c), b))
    if a.sort == "I":
        g = math.gcd(content(a), content(b))
        if g > 1: return mul(const_i(g), ite(c, _ip({m: k // g for m, k in a.args}), _ip({m: k // g for m, k in b.args})))
        return _ip({(mk("iite", (c, a, b), "Ia"),): 1})
    return mk("ite", (c, a, b), "R")
def content(a): return math.gcd(*[k for _, k in a.args]) if a.args else 0
def tmax(a, b): return ite(lt(a, b), b, a)
def tmin(a, b): return ite(lt(b, a), b, a)

# --- functions --------------------------------------------------------------
def sqrt(x):
    x = lift(x)
    if is_rc(x) and x.args[0] >= 0:
        n, d = math.isqrt(x.args[0].numerator), math.isqrt(x.args[0].denominator)
        if n * n == x.args[0].numerator and d * d == x.args[0].denominator: return const_r(Fraction(n, d))
    return mk("app", ("sqrt", x), "R")
def fabs(x):
    x = lift(x)
    if is_rc(x): return const_r(abs(x.args[0]))
    return ite(le(const_r(0), x), x, neg(x))
def fn(name, *args): return mk("app", (name,) + tuple(lift(a) for a in args), "R")

_sumc = [0]
def tsum(v, lo, hi, body):
    """sum of body over Int var v in [lo,hi)  (v: Int var term)"""
    if is_ic(lo) and is_ic(hi):
        n = icv(hi) - icv(lo)
        if n <= 0: return lift(0, body.sort)
        if n <= 64:
            r = lift(0, body.sort)
            for k in range(icv(lo), icv(hi)): r = add(r, subst(body, {v: const_i(k)}))
            return r
    if is_const(body):
        if body.sort == "R" and body.args[0] == 0: return body
    if is_ic(lo) and icv(lo) == 0 and len(hi.args) == 1 and hi.args[0][1] == 1 and len(hi.args[0][0]) == 1 and hi.args[0][0][0].op == "iite":
        # an empty range sums to 0: max(0, n) terms are n terms
        q, x, y = hi.args[0][0][0].args
        if is_ic(y) and icv(y) == 0 and q is lt(const_i(0), x): hi = x
    a = atom_of(v)
    if body.sort == "I":
        if is_ic(body):
            n = sub(hi, lo); n = ite(lt(const_i(0), n), n, const_i(0))
            return mul(n, body)
        g = content(body)
        if g > 1: return mul(const_i(g), tsum(v, lo, hi, _ip({m: k // g for m, k in body.args})))
        return _ip({(mk("isum", (a, lo, hi, body), "Ia"),): 1})
    return mk("sum", (a, lo, hi, body), "R")
def atom_of(v):
    """the atom of an Int variable term"""
    (m, c), = v.args
    assert c == 1 and len(m) == 1
    return m[0]

# --- traversal ----------------------------------------------------------------
def children(t):
    if t.op == "ipoly":
        s = []
        for m, c in t.args: s.extend(m)
        return s
    return [a for a in t.args if isinstance(a, T)]
def free_atoms(t):
    """set of leaf atoms (var/ivar) and app heads ('name') below t"""
    if t.fv_ is not None: return t.fv_
    stack = [t]
    while stack:
        u = stack[-1]
        if u.fv_ is not None: stack.pop(); continue
        todo = [c for c in children(u) if c.fv_ is None]
        if todo: stack.extend(todo); continue
        s = set()
        for c in children(u): s |= c.fv_
        if u.op in ("var", "ivar"): s.add(u)
        if u.op in ("app", "iapp"): s.add(u.args[0])
        if u.op in ("sum", "isum"): s.discard(u.args[0])
        u.fv_ = frozenset(s)
        stack.pop()
    return t.fv_
def depends(t, v):
    """v: Term var (Int poly var or Real var) or app-head name"""
    if isinstance(v, T) and v.op == "ipoly": v = atom_of(v)
    return v in free_atoms(t)

def subst(t, m, _cache=None):
    """substitute; keys: Int var terms / Real vars / any subterm; values terms"""
    if not isinstance(t, T): return t
    mm = {}
    keys = set()
    for k, v in m.items():
        kk = atom_of(k) if k.op == "ipoly" else k
        mm[kk] = v; keys.add(kk)
    leafonly = all(k.op in ("var", "ivar") for k in keys)
    memo = {}
    def go(t):
        if leafonly and not (free_atoms(t) & keys):
            return _asI(t)
        r = memo.get(t)
        if r is not None: return r
        if t in mm: r = mm[t]
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000: sys.setrecursionlimit(200000)
    return go(t)
def _asI(t):
    return _ip({(t,): 1}) if t.sort == "Ia" else t
def rebuild(t, go):
    o = t.op
    if o == "ipoly":
        r = const_i(0)
        for m, c in t.args:
            p = const_i(c)
            for a in m: p = mul(p, go(a))
            r = add(r, p)
        return r
    if o in ("rc", "true", "false", "var"): return t
    if o == "ivar": return _asI(t)
    a = t.args
    if o == "radd": return add(go(a[0]), go(a[1]))
    if o == "rmul": return mul(go(a[0]), go(a[1]))
    if o == "rdiv": return rdiv(go(a[0]), go(a[1]))
    if o == "i2r": return toreal(go(a[0]))
    if o == "app":
        if a[0] == "sqrt": return sqrt(go(a[1]))
        return app(a[0], [go(x) for x in a[1:]], t.sort)
    if o == "iapp": return app(a[0], [go(x) for x in a[1:]], "I")
    if o == "ite" or o == "iite": return ite(go(a[0]), go(a[1]), go(a[2]))
    if o == "idiv": return idiv_trunc(go(a[0]), go(a[1]))
    if o == "floor": return floor_i(go(a[0]))
    if o == "lt": return lt(go(a[0]), go(a[1]))
    if o == "le": return le(go(a[0]), go(a[1]))
    if o == "eq": return eq(go(a[0]), go(a[1]))
    if o == "not": return lnot(go(a[0]))
    if o == "and": return land(*[go(x) for x in a])
    if o == "or": return lor(*[go(x) for x in a])
    if o in ("sum", "isum"):
        v = _asI(a[0])
        # capture is avoided by globally fresh bound variables
        return tsum(v, go(a[1]), go(a[2]), go(a[3]))
    raise NotImplementedError(o)

def pp(t, d=0):
    o = t.op; a = t.args
    if d > 12: return "..."
    if o == "ipoly":
        if not a: return "0"
        return "(" + " + ".join(("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(pp(x, d+1) for x in m)) for m, c in a) + ")"
    if o == "rc": return str(a[0])
    if o in ("var", "ivar"): return str(a[0])
    if o in ("true", "false"): return o
    if o == "i2r": return pp(a[0], d+1)
    sy = {"radd": "+", "rmul": "*", "rdiv": "/", "lt": "<", "le": "<=", "eq": "==", "and": " & ", "or": " | ", "idiv": "//"}
    if o in sy: return "(" + sy[o].join(pp(x, d+1) for x in a) + ")"
    if o in ("app", "iapp"): return "%s(%s)" % (a[0], ",".join(pp(x, d+1) for x in a[1:]))
    return "%s(%s)" % (o, ",".join(pp(x, d+1) if isinstance(x, T) else str(x) for x in a))

# --- numeric evaluation ---------------------------------------------------------
def evalf(t, env, num=float, apps=None):
    """evaluate with env: atom/var -> number; apps: name -> callable"""
    memo = {}
    fm = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "tan": math.tan,
          "pow": math.pow, "acos": math.acos, "asin": math.asin, "atan": math.atan, "atan2": math.atan2}
    if apps: fm.update(apps)
    def go(t):
        if t in memo: return memo[t]
        o = t.op; a = t.args
        if o == "ipoly":
            r = 0
            for m, c in a:
                p = c
                for x in m: p = p * go(x)
                r = r + p
        elif o == "rc": r = num(a[0])
        elif o in ("var", "ivar"):
            if t in env: r = env[t]
            elif a[0] in env: r = env[a[0]]
            elif a[0] == "PI": r = math.pi
            else: raise KeyError(a[0])
        elif o == "true": r = True
        elif o == "false": r = False
        elif o == "radd": r = go(a[0]) + go(a[1])
        elif o == "rmul": r = go(a[0]) * go(a[1])
        elif o == "rdiv": r = go(a[0]) / go(a[1])
        elif o == "i2r": r = num(go(a[0]))
        elif o in ("app", "iapp"): r = fm[a[0]](*[go(x) for x in a[1:]])
        elif o in ("ite", "iite"): r = go(a[1]) if go(a[0]) else go(a[2])
        elif o == "idiv":
            x, y = go(a[0]), go(a[1]); q = abs(x) // abs(y); r = q if (x >= 0) == (y > 0) else -q
        elif o == "floor": r = math.floor(go(a[0]))
        elif o == "lt": r = go(a[0]) < go(a[1])
        elif o == "le": r = go(a[0]) <= go(a[1])
        elif o == "eq": r = go(a[0]) == go(a[1])
        elif o == "not": r = not go(a[0])
        elif o == "and": r = all(go(x) for x in a)
        elif o == "or": r = any(go(x) for x in a)
        elif o in ("sum", "isum"):
            lo, hi = go(a[1]), go(a[2]); r = 0
            for k in range(lo, hi):
                e2 = dict(env); e2[a[0]] = k
                r += evalf(a[3], e2, num, apps)
        else: raise NotImplementedError(o)
        memo[t] = r
        return r
    return go(t)

# --- differentiation ------------------------------------------------------------
def diff(x, v, rules):
    """derivative of the Real term x with respect to the Real variable v, branch by branch;
    rules: app name -> function(args, dargs) giving the derivative"""
    memo = {}
    Z = const_r(0); ONE = const_r(1)
    def go(x):
        if x is v: return ONE
        if x.op != "rc" and x.op != "var" and not depends(x, v): return Z
        r = memo.get(x)
        if r is not None: return r
        o, a = x.op, x.args
        if o in ("rc", "var"): return Z
        if o == "radd": r = add(go(a[0]), go(a[1]))
        elif o == "rmul": r = add(mul(go(a[0]), a[1]), mul(a[0], go(a[1])))
        elif o == "rdiv":
            # (a/b)' = (a' - (a/b) b')/b
            r = rdiv(sub(go(a[0]), mul(x, go(a[1]))), a[1])
        elif o == "ite": r = ite(a[0], go(a[1]), go(a[2]))
        elif o == "app" and a[0] == "sqrt": r = rdiv(go(a[1]), mul(const_r(2), x))
        elif o == "app" and a[0] in rules: r = rules[a[0]](a[1:], [go(y) for y in a[1:]])
        else: raise NotImplementedError("derivative of " + o)
        memo[x] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000: sys.setrecursionlimit(200000)
    return go(x)
