"""Contracts: symbolic run + discharge, and native replay of the same specification.

A contract names a harness entry point (an extern "C" wrapper that does nothing
but marshal plain arguments into the real /repo types and call the real /repo
function), its parameters, a precondition and a postcondition.  The
postcondition is one Python function evaluated on symbolic values for the
proof and on numbers for replay.
"""
import ctypes, itertools, math, random
from fractions import Fraction
from . import term as t
from . import exec as ex
from .term import T

# ------------------------------------------------------------------ spec algebra
class SpecLib:
    """operations usable on symbolic terms and on numbers"""
    tol = 1e-9; scale = 1.0
    def _s(self, *a): return any(isinstance(x, T) for x in a)
    def eq(self, a, b):
        if self._s(a, b): return t.eq(a, b)
        if isinstance(a, int) and isinstance(b, int): return a == b
        if math.isnan(a) or math.isnan(b): return False
        return abs(a - b) <= self.tol * (abs(a) + abs(b) + self.scale)
    def le(self, a, b):
        if self._s(a, b): return t.le(a, b)
        if isinstance(a, int) and isinstance(b, int): return a <= b
        if math.isnan(a) or math.isnan(b): return False
        return a <= b + self.tol * (abs(a) + abs(b) + self.scale)
    def lt(self, a, b):
        if self._s(a, b): return t.lt(a, b)
        return a < b
    def ne(self, a, b):
        if self._s(a, b): return t.ne(a, b)
        return a != b
    def land(self, *a):
        if self._s(*a): return t.land(*[t.lift(x) if not isinstance(x, T) else x for x in a])
        return all(a)
    def lor(self, *a):
        if self._s(*a): return t.lor(*[t.lift(x) if not isinstance(x, T) else x for x in a])
        return any(a)
    def lnot(self, a): return t.lnot(a) if isinstance(a, T) else not a
    def imp(self, a, b): return self.lor(self.lnot(a), b)
    def iff(self, a, b):
        if self._s(a, b):
            a = t.lift(a) if not isinstance(a, T) else a; b = t.lift(b) if not isinstance(b, T) else b
            return t.land(self.imp(a, b), self.imp(b, a))
        return bool(a) == bool(b)
    def ite(self, c, a, b):
        if isinstance(c, T):
            return t.ite(c, a if isinstance(a, T) else t.lift(a, b.sort if isinstance(b, T) else "R"), b)
        return a if c else b
    def sqrt(self, x): return t.sqrt(x) if isinstance(x, T) else math.sqrt(x)
    def abs(self, x):
        if isinstance(x, T): return t.fabs(x) if x.sort == "R" else t.ite(t.lt(x, t.const_i(0)), -x, x)
        return abs(x)
    def max(self, a, b): return t.tmax(t.lift(a), t.lift(b)) if self._s(a, b) else max(a, b)
    def min(self, a, b): return t.tmin(t.lift(a), t.lift(b)) if self._s(a, b) else min(a, b)
    def pow2(self, n): return t.app("pow2", [n], "I") if isinstance(n, T) else 1 << n
    def sin(self, x): return t.fn("sin", x) if isinstance(x, T) else math.sin(x)
    def asin(self, x): return t.fn("asin", x) if isinstance(x, T) else math.asin(x)
    def cos(self, x): return t.fn("cos", x) if isinstance(x, T) else math.cos(x)
    def exp(self, x): return t.fn("exp", x) if isinstance(x, T) else math.exp(x)
    def pow(self, x, y): return t.fn("pow", x, y) if self._s(x, y) else math.pow(x, y)
    def floor(self, x): return t.floor_i(x) if isinstance(x, T) else math.floor(x)
    def trunc(self, x): return t.trunc_i(x) if isinstance(x, T) else int(x)
    def ceil(self, x): return t.ceil_i(x) if isinstance(x, T) else math.ceil(x)
    def real(self, x): return t.toreal(x) if isinstance(x, T) else float(x)
    def q(self, n, d=1, like=None): return Fraction(n, d)
    @property
    def pi(self): return t.PI if self.symbolic else math.pi
    def limit0(self, x, v):
        """limit of the rational function x of the variable v > 0 as v -> 0: cancel v, then put v = 0"""
        from .solve import Solver
        sol = Solver(); a = v.id; x = t.subst(x, {t.sqrt(t.mul(v, v)): v}); n, den = sol.rat(x)
        val = lambda p: min((dict(m).get(a, 0) for m in p), default=0)
        if not n: return t.const_r(0)
        k = val(n); d = []
        for p, e in den.values():
            j = val(p); k -= j * e; d.append((sol.pterm({tuple((b, f - j if b == a else f) for b, f in m if not (b == a and f == j)): q for m, q in p.items()}), e))
        j = val(n); r = sol.pterm({tuple((b, f - j if b == a else f) for b, f in m if not (b == a and f == j)): q for m, q in n.items()})
        for q, e in d:
            for _ in range(e): r = t.rdiv(r, q)
        if k < 0: raise ex.PathAbort("no limit")
        if k > 0: return t.const_r(0)
        return t.subst(r, {v: t.const_r(0)})
    symbolic = False
    def ind(self, c): return t.ite(c, t.const_i(1), t.const_i(0)) if isinstance(c, T) else 1 if c else 0
    def isum(self, lo, hi, f):
        if self.symbolic:
            k = t.var(ex.fresh("s"), "I")
            return t.tsum(k, t.lift(lo, "I"), t.lift(hi, "I"), t.lift(f(k), "I"))
        return sum((f(k) for k in range(lo, hi)), 0)
    def sum(self, lo, hi, f):
        """sum of f(k) for lo <= k < hi"""
        if self.symbolic:
            k = t.var(ex.fresh("s"), "I")
            return t.tsum(k, t.lift(lo, "I"), t.lift(hi, "I"), t.toreal(t.lift(f(k))))
        return sum((f(k) for k in range(lo, hi)), 0)
S = SpecLib()

def c(q):
    """exact rational constant usable in both modes"""
    return t.const_r(Fraction(q)) if S.symbolic else float(Fraction(q))

class V:
    """values of the parameters, by name"""
    pass

# ------------------------------------------------------------------ parameters
class P:
    name = None; needs = None
    def ctype(self): return ctypes.c_void_p
def rnd(rng, sm):
    """sample of a real: sm = (lo, hi) or list or callable"""
    if callable(sm): return sm(rng)
    if isinstance(sm, list): return rng.choice(sm)
    lo, hi = sm
    m = rng.random()
    if m < 0.15: return float(rng.randint(math.ceil(lo), math.floor(hi))) if math.floor(hi) >= math.ceil(lo) else rng.uniform(lo, hi)
    return rng.uniform(lo, hi)

class Real(P):
    def __init__(s, name, sample=(-3, 3)): s.name = name; s.sample = sample
    def sym(s, ctx): v = t.var(s.name); setattr(ctx.v, s.name, v); return v
    def gen(s, rng, v): setattr(v, s.name, float(rnd(rng, s.sample)))
    def pack(s, v): return ctypes.c_double(getattr(v, s.name))
class Int(P):
    def __init__(s, name, sample=(-3, 6), value=None): s.name = name; s.sample = sample; s.value = value
    def sym(s, ctx):
        v = t.var(s.name, "I") if s.value is None else t.const_i(s.value); setattr(ctx.v, s.name, v); return v
    def gen(s, rng, v):
        if s.value is not None: x = s.value
        elif callable(s.sample): x = s.sample(rng, v)
        elif isinstance(s.sample, list): x = rng.choice(s.sample)
        else: x = rng.randint(*s.sample)
        setattr(v, s.name, x)
    def pack(s, v): return ctypes.c_int(getattr(v, s.name))
class Bool(Int):
    """int parameter that is 0 or 1"""
    def __init__(s, name): Int.__init__(s, name, [0, 1])
    def sym(s, ctx):
        b = t.mk("var", (s.name,), "B"); setattr(ctx.v, s.name, b); return t.ite(b, t.const_i(1), t.const_i(0))
    def gen(s, rng, v): setattr(v, s.name, rng.random() < 0.5)
    def pack(s, v): return ctypes.c_int(1 if getattr(v, s.name) else 0)

class TooLarge(Exception): pass
def few(n):
    if n > 200000: raise TooLarge()
    return n
class Arr(P):
    """pointer to n elements; n an int or a function of the other parameters.
    mode: 'in' (const), 'out' (uninitialised), 'io' (old value kept in v.<name>0)"""
    def __init__(s, name, n, kind="R", mode="in", sample=(-3, 3), values=None, fix=None, lo=None):
        s.lo = lo; s.fix = fix or {}; s.name = name; s.n = n; s.kind = kind; s.mode = mode; s.sample = sample; s.values = values
    @property
    def es(s): return 8 if s.kind == "R" else 4
    def size(s, v): return s.n(v) if callable(s.n) else s.n
    def elem(s, i):
        if isinstance(i, int) and i in s.fix: return s.lift(s.fix[i])
        if isinstance(i, int): return t.var("%s_%d" % (s.name, i), s.kind) if s.values is None else s.lift(s.values[i])
        return t.app(s.name, (i,), s.kind)
    def lift(s, x): return t.lift(x, s.kind)
    def sym(s, ctx):
        n = s.size(ctx.v); es = s.es
        conc = isinstance(n, int)
        if s.lo is not None: ctx.ex.sol.user_axioms.append(lambda apps: [t.le(t.lift(s.lo, s.kind), t._asI(x)) for x in apps.get(s.name, ())])
        r = ctx.ex.alloc(ctx.st, s.name, size=n * es if conc else t.mul(t.lift(n, "I"), t.const_i(es)), ro=(s.mode == "in"),
                         layout=(es, [(0, "f" if s.kind == "R" else "i", es)]))
        def base(key, ty):
            if ty.size != es or ty.k != ("f" if s.kind == "R" else "i"): 
                if ty.k == "i" and ty.size == 8 and es == 8: pass
                else: raise ex.Unsupported("typed read of " + s.name)
            d = t.exact_div(key[0], es)
            if d is None: raise ex.Unsupported("misaligned read of " + s.name)
            if conc and t.is_ic(d): return s.elem(t.icv(d))
            if conc:
                res = s.elem(n - 1)
                for i in reversed(range(n - 1)): res = t.ite(t.eq(d, t.const_i(i)), s.elem(i), res)
                return res
            return s.elem(d)
        if s.mode != "out": r.base = base
        s.region = r
        ctx.regions[s.name] = r
        class _ty: k = "f" if s.kind == "R" else "i"; size = es; w = 8 * es
        old = [s.elem(i) for i in range(n)] if conc else (lambda i: s.elem(t.lift(i, "I")))
        if s.mode == "in": setattr(ctx.v, s.name, old)
        else:
            if s.mode == "io": setattr(ctx.v, s.name + "0", old)
            def get(st, i):
                i = t.lift(i, "I")
                x = ctx.ex.read(st, r, (t.mul(i, t.const_i(es)),), es, _ty)
                x = ctx.ex.coerce(x, _ty)
                return x
            def final(v, st):
                if conc: setattr(v, s.name, LazyL(lambda i: get(st, i), n))
                else: setattr(v, s.name, lambda i: get(v._st, i))
            ctx.finals.append(final)
        return ex.Ptr(r)
    def gen(s, rng, v):
        n = few(s.size(v))
        if s.mode == "out":
            setattr(v, s.name, None); return
        if s.values is not None: a = list(s.values)
        elif s.kind == "R": a = [float(rnd(rng, s.sample)) for _ in range(n)]
        else: a = [(s.sample(rng, v, i) if callable(s.sample) else rng.choice(s.sample) if isinstance(s.sample, list) else rng.randint(*s.sample)) for i in range(n)]
        setattr(v, s.name if s.mode == "in" else s.name + "0", a if isinstance(s.n, int) else NumArr(a))
    def pack(s, v):
        n = s.size(v); ct = ctypes.c_double if s.kind == "R" else ctypes.c_int
        if s.mode == "out":
            buf = (ct * max(n, 1))(*([float("nan") if s.kind == "R" else -77777] * n))
        else:
            a = getattr(v, s.name if s.mode == "in" else s.name + "0")
            buf = (ct * max(n, 1))(*[a[i] for i in range(n)])
        s.buf = buf; return buf
    def unpack(s, v):
        n = s.size(v)
        if s.mode != "in":
            a = [s.buf[i] for i in range(n)]
            setattr(v, s.name, a if isinstance(s.n, int) else NumArr(a))
class NumArr(list):
    def __call__(s, i): return list.__getitem__(s, i)
class LazyL:
    def __init__(s, f, n): s.f = f; s.n = n; s.c = {}
    def __len__(s): return s.n
    def __getitem__(s, i):
        if isinstance(i, slice): return [s[j] for j in range(*i.indices(s.n))]
        if i < 0: i += s.n
        if not 0 <= i < s.n: raise IndexError(i)
        if i not in s.c: s.c[i] = s.f(i)
        return s.c[i]
def In(name, n, sample=(-3, 3)): return Arr(name, n, "R", "in", sample)
def Out(name, n): return Arr(name, n, "R", "out")
def IO(name, n, sample=(-3, 3)): return Arr(name, n, "R", "io", sample)
def InI(name, n, sample=(-3, 6), fix=None, lo=None): return Arr(name, n, "I", "in", sample, fix=fix, lo=lo)     # lo: every entry at least lo
def OutI(name, n): return Arr(name, n, "I", "out")
def IOI(name, n, sample=(-3, 6)): return Arr(name, n, "I", "io", sample)

class Grid(P):
    """double**..* table over the index box [lo,hi) (x first), `dof` values per node,
    laid out as PETSc's DMDAVecGetArrayDOF does: p[k][j][i][c]"""
    def __init__(s, name, dim, lo, hi, dof, mode="io", sample=(-2, 2)):
        s.name = name; s.dim = dim; s.lo = lo; s.hi = hi; s.dof = dof; s.mode = mode; s.sample = sample
    def bounds(s, v): 
        lo = s.lo(v); hi = s.hi(v); d = s.dof(v) if callable(s.dof) else s.dof
        return lo, hi, d
    def sym(s, ctx):
        lo, hi, d = s.bounds(ctx.v)
        r = ctx.ex.alloc(ctx.st, s.name, kind="grid", levels=s.dim, bounds=[(t.lift(lo[i], "I"), t.lift(hi[i], "I")) for i in reversed(range(s.dim))],
                         dof=d, ro=(s.mode == "in"))
        def base(key, ty):
            if ty.k != "f" and not (ty.k == "i" and ty.size == 8): raise ex.Unsupported("typed grid read")
            q = t.exact_div(key[-1], 8)
            return t.app(s.name, key[:-1] + (q,), "R")
        r.base = base
        ctx.regions[s.name] = r
        class _ty: k = "f"; size = 8; w = 64
        dim = s.dim
        def old(*a):
            ix = tuple(t.lift(x, "I") for x in reversed(a[:dim])); return t.app(s.name, ix + (t.lift(a[dim], "I"),), "R")
        if s.mode == "in": setattr(ctx.v, s.name, old)
        else:
            setattr(ctx.v, s.name + "0", old)
            def final(v, st):
                def get(*a):
                    ix = tuple(t.lift(x, "I") for x in reversed(a[:dim]))
                    return ctx.ex.coerce(ctx.ex.read(v._st, r, ix + (t.mul(t.lift(a[dim], "I"), t.const_i(8)),), 8, _ty), _ty)
                setattr(v, s.name, get)
            ctx.finals.append(final)
        return ex.Ptr(r)
    def gen(s, rng, v):
        lo, hi, d = s.bounds(v)
        data = {}
        import math
        few(math.prod(max(0, b - a) for a, b in zip(lo, hi)))
        for ix in itertools.product(*[range(a, b) for a, b in zip(lo, hi)]):
            for k in range(d): data[ix + (k,)] = float(rnd(rng, s.sample))
        g = GridVal(data)
        setattr(v, s.name if s.mode == "in" else s.name + "0", g)
    GUARD = 2; SENT = 1.0e33
    def pack(s, v):
        lo, hi, d = s.bounds(v); G = s.GUARD
        old = getattr(v, s.name if s.mode == "in" else s.name + "0").d
        lo = list(lo); hi = list(hi)
        rowsz = {}
        # data with guard nodes/components in every direction
        n = [max(0, b - a) + 2 * G for a, b in zip(lo, hi)]; dd = d + 2
        tot = dd
        for x in n: tot *= x
        buf = (ctypes.c_double * max(tot, 1))(*([s.SENT] * max(tot, 1)))
        def flat(ix):
            f = 0
            for i in reversed(range(s.dim)): f = f * n[i] + (ix[i] - lo[i] + G)
            return f * dd
        s.flat = flat
        for key, x in old.items(): buf[flat(key[:-1]) + 1 + key[-1]] = x
        base = ctypes.addressof(buf)
        keep = [buf]
        def table(level, pre):
            # level counts down: dim-1 .. 0 ; returns address to be indexed with absolute index
            PA = ctypes.c_void_p * n[level]
            a = PA()
            for q in range(n[level]):
                ixv = q + lo[level] - G
                if level == 0:
                    a[q] = base + 8 * (flat((ixv,) + pre) + 1)
                else: a[q] = table(level - 1, (ixv,) + pre)
            keep.append(a)
            return ctypes.addressof(a) - 8 * (lo[level] - G)
        top = table(s.dim - 1, ())
        s.keep = keep; s.buf = buf; s.nd = (lo, hi, d, n, dd, G)
        return ctypes.c_void_p(top)
    def unpack(s, v):
        lo, hi, d, n, dd, G = s.nd
        ok = True
        new = {}
        for ix in itertools.product(*[range(a - G, b + G) for a, b in zip(lo, hi)]):
            f = s.flat(ix); inside = all(a <= i < b for i, a, b in zip(ix, lo, hi))
            for k in range(-1, d + 1):
                x = s.buf[f + 1 + k]
                if inside and 0 <= k < d: new[ix + (k,)] = x
                elif x != s.SENT: v._oob.append("%s%r[%d] written outside the field" % (s.name, ix, k))
        if s.mode == "in":
            if new != getattr(v, s.name).d: v._oob.append("read-only field %s modified" % s.name)
        else: setattr(v, s.name, GridVal(new))
class GridVal:
    def __init__(s, d): s.d = d
    def __call__(s, *a): return s.d[tuple(a)]
    def __repr__(s): return repr(s.d) if len(s.d) <= 60 else "<field of %d values>" % len(s.d)

class Fns(P):
    """array of n callbacks void(*)(const double* coord, double* out), each possibly null:
    callback d stores fn_d(coord[0..dim)) in *out"""
    def __init__(s, name, n, dim, always=False): s.name = name; s.n = n; s.dim = dim; s.always = always
    def sym(s, ctx):
        r = ctx.ex.alloc(ctx.st, s.name, size=8 * s.n, ro=True, layout=(8, [(0, "p", 8)]))
        nn = [t.TRUE if s.always else t.mk("var", ("%s_set%d" % (s.name, i),), "B") for i in range(s.n)]
        for i in range(s.n):
            ctx.st.wrs(r).cells[8 * i] = (ex.FnVal("%s_%d" % (s.name, i), nn[i], sym=True), 8)
        dim = s.dim
        def handler(E, st, args, f):
            class _ty: k = "f"; size = 8; w = 64
            co = [E.real(st, E.load(st, ex.Ptr(args[0].r, args[0].off + 8 * d, args[0].idx), _ty)) for d in range(dim)]
            E.store(st, args[1], t.app(f.name, tuple(co), "R"), _ty)
            return None
        ctx.symfn[s.name] = handler
        setattr(ctx.v, s.name + "_set", nn)
        setattr(ctx.v, s.name, lambda d, *co: t.app("%s_%d" % (s.name, d), tuple(t.toreal(t.lift(x)) for x in co), "R"))
        return ex.Ptr(r)
    def gen(s, rng, v):
        setattr(v, s.name + "_set", [s.always or rng.random() < 0.6 for _ in range(s.n)])
        co = [[rng.uniform(-2, 2) for _ in range(s.dim + 1)] for _ in range(s.n)]
        setattr(v, s.name + "_co", co)
        setattr(v, s.name, lambda d, *x: co[d][0] + sum(c_ * y for c_, y in zip(co[d][1:], x)))
    def pack(s, v):
        CF = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_double))
        co = getattr(v, s.name + "_co"); st = getattr(v, s.name + "_set"); s.keep = []
        a = (ctypes.c_void_p * s.n)()
        for i in range(s.n):
            def f(x, o, i=i): o[0] = co[i][0] + sum(c_ * x[d] for d, c_ in enumerate(co[i][1:]))
            p = CF(f); s.keep.append(p)
            a[i] = ctypes.cast(p, ctypes.c_void_p).value if st[i] else None
        return a

class Count(P):
    """callback void(*)(int const* idx): a ghost counter per visited index tuple"""
    def __init__(s, name, dim): s.name = name; s.dim = dim
    def sym(s, ctx):
        r = ctx.ex.alloc(ctx.st, "count:" + s.name, kind="grid", levels=s.dim - 1, bounds=None, dof=None)
        r.base = lambda key, ty: t.const_i(0)
        dim = s.dim
        class _i: k = "i"; size = 4; w = 32
        def handler(E, st, args, f):
            co = [E.int_(st, E.load(st, ex.Ptr(args[0].r, args[0].off + 4 * d, args[0].idx), _i)) for d in range(dim)]
            st.wrs(r).log.append(("acc", tuple(co), 1, t.const_i(1)))
            return None
        ctx.symfn[s.name] = handler
        if not hasattr(ctx, "countreg"): ctx.countreg = {}
        ctx.countreg[s.name] = r
        def final(v, st):
            setattr(v, s.name, lambda *a: ctx.ex.read(v._st, r, tuple(t.lift(x, "I") for x in a), 1, _i))
        ctx.finals.append(final)
        return ex.FnVal(s.name, sym=True)
    def gen(s, rng, v): pass
    def pack(s, v):
        s.cnt = {}
        CF = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_int))
        def f(p):
            k = tuple(p[i] for i in range(s.dim)); s.cnt[k] = s.cnt.get(k, 0) + 1
        s.cb = CF(f)
        return s.cb
    def unpack(s, v):
        setattr(v, s.name, lambda *a: s.cnt.get(a, 0)); v._support[s.name] = s.cnt

class Pred(P):
    """callback int(*)(double const*): an arbitrary predicate of dim reals"""
    def __init__(s, name, dim): s.name = name; s.dim = dim
    def sym(s, ctx):
        dim = s.dim
        class _ty: k = "f"; size = 8; w = 64
        def P(*co): return t.lt(t.const_r(0), t.app(s.name, tuple(ctx.ex.sol.norm(t.toreal(t.lift(x))) for x in co), "R"))
        def handler(E, st, args, f):
            co = [E.real(st, E.load(st, ex.Ptr(args[0].r, args[0].off + 8 * d, args[0].idx), _ty)) for d in range(dim)]
            return t.ite(P(*co), t.const_i(1), t.const_i(0))
        ctx.symfn[s.name] = handler
        setattr(ctx.v, s.name, P)
        return ex.FnVal(s.name, sym=True)
    def gen(s, rng, v):
        c = [rng.uniform(-1, 4) for _ in range(s.dim)]; r = rng.uniform(0.2, 3); w = [rng.uniform(.5, 2) for _ in range(s.dim)]
        setattr(v, s.name, lambda *x: sum(w_ * (a - b) ** 2 for w_, a, b in zip(w, x, c)) < r * r)
        setattr(v, s.name + "_co", c + [r] + w)
    def pack(s, v):
        CF = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.POINTER(ctypes.c_double)); f = getattr(v, s.name)
        s.cb = CF(lambda p: 1 if f(*[p[d] for d in range(s.dim)]) else 0)
        return s.cb

def lay(fields):
    """[(offset, kind, size)] and total size of a C struct of 'f' (double) and 'i' (int) fields"""
    o = 0; out = []
    for k in fields:
        sz = 8 if k == "f" else 4
        o = (o + sz - 1) // sz * sz; out.append((o, k, sz)); o += sz
    al = 8 if "f" in fields else 4
    return out, (o + al - 1) // al * al

class OutRec(P):
    """result vector of records: v.<name>(i, field), v.<name>_n; the harness hands it over with vc_out"""
    def __init__(s, name, fields, nmax): s.name = name; s.lay, s.es = lay(fields); s.nmax = nmax
    def sym(s, ctx):
        r = ctx.ex.alloc(ctx.st, s.name, size=0); s.h = r
        class _f: k = "f"; size = 8; w = 64
        class _i: k = "i"; size = 4; w = 32
        def final(v, st):
            def get(i, f):
                p, n = v._st.ghost[s.name]; o, k, sz = s.lay[f]; ty = _f if k == "f" else _i
                return ctx.ex.coerce(ctx.ex.read(v._st, p.r, p.idx + (p.off + t.mul(t.lift(i, "I"), t.const_i(s.es)) + o,), sz, ty), ty)
            setattr(v, s.name, get); setattr(v, s.name + "_n", st.ghost[s.name][1])
        ctx.finals.append(final)
        return ex.Ptr(r)
    def gen(s, rng, v): pass
    def pack(s, v):
        class H(ctypes.Structure): _fields_ = [("n", ctypes.c_long), ("p", ctypes.c_void_p)]
        s.buf = (ctypes.c_char * (s.es * (s.nmax(v) + 2)))(); s.hd = H(0, ctypes.addressof(s.buf))
        s.cap = s.nmax(v) + 2
        return ctypes.byref(s.hd)
    def unpack(s, v):
        n = s.hd.n; raw = bytes(s.buf)
        if n > s.cap: v._oob.append("%s has %d elements" % (s.name, n)); n = s.cap
        import struct
        setattr(v, s.name + "_n", s.hd.n)
        def get(i, f):
            if not 0 <= i < n: raise IndexError(i)
            o, k, sz = s.lay[f]; return struct.unpack_from("d" if k == "f" else "i", raw, s.es * i + o)[0]
        setattr(v, s.name, get)

class Jag(P):
    """vector of n vectors of records; row i has v.<sizes>(i) records: v.<name>(i, j, field)"""
    def __init__(s, name, n, sizes, fields, mode="in", sample=(-2, 2), within=None, inverse=None):
        # inverse: names (own, rank) of functions of the integer fields giving the place of a record: no record is repeated
        s.inverse = inverse
        # within(v, field): (lo, hi) such that lo <= value < hi for every record, or None
        s.within = within; s.name = name; s.n = n; s.sizes = sizes; s.fields = fields; s.lay, s.es = lay(fields); s.mode = mode; s.sample = sample
    def sym(s, ctx):
        n = t.lift(s.n(ctx.v), "I"); sz = getattr(ctx.v, s.sizes); es = s.es
        SZ = (lambda i: sz(i)) if callable(sz) else (lambda i: sz[t.icv(i)])
        row = ctx.ex.alloc(ctx.st, s.name, kind="jag", levels=1, size=lambda idx: t.mul(SZ(idx[0]), t.const_i(es)), ro=(s.mode == "in"), layout=(es, s.lay))
        def field(key):
            for f, (o, k, z) in enumerate(s.lay):
                d = t.exact_div(key[-1] - o, es)
                if d is not None: return f, k, d
            raise ex.Unsupported("misaligned read of " + s.name)
        def A(i, j, f): return t.app("%s.%d" % (s.name, f), (t.lift(i, "I"), t.lift(j, "I")), "R" if s.lay[f][1] == "f" else "I")
        def base(key, ty):
            f, k, d = field(key)
            if ty.size != s.lay[f][2]: raise ex.Unsupported("typed read of " + s.name)
            return A(key[0], d, f)
        row.base = base
        for f in range(len(s.lay)):
            w = s.within and s.within(ctx.v, f)
            if not w: continue
            def ax(apps, f=f, w=w):
                out = []
                for x in apps.get("%s.%d" % (s.name, f), ()):
                    i, j = x.args[1:]; q = t._asI(x) if s.lay[f][1] == "i" else x
                    out.append(t.implies(t.land(t.le(t.const_i(0), i), t.lt(i, n), t.le(t.const_i(0), j), t.lt(j, t.lift(SZ(i), "I"))), t.land(t.le(t.lift(w[0]), q), t.lt(q, t.lift(w[1])))))
                return out
            ctx.ex.sol.user_axioms.append(ax)
        if s.inverse:
            nf = sum(1 for x in s.lay if x[1] == "i"); ctx.ex.inverses[s.name] = (nf, s.inverse)
            for g in s.inverse: setattr(ctx.v, g, lambda *a, g=g: t.app(g, tuple(t.lift(x, "I") for x in a), "I"))
            def has(*q):
                i, j = (getattr(ctx.v, g)(*q) for g in s.inverse)
                return t.land(t.le(t.const_i(0), i), t.lt(i, n), t.le(t.const_i(0), j), t.lt(j, t.lift(SZ(i), "I")), *[t.eq(A(i, j, f), t.lift(q[f], "I")) for f in range(nf)])
            setattr(ctx.v, s.name + "_has", has)
        tab = ctx.ex.alloc(ctx.st, s.name + " table", size=t.mul(n, t.const_i(24)), ro=True, layout=(24, [(0, "p", 8), (8, "i", 8), (16, "i", 8)]))
        def tbase(key, ty):
            for o in (0, 8, 16):
                d = t.exact_div(key[0] - o, 24)
                if d is not None: return ex.Ptr(row, t.const_i(0), (d,)) if o == 0 else SZ(d)
            raise ex.Unsupported("misaligned read of the table of " + s.name)
        tab.base = tbase
        ctx.regions[s.name] = row
        class _f: k = "f"; size = 8; w = 64
        class _i: k = "i"; size = 4; w = 32
        if s.mode == "in": setattr(ctx.v, s.name, A)
        else:
            setattr(ctx.v, s.name + "0", A)
            def final(v, st):
                def get(i, j, f):
                    o, k, z = s.lay[f]; ty = _f if k == "f" else _i
                    return ctx.ex.coerce(ctx.ex.read(v._st, row, (t.lift(i, "I"), t.mul(t.lift(j, "I"), t.const_i(es)) + o), z, ty), ty)
                setattr(v, s.name, get)
            ctx.finals.append(final)
        return ex.Ptr(tab)
    def gen(s, rng, v):
        n = s.n(v); sz = getattr(v, s.sizes); d = {}
        for i in range(n):
            for j in range(few(sz[i])):
                for f, (o, k, z) in enumerate(s.lay):
                    sm = s.sample
                    d[i, j, f] = sm(rng, v, i, j, f) if callable(sm) else float(rnd(rng, sm)) if k == "f" else rng.randint(0, 4)
        setattr(v, s.name if s.mode == "in" else s.name + "0", GridVal(d))
        if s.inverse:
            nf = sum(1 for x in s.lay if x[1] == "i"); at = {}
            for i in range(n):
                for j in range(few(sz[i])): at[tuple(d[i, j, f] for f in range(nf))] = (i, j)
            for k, g in enumerate(s.inverse): setattr(v, g, lambda *q, k=k: at[q][k])
            setattr(v, s.name + "_has", lambda *q: tuple(q) in at)
    def pack(s, v):
        import struct
        n = s.n(v); sz = getattr(v, s.sizes); old = getattr(v, s.name if s.mode == "in" else s.name + "0").d
        s.bufs = []
        tab = (ctypes.c_void_p * max(n, 1))()
        for i in range(n):
            b = (ctypes.c_char * max(1, s.es * sz[i]))()
            for j in range(sz[i]):
                for f, (o, k, z) in enumerate(s.lay): struct.pack_into("d" if k == "f" else "i", b, s.es * j + o, old[i, j, f])
            s.bufs.append(b); tab[i] = ctypes.addressof(b)
        s.tab = tab
        return tab
    def unpack(s, v):
        import struct
        n = s.n(v); sz = getattr(v, s.sizes); d = {}
        for i in range(n):
            for j in range(sz[i]):
                for f, (o, k, z) in enumerate(s.lay): d[i, j, f] = struct.unpack_from("d" if k == "f" else "i", s.bufs[i], s.es * j + o)[0]
        if s.mode == "in":
            if d != getattr(v, s.name).d: v._oob.append("read-only %s modified" % s.name)
        else: setattr(v, s.name, GridVal(d))

class Ghost(P):
    """a value that occurs only in the specification"""
    def __init__(s, name, sort="R", sample=(-3, 3)): s.name = name; s.sort = sort; s.sample = sample
    def sym(s, ctx): setattr(ctx.v, s.name, t.var(s.name, s.sort)); return None
    def gen(s, rng, v): setattr(v, s.name, rng.randint(*s.sample) if s.sort == "I" else float(rnd(rng, s.sample)))
    def pack(s, v): return None
    ghost = True

# ------------------------------------------------------------------ contract
class Contract:
    def __init__(s, name, entry, params, ensures, requires=None, ret=None, functions="", handlers=None, axioms=None,
                 overflow=False, allow=(), timeout=None, note="", numeric=True, native_entry=None, max_paths=4000, safety=True, samples=None, weight=0, assumes=(), merge=True, harness=None, recinv=None, unroll=None):
        s.unroll = unroll       # (function, n): bounded, only executions with n iterations of its loops over reals
        s.recinv = recinv       # (v, x, k) -> invariant of a real-valued recurrence x(k) a loop test depends on
        s.harness = harness     # source of the harness, when not that of the property
        s.name = name; s.entry = entry; s.params = params; s.ensures = ensures; s.requires = requires; s.ret = ret
        s.functions = functions; s.handlers = handlers; s.axioms = axioms or []; s.overflow = overflow; s.allow = allow; s.timeout = timeout
        s.note = note; s.numeric = numeric; s.native_entry = native_entry or entry; s.max_paths = max_paths; s.safety = safety; s.samples = samples; s.weight = weight; s.assumes = assumes; s.merge = merge

    args = ()      # names of parameters the harness takes first
    def order(s, names): return list(s.args) + [n for n in names if n not in s.args]

class SymV(V):
    def __init__(s): s._hyp = (); s._st = None; s._oob = []; s._support = {}
    def all(s, *ranges):
        """for every integer tuple with lo <= x < hi (None: unbounded)"""
        vs = []; hyp = []
        for lo, hi in ranges:
            x = t.var(ex.fresh("q"), "I"); vs.append(x)
            if lo is not None: hyp.append(t.le(t.lift(lo, "I"), x))
            if hi is not None: hyp.append(t.lt(x, t.lift(hi, "I")))
        yield from s.given(*hyp, val=tuple(vs))
    def given(s, *hyp, val=True):
        """symbolically: continue under the hypotheses; numerically: only if they hold"""
        old, oldst = s._hyp, s._st
        hyp = tuple(h for h in hyp if h is not t.TRUE)
        if any(h is t.FALSE for h in hyp): return
        s._hyp = old + hyp
        if oldst is not None:
            s._st = oldst.fork()
            for h in hyp: s._st.assume(h)
        yield val
        s._hyp, s._st = old, oldst
    def sum(s, lo, hi, f):
        """sum of f(k) for lo <= k < hi, f seen under that hypothesis"""
        k = t.var(ex.fresh("s"), "I"); lo = t.lift(lo, "I"); hi = t.lift(hi, "I")
        for _ in s.given(t.le(lo, k), t.lt(k, hi)): b = f(k)
        return t.tsum(k, lo, hi, t.toreal(t.lift(b)))
    def only(s, *hyp):
        """continue with these hypotheses alone, each of which is already one"""
        oldst = s._st; st = oldst.fork()
        for h in hyp:
            if h is not t.TRUE and h not in st.pc: raise ValueError("not a hypothesis")
        st.pc = tuple(h for h in hyp if h is not t.TRUE); s._st = st
        yield True
        s._st = oldst
class NumV(V):
    def __init__(s): s._oob = []; s._support = {}
    def all(s, *ranges):
        rs = [range(lo if lo is not None else -6, hi if hi is not None else 8) for lo, hi in ranges]
        yield from itertools.product(*rs)
    def given(s, *hyp, val=True):
        if all(hyp): yield val
    def only(s, *hyp): yield True
    def sum(s, lo, hi, f): return sum((f(k) for k in range(lo, hi)), 0)

class SCtx:
    pass

def symbolic_run(con, mod, solver):
    """-> (executor, v, [(state, ret)])"""
    S.symbolic = True
    E = ex.Exec(mod, solver, overflow=con.overflow, max_paths=con.max_paths); E.merge = con.merge; E.recinv = con.recinv; E.unroll = con.unroll
    from . import extern
    extern.install(E)
    st = ex.State()
    ctx = SCtx(); ctx.ex = E; ctx.st = st; ctx.v = SymV(); ctx.v._st = st; ctx.finals = []; ctx.regions = {}; ctx.symfn = {}
    E.ctx = ctx
    if con.handlers: con.handlers(E, ctx)
    args = {}
    for p in con.params:
        a = p.sym(ctx)
        if not getattr(p, "ghost", False): args[p.name] = a
    args = [args[n] for n in con.order(list(args))]
    def symfn(E_, st_, a, f):
        for k, h in ctx.symfn.items():
            if f.name == k or f.name.rsplit("_", 1)[0] == k: return h(E_, st_, a, f)
        raise ex.Unsupported("callback " + f.name)
    E.h["<symfn>"] = symfn
    if con.requires:
        for r in con.requires(ctx.v):
            if not isinstance(r, T): r = t.const_b(bool(r))
            st.assume(r)
    E.pre_pc = st.pc
    outs = E.call(con.entry, args, st)
    return E, ctx, outs

class Goal:
    __slots__ = ("contract", "label", "pc", "goal", "where", "kind", "status", "backend", "time", "model")
    def __init__(s, contract, label, pc, goal, where, kind):
        s.contract = contract; s.label = label; s.pc = pc; s.goal = goal; s.where = where; s.kind = kind
        s.status = None; s.backend = None; s.time = 0; s.model = None

def goals(con, mod, solver):
    E, ctx, outs = symbolic_run(con, mod, solver)
    gs = []
    for o in E.obl:
        gs.append(Goal(con.name, o.kind, o.pc, o.goal, o.where, "safety"))
    if not outs: raise ex.Unsupported("no terminating path")
    for n, (st, ret) in enumerate(outs):
        v = ctx.v
        v._st = st; v._hyp = ()
        v.ret = ret
        for f in ctx.finals: f(v, st)
        try:
            for lab, g in con.ensures(v):
                if isinstance(g, bool): g = t.const_b(g)
                gs.append(Goal(con.name, lab, v._st.pc, g, con.entry, "post"))
        except ex.PathAbort as e: raise ex.Unsupported("postcondition: %s" % e)
    return E, ctx, outs, gs

# ------------------------------------------------------------------ numeric replay
def gen_inputs(con, rng, hints=None, tries=200):
    S.symbolic = False
    for _ in range(tries):
        v = NumV()
        names = {p.name for p in con.params}
        for p in con.params:
            try: p.gen(rng, v)
            except TooLarge: return None
            # later inputs may be sized by the hinted values
            for k, x in (hints or {}).items():
                nm = k.split("[")[0]
                if nm in names and nm != p.name: continue
                if "[" in k:
                    i = int(k[:-1].split("[")[1]); a = getattr(v, nm, None)
                    if isinstance(a, list) and i < len(a): a[i] = x
                elif hasattr(v, k): setattr(v, k, x)
        try:
            if con.requires is None or all(con.requires(v)): return v
        except ZeroDivisionError: pass
        except (ValueError, KeyError, OverflowError): pass
    return None
def run_native(con, lib, v):
    S.symbolic = False
    f = getattr(lib, con.native_entry)
    f.restype = {None: None, "I": ctypes.c_int, "R": ctypes.c_double, "B": ctypes.c_bool}[con.ret]
    f.argtypes = None
    args = {p.name: p.pack(v) for p in con.params if not getattr(p, "ghost", False)}
    args = [args[n] for n in con.order(list(args))]
    v.ret = f(*args)
    if con.ret == "B": v.ret = bool(v.ret)
    for p in con.params:
        if hasattr(p, "unpack"): p.unpack(v)
def check_numeric(con, v):
    """-> list of failed labels"""
    bad = []
    for m in v._oob: bad.append(("frame: " + m, None))
    try:
        for lab, g in con.ensures(v):
            if isinstance(g, T): raise TypeError("symbolic value in numeric replay: %r" % g)
            if not g: bad.append((lab, None))
    except (KeyError, IndexError) as e: bad.append(("replay: undefined element %r" % e, None))
    return bad
def show(con, v):
    d = {}
    for p in con.params:
        for nm in (p.name, p.name + "0", p.name + "_set", p.name + "_co"):
            if hasattr(v, nm):
                x = getattr(v, nm)
                if isinstance(x, GridVal): x = {",".join(map(str, k)): y for k, y in x.d.items()} if len(x.d) <= 400 else repr(x)
                elif isinstance(x, (list, tuple)): x = list(x)
                elif callable(x): continue
                d[nm] = x
    if con.ret and hasattr(v, "ret"): d["return"] = v.ret
    return d

class GhostArr(P):
    ghost = True
    def __init__(s, name, n, sort="R", sample=(-3, 3)): s.name = name; s.n = n; s.sort = sort; s.sample = sample
    def sym(s, ctx): setattr(ctx.v, s.name, [t.var("%s_%d" % (s.name, i), s.sort) for i in range(s.n)])
    def gen(s, rng, v): setattr(v, s.name, [rng.randint(*s.sample) if s.sort == "I" else float(rnd(rng, s.sample)) for _ in range(s.n)])
    def pack(s, v): return None
