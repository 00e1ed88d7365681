"""Symbolic executor / VC generator over LLVM IR.

Constant-bound loops are executed to their end; loops whose exit test is
symbolic are cut by automatically inferred invariants (induction variables,
prefix sums, accumulations and pointwise stores), checked for inductiveness by
re-executing the body from the generic iteration.  Calls execute the callee's
IR, or a contract registered for an external function.
"""
import ctypes, math, re, sys
from fractions import Fraction
from . import term as t
from .term import T, TRUE, FALSE, const_i, const_r, land, lor, lnot, lt, le, eq, ne, ite, subst, depends, tsum
from . import ir
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class PathAbort(Exception): pass

_cx = ctypes.CDLL("libstdc++.so.6").__cxa_demangle
_cx.restype = ctypes.c_void_p
_cx.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int)]
_dm = {}
def demangle(n):
    if n not in _dm:
        s = ctypes.c_int(); p = _cx(n.encode(), None, None, ctypes.byref(s))
        _dm[n] = ctypes.string_at(p).decode() if p else n
    return _dm[n]

# ---------------------------------------------------------------- values
def residue(off):
    """(g, r) with off congruent to r modulo g"""
    g = 0; r = 0
    for m, c in off.args:
        if m: g = math.gcd(g, c)
        else: r = c
    return g, r
def footprint(es, out):
    for e in es:
        if e[0] in ("st", "acc", "upd"): out.add(residue(e[1][-1]) + (e[2],))
        elif e[0] == "forall":
            for _, p in e[1].paths: footprint(p, out)
        else: out.add((1, 0, 1))
def covered(x, fp):
    """every byte of the footprint x lies in one of fp"""
    g0, r0, s0 = x
    for g, r, n in fp:
        if g == 1: return True
        if g and g0 % g == 0 and ((r0 - r) % g) + s0 <= n: return True
        if g == 0 and g0 == 0 and r <= r0 and r0 + s0 <= r + n: return True
    return False
class Ptr:
    __slots__ = ("r", "idx", "off")
    def __init__(s, r, off=None, idx=()): s.r = r; s.off = off if off is not None else const_i(0); s.idx = idx
    def __repr__(s): return "&%s%s+%r" % (s.r.name if s.r else "null", list(s.idx) if s.idx else "", s.off)
    def same(s, o): return isinstance(o, Ptr) and s.r is o.r and s.idx == o.idx and s.off is o.off
class PtrInt:
    def __init__(s, p): s.p = p
class FnVal:
    """function pointer; nonnull: Bool"""
    def __init__(s, name, nonnull=TRUE, sym=False): s.name = name; s.nonnull = nonnull; s.sym = sym
    def __repr__(s): return "fn:" + s.name
class Undef:
    def __init__(s, why="uninitialised"): s.why = why
    def __repr__(s): return "<%s>" % s.why
class Pieces:
    """concatenation of adjacent memory cells: [(offset, size, value)]"""
    def __init__(s, n, ps): s.n = n; s.ps = ps
class Agg:
    def __init__(s, vs): s.vs = vs
class Zero: pass
ZERO = Zero()
NULL = Ptr(None)

def vsame(a, b):
    if a is b: return True
    if isinstance(a, Ptr): return a.same(b)
    if isinstance(a, FnVal): return isinstance(b, FnVal) and a.name == b.name and a.nonnull is b.nonnull
    return False

class Region:
    n = 0
    def __init__(s, name, kind="mem", size=None, base=None, ro=False, layout=None, levels=0, bounds=None, dof=None, esize=8, uninit=False, hook=None):
        Region.n += 1; s.id = Region.n
        s.name = name; s.kind = kind; s.size = size; s.base = base; s.ro = ro; s.layout = layout
        s.levels = levels; s.bounds = bounds; s.dof = dof; s.esize = esize; s.uninit = uninit; s.hook = hook
        s.freed = False
    def __repr__(s): return "R:" + s.name

class RS:
    __slots__ = ("cells", "log", "own")
    def __init__(s, own): s.cells = {}; s.log = []; s.own = own
    def copy(s, own):
        r = RS(own); r.cells = dict(s.cells); r.log = list(s.log); return r

class ForAll:
    """for k in [0,n): for the path whose guard holds: entries"""
    __slots__ = ("k", "n", "paths")
    def __init__(s, k, n, paths): s.k = k; s.n = n; s.paths = paths
    def sub(s, m): return ForAll(s.k, subst(s.n, m), [(subst(g, m), [esub(e, m) for e in es]) for g, es in s.paths])
    def __repr__(s): return "ForAll(%r<%r: %r)" % (s.k, s.n, s.paths)
def vsub(v, m):
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, Ptr): return Ptr(v.r, subst(v.off, m), tuple(subst(i, m) for i in v.idx))
    if isinstance(v, FnVal): return FnVal(v.name, subst(v.nonnull, m), v.sym)
    if isinstance(v, tuple): return tuple(vsub(x, m) for x in v)
    if isinstance(v, list): return [vsub(x, m) for x in v]
    if isinstance(v, Pieces): return Pieces(v.n, [(o, s, vsub(x, m)) for o, s, x in v.ps])
    if isinstance(v, ForAll): return v.sub(m)
    return v
def esub(e, m):
    if e[0] in ("st", "acc", "upd"): return (e[0], tuple(subst(x, m) for x in e[1]), e[2], vsub(e[3], m))
    if e[0] == "forall": return ("forall", e[1].sub(m))
    if e[0] == "call": return ("call", e[1], vsub(e[2], m))
    return e
def vdepends(v, x):
    if isinstance(v, T): return depends(v, x)
    if isinstance(v, Ptr): return depends(v.off, x) or any(depends(i, x) for i in v.idx)
    if isinstance(v, FnVal): return depends(v.nonnull, x)
    if isinstance(v, (tuple, list)): return any(vdepends(y, x) for y in v)
    if isinstance(v, Pieces): return any(vdepends(y, x) for _, _, y in v.ps)
    if isinstance(v, ForAll): return depends(v.n, x) or any(depends(g, x) or any(edepends(e, x) for e in es) for g, es in v.paths)
    return False
def edepends(e, x):
    if e[0] in ("st", "acc", "upd"): return any(depends(y, x) for y in e[1]) or vdepends(e[3], x)
    if e[0] == "forall": return vdepends(e[1], x)
    if e[0] == "call": return vdepends(e[2], x)
    return False

OLD = t.var("!old", "R")     # in an "upd" entry: the value the location held before
def mentions(x, hv): return any(a == hv or isinstance(a, str) and a.startswith(hv + "#") for a in t.free_atoms(x))
class State:
    def __init__(s):
        s.mem = {}; s.pc = (); s.trace = []; s.ghost = {}
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.pc = s.pc; n.trace = list(s.trace); n.ghost = dict(s.ghost)
        # both sides must copy before the next write
        for rs in s.mem.values(): rs.own = None
        return n
    def rs(s, r):
        x = s.mem.get(r)
        if x is None: x = s.mem[r] = RS(s)
        return x
    def wrs(s, r):
        x = s.rs(r)
        if x.own is not s:
            x = x.copy(s); s.mem[r] = x
        return x
    def fork_assume(s, c):
        n = s.fork(); n.assume(c); return n
    def assume(s, c):
        if c is not TRUE and c not in s.pc: s.pc = s.pc + (c,)

class Obl:
    __slots__ = ("kind", "pc", "goal", "where")
    def __init__(s, kind, pc, goal, where): s.kind = kind; s.pc = pc; s.goal = goal; s.where = where
    def __repr__(s): return "%s@%s: %r" % (s.kind, s.where, s.goal)

class Ctx:
    def __init__(s, fn): s.fn = fn
_fresh = [0]
def fresh(p): _fresh[0] += 1; return "%s!%d" % (p, _fresh[0])

class Exec:
    dbg = False
    def __init__(self, mod, solver, handlers=None, overflow=True, max_paths=4000, max_steps=3000000):
        self.m = mod; self.sol = solver; self.h = handlers or {}; self.obl = []; self.quiet = 0
        self.overflow = overflow; self.steps = 0; self.max_steps = max_steps; self.max_paths = max_paths
        self.fns_used = set(); self.ext_used = set(); self.loops_cut = []; self.where = []; self.unroll_only = False
        self.gregions = {}; self.havoc_names = {}; self.fp = {}; self.fphints = {}; self.hvkeys = {}; self.hvused = set()
        self.recinv = None; self.unroll = None; self.recs = []; self.cutdepth = 0
        self.inverses = {}   # tables without repetition: name -> (integer fields, names of the functions giving the place)
        self.hpat = []   # (compiled regex on demangled name, handler)
        self.hints = {}; self.ords = {}; self.merge = False

    # -------------------------------------------------- obligations
    def oblige(self, kind, st, goal):
        if goal is TRUE or self.quiet: return
        w = self.where[-1] if self.where else "?"
        self.obl.append(Obl(kind, st.pc, goal, w))
    def prove(self, st, g):
        if g is TRUE: return True
        if g is FALSE: return False
        return self.sol.prove(st.pc, g)
    def feasible(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        return self.sol.feasible(st.pc, c)

    # -------------------------------------------------- memory
    def alloc(self, st, name, size=None, **kw):
        r = Region(name, size=size, **kw); st.mem[r] = RS(st); return r
    def loc(self, st, p, size, write=False):
        if not isinstance(p, Ptr): raise Unsupported("access through %r" % (p,))
        r = p.r
        if r is None:
            self.oblige("null-deref", st, FALSE); raise PathAbort("null dereference")
        if r.freed: self.oblige("use-after-free", st, FALSE)
        if write and r.ro: self.oblige("frame(%s)" % r.name, st, FALSE)
        if r.kind == "grid" and len(p.idx) == r.levels:
            if r.dof is not None:
                d = t.exact_div(p.off, r.esize)
                if d is None: raise Unsupported("grid component offset %r" % p.off)
                self.oblige("bounds(%s component)" % r.name, st, land(le(const_i(0), d), lt(d, t.lift(r.dof, "I"))))
        elif r.kind == "jag":
            self.oblige("bounds(%s)" % r.name, st, land(le(const_i(0), p.off), le(p.off + size, r.size(p.idx))))
        elif r.kind == "mem" and r.size is not None:
            self.oblige("bounds(%s)" % r.name, st, land(le(const_i(0), p.off), le(p.off + size, t.lift(r.size, "I"))))
        return r, p.idx + (p.off,)
    def load(self, st, p, ty):
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == "grid" and len(p.idx) < p.r.levels:
            r = p.r
            if ty.k != "p": raise Unsupported("data load from pointer table")
            d = t.exact_div(p.off, 8)
            if d is None: raise Unsupported("pointer table offset")
            lo, hi = r.bounds[len(p.idx)]
            self.oblige("bounds(%s index %d)" % (r.name, len(p.idx)), st, land(le(t.lift(lo, "I"), d), lt(d, t.lift(hi, "I"))))
            return Ptr(r, const_i(0), p.idx + (d,))
        r, key = self.loc(st, p, ty.size)
        if ty.k == "s" or ty.k == "a":
            if ty.k == "a": return Agg([self.load(st, Ptr(p.r, p.off + i * ty.el.size, p.idx), ty.el) for i in range(ty.n)])
            return Agg([self.load(st, Ptr(p.r, p.off + o, p.idx), f) for f, o in zip(ty.fields, ty.offs)])
        v = self.read(st, r, key, ty.size, ty)
        if isinstance(v, Undef) and v.why == "uninitialised" and not self.quiet:
            self.oblige("initialised(%s)" % r.name, st, FALSE)
        return self.coerce(v, ty)
    def coerce(self, v, ty):
        if isinstance(v, T) and ty.k == "i" and ty.w == 1 and v.sort == "I": return self.tobool(v)
        if isinstance(v, T) and ty.k == "i" and ty.w > 1 and v.sort == "B": return ite(v, const_i(1), const_i(0))
        if isinstance(v, Zero): return self.zero(ty)
        return v
    def zero(self, ty):
        if ty.k == "i": return FALSE if ty.w == 1 else const_i(0)
        if ty.k == "f": return const_r(0)
        if ty.k == "p": return NULL
        if ty.k in ("a", "v"): return Agg([self.zero(ty.el) for _ in range(ty.n)])
        if ty.k == "s": return Agg([self.zero(f) for f in ty.fields])
        raise Unsupported("zero of " + ty.k)
    def cmpkey(self, st, a, asz, b, bsz):
        """'eq' | 'ne' | Bool condition for equality | None (partial overlap)"""
        conds = []
        for x, y in zip(a[:-1], b[:-1]):
            e = eq(x, y)
            if e is FALSE: return "ne"
            if e is not TRUE: conds.append(e)
        d = t.sub(a[-1], b[-1])     # a at b + d
        if t.is_ic(d):
            n = t.icv(d)
            if n >= bsz or n <= -asz: return "ne"
            if n != 0 or asz != bsz:
                if not conds: return None
                if self.prove(st, lnot(land(*conds))): return "ne"
                raise Unsupported("maybe-overlapping partial access")
        else:
            # unequal-size symbolic: require non-overlap
            if self.prove(st, lor(lnot(land(*conds)), le(t.lift(bsz, "I"), d), le(d, const_i(-asz)))): return "ne"
            if asz != bsz: raise Unsupported("partial symbolic overlap")
            conds.append(eq(d, const_i(0)))
        if not conds: return "eq"
        c = land(*conds)
        if self.prove(st, c): return "eq"
        if self.prove(st, lnot(c)): return "ne"
        return c
    def read(self, st, r, key, size, ty):
        rs = st.rs(r)
        off = key[-1]
        if len(key) == 1 and t.is_ic(off):
            o = t.icv(off); c = rs.cells.get(o)
            if c is not None:
                if c[1] == size: return c[0]
                if c[1] > size: return self.part(st, c, 0, size, r, o, ty)
            # overlap with other concrete cells
            ov = [(o2, c2) for o2, c2 in rs.cells.items() if o2 < o + size and o2 + c2[1] > o]
            if ov: return self.compose(st, r, o, size, ov, ty)
        else:
            res = None
            pend = []
            for o2, (v, s2) in rs.cells.items():
                c = self.cmpkey(st, key, size, (const_i(o2),), s2)
                if c == "ne": continue
                if c == "eq": return v
                if c is None: raise Unsupported("partial overlap")
                pend.append((c, v))
            if pend:
                st2 = st
                rest = self.readlog(st, r, rs.log, len(rs.log), key, size, ty, exclude=[c for c, _ in pend])
                for c, v in pend: rest = self.mite(c, v, rest, ty)
                return rest
        return self.readlog(st, r, rs.log, len(rs.log), key, size, ty)
    def mite(self, c, a, b, ty):
        a = self.coerce(a, ty); b = self.coerce(b, ty)
        if isinstance(a, Undef): return b       # choose the defined value; initialisation obligation raised at use
        if isinstance(b, Undef): return a
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if vsame(a, b): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and len(a.idx) == len(b.idx):
            return Ptr(a.r, ite(c, a.off, b.off), tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)))
        raise Unsupported("conditional value of different kinds")
    def part(self, st, c, d, size, r, o, ty):
        v, s = c
        if isinstance(v, Zero): return v
        if isinstance(v, Pieces):
            for po, ps, pv in v.ps:
                if po == d and ps == size: return pv
            ps = [(po - d, ps, pv) for po, ps, pv in v.ps if po >= d and po + ps <= d + size]
            if ps: return Pieces(size, ps)
        if isinstance(v, T) and v.sort == "I" and t.is_ic(v):
            n = (t.icv(v) >> (8 * d)) & ((1 << (8 * size)) - 1)
            if n >= 1 << (8 * size - 1): n -= 1 << (8 * size)
            return const_i(n)
        if isinstance(v, Undef): return v
        raise Unsupported("partial read of a %d-byte cell" % s)
    def compose(self, st, r, o, size, ov, ty):
        if len(ov) == 1 and ov[0][0] <= o and ov[0][0] + ov[0][1][1] >= o + size:
            return self.part(st, ov[0][1], o - ov[0][0], size, r, o, ty)
        ov.sort()
        if any(isinstance(c[0], Undef) for _, c in ov): pass
        ps = []
        for o2, (v, s) in ov:
            if o2 < o or o2 + s > o + size: raise Unsupported("straddling read")
            ps.append((o2 - o, s, v))
        return Pieces(size, ps)
    def readlog(self, st, r, log, n, key, size, ty, exclude=()):
        i = n - 1
        pend = []     # (cond, value, kind)
        accs = []
        result = None
        while i >= 0:
            e = log[i]; i -= 1
            if e[0] == "mark": continue
            if e[0] == "st":
                c = self.cmpkey(st, key, size, e[1], e[2])
                if c == "ne": continue
                if c is None:
                    d = t.sub(key[-1], e[1][-1])
                    result = self.part(st, (e[3], e[2]), t.icv(d), size, r, None, ty) if t.icv(d) >= 0 and t.icv(d) + size <= e[2] else None
                    if result is None: 
                        # compose from several smaller entries
                        result = self.composelog(st, r, log, n, key, size, ty)
                    break
                v = e[3]
                if c == "eq": result = v; break
                pend.append((c, v)); continue
            if e[0] == "acc":
                c = self.cmpkey(st, key, size, e[1], e[2])
                if c == "ne": continue
                cc = TRUE if c == "eq" else c
                pend.append(("+", ite(cc, e[3], const_r(0) if e[3].sort == "R" else const_i(0)))); continue
            if e[0] == "havoc":
                if not self.touched(e[1], key[-1], size): continue
                if self.notyet(st, e[1], key, size): continue
                result = self.havocval(e[1], key, ty); break
            if e[0] == "forall":
                for kind, c, v in self.fa_read(st, e[1], key, size, ty):
                    if kind == "st":
                        if c is TRUE: result = v; break
                        pend.append((c, v))
                    elif kind == "upd": pend.append(("u", (c, v)))
                    else:
                        pend.append(("+", ite(c, v, const_r(0) if v.sort == "R" else const_i(0))))
                if result is not None: break
                continue
            raise Unsupported("log entry " + e[0])
        if result is None:
            result = self.basev(st, r, key, ty)
        result = self.coerce(result, ty)
        for c, v in reversed(pend):
            if c == "+":
                if not isinstance(result, T): raise Unsupported("accumulating on %r" % (result,))
                result = result + v
            elif c == "u":
                if not isinstance(result, T): raise Unsupported("updating %r" % (result,))
                result = ite(v[0], subst(v[1], {OLD: result}), result)
            else: result = self.mite(c, v, result, ty)
        return result
    def composelog(self, st, r, log, n, key, size, ty):
        ps = []; o = 0
        while o < size:
            for s in (8, 4, 1):
                if o + s > size or s == size: continue
                k2 = key[:-1] + (key[-1] + o,)
                try:
                    class _t: pass
                    ty2 = _t(); ty2.k = "i"; ty2.w = 8 * s; ty2.size = s
                    v = self.readlog(st, r, log, n, k2, s, ty2)
                    ps.append((o, s, v)); o += s; break
                except Unsupported: continue
            else: raise Unsupported("cannot compose partial read")
        return Pieces(size, ps)
    def touched(self, hv, off, size):
        """may the loop whose effect is hv write these bytes?  (residues of the offsets it writes)"""
        fp = self.fp.get(hv)
        if fp is None: return True
        g0, q0 = residue(off)
        for g, w0, s in fp:
            G = math.gcd(g, g0)
            if G == 0:
                if w0 < q0 + size and q0 < w0 + s: return True
            elif (q0 - w0) % G < s or (w0 - q0) % G < size: return True
        return False
    def notyet(self, st, hv, key, size):
        """no earlier iteration of the loop writes these bytes (hvkeys: what the iterations write, checked at the end)"""
        if hv not in self.hvkeys: return False
        k, keys = self.hvkeys[hv]
        for bound, ek, esz in keys:
            m = {k: t.var(fresh("j"), "I")}; hyp = [le(const_i(0), m[k]), lt(m[k], k)]
            for b, n in bound:
                n = subst(n, m); m[b] = t.var(fresh("j"), "I"); hyp += [le(const_i(0), m[b]), lt(m[b], n)]
            ek = vsub(ek, m)
            if self.apart(t.sub(ek[-1], key[-1]), esz, size): continue
            d = t.sub(key[-1], ek[-1])
            same = land(*[eq(a, b) for a, b in zip(ek[:-1], key[:-1])])
            st2 = st
            for h in hyp: st2 = st2.fork_assume(h)
            if not self.prove(st2, lor(lnot(same), le(const_i(esz), d), le(d, const_i(-size)))): return False
        self.hvused.add(hv)
        return True
    def written(self, k, effs):
        """locations written by iteration k of a loop: [(inner bound variables, key, size)]"""
        out = []
        for g, es in effs:
            for b, g_, e in self.fa_leaves(ForAll(k, const_i(1), [(g, es)])):
                x = tuple(b[1:]); m = {}; bound = []
                for i, (bk, n) in enumerate(x):
                    m2 = dict(m); m[bk] = t.var("?b%d" % i, "I"); bound.append((m[bk], subst(n, m2)))
                out.append((tuple(bound), vsub(e[1], m) if m else e[1], e[2]))
        return out
    def havocval(self, name, key, ty):
        if ty.k == "f": return t.app(name, key, "R")
        if ty.k == "i": return t.app(name + "#i%d" % ty.w, key, "I")
        raise Unsupported("havoc of %s" % ty.k)
    def basev(self, st, r, key, ty):
        if r.base is not None: return r.base(key, ty)
        return Undef("uninitialised")
    def fa_leaves(self, fa, bound=(), guards=()):
        """(bound [(k,n)], guards, entry) of a loop summary, in program order"""
        b = bound + ((fa.k, fa.n),)
        for g, es in fa.paths:
            for e in es:
                if e[0] == "forall": yield from self.fa_leaves(e[1], b, guards + (g,))
                elif e[0] in ("st", "acc", "upd"): yield b, guards + (g,), e
                else: raise Unsupported("loop entry " + e[0])
    def fa_read(self, st, fa, key, size, ty):
        """contributions of a ForAll at key: [(kind, cond, value)] (order: later first)"""
        out = []
        for bound, guards, e in reversed(list(self.fa_leaves(fa))):
            r = self.invert(st, [k for k, _ in bound], e[1], e[2], key, size, guards, bound)
            if r == "ne": continue
            m, extra = r
            rng = []
            free = []
            for k, n in bound:
                if k in m:
                    rng.append(land(le(const_i(0), m[k]), lt(m[k], subst(n, m))))
                else: free.append((k, subst(n, m)))
            c = land(*rng, *[subst(x, m) for x in extra], *[subst(g, m) for g in guards])
            v = vsub(e[3], m)
            if free:
                if e[0] == "upd": raise Unsupported("update in a loop whose index does not determine the iteration")
                if e[0] == "acc":
                    for k, n in reversed(free):
                        # the index does not determine k: sum over it
                        here = [x for x in (c.args if c.op == "and" else (c,)) if depends(x, k)]
                        rest = [x for x in (c.args if c.op == "and" else (c,)) if not depends(x, k)]
                        z = const_r(0) if v.sort == "R" else const_i(0)
                        v = tsum(k, const_i(0), n, ite(land(*here), v, z)); c = land(*rest)
                else:
                    # last iteration wins: only when nothing depends on the free index
                    for k, n in free:
                        if vdepends(v, k) or depends(c, k):
                            if not depends(c, k): v = vsub(v, {k: n - 1})
                            else: raise Unsupported("store in a loop whose index does not determine the iteration")
                        c = land(c, lt(const_i(0), n))
            if c is FALSE or self.sol.prove(st.pc, lnot(c)): continue
            if c is not TRUE and self.sol.prove(st.pc, c): c = TRUE
            out.append((e[0], c, v, m, bound))
        for i, x in enumerate(out):
            for y in out[i + 1:]:
                if x[0] == "acc" and y[0] == "acc": continue
                same = True
                for (k, _), (k2, _) in zip(x[4], y[4]):
                    if k is not k2: break
                    if x[3].get(k) is not y[3].get(k):
                        if k in x[3] and k in y[3] and self.prove(st.fork_assume(land(x[1], y[1])), eq(x[3][k], y[3][k])): continue
                        same = False; break
                if same: continue
                if x[0] == y[0] == "st" and vsame(x[2], y[2]): continue
                if self.sol.prove(st.pc, lnot(land(x[1], y[1]))): continue
                raise Unsupported("stores of different loop iterations to the same location")
        return [x[:3] for x in out]
    def invert(self, st, ks, ekey, esz, key, size, guards=(), bound=()):
        """solve ekey(ks) == key: ({k: solution}, [remaining conditions]) or 'ne'"""
        if self.apart(t.sub(ekey[-1], key[-1]), esz, size): return "ne"
        if size != esz: raise Unsupported("size mismatch through loop summary: %r (%d bytes) read at %r (%d bytes)" % (ekey, esz, key, size))
        sol = {}; extra = []
        eqs = [t.sub(a, b) for a, b in zip(ekey, key)]
        left = list(ks)
        while True:
            prog = False
            nxt = []
            for e in eqs:
                e = subst(e, sol) if sol else e
                un = [k for k in left if depends(e, k)]
                if not un:
                    c = eq(e, const_i(0))
                    if c is FALSE: return "ne"
                    if c is not TRUE: extra.append(c)
                    continue
                done = False
                if len(un) == 1 or not prog:
                    for k in un:
                        ka = t.atom_of(k); co = 0; ok = True; rest = {}
                        if e.op != "ipoly": continue
                        for mm, cc in e.args:
                            if mm == (ka,): co = cc
                            elif any(ka in t.free_atoms(x) for x in mm): ok = False; break
                            else: rest[mm] = cc
                        if not ok or co == 0 or len(un) > 1: continue
                        rest = t._ip(rest)
                        q = t.exact_div(-rest, co)
                        if q is None:
                            if t.is_ic(rest): return "ne"
                            q = self.symdiv(st, -rest, co)
                            if q == "ne": return "ne"
                            if q is None:
                                q = t.idiv_trunc(-rest, const_i(co)); extra.append(eq(t.mul(q, const_i(co)), -rest))
                        sol[k] = q; left.remove(k); prog = True; done = True; break
                if not done: nxt.append(e)
            eqs = nxt
            if not prog: break
        left = [k for k in left if any(depends(e, k) for e in eqs)]
        if eqs:
            r = self.listed(left, eqs)
            if r is not None:
                sol.update(r); left = [k for k in left if k not in r]
                for e in eqs: extra.append(eq(subst(e, sol), const_i(0)))
                return sol, extra
        if len(eqs) == 1 and len(left) == 2:
            r = self.rank_inverse2(st, left, eqs[0], guards, dict((a, b) for a, b in bound))
            if r == "ne": return "ne"
            if r is not None: sol.update(r); return sol, extra
        if eqs and len(left) == 1:
            r = self.rank_inverse(st, left[0], eqs, guards, dict((a, b) for a, b in bound)[left[0]])
            if r == "ne": return "ne"
            if r is not None: sol[left[0]] = r; return sol, extra
        for e in eqs: extra.append(eq(subst(e, sol), const_i(0)))
        return sol, extra
    def listed(self, left, eqs):
        """records of a table without repetition: the place of a record is a function of its content (contract: inverses)"""
        for name, (nf, inv) in self.inverses.items():
            args = None; rest = [None] * nf
            for e in eqs:
                hit = None; o = {}
                for m, c in e.args:
                    if len(m) == 1 and m[0].op == "iapp" and m[0].args[0].startswith(name + ".") and any(depends(x, k) for x in m[0].args[1:] for k in left):
                        if hit: return None
                        hit = (m[0], c)
                    else: o[m] = c
                o = t._ip(o)
                if hit is None or abs(hit[1]) != 1 or any(depends(o, k) for k in left): break
                f = int(hit[0].args[0][len(name) + 1:])
                if f >= nf or args is not None and hit[0].args[1:] != args: break
                args = hit[0].args[1:]
                rest[f] = -o if hit[1] == 1 else o
            else:
                if args is None or any(x is None for x in rest) or any(a not in left for a in args) or set(left) != set(args): continue
                return {a: t.app(g, tuple(rest), "I") for a, g in zip(args, inv)}
        return None
    def rank_inverse2(self, st, ks, e, guards, bound):
        """stores at stride*(start(k)+l)+c, 0<=l<size(k), start the sum of the (non-negative) sizes before: the places of
        different (k,l) differ, so the one asked for by such a key is the only one"""
        for k, l in (ks, ks[::-1]):
            ka, la = t.atom_of(k), t.atom_of(l); own = None; s = None; other = []
            for m, c in e.args:
                if m == (la,): s = c
                elif len(m) == 1 and m[0].op == "isum" and ka in t.free_atoms(m[0]):
                    if own: return None
                    own = (m[0], c)
                elif any(x in t.free_atoms(y) for y in m for x in (ka, la)): return None
                elif len(m) == 1 and m[0].op == "isum": other.append((m[0], c))
            if own is None or s is None or own[1] != s: continue
            a = own[0]; lo, hi, body = a.args[1:]
            if hi is not k or depends(lo, k) or depends(body, k) or not (t.is_ic(lo) and t.icv(lo) == 0) or depends(body, l): continue
            body = lambda q, b=body: subst(b, {t._asI(a.args[0]): q})
            j = t.var(fresh("j"), "I"); sk = st.fork_assume(land(le(const_i(0), j), lt(j, bound[k])))
            gk = land(*[subst(g, {k: j}) for g in guards if not depends(g, l)]); nl = subst(bound[l], {k: j})
            if not self.prove(sk, le(const_i(0), body(j))) or not self.prove(sk.fork_assume(gk), le(nl, body(j))): continue
            for b, c in other:
                if c != -s: continue
                q = b.args[2]; d = self.sol.unify(st.pc, subst(e, {k: q, l: const_i(0)}))
                w = t.exact_div(-d, s)
                if w is None:
                    # another field of the record
                    if all(c2 % s == 0 for m, c2 in d.args if m != ()): return "ne"
                    continue
                g = land(*[subst(x, {k: q, l: w}) for x in guards])
                if self.prove(st, land(le(const_i(0), q), lt(q, bound[k]), le(const_i(0), w), lt(w, subst(bound[l], {k: q})), g)): return {k: q, l: w}
        return None
    def rank_inverse(self, st, k, eqs, guards, n):
        """stores at stride*(number of earlier iterations whose guard holds)+c: distinct iterations
        have distinct places, and the place of iteration q is the one asked for when the key is its rank"""
        ka = t.atom_of(k)
        for e in eqs:
            own = []; other = []; cst = 0; ok = True
            for m, c in e.args:
                if m == (): cst = c; continue
                if len(m) != 1: ok = False; break
                (own if ka in t.free_atoms(m[0]) else other).append((m[0], c))
            if not ok or len(own) != 1 or own[0][0].op != "isum": continue
            a, stride = own[0]
            lo, hi, body = a.args[1:]
            if depends(lo, k) or depends(body, k) or hi is not k: continue
            j = t.var(fresh("j"), "I"); bj = subst(body, {t._asI(a.args[0]): j})
            s0 = st.fork_assume(land(le(const_i(0), j), lt(j, n)))
            if not self.prove(s0, le(const_i(0), bj)): continue
            gj = land(*[subst(g, {k: j}) for g in guards])
            if not self.prove(s0.fork_assume(gj), eq(bj, const_i(1))): continue
            # key - stride*rank: a sum of the same kind determines the iteration
            for b, c in other:
                if b.op != "isum" or c != -stride: continue
                q = b.args[2]
                d = self.sol.unify(st.pc, subst(e, {k: q}))
                if d is FALSE or t.is_ic(d) and t.icv(d) % abs(stride) != 0: return "ne"     # another field of the record
                if not (t.is_ic(d) and t.icv(d) == 0): continue
                if self.prove(st, land(le(const_i(0), q), lt(q, n))) and self.prove(st, subst(land(*guards), {k: q})): return q
        return None
    def apart(self, d, esz, size):
        """cells at distance d (modulo the gcd of its coefficients) cannot overlap"""
        import math
        if d.op != "ipoly": return False
        g = 0; c = 0
        for m, co in d.args:
            if m == (): c = co
            else: g = math.gcd(g, co)
        if g == 0: return c >= size or c <= -esz
        c %= g          # distances c, c-g are the nearest to 0
        return c >= size and c - g <= -esz
    def symdiv(self, st, x, c):
        """x / c where x = c*y + r with constant r not divisible by c: 'ne'"""
        r = 0
        for m, co in x.args:
            if m == (): r = co
            elif co % c: return None
        return "ne" if r % c else None
    def store(self, st, p, v, ty):
        if isinstance(v, Agg):
            if ty.k == "a":
                for i, x in enumerate(v.vs): self.store(st, Ptr(p.r, p.off + i * ty.el.size, p.idx), x, ty.el)
            else:
                for x, f, o in zip(v.vs, ty.fields, ty.offs): self.store(st, Ptr(p.r, p.off + o, p.idx), x, f)
            return
        r, key = self.loc(st, p, ty.size, True)
        if r.hook: r.hook(self, st, p, v, ty)
        self.write(st, r, key, ty.size, v)
    def write(self, st, r, key, size, v):
        rs = st.wrs(r)
        off = key[-1]
        if len(key) == 1 and t.is_ic(off):
            o = t.icv(off)
            if isinstance(v, Pieces) and v.n == size:
                for po, ps, pv in v.ps: self.write(st, r, (const_i(o + po),), ps, pv)
                return
            c = rs.cells.get(o)
            if c is None or c[1] != size:
                for o2, (v2, s2) in list(rs.cells.items()):
                    if o2 < o + size and o2 + s2 > o:
                        del rs.cells[o2]
                        # keep the surviving parts
                        if o2 < o: self.keep(rs, v2, s2, o2, 0, o - o2)
                        if o2 + s2 > o + size: self.keep(rs, v2, s2, o2, o + size - o2, s2)
            rs.cells[o] = (v, size)
            return
        if isinstance(v, Pieces) and v.n == size:
            for po, ps, pv in v.ps: self.write(st, r, key[:-1] + (off + po,), ps, pv)
            return
        for o2, (v2, s2) in rs.cells.items(): rs.log.append(("st", (const_i(o2),), s2, v2))
        rs.cells = {}
        rs.log.append(("st", key, size, v))
    def keep(self, rs, v, s, o, a, b):
        if isinstance(v, Zero): rs.cells[o + a] = (v, b - a); return
        if isinstance(v, Pieces):
            for po, ps, pv in v.ps:
                if po >= a and po + ps <= b: rs.cells[o + po] = (pv, ps)
            return
        if isinstance(v, T) and t.is_ic(v):
            n = (t.icv(v) >> (8 * a)) & ((1 << (8 * (b - a))) - 1)
            rs.cells[o + a] = (const_i(n), b - a); return
        rs.cells[o + a] = (Undef("torn cell"), b - a)
    def memcpy(self, st, d, s, n):
        if not t.is_ic(n): return self.memcpy_sym(st, d, s, n)
        n = t.icv(n)
        if n == 0: return
        rS, sk = self.loc(st, s, n); rD, dk = self.loc(st, d, n, True)
        rs = st.rs(rS)
        if len(sk) == 1 and t.is_ic(sk[0]):
            o = t.icv(sk[0]); covered = []; todo = []
            for o2, (v, s2) in sorted(rs.cells.items()):
                if o2 >= o and o2 + s2 <= o + n: todo.append((o2 - o, s2, v)); covered.append((o2 - o, s2))
                elif o2 < o + n and o2 + s2 > o:
                    a = max(o, o2); b = min(o + n, o2 + s2)
                    class _t: pass
                    ty = _t(); ty.k = "i"; ty.w = 8 * (b - a); ty.size = b - a
                    todo.append((a - o, b - a, self.part(st, (v, s2), a - o2, b - a, rS, a, ty))); covered.append((a - o, b - a))
            if rS.base is not None or rs.log:
                pos = 0
                cov = set()
                for a, b in covered: cov.update(range(a, a + b))
                for fo, ty in self.fields(rS, o, n):
                    if not any((fo - o + b) in cov for b in range(ty.size)):
                        try: v = self.read(st, rS, (const_i(fo),), ty.size, ty)
                        except Unsupported: raise
                        if not isinstance(v, Undef): todo.append((fo - o, ty.size, v))
            for a, b, v in todo: self.write(st, rD, dk[:-1] + (dk[-1] + a,), b, v)
            # unknown bytes: leave destination undefined there
            return
        # where in a record of the source the copy starts
        stride = (rS.layout or (8, None))[0]; ph = 0
        for m, c in sk[-1].args:
            if m == (): ph = c % stride
            elif c % stride: raise Unsupported("memcpy from an unaligned place of " + rS.name)
        for fo, ty in self.fields(rS, ph, n):
            v = self.read(st, rS, sk[:-1] + (sk[-1] + (fo - ph),), ty.size, ty)
            self.write(st, rD, dk[:-1] + (dk[-1] + (fo - ph),), ty.size, v)
    def memcpy_sym(self, st, d, s, n):
        raise Unsupported("memcpy of symbolic size")
    def fields(self, r, o, n):
        """(offset, type) of the scalar fields of r within [o, o+n)"""
        class _t: pass
        def mkt(k, size):
            ty = _t(); ty.k = k; ty.size = size; ty.w = 8 * size; return ty
        lay = r.layout or (8, [(0, "f", 8)])
        stride, fs = lay
        out = []
        b = (o // stride) * stride
        while b < o + n:
            for fo, k, sz in fs:
                if b + fo >= o and b + fo + sz <= o + n: out.append((b + fo, mkt(k, sz)))
            b += stride
        return out
    def global_ptr(self, st, name):
        if name not in self.gregions:
            G = self.m.globs[name]
            r = Region("@" + name, size=G.ty.size, ro=G.const)
            ini = ir.ginit(G.ref)
            r.base = None
            cells = {}
            if ini and (G.const or True):
                self.cinit(st, cells, 0, self.m.cval(ini), G.ty)
            self.gregions[name] = (r, cells)
        r, cells = self.gregions[name]
        if r not in st.mem:
            rs = RS(st); rs.cells = dict(cells); st.mem[r] = rs
        return Ptr(r)
    def cinit(self, st, cells, o, v, ty):
        if v[0] == "agg":
            if ty.k in ("a", "v"):
                for i, x in enumerate(v[2]): self.cinit(st, cells, o + i * ty.el.size, x, ty.el)
            else:
                for x, f, fo in zip(v[2], ty.fields, ty.offs): self.cinit(st, cells, o + fo, x, f)
        elif v[0] == "undef": pass
        else: cells[o] = (self.cv(st, v), ty.size)

    # -------------------------------------------------- values
    def cv(self, st, v):
        k = v[0]
        if k == "i":
            if v[2] == 1: return t.const_b(v[1] != 0)
            return const_i(v[1])
        if k == "f":
            import math
            if math.isinf(v[1]) or math.isnan(v[1]):
                return t.var("INF" if v[1] > 0 else ("NINF" if v[1] < 0 else "NAN"), "R")
            if v[1] == math.pi: return t.PI
            for q in (2, Fraction(1, 2), 4, Fraction(1, 3), Fraction(1, 4), Fraction(4, 3), Fraction(3, 2), 6, 8, Fraction(1, 6), Fraction(2, 3), 3, Fraction(1,180)):
                if v[1] == math.pi * float(q): return const_r(q) * t.PI
                if v[1] == -math.pi * float(q): return const_r(-q) * t.PI
            if v[1] == -math.pi: return -t.PI
            return const_r(t.simplest(v[1]))
        if k == "null": return NULL
        if k == "undef": return Undef("undef")
        if k == "g": return self.global_ptr(st, v[1])
        if k == "fn": return FnVal(v[1])
        if k == "agg": return Agg([self.cv(st, x) for x in v[2]])
        if k == "ce":
            ops = [self.cv(st, x) for x in v[3]]
            if v[1] == "gep": return self.gep(ops[0], v[4], ops[1:])
            if v[1] in ("bitcast",): return ops[0]
            if v[1] == "icmp": return self.icmp(st, v[4][0], ops[0], ops[1], v[4][1])
            raise Unsupported("constant expression " + str(v)[:300])
        raise Unsupported("constant " + k)
    def val(self, env, st, v):
        if v[0] == "v":
            return env[v[1]]
        return self.cv(st, v)
    def gep(self, p, ty, idx):
        if not isinstance(p, Ptr): raise Unsupported("gep on %r" % (p,))
        off = p.off + idx[0] * const_i(ty.size)
        for x in idx[1:]:
            if ty.k == "s":
                n = t.icv(x); off = off + ty.offs[n]; ty = ty.fields[n]
            elif ty.k in ("a", "v"):
                ty = ty.el; off = off + x * const_i(ty.size)
            else: raise Unsupported("gep into " + ty.k)
        return Ptr(p.r, off, p.idx)
    def tobool(self, v):
        if isinstance(v, T):
            if v.sort == "B": return v
            return self.icmp1("ne", v, const_i(0))
        raise Unsupported("bool of %r" % (v,))
    def icmp1(self, p, a, b):
        if a.sort == "B" or b.sort == "B":
            a = self.b2b(a); b = self.b2b(b)
            r = eq(a, b); return r if p == "eq" else lnot(r)
        for x, y in ((a, b), (b, a)):
            if t.is_ic(y) and len(x.args) == 1 and len(x.args[0][0]) == 1 and x.args[0][1] == 1 and x.args[0][0][0].op == "iite":
                c, u, w = x.args[0][0][0].args
                if t.is_ic(u) and t.is_ic(w):
                    r = lor(land(c, eq(u, y)), land(lnot(c), eq(w, y)))
                    return r if p == "eq" else lnot(r)
        r = eq(a, b)
        return r if p == "eq" else lnot(r)
    def b2b(self, a):
        if a.sort == "B": return a
        return ne(a, const_i(0))
    def icmp(self, st, p, a, b, ty):
        if isinstance(a, (FnVal, Ptr, PtrInt)) or isinstance(b, (FnVal, Ptr, PtrInt)): return self.pcmp(st, p, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.oblige("initialised", st, FALSE); raise PathAbort("branch on undefined value")
        if isinstance(a, Pieces) or isinstance(b, Pieces): raise Unsupported("compare of packed value")
        if p in ("eq", "ne"): return self.icmp1(p, a, b)
        if a.sort == "B": a = ite(a, const_i(1), const_i(0))
        if b.sort == "B": b = ite(b, const_i(1), const_i(0))
        if p[0] == "u":
            a = self.unsigned(st, a, ty.w); b = self.unsigned(st, b, ty.w)
        p = p[1:]
        return {"gt": lt(b, a), "ge": le(b, a), "lt": lt(a, b), "le": le(a, b)}[p]
    def unsigned(self, st, a, w):
        if t.is_ic(a): return const_i(t.icv(a) % (1 << w))
        if self.prove(st, le(const_i(0), a)): return a
        if self.prove(st, lt(a, const_i(0))): return a + (1 << w)
        return ite(lt(a, const_i(0)), a + (1 << w), a)
    def pcmp(self, st, p, a, b):
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if isinstance(a, Ptr) and a.r is None: a, b = b, a
        if isinstance(b, Ptr) and b.r is None:
            if isinstance(a, FnVal): e = lnot(a.nonnull)
            elif isinstance(a, Ptr): e = t.const_b(a.r is None)
            else: raise Unsupported("null compare of %r" % (a,))
            if p == "eq": return e
            if p in ("ne", "ugt"): return lnot(e)
            raise Unsupported("pointer order against null")
        if isinstance(a, FnVal) and isinstance(b, FnVal):
            e = t.const_b(a.name == b.name)
            return e if p == "eq" else lnot(e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is not b.r or a.idx != b.idx:
                if p == "eq": return FALSE
                if p == "ne": return TRUE
                raise Unsupported("ordering pointers of different objects")
            if p == "eq": return eq(a.off, b.off)
            if p == "ne": return ne(a.off, b.off)
            p = p[1:]
            return {"gt": lt(b.off, a.off), "ge": le(b.off, a.off), "lt": lt(a.off, b.off), "le": le(a.off, b.off)}[p]
        raise Unsupported("pointer comparison of %r and %r" % (a, b))
    def real(self, st, v):
        if isinstance(v, T):
            if v.sort == "R": return v
        if isinstance(v, Undef):
            self.oblige("initialised", st, FALSE); raise PathAbort("undefined value used: " + v.why)
        if isinstance(v, Zero): return const_r(0)
        raise Unsupported("real operand %r" % (v,))
    def int_(self, st, v):
        if isinstance(v, T):
            if v.sort == "I": return v
            if v.sort == "B": return ite(v, const_i(1), const_i(0))
        if isinstance(v, Undef):
            self.oblige("initialised", st, FALSE); raise PathAbort("undefined value used: " + v.why)
        if isinstance(v, Zero): return const_i(0)
        raise Unsupported("int operand %r" % (v,))
    def ovf(self, st, r, w):
        if self.overflow and not t.is_ic(r):
            self.oblige("overflow(i%d)" % w, st, land(le(const_i(-(1 << (w - 1))), r), lt(r, const_i(1 << (w - 1)))))
        elif t.is_ic(r):
            n = t.icv(r)
            if not (-(1 << (w - 1)) <= n < (1 << (w - 1))):
                n = (n + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)); return const_i(n)
        return r

    # -------------------------------------------------- execution
    def call(self, name, args, st):
        """run function `name`; returns list of (state, retval)"""
        F = self.m.fn(name)
        if F is None: raise Unsupported("unknown function " + name)
        h = self.handler(name)
        if h is not None:
            self.ext_used.add(demangle(name).split("(")[0])
            r = h(self, st, args, name)
            return r if isinstance(r, list) else [(st, r)]
        if F.decl: raise Unsupported("call of external function without contract: " + demangle(name))
        self.fns_used.add(name)
        if len(self.where) > 200: raise Unsupported("call depth")
        env = {}
        for a, v in zip(F.args, args): env[a.id] = v
        self.where.append(demangle(name)[:160])
        out = []
        try:
            for o in self.run(F, F.blocks[0], None, env, st, None):
                if o[0] == "ret": out.append((o[1], o[2]))
                elif o[0] == "abort": pass
                else: raise Unsupported("control flow")
        finally: self.where.pop()
        if self.merge and len(out) > 1:
            r = self.join([o[0] for o in out], [{"ret": o[1]} for o in out], ("ret",))
            if r is not None: out = [(r[0], r[1]["ret"])]
        return out
    def join(self, sts, envs, must, live=frozenset()):
        """join paths that meet: values become conditional expressions over the
        literals that tell the paths apart (decision tree), differing stores
        become guarded stores.  None when the paths differ in anything else
        (then they stay separate)."""
        n = 0; N = range(len(sts))
        while all(n < len(s.pc) and s.pc[n] is sts[0].pc[n] for s in sts): n += 1
        lits = [frozenset(y for c in s.pc[n:] for y in (c.args if c.op == "and" else (c,))) for s in sts]
        def same(vs): return all(vsame(v, vs[0]) or isinstance(v, Undef) and isinstance(vs[0], Undef) for v in vs)
        class No(Exception): pass
        def tree(ix, vals):
            vs = [vals[i] for i in ix]
            if same(vs): return vs[0]
            if all(isinstance(v, Agg) and len(v.vs) == len(vs[0].vs) for v in vs):
                return Agg([tree(ix, {i: vals[i].vs[j] for i in ix}) for j in range(len(vs[0].vs))])
            if all(isinstance(v, Pieces) and [p[:2] for p in v.ps] == [p[:2] for p in vs[0].ps] for v in vs):
                return Pieces(vs[0].n, [(p[0], p[1], tree(ix, {i: vals[i].ps[j][2] for i in ix})) for j, p in enumerate(vs[0].ps)])
            if any(isinstance(v, Undef) for v in vs): raise No()
            if all(isinstance(v, Ptr) and v.r is vs[0].r and len(v.idx) == len(vs[0].idx) for v in vs):
                return Ptr(vs[0].r, tree(ix, {i: vals[i].off for i in ix}), tuple(tree(ix, {i: vals[i].idx[j] for i in ix}) for j in range(len(vs[0].idx))))
            if all(isinstance(v, T) for v in vs):
                if len({v.sort for v in vs}) > 1: raise No()
            else: raise No()
            cand = set().union(*[lits[i] for i in ix]); best = None
            for l in sorted(cand, key=lambda x: x.id):
                nl = lnot(l); A = [i for i in ix if l in lits[i]]; B = [i for i in ix if nl in lits[i]]
                if not A or not B or len(A) + len(B) != len(ix): continue
                score = len({id(vals[i]) for i in A}) + len({id(vals[i]) for i in B})
                if best is None or score < best[0]: best = (score, l, A, B)
            if best is None:
                # no literal tells them apart: the whole path condition of the paths with one of the values
                com = frozenset.intersection(*[lits[i] for i in ix]); grp = []
                for i in ix:
                    for g in grp:
                        if same([vals[g[0]], vals[i]]): g.append(i); break
                    else: grp.append([i])
                cond = lambda g: lor(*[land(*[l for l in sts[i].pc[n:] for l in (l.args if l.op == "and" else (l,)) if l not in com]) for i in g])
                g = min(grp, key=lambda g: sum(len(lits[i]) for i in g))
                return ite(cond(g), vals[g[0]], tree([i for i in ix if i not in g], vals))
            return ite(best[1], tree(best[2], vals), tree(best[3], vals))
        try:
            env = {}
            for k in set.intersection(*[set(e) for e in envs]):
                try: env[k] = tree(N, [e[k] for e in envs])
                except No:
                    if k in must or k in live: raise
            base = sts[0].fork(); base.pc = sts[0].pc[:n]
            def exhaustive(ix, used):
                if len(ix) == 1: return lits[ix[0]] <= used
                for l in sorted(set().union(*[lits[i] for i in ix]) - used, key=lambda x: x.id):
                    nl = lnot(l); A = [i for i in ix if l in lits[i]]; B = [i for i in ix if nl in lits[i]]
                    if A and B and len(A) + len(B) == len(ix): return exhaustive(A, used | {l}) and exhaustive(B, used | {nl})
                return False
            if not exhaustive(list(N), frozenset()): base.assume(lor(*[land(*s.pc[n:]) for s in sts]))
            if any(s.ghost != base.ghost or len(s.trace) != len(base.trace) or any(x is not y for x, y in zip(s.trace, base.trace)) for s in sts): return None
            shared = set.intersection(*[set(s.mem) for s in sts])
            for r in {r for s in sts for r in s.mem}:
                if r not in shared:
                    for s in sts:
                        if r in s.mem: base.mem[r] = s.mem[r]
                    continue
                rss = [s.mem[r] for s in sts]
                if all(x is rss[0] for x in rss): continue
                ls = [x.log for x in rss]
                if any(len(x) != len(ls[0]) or any(a is not b for a, b in zip(x, ls[0])) for x in ls):
                    m = 0
                    while all(m < len(x) and x[m] is ls[0][m] for x in ls): m += 1
                    paths = []
                    for i, x in enumerate(rss):
                        tail = x.log[m:] + [("st", (const_i(o2),), s2, v2) for o2, (v2, s2) in x.cells.items()]
                        if any(e[0] not in ("st", "acc", "forall") for e in tail): raise No()
                        if tail: paths.append((land(*sts[i].pc[n:]), tail))
                    w = base.wrs(r); w.log = ls[0][:m] + [("forall", ForAll(t.var(fresh("g"), "I"), const_i(1), paths))]; w.cells = {}
                    continue
                for o, sz in {(o, c[1]) for x in rss for o, c in x.cells.items()}:
                    vals = []
                    for s, x in zip(sts, rss):
                        c = x.cells.get(o)
                        if c is None:
                            if any(o < o2 + c2[1] and o2 < o + sz for o2, c2 in x.cells.items()): raise No()
                            k = self.kindof(next(y.cells[o][0] for y in rss if o in y.cells))
                            class _t: pass
                            ty = _t(); ty.size = sz; ty.k = k; ty.w = 8 * sz
                            try: v = self.read(s, r, (const_i(o),), sz, ty)
                            except Unsupported: raise No()
                        elif c[1] != sz: raise No()
                        else: v = c[0]
                        vals.append(v)
                    try: v = tree(N, vals)
                    except No:
                        if not any(isinstance(x, Undef) for x in vals): raise
                        v = Undef("defined on some paths only")
                    c = base.rs(r).cells.get(o)
                    if c is None or not vsame(c[0], v): base.wrs(r).cells[o] = (v, sz)
            return base, env
        except No:
            if self.dbg: print('nojoin', self.where[-1:], [sorted(map(repr, l)) for l in lits][:12])
            return None
    def handler(self, name):
        h = self.h.get(name)
        if h: return h
        if name.startswith("_Z"):
            if name in self._hc: return self._hc[name]
            d = demangle(name); r = None
            for pat, hh in self.hpat:
                if pat.match(d): r = hh; break
            self._hc[name] = r
            return r
        return None
    _hc = None
    def run(self, F, bb, prev, env, st, stop):
        """execute from bb; outcomes: ('ret',st,val) ('back',prev,env,st) ('exit',bb,prev,env,st)"""
        if self._hc is None: self._hc = {}
        if self.merge: return self.run_join(F, bb, prev, env, st, stop)
        out = []
        work = [(bb, prev, env, st, None)]
        lps = ir.loops(F)
        while work:
            bb, prev, env, st, forced = work.pop()
            while True:
                if stop is not None and prev is not None:
                    if bb is stop.header and prev in stop.blocks and forced is None:
                        out.append(("back", prev, env, st)); break
                    if bb not in stop.blocks:
                        out.append(("exit", bb, prev, env, st)); break
                lp = lps.get(bb)
                if lp is not None and forced is None and not (stop is not None and lp.header is stop.header):
                    r = self.enter_loop(F, lp, prev, env, st)
                    if r is not None:
                        for o in r:
                            if o[0] == "ret": out.append(o)
                            else: work.append((o[1], o[2], o[3], o[4], None))
                        break
                forced = None
                # phis
                new = {}
                n = 0
                for I in bb.ins:
                    if I.op != "phi": break
                    n += 1
                    for v, pb in I.ops:
                        if pb is prev: new[I.id] = self.val(env, st, v); break
                    else: raise Unsupported("phi without predecessor")
                env.update(new)
                try:
                    res = self.block(F, bb, n, env, st)
                except PathAbort as e:
                    break
                if len(out) + len(work) > self.max_paths: raise Unsupported("too many paths")
                nxt = None
                for o in res:
                    if o[0] == "ret": out.append(o)
                    elif o[0] == "go":
                        if nxt is None: nxt = o
                        else: work.append((o[1], bb, o[2], o[3], None))
                if nxt is None: break
                prev = bb; bb, env, st = nxt[1], nxt[2], nxt[3]
        return out
    def order(self, F):
        """reverse postorder in which loop bodies precede their exits, and the loop nest of every block"""
        o = self.ords.get(F)
        if o is None:
            lps = ir.loops(F); num = {}; seen = set(); post = []
            nest = {b: sorted([l for l in lps.values() if b in l.blocks], key=lambda l: -len(l.blocks)) for b in F.blocks}
            def succ(b):
                # exits first in the postorder walk, so that they come last in reverse postorder
                return sorted(b.succ, key=lambda s: len([l for l in nest[b] if s in l.blocks]))
            stack = [(F.blocks[0], iter(succ(F.blocks[0])))]; seen.add(F.blocks[0])
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen: seen.add(s); stack.append((s, iter(succ(s)))); break
                else: post.append(b); stack.pop()
            for i, b in enumerate(reversed(post)): num[b] = i
            o = self.ords[F] = (num, nest, lps)
        return o
    def run_join(self, F, bb, prev, env, st, stop):
        num, nest, lps = self.order(F)
        out = []; work = []; seq = [0]
        def push(bb, prev, env, st, its):
            lp = lps.get(bb)
            if lp is not None:
                its = dict(its); its[bb] = its.get(bb, 0) + 1 if prev in lp.blocks else 0
            key = []
            for l in nest[bb]: key += [num[l.header], its.get(l.header, 0)]
            key.append(num[bb]); seq[0] += 1
            work.append((key, seq[0], bb, prev, env, st, its))
        push(bb, prev, env, st, {})
        first = True
        while work:
            if len(work) + len(out) > self.max_paths: raise Unsupported("too many paths")
            w = min(work, key=lambda x: (x[0], x[1])); grp = [x for x in work if x[2] is w[2] and x[0] == w[0]]
            work = [x for x in work if x not in grp] if len(grp) < len(work) else []
            live = []
            for it in grp:
                _, _, bb, prev, env, st, its = it
                if stop is not None and not first:
                    if bb is stop.header and prev in stop.blocks: out.append(("back", prev, env, st)); continue
                    if bb not in stop.blocks: out.append(("exit", bb, prev, env, st)); continue
                live.append(it)
            first = False
            if not live: continue
            bb = live[0][2]; lp = lps.get(bb); phis = []
            for I in bb.ins:
                if I.op != "phi": break
                phis.append(I)
            if lp is not None and not (stop is not None and lp.header is stop.header):
                # a loop header: join the paths that come from the same block
                rest = []
                for pb in {id(x[3]): x[3] for x in live}.values():
                    g = [x for x in live if x[3] is pb]
                    if len(g) > 1:
                        r = self.join([x[5] for x in g], [x[4] for x in g], [v[1] for I in phis for v, b in I.ops if b is pb and v[0] == "v"], ir.live(F)[bb])
                        if r is not None: g = [(g[0][0], g[0][1], bb, pb, r[1], r[0], g[0][6])]
                    rest += g
                live = []
                for x in rest:
                    r = self.enter_loop(F, lp, x[3], x[4], x[5])
                    if r is None: live.append(x); continue
                    for o in r:
                        if o[0] == "ret": out.append(o)
                        else: push(o[1], o[2], o[3], o[4], x[6])
            items = []
            for _, _, bb, prev, env, st, its in live:
                new = {}
                for I in phis:
                    for v, pb in I.ops:
                        if pb is prev: new[I.id] = self.val(env, st, v); break
                    else: raise Unsupported("phi without predecessor")
                env.update(new); items.append((env, st, its))
            if len(items) > 1 and lp is None:
                r = self.join([x[1] for x in items], [x[0] for x in items], [I.id for I in phis], ir.live(F)[bb])
                if r is not None: items = [(r[1], r[0], items[0][2])]
            for env, st, its in items:
                try: res = self.block(F, bb, len(phis), env, st)
                except PathAbort: continue
                for o in res:
                    if o[0] == "ret": out.append(o)
                    else: push(o[1], bb, o[2], o[3], its)
        return out
    def block(self, F, bb, start, env, st):
        """execute instructions start.. of bb; returns ('ret',st,v) / ('go',bb,env,st) list"""
        i = start
        ins = bb.ins
        while i < len(ins):
            I = ins[i]
            self.steps += 1
            if self.steps > self.max_steps: raise Unsupported("step budget")
            op = I.op
            if op == "ret": return [("ret", st, self.val(env, st, I.ops[0]) if I.ops else None)]
            if op == "unreachable": return []
            if op == "br":
                if not I.ops: return [("go", bb.succ[0], env, st)]
                c = self.val(env, st, I.ops[0])
                if isinstance(c, Undef):
                    self.oblige("initialised", st, FALSE); return []
                c = self.tobool(c)
                return self.branch(c, bb.succ[0], bb.succ[1], env, st)
            if op == "switch":
                v = self.val(env, st, I.ops[0]); out = []
                rest = []
                for cv, s in zip(I.x, bb.succ[1:]):
                    c = self.icmp1("eq", v, const_i(cv)); rest.append(lnot(c))
                    if c is FALSE: continue
                    if self.feasible(st, c):
                        s2 = st.fork(); s2.assume(c); out.append(("go", s, dict(env), s2))
                c = land(*rest)
                if c is not FALSE and self.feasible(st, c):
                    s2 = st.fork(); s2.assume(c); out.append(("go", bb.succ[0], dict(env), s2))
                return out
            if op == "call":
                r = self.callins(I, env, st)
                if len(r) == 1:
                    st, v = r[0]; env[I.id] = v; i += 1; continue
                out = []
                for s2, v in r:
                    e2 = dict(env); e2[I.id] = v
                    try: out.extend(self.block(F, bb, i + 1, e2, s2))
                    except PathAbort: pass
                return out
            if op == "select":
                c, a, b = [self.val(env, st, x) for x in I.ops]
                c = self.tobool(c)
                if c is TRUE: env[I.id] = a
                elif c is FALSE: env[I.id] = b
                elif isinstance(a, T) and isinstance(b, T): env[I.id] = ite(c, a, b)
                elif vsame(a, b): env[I.id] = a
                else:
                    out = []
                    for cc, v in ((c, a), (lnot(c), b)):
                        if self.feasible(st, cc):
                            s2 = st.fork(); s2.assume(cc); e2 = dict(env); e2[I.id] = v
                            try: out.extend(self.block(F, bb, i + 1, e2, s2))
                            except PathAbort: pass
                    return out
                i += 1; continue
            v = self.ins(I, env, st)
            env[I.id] = v
            i += 1
        raise Unsupported("block without terminator")
    def branch(self, c, a, b, env, st):
        if c is TRUE: return [("go", a, env, st)]
        if c is FALSE: return [("go", b, env, st)]
        fa = self.feasible(st, c)
        if not fa: st.assume(lnot(c)); return [("go", b, env, st)]
        fb = self.feasible(st, lnot(c))
        if not fb: st.assume(c); return [("go", a, env, st)]
        s2 = st.fork(); s2.assume(lnot(c)); st2 = st.fork(); st2.assume(c)
        return [("go", a, dict(env), st2), ("go", b, dict(env), s2)]
    def callins(self, I, env, st):
        c = I.x["callee"]
        args = [self.val(env, st, v) for v in I.ops]
        f = self.val(env, st, c) if c[0] != "fn" else FnVal(c[1])
        for k, ty in I.x["byval"].items():
            r = self.alloc(st, "byval", ty.size); p = Ptr(r); self.memcpy(st, p, args[k], const_i(ty.size)); args[k] = p
        if isinstance(f, Ptr) and f.r is None:
            self.oblige("call through null", st, FALSE); raise PathAbort("null call")
        if not isinstance(f, FnVal): raise Unsupported("indirect call through %r" % (f,))
        n = f.name
        if f.sym:
            self.oblige("call through null", st, f.nonnull)
            return self._r(st, self.h["<symfn>"](self, st, args, f))
        if n.startswith("llvm."): return [(st, self.intrinsic(n, args, st, I))]
        return self.call(n, args, st)
    def _r(self, st, r): return r if isinstance(r, list) else [(st, r)]
    def intrinsic(self, n, a, st, I):
        if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.stackrestore", "llvm.prefetch", "llvm.donothing")):
            return None
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"): self.memcpy(st, a[0], a[1], a[2]); return None
        if n.startswith("llvm.memset"):
            if not (t.is_ic(a[1]) and t.icv(a[1]) == 0): raise Unsupported("memset of non-zero")
            if not t.is_ic(a[2]): raise Unsupported("memset of symbolic size")
            m = t.icv(a[2])
            if m:
                r, key = self.loc(st, a[0], m, True)
                step = 8 if m % 8 == 0 else (4 if m % 4 == 0 else 1)
                for o in range(0, m, step): self.write(st, r, key[:-1] + (key[-1] + o,), step, ZERO)
            return None
        if n.startswith("llvm.fabs"): return t.fabs(self.real(st, a[0]))
        if n.startswith("llvm.sqrt"): return self.fsqrt(st, self.real(st, a[0]))
        if n.startswith("llvm.fmuladd") or n.startswith("llvm.fma"): return self.real(st, a[0]) * self.real(st, a[1]) + self.real(st, a[2])
        if n.startswith("llvm.floor"): return t.toreal(t.floor_i(self.real(st, a[0])))
        if n.startswith("llvm.ceil"): return t.toreal(t.ceil_i(self.real(st, a[0])))
        if n.startswith("llvm.stacksave"): return NULL
        if n.startswith("llvm.expect"): return a[0]
        if n.startswith(("llvm.maxnum", "llvm.maximum")): return t.tmax(self.real(st, a[0]), self.real(st, a[1]))
        if n.startswith(("llvm.minnum", "llvm.minimum")): return t.tmin(self.real(st, a[0]), self.real(st, a[1]))
        if n.startswith("llvm.smax"): return t.tmax(a[0], a[1])
        if n.startswith("llvm.smin"): return t.tmin(a[0], a[1])
        if n.startswith("llvm.abs"): return ite(lt(a[0], const_i(0)), -a[0], a[0])
        if n.startswith("llvm.is.constant"): return FALSE
        if n.startswith("llvm.objectsize"): return const_i(-1)
        if n.startswith("llvm.copysign.f64"):
            x, y = [self.real(st, v) for v in a]; z = const_r(0)
            m = ite(lt(x, z), t.neg(x), x); return ite(lt(y, z), t.neg(m), m)
        if n.startswith("llvm.trap"): raise PathAbort("trap")
        if n.startswith("llvm.umul.with.overflow"):
            r = a[0] * a[1]; return Agg([r, FALSE])
        for f in ("exp", "log", "sin", "cos", "pow"):
            if n.startswith("llvm.%s.f64" % f): return self.libm(f, [self.real(st, x) for x in a], st)
        raise Unsupported("intrinsic " + n)
    def fsqrt(self, st, x):
        self.oblige("sqrt of a non-negative value", st, le(const_r(0), x))
        r = self.sol.root(st.pc, x)
        return t.sqrt(x) if r is None else r
    def libm(self, f, a, st):
        if f == "pow":
            b = a[1]
            if t.is_rc(b):
                q = b.args[0]
                if q.denominator == 1 and abs(q) <= 16:
                    x = a[0]
                    if q % 2 == 0 and x.op == "ite" and t.neg(x.args[1]) is x.args[2]: x = x.args[1]     # even power of an absolute value
                    return x ** int(q)
                if q == Fraction(1, 2): return self.fsqrt(st, a[0])
                if q.denominator == 2 and q > 0: return a[0] ** int(q - Fraction(1, 2)) * self.fsqrt(st, a[0])
                if q.denominator == 2 and q < 0: return const_r(1) / (a[0] ** int(-q - Fraction(1, 2)) * self.fsqrt(st, a[0]))
            return t.fn("pow", *a)
        if f in ("sin", "cos") and a[0].op == "app" and a[0].args[0] == "asin":
            x = a[0].args[1]; one = const_r(1)
            if self.prove(st, land(le(t.neg(one), x), le(x, one))): return x if f == "sin" else self.fsqrt(st, one - x * x)
        if t.is_rc(a[0]) and a[0].args[0] == 0:
            if f in ("sin", "tan", "atan", "asin"): return const_r(0)
            if f in ("cos", "exp"): return const_r(1)
        return t.fn(f, *a)
    def ins(self, I, env, st):
        op = I.op
        if op == "alloca":
            n = self.val(env, st, I.ops[0])
            sz = t.icv(n) * I.x.size if t.is_ic(n) else n * I.x.size
            r = self.alloc(st, "local", sz); return Ptr(r)
        a = [self.val(env, st, v) for v in I.ops]
        if op == "load": return self.load(st, a[0], I.ty)
        if op == "store":
            self.store(st, a[1], a[0], I.x); return None
        if op == "gep": return self.gep(a[0], I.x, [self.int_(st, x) for x in a[1:]])
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            x = self.real(st, a[0]); y = self.real(st, a[1])
            if op == "fadd": return x + y
            if op == "fsub": return x - y
            if op == "fmul": return x * y
            if not t.is_rc(y) or y.args[0] == 0: self.oblige("division by non-zero", st, ne(y, const_r(0)))
            return t.rdiv(x, y)
        if op == "fneg": return -self.real(st, a[0])
        if op == "fcmp":
            x = self.real(st, a[0]); y = self.real(st, a[1]); p = I.x
            if p in ("ord", "uno"): return t.const_b(p == "ord")
            p = p[1:]
            return {"eq": eq(x, y), "gt": lt(y, x), "ge": le(y, x), "lt": lt(x, y), "le": le(x, y), "ne": ne(x, y)}[p]
        if op == "icmp": return self.icmp(st, I.x[0], a[0], a[1], I.x[1])
        if op in ("add", "sub", "mul"):
            if isinstance(a[0], PtrInt) or isinstance(a[1], PtrInt):
                if op == "sub" and isinstance(a[0], PtrInt) and isinstance(a[1], PtrInt):
                    p, q = a[0].p, a[1].p
                    if p.r is q.r and p.idx == q.idx: return t.sub(p.off, q.off)
                raise Unsupported("pointer arithmetic on integers")
            if isinstance(a[0], T) and a[0].sort == "B" and I.ty.w == 1: raise Unsupported("i1 arithmetic")
            x = self.int_(st, a[0]); y = self.int_(st, a[1])
            r = {"add": t.add, "sub": t.sub, "mul": t.mul}[op](x, y)
            return self.ovf(st, r, I.ty.w)
        if op in ("sdiv", "srem", "udiv", "urem"):
            x = self.int_(st, a[0]); y = self.int_(st, a[1])
            self.oblige("division by non-zero", st, ne(y, const_i(0)))
            if op[0] == "u": x = self.unsigned(st, x, I.ty.w); y = self.unsigned(st, y, I.ty.w)
            return t.idiv_trunc(x, y) if op.endswith("div") else t.irem_trunc(x, y)
        if op in ("and", "or", "xor"):
            x, y = a
            if I.ty.w == 1 or (isinstance(x, T) and x.sort == "B" and isinstance(y, T) and y.sort == "B"):
                x = self.tobool(x); y = self.tobool(y)
                if op == "and": return land(x, y)
                if op == "or": return lor(x, y)
                return lnot(eq(x, y)) if x is not TRUE and y is not TRUE else (lnot(y) if x is TRUE else lnot(x))
            if op == "or" and isinstance(x, Pieces) and isinstance(y, Pieces):
                return Pieces(x.n, x.ps + y.ps)
            if op == "or":
                # bool | bool held in integers
                bx, by = self.asbool01(x), self.asbool01(y)
                if bx is not None and by is not None: return ite(lor(bx, by), const_i(1), const_i(0))
            if op == "and":
                bx, by = self.asbool01(x), self.asbool01(y)
                if bx is not None and by is not None: return ite(land(bx, by), const_i(1), const_i(0))
                for u, w in ((x, y), (y, x)):
                    if isinstance(w, T) and w.sort == "I" and t.is_ic(w):
                        n = t.icv(w)
                        if n >= 0 and (n & (n + 1)) == 0 and isinstance(u, T) and u.sort == "I":
                            if self.prove(st, land(le(const_i(0), u), le(u, w))): return u
                            if self.prove(st, le(const_i(0), u)): return t.irem_trunc(u, const_i(n + 1))
            raise Unsupported("bit operation " + op)
        if op == "shl":
            if isinstance(a[0], Pieces):
                n = t.icv(a[1]) // 8; return Pieces(I.ty.size, [(o + n, s, v) for o, s, v in a[0].ps])
            if not t.is_ic(a[1]):
                n = self.int_(st, a[1])
                if not self.prove(st, land(le(const_i(0), n), lt(n, const_i(I.ty.w - 1)))): raise Unsupported("shift by variable")
                return self.ovf(st, self.int_(st, a[0]) * t.app("pow2", [n], "I"), I.ty.w)
            return self.ovf(st, self.int_(st, a[0]) * (1 << t.icv(a[1])), I.ty.w)
        if op in ("lshr", "ashr"):
            if isinstance(a[0], Pieces):
                n = t.icv(a[1]) // 8
                return Pieces(I.ty.size, [(o - n, s, v) for o, s, v in a[0].ps if o >= n])
            if not t.is_ic(a[1]): raise Unsupported("shift by variable")
            x = self.int_(st, a[0]); n = 1 << t.icv(a[1])
            if t.is_ic(x):
                xv = t.icv(x)
                return const_i((xv % (1 << I.ty.w)) >> t.icv(a[1]) if op == "lshr" else xv >> t.icv(a[1]))
            if not self.prove(st, le(const_i(0), x)):
                d = t.exact_div(x, n)
                if op == "ashr" and d is not None: return d
                raise Unsupported("shift of a possibly negative value")
            return t.idiv_trunc(x, const_i(n))
        if op in ("zext", "sext"):
            x = a[0]
            if I.x.w == 1:
                return ite(self.tobool(x), const_i(1 if op == "zext" else -1), const_i(0))
            if isinstance(x, T) and x.sort == "B": return ite(x, const_i(1), const_i(0))
            if isinstance(x, Pieces): return Pieces(I.ty.size, x.ps)
            if isinstance(x, Undef): return x
            x = self.int_(st, x)
            if op == "zext": return self.unsigned(st, x, I.x.w)
            return x
        if op == "trunc":
            x = a[0]
            if isinstance(x, Pieces):
                ps = [p for p in x.ps if p[0] < I.ty.size]
                if len(ps) == 1 and ps[0][0] == 0 and ps[0][1] == I.ty.size: return ps[0][2]
                return Pieces(I.ty.size, ps)
            if isinstance(x, T) and x.sort == "B": return x
            if isinstance(x, Undef): return x
            if I.ty.w == 1: return self.tobool(x) if self.asbool01(x) is not None else self.icmp1("ne", t.irem_trunc(x, const_i(2)), const_i(0))
            x = self.int_(st, x)
            return self.ovf(st, x, I.ty.w)
        if op in ("sitofp", "uitofp"):
            x = self.int_(st, a[0]) if not (isinstance(a[0], T) and a[0].sort == "B") else ite(a[0], const_i(1 if op == "uitofp" else -1), const_i(0))
            if op == "uitofp": x = self.unsigned(st, x, I.x.w)
            return t.toreal(x)
        if op in ("fptosi", "fptoui"):
            x = self.real(st, a[0]); r = t.trunc_i(x)
            return self.ovf(st, r, I.ty.w)
        if op in ("fpext", "fptrunc"): return self.real(st, a[0])
        if op == "ptrtoint": return PtrInt(a[0])
        if op == "inttoptr": return a[0].p if isinstance(a[0], PtrInt) else NULL
        if op == "bitcast" or op == "freeze": return a[0]
        if op == "extractvalue":
            v = a[0]
            for i in I.x: v = v.vs[i]
            return v
        if op == "insertvalue":
            v = a[0]
            def sett(v, p, x, ty):
                if not isinstance(v, Agg): v = Agg([Undef("undef")] * (ty.n if ty.k == "a" else len(ty.fields)))
                l = list(v.vs)
                if len(p) == 1: l[p[0]] = x
                else: l[p[0]] = sett(l[p[0]], p[1:], x, ty.el if ty.k == "a" else ty.fields[p[0]])
                return Agg(l)
            return sett(v, I.x, a[1], I.ty)
        raise Unsupported("instruction " + op)
    def asbool01(self, x):
        if isinstance(x, T):
            if x.sort == "B": return x
            if t.is_ic(x) and t.icv(x) in (0, 1): return t.const_b(t.icv(x) == 1)
            if len(x.args) == 1 and x.args[0][1] == 1 and len(x.args[0][0]) == 1 and x.args[0][0][0].op == "iite":
                c, u, w = x.args[0][0][0].args
                bu, bw = self.asbool01(u), self.asbool01(w)
                if bu is not None and bw is not None: return lor(land(c, bu), land(lnot(c), bw))
        return None

    # -------------------------------------------------- loops
    def header_cond(self, F, lp, prev, env, st):
        """execute the header alone; -> (conds: list of (exit_cond, stay_bb, exit_bb, env, st)) or None when it does not test an exit"""
        h = lp.header
        term = h.ins[-1]
        if term.op != "br" or not term.ops: return None
        inn = [s in lp.blocks for s in h.succ]
        if inn[0] == inn[1]: return None
        return inn
    def enter_loop(self, F, lp, prev, env, st):
        """None: continue concretely.  Otherwise outcome list."""
        inn = self.header_cond(F, lp, prev, env, st)
        if inn is None: return None
        # peek
        q = self.quiet; self.quiet = 1
        try:
            r = self.peek(F, lp.header, prev, dict(env), st.fork())
        finally: self.quiet = q
        if r is None: return None
        if len(r) != 1: return None      # several paths through the header: run concretely
        c, st1 = r[0]
        if c is TRUE or c is FALSE: return None
        stay = c if inn[0] else lnot(c)
        if self.unroll and self.unroll[0] in demangle(F.name) and stay.op in ("lt", "le") and stay.args[0].sort == "R":
            # bounded: exactly this many iterations
            key = ("unroll", F.name, lp.header); n = st.ghost.get(key, 0)
            if n < self.unroll[1]:
                if len(self.unroll) > 2 and n == 0: self.anywhere(F, lp, prev, env, st, inn, stay); stay = None
                else: st.assume(stay)
                st.ghost[key] = n + 1
            else:
                if len(self.unroll) > 2:
                    for r, o, s in st.ghost["anywhere"]:
                        x = st.rs(r).cells[o][0]
                        for g in self.unroll[2](self.ctx.v, x): self.oblige("loop invariant is preserved", st, g)
                        for r2, o2, s2 in st.ghost["anywhere"][:1]: self.oblige("loop invariant is preserved", st, eq(x, st.rs(r2).cells[o2][0]))
                st.assume(lnot(stay)); st.ghost[key] = 0
            return None
        if not self.feasible(st, stay): return None
        if not self.feasible(st, lnot(stay)):
            # cannot exit now: is it a bounded unrolling?  treat as symbolic loop unless the test is decided
            pass
        return self.cut_loop(F, lp, prev, env, st, inn)
    def anywhere(self, F, lp, prev, env, st, inn, stay):
        """start the loop from an arbitrary common value of its real-valued variables that satisfies the invariant"""
        recs = getattr(self.ctx.v, "recs", ()); self.quiet += 1
        h = lp.header; n = len([I for I in h.ins if I.op == "phi"])
        if n: raise Unsupported("loop variables outside memory")
        try:
            s1 = st.fork(); s1.assume(stay); e1, s2, _ = self.hdr_paths(F, h, 0, dict(env), s1)[0]
            outs = self.run(F, h.succ[0] if inn[0] else h.succ[1], h, e1, s2, lp)
        finally: self.quiet -= 1; self.ctx.v.recs = recs
        cells = []
        for r, rs in st.mem.items():
            for o, (x, s) in rs.cells.items():
                if not (isinstance(x, T) and x.sort == "R"): continue
                ends = [out[3].rs(r).cells.get(o) for out in outs if out[0] == "back"]
                if any(y is None or not vsame(y[0], x) for y in ends): cells.append((r, o, s))
        w = t.var(fresh("any"), "R"); self.ctx.v.start = w; st.ghost["anywhere"] = tuple(cells)
        for r, o, s in cells:
            for g in self.unroll[2](self.ctx.v, st.rs(r).cells[o][0]): self.oblige("loop invariant holds initially", st, g)
            self.oblige("loop invariant holds initially", st, eq(st.rs(r).cells[o][0], st.rs(cells[0][0]).cells[cells[0][1]][0]))
        for r, o, s in cells: self.write(st, r, (const_i(o),), s, w)
        for g in self.unroll[2](self.ctx.v, w): st.assume(g)
        e1, s2, c = self.hdr_paths(F, h, 0, dict(env), st.fork())[0]
        st.assume(c if inn[0] else lnot(c))
    def peek(self, F, h, prev, env, st):
        new = {}; n = 0
        for I in h.ins:
            if I.op != "phi": break
            n += 1
            for v, pb in I.ops:
                if pb is prev: new[I.id] = self.val(env, st, v)
        env.update(new)
        return self.hdr(F, h, n, env, st)
    def hdr(self, F, h, n, env, st):
        res = []
        work = [(n, env, st)]
        while work:
            i, env, st = work.pop()
            while True:
                I = h.ins[i]
                if I.op == "br":
                    c = self.val(env, st, I.ops[0])
                    if isinstance(c, Undef): raise Unsupported("loop test undefined: " + c.why)
                    res.append((self.tobool(c), st)); break
                if I.op == "call":
                    r = self.callins(I, env, st)
                    if len(r) == 0: break
                    for s2, v in r[1:]:
                        e2 = dict(env); e2[I.id] = v; work.append((i + 1, e2, s2))
                    st, v = r[0]; env[I.id] = v
                elif I.op == "select":
                    c, a, b = [self.val(env, st, x) for x in I.ops]; c = self.tobool(c)
                    if c is TRUE: env[I.id] = a
                    elif c is FALSE: env[I.id] = b
                    elif isinstance(a, T) and isinstance(b, T): env[I.id] = ite(c, a, b)
                    else: raise Unsupported("pointer select in loop test")
                else: env[I.id] = self.ins(I, env, st)
                i += 1
        return res
    def havoc_like(self, v, name):
        """fresh symbol with the shape of v"""
        if isinstance(v, T):
            if v.sort == "B": return t.mk("var", (name,), "B")
            return t.var(name, v.sort)
        if isinstance(v, Ptr): return Ptr(v.r, t.var(name, "I"), v.idx)
        if isinstance(v, Zero): return t.var(name, "R")
        return None
    def stride(self, F, lp, I):
        """the constant by which every iteration moves a pointer or an integer, read off the code"""
        defs = {J.id: J for b in lp.blocks for J in b.ins}
        r = set()
        for v, pb in I.ops:
            if pb not in lp.blocks: continue
            J = defs.get(v[1]) if v[0] == "v" else None
            if J is not None and J.op == "add" and ("v", I.id) in J.ops:
                x = [y for y in J.ops if y != ("v", I.id)]
                if len(x) != 1 or x[0][0] != "i": return None
                r.add(x[0][1]); continue
            if J is None or J.op != "gep" or J.ops[0] != ("v", I.id) or any(x[0] != "i" for x in J.ops[1:]): return None
            r.add(t.icv(self.gep(Ptr(I), J.x, [const_i(x[1]) for x in J.ops[1:]]).off))
        return r.pop() if len(r) == 1 else None
    def cut_loop(self, F, lp, prev, env0, st0, inn):
        if self.hints.get((F.name, lp.header)):
            nobl = len(self.obl)
            try: return self.cut_loop_(F, lp, prev, env0, st0, inn, True)
            except Unsupported:
                del self.obl[nobl:]
        return self.cut_loop_(F, lp, prev, env0, st0, inn, False)
    def cut_loop_(self, *a):
        self.cutdepth += 1
        try: return self.cut_loop__(*a)
        finally: self.cutdepth -= 1
    def cut_loop__(self, F, lp, prev, env0, st0, inn, usehint):
        h = lp.header
        phis = [I for I in h.ins if I.op == "phi"]
        init = {}
        for I in phis:
            for v, pb in I.ops:
                if pb is prev: init[I.id] = self.val(env0, st0, v)
        k = t.var(fresh("k"), "I")
        cellset = {}     # (region, off, size) -> init value
        regset = {}      # region -> havoc name
        closed = {}      # carrier -> closed form at k (or None: unknown yet -> havoc)
        names = {}       # carrier -> symbol name
        kinds = {}
        # pointers walking a table: fixed stride (checked for inductiveness below like any closed form)
        for I in phis:
            if isinstance(init[I.id], Ptr):
                sd = self.stride(F, lp, I)
                if sd is not None: closed[I.id] = ("ind", Ptr(init[I.id].r, init[I.id].off + t.mul(const_i(sd), k), init[I.id].idx))
            elif isinstance(init[I.id], t.T) and init[I.id].sort == "I":
                sd = self.stride(F, lp, I)
                if sd is not None: closed[I.id] = ("ind", init[I.id] + t.mul(const_i(sd), k))
        rec = None       # trip count of a loop that runs while a recurrence satisfies the test
        hkey = (F.name, lp.header)
        for kind, x in (self.hints.get(hkey, ()) if usehint else ()):
            if kind == "reg" and x in st0.mem:
                regset[x] = fresh("hv"); self.havoc_names[regset[x]] = x; self.fp[regset[x]] = set(self.fphints.get((hkey, x), ()))
            if kind == "cell" and x[0] in st0.mem:
                c = st0.rs(x[0]).cells.get(x[1])
                if c is not None and c[1] == x[2]: cellset[x] = c[0]
        self.quiet += 1; dropped = set()
        try:
            for it in range(12):
                closed0 = set(closed)
                r = self.body_pass(F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, None, rec)
                changed = False
                # newly modified cells / regions
                for (reg, o, s) in r["cells"]:
                    if (reg, o, s) not in cellset and reg not in regset:
                        rs = st0.rs(reg)
                        c = rs.cells.get(o)
                        if c is not None and c[1] == s: v = c[0]
                        else:
                            class _t: pass
                            ty = _t(); ty.size = s; ty.k = r["cells"][(reg, o, s)]; ty.w = 8 * s
                            try: v = self.read(st0, reg, (const_i(o),), s, ty)
                            except Unsupported: v = Undef("before loop")
                        cellset[(reg, o, s)] = v; changed = True
                for reg in r["regs"]:
                    if reg not in regset:
                        regset[reg] = fresh("hv"); self.havoc_names[regset[reg]] = reg; self.fp[regset[reg]] = set(); changed = True
                        for key in [c for c in cellset if c[0] is reg]: del cellset[key]; closed.pop(key, None)
                for reg, hv in regset.items():
                    for x in r["fp"].get(reg, ()):
                        if covered(x, self.fp[hv]): continue
                        changed = True
                        if len(self.fp[hv]) >= 8: self.fp[hv] = {(1, 0, 1)}
                        else: self.fp[hv].add(x)
                if changed: continue
                # regions another run of this loop writes and this one does not
                drop = [x for x in regset if x not in dropped and not any(es for _, es in r["effects"].get(x, ()))]
                for x in drop: del regset[x]; dropped.add(x)
                if drop: continue
                # classify carriers
                carriers = [I.id for I in phis] + list(cellset)
                again = False; hdep = []
                if self.recinv is not None and rec is None:
                    e1 = dict(env0); s1 = st0.fork(); self.set_start(e1, s1, phis, init, cellset, regset, closed, names, k)
                    for _, _, c1 in self.hdr_paths(F, h, len(phis), e1, s1):
                        for c in carriers:
                            v0 = init[c] if c in init else cellset[c]
                            if c not in closed and isinstance(v0, T) and v0.sort == "R" and depends(c1, t.var(names[c], "R")): hdep.append(c)
                syms = {c: names.get(c) for c in carriers}
                for c in carriers:
                    if c in closed: continue
                    v0 = init[c] if c in init else cellset[c]
                    cl = self.classify(c, v0, names.get(c), r["ends"], k, [n for cc, n in names.items() if cc != c and cc not in closed0], regset)
                    if cl is not None and cl[0] == "scratch" and c in hdep: cl = None
                    if cl is not None:
                        closed[c] = cl; kinds[c] = cl[0]; again = True
                if again and all(c in closed for c in carriers): break
                if again: continue
                # remaining unknown carriers are poisoned (an error only if read)
                rem = [c for c in carriers if c not in closed]
                if rem and self.recinv is not None and rec is None:
                    # real-valued recurrences the loop test depends on: uninterpreted, with the invariant of the contract
                    for c in hdep:
                        if c not in rem: continue
                        if self.cutdepth > 1: raise Unsupported("loop over a recurrence inside another loop")
                        if rec is None: rec = t.var(fresh("trip"), "I"); st0.assume(le(const_i(0), rec))
                        closed[c] = ("rec", t.app(fresh("rec"), (k,), "R")); rem.remove(c)
                        self.ctx.v.recs = getattr(self.ctx.v, "recs", ()) + ((rec, closed[c][1].args[0]),)
                    if rec is not None: self.rec_axioms(closed, init, cellset, k, rec, None); continue
                if rem:
                    for c in rem: closed[c] = ("poison", None)
                    continue
                break
            else: raise Unsupported("loop invariant inference did not converge in " + self.where[-1])
        finally: self.quiet -= 1
        # trip count from the header test
        N = self.trip(F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, rec)
        r = self.body_pass(F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, N)
        again = False
        for reg, hv in regset.items():      # a loop that reads what it has not written yet
            if hv in self.hvkeys: continue
            try:
                for g, es in r["effects"].get(reg, []): self.norm_path(st0.fork_assume(g), es, hv)
            except Unsupported: self.hvkeys[hv] = (k, self.written(k, r["effects"][reg])); again = True
        if again: r = self.body_pass(F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, N)
        if r["exits"]: raise Unsupported("loop with early exit in " + self.where[-1])
        if any(c not in cellset and c[0] not in regset for c in r["cells"]) or any(x not in regset for x in r["regs"]): raise Unsupported("loop frame inference")
        if any(not covered(x, self.fp[hv]) for reg, hv in regset.items() for x in r["fp"].get(reg, ())): raise Unsupported("loop frame inference")
        for x, hv in regset.items(): self.fphints[(hkey, x)] = set(self.fp[hv])
        self.hints[hkey] = [("reg", x) for x in regset] + [("cell", x) for x in cellset]
        self.loops_cut.append((self.where[-1] if self.where else "?", sorted(set(x[0] for x in closed.values()))))
        for x, hv in regset.items():
            if hv in self.hvused and not set(self.written(k, r["effects"].get(x, []))) <= set(self.hvkeys[hv][1]): raise Unsupported("loop frame inference")
        # inductiveness: every carrier's end value equals its closed form at k+1
        for c, cl in closed.items():
            if cl[0] in ("poison", "scratch"): continue
            if cl[0] == "rec":
                v0 = init[c] if c in init else cellset[c]
                for x in self.recinv(self.ctx.v, v0, const_i(0)): self.oblige("loop invariant holds initially", st0, x)
                for g, vals, stp in r["ends"]:
                    if not isinstance(vals[c], T): raise Unsupported("loop invariant check")
                    for x in self.recinv(self.ctx.v, vals[c], k + 1): self.oblige("loop invariant is preserved", stp, x)
                continue
            nxt = vsub(cl[1], {k: k + 1})
            for g, vals, stp in r["ends"]:
                v = vals[c]
                if vsame(v, nxt): continue
                if isinstance(v, T) and isinstance(nxt, T):
                    if cl[0] == "sum": continue   # prefix sums are inductive by definition of the sum
                    self.oblige("loop invariant", stp, eq(v, nxt)); continue
                if isinstance(v, Ptr) and isinstance(nxt, Ptr) and v.r is nxt.r:
                    if cl[0] == "sum": continue
                    self.oblige("loop invariant", stp, eq(v.off, nxt.off)); continue
                raise Unsupported("loop invariant check")
        # state after the loop
        st = st0.fork(); env = dict(env0)
        # region effects
        for reg, hv in regset.items():
            paths = []
            for g, es in r["effects"].get(reg, []):
                paths.append((g, self.norm_path(st0.fork_assume(g), es, hv)))
            rs = st.wrs(reg)
            for o2, (v2, s2) in rs.cells.items(): rs.log.append(("st", (const_i(o2),), s2, v2))
            rs.cells = {}
            if paths:
                self.check_fa(st0, ForAll(k, N, paths), hv)
                rs.log.append(("forall", ForAll(k, N, paths)))
        if r["traces"]:
            if any(es for g, es in r["traces"]): st.trace.append(("forall", ForAll(k, N, r["traces"])))
        pos = self.sol.prove(st0.pc, lt(const_i(0), N))
        def final(c, v0):
            cl = closed[c]
            if cl[0] == "poison": return Undef("value after loop not determined")
            if cl[0] == "scratch":
                last = vsub(cl[1], {k: N - 1}) if cl[1] is not None else Undef("scratch after loop")
                if pos: return last
                if isinstance(last, T) and isinstance(v0, T): return ite(lt(const_i(0), N), last, v0)
                if isinstance(v0, Undef) and not isinstance(last, Undef) and v0.why != "undef": return Undef("scratch after possibly empty loop")
                return Undef("scratch after loop")
            return vsub(cl[1], {k: N})
        for (reg, o, s), v0 in cellset.items():
            self.write(st, reg, (const_i(o),), s, final((reg, o, s), v0))
        env2 = dict(env)
        # run the header once more with the final carriers to leave the loop
        for I in phis: env2[I.id] = final(I.id, init[I.id])
        n = len(phis)
        exit_bb = h.succ[1] if inn[0] else h.succ[0]
        q = self.quiet
        rr = self.hdr_env(F, h, n, env2, st)
        outs = []
        for e2, s2, c in rr:
            ex = lnot(c) if inn[0] else c
            # leaving condition holds by definition of N; keep it as a fact
            if ex is not TRUE and ex is not FALSE: s2.assume(ex)
            outs.append(("go", exit_bb, h, e2, s2))
        return outs
    def rec_axioms(self, closed, init, cellset, k, N, stay):
        """facts on the values f(0..N) of a recurrence: invariant, initial value, test of the loop"""
        for c, cl in closed.items():
            if cl[0] != "rec": continue
            f = cl[1].args[0]; v0 = init[c] if c in init else cellset[c]
            if f not in self.recs: self.recs.append(f)
            def ax(apps, f=f, v0=v0):
                out = []
                for x in apps.get(f, ()):
                    i = t._asI(x.args[1]); rng = land(le(const_i(0), i), le(i, N))
                    if stay is None:
                        out.append(t.implies(eq(i, const_i(0)), eq(x, v0)))
                        for y in self.recinv(self.ctx.v, x, i): out.append(t.implies(rng, y))
                    else: out.append(t.implies(land(le(const_i(0), i), lt(i, N)), subst(stay, {k: i})))
                return out
            self.sol.user_axioms.append(ax)
    def hdr_env(self, F, h, n, env, st):
        i = n
        while True:
            I = h.ins[i]
            if I.op == "br":
                c = self.val(env, st, I.ops[0]); return [(env, st, self.tobool(c))]
            if I.op == "call":
                r = self.callins(I, env, st)
                if len(r) != 1: raise Unsupported("forking loop header")
                st, v = r[0]; env[I.id] = v
            elif I.op == "select":
                c, a, b = [self.val(env, st, x) for x in I.ops]; c = self.tobool(c); env[I.id] = ite(c, a, b)
            else: env[I.id] = self.ins(I, env, st)
            i += 1
    def set_start(self, env, st, phis, init, cellset, regset, closed, names, k):
        """iteration-start state; returns (env, st)"""
        for I in phis:
            v0 = init[I.id]
            if I.id in closed: v = self.startval(closed[I.id], v0)
            else:
                names.setdefault(I.id, fresh("c")); v = self.havoc_like(v0, names[I.id])
                if v is None: v = Undef("carried")
            env[I.id] = v
        for (reg, o, s), v0 in cellset.items():
            key = (reg, o, s)
            if key in closed: v = self.startval(closed[key], v0)
            else:
                names.setdefault(key, fresh("c")); v = self.havoc_like(v0, names[key])
                if v is None: v = Undef("carried")
            self.write(st, reg, (const_i(o),), s, v)
        for reg, hv in regset.items():
            rs = st.wrs(reg)
            for o2, (v2, s2) in rs.cells.items(): rs.log.append(("st", (const_i(o2),), s2, v2))
            rs.cells = {}
            rs.log.append(("havoc", hv))
    def startval(self, cl, v0):
        if cl[0] == "poison": return Undef("loop-carried value not determined")
        if cl[0] == "scratch": return Undef("scratch")
        return cl[1]
    def body_pass(self, F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, N, rec=None):
        h = lp.header
        env = dict(env0); st = st0.fork()
        self.set_start(env, st, phis, init, cellset, regset, closed, names, k)
        st.assume(le(const_i(0), k))
        if N is not None: st.assume(lt(k, N))
        elif rec is not None: st.assume(lt(k, rec))
        # mark
        known = set(st.mem)
        for reg in list(st.mem):
            rs = st.wrs(reg)
            rs.log = rs.log + [("mark", None)] if False else rs.log
        snap = {reg: (dict(rs.cells), len(rs.log)) for reg, rs in st.mem.items()}
        pc0 = st.pc; tr0 = len(st.trace)
        # header
        env_h = env
        rr = self.hdr_paths(F, h, len(phis), env_h, st)
        res = {"cells": {}, "regs": set(), "ends": [], "effects": {}, "exits": [], "traces": [], "fp": {}}
        stay_bb = h.succ[0] if inn[0] else h.succ[1]
        outs = []
        for e2, s2, c in rr:
            stay = c if inn[0] else lnot(c)
            if stay is FALSE: continue
            if stay is not TRUE and not self.feasible(s2, stay): continue
            if N is None: s2.assume(stay)
            else: self.oblige("loop test agrees with trip count", s2, stay)
            if N is not None: pass
            if stay_bb is h:
                outs.append(("back", h, e2, s2))
            else:
                outs.extend(self.run(F, stay_bb, h, e2, s2, lp))
        for o in outs:
            if o[0] == "ret": res["exits"].append(o); continue
            if o[0] == "exit": res["exits"].append(o); continue
            _, pb, e2, s2 = o
            vals = {}
            for I in phis:
                for v, b in I.ops:
                    if b is pb: vals[I.id] = self.val(e2, s2, v)
            guard = land(*[c for c in s2.pc[len(pc0):]]) if s2.pc[:len(pc0)] == pc0 else land(*[c for c in s2.pc if c not in pc0])
            for reg, (cells0, nlog) in snap.items():
                rs = s2.rs(reg)
                newlog = rs.log[nlog:]
                if rs.log[:nlog] and nlog and rs.log[nlog - 1] is not st.rs(reg).log[nlog - 1] and False: raise Unsupported("log")
                mods = []
                for e in newlog:
                    if e[0] == "st" and len(e[1]) == 1 and t.is_ic(e[1][0]):
                        o_ = t.icv(e[1][0]); c0 = cells0.get(o_)
                        if c0 is not None and c0[1] == e[2] and vsame(c0[0], e[3]): continue
                        mods.append(e)
                    else: mods.append(e)
                cmods = {}
                for o_, (v, s_) in rs.cells.items():
                    c0 = cells0.get(o_)
                    if c0 is not None and c0[1] == s_ and vsame(c0[0], v): continue
                    cmods[o_] = (v, s_)
                if mods or cmods: footprint(mods + [("st", (const_i(o_),), s_, v) for o_, (v, s_) in cmods.items()], res["fp"].setdefault(reg, set()))
                if reg in regset:
                    es = mods + [("st", (const_i(o_),), s_, v) for o_, (v, s_) in cmods.items()]
                    es = self.last_only(s2, es)
                    res["effects"].setdefault(reg, []).append((guard, es))
                elif any(e[0] != "st" or not (len(e[1]) == 1 and t.is_ic(e[1][0])) for e in mods):
                    res["regs"].add(reg)
                else:
                    for e in mods: cmods[t.icv(e[1][0])] = (e[3], e[2])
                    for o_, (v, s_) in cmods.items():
                        res["cells"][(reg, o_, s_)] = self.kindof(v)
            for key in cellset:
                reg, o_, s_ = key
                c = s2.rs(reg).cells.get(o_)
                if c is not None and c[1] == s_: vals[key] = c[0]
                else:
                    class _t: pass
                    ty = _t(); ty.size = s_; ty.k = self.kindof(cellset[key]); ty.w = 8 * s_
                    try: vals[key] = self.read(s2, reg, (const_i(o_),), s_, ty)
                    except Unsupported: vals[key] = Undef("torn")
            res["ends"].append((guard, vals, s2))
            res["traces"].append((guard, s2.trace[tr0:]))
        return res
    def hdr_paths(self, F, h, n, env, st):
        res = []
        work = [(n, env, st)]
        while work:
            i, env, st = work.pop()
            while True:
                I = h.ins[i]
                if I.op == "br":
                    c = self.val(env, st, I.ops[0])
                    if isinstance(c, Undef): raise Unsupported("loop test undefined: " + c.why)
                    res.append((env, st, self.tobool(c))); break
                if I.op == "call":
                    r = self.callins(I, env, st)
                    if not r: break
                    for s2, v in r[1:]:
                        e2 = dict(env); e2[I.id] = v; work.append((i + 1, e2, s2))
                    st, v = r[0]; env[I.id] = v
                elif I.op == "select":
                    c, a, b = [self.val(env, st, x) for x in I.ops]; env[I.id] = ite(self.tobool(c), a, b)
                else: env[I.id] = self.ins(I, env, st)
                i += 1
        return res
    def kindof(self, v):
        if isinstance(v, T): return {"R": "f", "I": "i", "B": "i"}[v.sort]
        if isinstance(v, (Ptr, FnVal)): return "p"
        return "f"
    def last_only(self, st, es):
        """entries of one path: keep the last store per location (syntactic), in order"""
        out = []
        for i, e in enumerate(es):
            if e[0] == "st" and any(f[0] == "st" and f[1] == e[1] and f[2] == e[2] for f in es[i + 1:]) : continue
            out.append(e)
        return out
    def norm_path(self, st, es, hv, before=()):
        """entries of one iteration in terms of what the array held before the loop"""
        out = []
        for e in es: out.append(self.norm_entry(st, e, hv, list(before) + out))
        return out
    def norm_entry(self, st, e, hv, before):
        if e[0] == "st":
            v = e[3]
            if isinstance(v, T) and mentions(v, hv):
                cur = t.app(hv if v.sort == "R" else "%s#i%d" % (hv, 8 * e[2]), e[1], v.sort)
                if v.sort not in ("R", "I"): raise Unsupported("boolean accumulation in array")
                d = t.sub(v, cur)
                d = self.sol.norm(d)
                if v.sort == "I" and mentions(d, hv): raise Unsupported("integer accumulation in array %r" % (v,))
                if not mentions(d, hv):
                    # relative to the value at this point of the iteration, not at its start
                    for kind, c, x in self.earlier(st, before, e):
                        if kind != "acc": raise Unsupported("loop store after another one to the same location")
                        d = self.sol.norm(t.sub(d, ite(c, x, const_r(0) if d.sort == "R" else const_i(0))))
                    return ("acc", e[1], e[2], d)
                # a function of what the location itself held
                d = subst(v, {cur: OLD})
                if mentions(d, hv): raise Unsupported("loop store depends on other locations written by the loop")
                if self.earlier(st, before, e): raise Unsupported("loop update after another store to the same location")
                return ("upd", e[1], e[2], d)
            return e
        if e[0] == "acc":
            if vdepends(e[3], hv): raise Unsupported("accumulated value depends on loop-modified array")
            return e
        if e[0] == "forall":
            fa = e[1]
            if t.is_ic(fa.n) and t.icv(fa.n) == 1:
                # alternatives of a branch, not a loop
                if any(depends(g, hv) for g, es in fa.paths): raise Unsupported("branch depends on array written by the loop")
                return ("forall", ForAll(fa.k, fa.n, [(g, self.norm_path(st.fork_assume(g), es, hv, before)) for g, es in fa.paths]))
            for g, es in fa.paths:
                if depends(g, hv) or any(edepends(x, hv) for x in es): raise Unsupported("nested loop depends on array written by the outer loop")
            return e
        raise Unsupported("loop effect " + e[0])
    def earlier(self, st, before, e):
        """contributions of the entries `before` (same iteration) at the location of e"""
        if not before: return []
        class _ty: k = "f"; size = e[2]; w = 8 * e[2]
        return self.fa_read(st, ForAll(t.var(fresh("g"), "I"), const_i(1), [(TRUE, list(before))]), e[1], e[2], _ty)
    def check_fa(self, st, fa, hv):
        for g, es in fa.paths:
            if hv in t.free_atoms(g): raise Unsupported("loop guard depends on array written by the loop")
    def classify(self, c, v0, name, ends, k, others, regset):
        """closed form at iteration k of a carrier, or None"""
        if name is None: return None
        vals = [e[1].get(c) for e in ends]
        if not vals: return ("inv", v0)
        isptr = isinstance(v0, Ptr)
        if any(v is None or isinstance(v, (Undef, Agg)) for v in vals):
            if all(isinstance(v, Undef) for v in vals): return ("scratch", None)
            return None
        if isptr:
            if any(not isinstance(v, Ptr) for v in vals): return None
            if any(v.r is not v0.r or v.idx != v0.idx for v in vals):
                # overwritten by another pointer: scratch if independent of the start value
                if all(not vdepends(v, t.var(name, "I")) for v in vals): return ("scratch", None)
                return None
            sym = t.var(name, "I"); ds = [t.sub(v.off, sym) for v in vals]; b0 = v0.off
        elif isinstance(v0, T) and v0.sort == "B" or any(isinstance(v, T) and v.sort == "B" for v in vals):
            if all(isinstance(v, T) and v.op == "var" and v.args[0] == name for v in vals): return ("inv", v0)
            if len(set(vals)) == 1 and not depends(vals[0], t.mk("var", (name,), "B")): return ("scratch", vals[0])
            return None
        elif isinstance(v0, FnVal):
            return ("inv", v0) if all(vsame(v, v0) for v in vals) else None
        else:
            if any(not isinstance(v, T) for v in vals):
                if all(isinstance(v, (Ptr, FnVal)) for v in vals): return ("scratch", None)
                return None
            if isinstance(v0, (Undef,)) or v0 is None:
                return ("scratch", vals[0] if len(vals) == 1 and not any(n in [getattr(a, "args", [None])[0] for a in t.free_atoms(vals[0]) if isinstance(a, T)] for n in others) else None)
            if isinstance(v0, Zero): v0 = const_r(0) if vals[0].sort == "R" else const_i(0)
            if not isinstance(v0, T): return None
            if any(v.sort != v0.sort for v in vals): return None
            sym = t.var(name, v0.sort); b0 = v0
            def dsub(v):
                "v - sym, with the choices of v outermost"
                w = v
                if w.op == "ipoly" and len(w.args) == 1 and w.args[0][1] == 1 and len(w.args[0][0]) == 1: w = w.args[0][0][0]
                if w.op in ("ite", "iite") and depends(w, sym): return ite(w.args[0], dsub(w.args[1]), dsub(w.args[2]))
                return t.sub(v, sym)
            if v0.sort == "R": ds = [self.sol.norm(dsub(v)) for v in vals]
            else: ds = [dsub(v) for v in vals]
        if all(t.is_const(d) and d is ds[0] for d in ds) :
            d = ds[0]
            z = (t.icv(d) == 0) if t.is_ic(d) else d.args[0] == 0
            if z: return ("inv", v0)
            if d.sort == "I":
                cl = b0 + t.mul(d, k)
            else: cl = b0 + t.mul(d, t.toreal(k))
            return ("ind", Ptr(v0.r, cl, v0.idx) if isptr else cl)
        def dep(x, nm): 
            return any(isinstance(a, T) and a.op in ("var", "ivar") and a.args[0] == nm for a in t.free_atoms(x))
        if all(not dep(d, name) for d in ds):
            if any(dep(d, o) for d in ds for o in others): return None
            if any(hv in t.free_atoms(d) for d in ds for hv in regset.values()): return None
            j = t.var(fresh("j"), "I")
            body = None
            zero = const_i(0) if ds[0].sort == "I" else const_r(0)
            if all(d is ds[0] for d in ds): body = ds[0]
            else:
                body = zero
                for (g, _, _), d in zip(ends, ds): body = ite(g, d, body)
            if any(dep(g, name) for g, _, _ in ends) or any(dep(g, o) for g, _, _ in ends for o in others): return None
            s = tsum(j, const_i(0), k, subst(body, {k: j}))
            cl = b0 + s
            return ("sum", Ptr(v0.r, cl, v0.idx) if isptr else cl)
        # overwritten independently of the previous iteration
        if not isptr and all(not dep(v, name) for v in vals):
            if any(dep(v, o) for v in vals for o in others): return None
            v = vals[0] if len(vals) == 1 else None
            if v is None:
                v = vals[-1]
                for (g, _, _), x in zip(ends[:-1], vals[:-1]): v = ite(g, x, v)
            return ("scratch", v)
        return None
    def trip(self, F, lp, prev, env0, st0, inn, phis, init, k, cellset, regset, closed, names, rec=None):
        h = lp.header
        env = dict(env0); st = st0.fork(); st.assume(le(const_i(0), k))
        self.quiet += 1
        try:
            self.set_start(env, st, phis, init, cellset, regset, closed, names, k)
            rr = self.hdr_paths(F, h, len(phis), env, st)
        finally: self.quiet -= 1
        if len(rr) != 1: raise Unsupported("loop test with several paths")
        c = rr[0][2]
        stay = c if inn[0] else lnot(c)
        if rec is not None and any(cl[0] == "rec" and cl[1].args[0] in t.free_atoms(stay) for cl in closed.values()):
            self.rec_axioms(closed, init, cellset, k, rec, stay)
            return rec
        return self.solve_trip(stay, k, st0)
    def solve_trip(self, stay, k, st):
        ka = t.atom_of(k)
        def affine(x):
            c = 0; rest = {}
            for m, co in x.args:
                if m == (ka,): c = co
                elif any(ka in t.free_atoms(y) for y in m): return None
                else: rest[m] = co
            return c, t._ip(rest)
        if stay.op == "and":
            # one conjunct depends on k; others must be loop-invariant facts
            dep = [x for x in stay.args if depends(x, k)]
            if len(dep) == 1 and all(self.sol.prove(st.pc, x) for x in stay.args if x is not dep[0]): return self.solve_trip(dep[0], k, st)
            raise Unsupported("compound loop test")
        if stay.op in ("lt", "le") and stay.args[0].sort == "I":
            d = t.sub(stay.args[1], stay.args[0])      # stay iff d > 0 (lt) or d >= 0
            if stay.op == "le": d = d + 1
            a = affine(d)
            if a is None: raise Unsupported("loop bound not affine in the iteration")
            c, r = a
            if c >= 0: raise Unsupported("loop does not progress towards its bound")
            c = -c      # stay iff r - c*k > 0
            if c == 1: n = r
            else:
                n = t.exact_div(r, c)
                if n is None: n = t.idiv_trunc(r + (c - 1), const_i(c)) 
            if self.sol.prove(st.pc, le(const_i(0), n)): return n
            return ite(lt(const_i(0), r), n, const_i(0))
        if stay.op in ("lt", "le") and stay.args[0].sort == "R":
            ra = t.real_as_int(stay.args[0]); rb = t.real_as_int(stay.args[1])
            if ra is not None and rb is not None: return self.solve_trip((lt if stay.op == "lt" else le)(ra, rb), k, st)
            # integer counter against a real bound: i < x  <=>  i < ceil(x)
            if ra is not None:
                b = stay.args[1]
                if not depends(b, k):
                    hi = t.ceil_i(b) if stay.op == "lt" else t.floor_i(b) + 1
                    return self.solve_trip(lt(ra, hi), k, st)
        if stay.op == "not" and stay.args[0].op == "eq":
            x, y = stay.args[0].args
            if x.sort == "I":
                a = affine(t.sub(x, y))
                if a is None: raise Unsupported("loop bound not affine")
                c, r = a
                # c*k + r != 0
                if c < 0: n = t.exact_div(r, -c)
                elif c > 0: n = t.exact_div(-r, c)
                else: n = None
                if n is None: raise Unsupported("loop != bound")
                if not self.sol.prove(st.pc, le(const_i(0), n)): self.oblige("loop terminates", st, le(const_i(0), n))
                return n
        raise Unsupported("loop test %r" % stay)
