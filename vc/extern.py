"""Assumed contracts of external functions (libm, allocation, libstdc++ containers)."""
import re
from . import term as t
from . import exec as ex
from .term import const_i, const_r

def libm(name):
    def h(E, st, args, n):
        a = [E.real(st, x) for x in args]
        if name == "sqrt": return E.fsqrt(st, a[0])
        if name == "fabs": return t.fabs(a[0])
        if name == "floor": return t.toreal(t.floor_i(a[0]))
        if name == "ceil": return t.toreal(t.ceil_i(a[0]))
        if name == "fmax": return t.tmax(*a)
        if name == "fmin": return t.tmin(*a)
        return E.libm(name, a, st)
    return h
def extremum(E, st, args, n):
    """std::min / std::max of a list of doubles: a bound of every element, equal to one of them"""
    if not (isinstance(args[1], t.T) and t.is_ic(args[1])) or t.icv(args[1]) < 1: raise ex.Unsupported("extremum of a list of unknown length")
    k = "min" if "3minI" in n else "max"
    xs = [E.sol.norm(E.real(st, E.load(st, ex.Ptr(args[0].r, args[0].off + 8 * i, args[0].idx), _d))) for i in range(t.icv(args[1]))]
    m = t.var(ex.fresh(k), "R")
    for x in xs: st.assume(t.le(m, x) if k == "min" else t.le(x, m))
    st.assume(t.lor(*[t.eq(m, x) for x in xs]))
    return m
class _d: k = "f"; size = 8; w = 64
def op_new(E, st, args, n):
    r = E.alloc(st, "heap", size=args[0]); return ex.Ptr(r)
def op_del(E, st, args, n):
    return None
def install(E):
    for f in ("sqrt", "fabs", "floor", "ceil", "fmax", "fmin", "sin", "cos", "tan", "exp", "log", "pow", "acos", "asin", "atan", "atan2", "sinh", "cosh", "tanh"):
        E.h[f] = libm(f)
    E.hpat.append((re.compile(r"(double )?std::(min|max)<double>\(std::initializer_list<double>\)"), extremum))
    for f in ("_Znwm", "_Znam"): E.h[f] = op_new
    for f in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"): E.h[f] = op_del

# ---- intrinsics of the harness stubs (their C++ text in harness/petsc_stub.hpp is what native replay runs)
class _i: k = "i"; size = 4; w = 32
def _rdi(E, st, p, i):
    return E.int_(st, E.load(st, ex.Ptr(p.r, p.off + 4 * i, p.idx), _i))
def splitdiv(x, m):
    """x = m*q + r by monomials (m a single monomial)"""
    (mm, mc), = m.args
    q = {}; r = {}
    for mon, co in x.args:
        rest = list(mon); ok = True
        for a in mm:
            if a in rest: rest.remove(a)
            else: ok = False; break
        if ok:
            k = tuple(rest); a, b = divmod(co, mc)
            if a: q[k] = q.get(k, 0) + a
            if b: r[mon] = r.get(mon, 0) + b
        else: r[mon] = r.get(mon, 0) + co
    return t._ip(q), t._ip(r)
def digits(E, st, x, radix):
    """mixed-radix digits of x, None unless every digit is provably in range"""
    out = []
    for i, m in enumerate(radix):
        if t.is_ic(m) and t.icv(m) == 1 : out.append(const_i(0)); continue
        if i == len(radix) - 1: q, r = None, x
        else:
            if len(m.args) != 1: return None
            q, r = splitdiv(x, m)
            for dl in (0, 1, -1):       # quotient and remainder of the monomials may be one off
                r2 = t.add(r, t.mul(m, const_i(dl)))
                if E.prove(st, t.le(const_i(0), r2)) and E.prove(st, t.lt(r2, m)): q = t.sub(q, const_i(dl)); r = r2; break
        if E.quiet:     # exploration of a loop body whose indices are not known yet: no proof, nothing is concluded from it
            if any(len(mon) > 1 for mon, co in r.args): return None
        elif not (E.prove(st, t.le(const_i(0), r)) and E.prove(st, t.lt(r, m))): return None
        out.append(r); x = q
    return out
def vc_local(E, st, args, n):
    """void vc_local(int r, int nb, int dim, int const *b, int *out): see petsc_stub.hpp"""
    r = E.int_(st, args[0]); nb = t.icv(args[1]); dim = t.icv(args[2])
    for blk in reversed(range(nb)):
        b = [_rdi(E, st, args[3], blk * (2 + dim) + i) for i in range(2 + dim)]
        d = digits(E, st, t.sub(r, b[0]), b[1:])
        if d is not None:
            for i, x in enumerate([const_i(blk)] + d): E.store(st, ex.Ptr(args[4].r, args[4].off + 4 * i, args[4].idx), x, _i)
            return None
    raise ex.Unsupported("local index %s is not shown to be the index of a node of the local box" % t.pp(r))
# ---- the vector model (harness/vecmodel/vector)
def vc_fresh(E, st, args, n):
    r = E.alloc(st, "vector", size=None); dim = t.icv(args[1])
    if dim: r.ms = E.alloc(st, "appended:" + r.name, kind="grid", levels=dim - 1)
    return ex.Ptr(r)
def vc_copy(E, st, args, n): st.wrs(args[0].r.ms).log.extend(st.rs(args[1].r.ms).log)
def vc_untraced(E, st, args, n): raise ex.Unsupported("operation on a vector of which only the appended records are known")
def vc_in_range(E, st, args, n):
    i, m = E.int_(st, args[0]), E.int_(st, args[1])
    E.oblige("vector index in range", st, t.land(t.le(const_i(0), i), t.lt(i, m)))
def vc_take(E, st, args, n):
    """void vc_take(void *handle, void *data, size_t n): the result vector becomes visible to the specification"""
    st.ghost[args[0].r.name] = (args[1], E.int_(st, args[2]))
def vc_push(E, st, args, n):
    """multiset of the records appended to the vector whose storage is args[0]"""
    r = args[0].r; dim = t.icv(args[2])
    ms = r.ms
    co = [_rdi(E, st, args[1], i) for i in range(dim)]
    st.wrs(ms).log.append(("acc", tuple(co), 1, const_i(1)))
def vc_each(E, st, args, n):
    """void vc_each(void *data, cb): cb on every record of the vector"""
    cr = E.ctx.countreg[args[1].name]
    st.wrs(cr).log.extend(st.rs(args[0].r.ms).log)
_inst = install
def install(E):
    _inst(E)
    E.h["vc_local"] = vc_local
    E.hpat.append((re.compile(r"(std::)?(basic_)?ostream(<char[^(]*>)?& std::operator<<|std::(basic_)?ostream(<char[^(]*>)?::(operator<<|flush|put|write)"), lambda E, st, args, n: args[0]))   # text output has no effect on the state
    for k, f in (("vc_fresh", vc_fresh), ("vc_copy", vc_copy), ("vc_untraced", vc_untraced), ("vc_in_range", vc_in_range), ("vc_take", vc_take), ("vc_push", vc_push), ("vc_each", vc_each)): E.h[k] = f
