"""A DMDA as seen by the code: g = dof, then (xs, xm, mx, gxs, gxm, periodic) per direction"""
from vc.contract import *
def G(v, d): return [v.g[1 + 6 * d + k] for k in range(6)]
def gsamp(dim, mxmax=3, dof=None):
    def f(rng, v, i):
        if i == 0: f.g = [dof or rng.randint(1, 3)] + [x for d in range(dim) for x in f.dir(rng)]
        return f.g[i]
    def dr(rng):
        xm = rng.randint(1, mxmax); per = rng.randint(0, 1); xs = rng.choice([0, rng.randint(0, 3)]); mx = xs + xm + rng.choice([0, rng.randint(0, 2)])
        if per: gxs, ge = xs - 1, xs + xm + 1
        else: gxs, ge = max(0, xs - 1), min(mx, xs + xm + 1)
        return [xs, xm, mx, gxs, ge - gxs, per]
    f.dir = dr
    return f
def g_req(dim):
    """what PETSc guarantees of the local info of a DMDA with stencil width 1"""
    def f(v):
        r = [S.le(1, v.g[0])]
        for d in range(dim):
            xs, xm, mx, gxs, gxm, per = G(v, d); P = S.ne(per, 0)
            r += [S.le(0, xs), S.le(1, xm), S.le(xs + xm, mx), S.le(0, per), S.le(per, 1),
                  S.imp(P, S.land(S.eq(gxs, xs - 1), S.eq(gxs + gxm, xs + xm + 1))),
                  S.imp(S.lnot(P), S.land(S.eq(gxs, S.max(0, xs - 1)), S.eq(gxs + gxm, S.min(mx, xs + xm + 1))))]
        return r
    return f
def glo(dim): return lambda v: [G(v, d)[3] for d in range(dim)]
def ghi(dim): return lambda v: [G(v, d)[3] + G(v, d)[4] for d in range(dim)]
def olo(dim): return lambda v: [G(v, d)[0] for d in range(dim)]
def ohi(dim): return lambda v: [G(v, d)[0] + G(v, d)[1] for d in range(dim)]
MESH = lambda dim, dof=None, **k: InI("g", 1 + 6 * dim, gsamp(dim, dof=dof, **k), fix=None if dof is None else {0: dof})

def velsamp(dim):
    """velocity mesh of the pressure mesh g"""
    def f(rng, v, i):
        if i == 0: return dim
        d = (i - 1) // 6; k = (i - 1) % 6; xs, xm, mx, gxs, gxm, per = G(v, d)
        ys, ym, my = 2 * xs, 2 * xm - (0 if per or xs + xm != mx else 1), 2 * mx - (0 if per else 1)
        g0, g1 = (ys - 1, ys + ym + 1) if per else (max(0, ys - 1), min(my, ys + ym + 1))
        return [ys, ym, my, g0, g1 - g0, per][k]
    return f
def GV(v, d): return [v.gv[1 + 6 * d + k] for k in range(6)]
def vel_req(dim):
    def f(v):
        r = [S.eq(v.gv[0], dim)]
        for d in range(dim):
            xs, xm, mx, gxs, gxm, per = G(v, d); ys, ym, my, hxs, hxm, pv = GV(v, d); P = S.ne(per, 0)
            r += [S.eq(pv, per), S.eq(ys, 2 * xs), S.imp(P, S.land(S.eq(my, 2 * mx), S.eq(ym, 2 * xm))),
                  S.imp(S.lnot(P), S.land(S.eq(my, 2 * mx - 1), S.imp(S.eq(xs + xm, mx), S.eq(ym, 2 * xm - 1)), S.imp(S.ne(xs + xm, mx), S.eq(ym, 2 * xm)))),
                  S.imp(P, S.land(S.eq(hxs, ys - 1), S.eq(hxs + hxm, ys + ym + 1))),
                  S.imp(S.lnot(P), S.land(S.eq(hxs, S.max(0, ys - 1)), S.eq(hxs + hxm, S.min(my, ys + ym + 1))))]
        return r
    return f
