from vc.contract import *
from contracts.mesh import *
import re
HARNESS = "C30"
CONTRACTS = []
def quiet(E, ctx):
    E.hpat.append((re.compile(r"[^(]*operator<<"), lambda E, st, args, n: args[0]))
def mk(dim):
    """u = Bt u'(B (x - o)), grad u = Bt grad' u' B, p = p'"""
    GI = (lambda a, b: 1 + 2 * a + b) if dim == 2 else (lambda a, b: [[1, 2, 3], [2, 4, 5], [6, 7, 8]][a][b])
    UI = 5 if dim == 2 else 9
    def ens(v):
        b = lambda m, d: v.b[dim * m + d]
        loc = [sum((b(m, d) * (v.x[d] - v.o[d]) for d in range(1, dim)), b(m, 0) * (v.x[0] - v.o[0])) for m in range(dim)]
        add = lambda l: sum(l[1:], l[0])
        yield "the fields are those of this contact", S.eq(v.bad[0], 0)
        yield "pressure at the local coordinates of the point", S.eq(v.p[0], v.f(0, *loc))
        for d in range(dim):
            yield "velocity at the local coordinates, in the global frame, component %d" % d, S.eq(v.u[d], add([b(m, d) * v.f(UI + m, *loc) for m in range(dim)]))
            yield "local velocity, component %d" % d, S.eq(v.ul[d], v.f(UI + d, *[v.x[e] for e in range(dim)]))
            for e in range(dim):
                yield "gradient in the global frame, derivative of component %d along %d" % (d, e), S.eq(v.g[dim * d + e], add([b(m, d) * b(n, e) * v.f(GI(m, n), *loc) for m in range(dim) for n in range(dim)]))
    CONTRACTS.append(Contract("get_u_sing, get_grad_u_sing, get_p_sing<%dD>" % dim, "field_%d" % dim, [In("q", 6, (.1, 1)), In("b", dim * dim), In("o", dim), Fns("f", 12 if dim == 3 else 7, dim, always=True), In("x", dim), Out("u", dim), Out("g", dim * dim), Out("p", 1), Out("ul", dim), OutI("bad", 1)], ens,
        lambda v: [], handlers=quiet, samples=100, functions="singularity::get_pos_in_part_ref, get_u_sing, get_u_sing_ref, get_grad_u_sing, get_p_sing"))
for dim in (2, 3): mk(dim)
VECMODEL = True
def mks(dim, field):
    """any node receives, from the cells of the box it belongs to, the sub-points outside both particles"""
    nf = 1 + 2 * dim + dim * dim
    def bs(rng, v, i):
        lo, hi = G(v, i % dim)[3], G(v, i % dim)[3] + G(v, i % dim)[4]
        lo = max(lo, 0)
        return rng.randint(lo, max(lo, hi - 1))
    gr = lambda nm, m="io": Grid(nm, dim, glo(dim), ghi(dim), lambda v: dim, m)
    def shape(k, x, h):
        w = [x[d] / h[d] if k >> d & 1 else c(1) - x[d] / h[d] for d in range(dim)]
        val = w[0]
        for y in w[1:]: val = val * y
        def der(e):
            r = h[0]
            for d in range(1, dim): r = r * h[d]
            r = r / h[e] if k >> e & 1 else -(r / h[e])
            for d in range(dim):
                if d != e: r = r * w[d]
            return r
        return val, der
    def ens(v):
        yield "success", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0))
        N = S.real(v.N)
        h = [v.h[d] for d in range(dim)]
        for q in v.all(*zip(glo(dim)(v), ghi(dim)(v))):
            for d in range(dim):
                tot = v.v00(*q, d)
                for k in range(2 ** dim):
                    cell = [q[e] - (k >> e & 1) for e in range(dim)]
                    inb = S.land(*[S.land(S.le(v.b[e], cell[e]), S.lt(cell[e], v.b[dim + e])) for e in range(dim)])
                    def at(*s):
                        s = s[::-1]
                        x = [S.real(s[e]) * (h[e] / N) for e in range(dim)]
                        P = [S.real(cell[e]) * h[e] + x[e] for e in range(dim)]
                        val, der = shape(k, x, h)
                        out = S.land(S.lnot(v.inside(0, *P)), S.lnot(v.inside(1, *P)))
                        if dim == 2: out = S.land(out, S.le(S.abs(v.f(1, *P)), v.cut))
                        if field: r = v.f(dim + 1 + d, *P) * val
                        else:
                            r = v.f(dim, *P) * der(d)
                            for e in range(dim): r = r - v.f(2 * dim + 1 + dim * d + e, *P) * der(e)
                        for _ in range(dim): r = r / N
                        return S.ite(out, r, c(0))
                    if dim == 2: sm = S.sum(0, v.N, lambda j: S.sum(0, v.N, lambda i: at(j, i)))
                    else: sm = S.sum(0, v.N, lambda l: S.sum(0, v.N, lambda j: S.sum(0, v.N, lambda i: at(l, j, i))))
                    tot = tot + S.ite(inb, sm, c(0))
                yield "component %d of any node: what was there and the sub-points of its cells outside both particles%s" % (d, " within the cut-off" if dim == 2 else ""), S.eq(v.v0(*q, d), tot)
    def req(v):
        r = g_req(dim)(v) + [S.lt(0, v.N)] + [S.lt(c(0), v.h[d]) for d in range(dim)]
        for d in range(dim):
            lo, hi = glo(dim)(v)[d], ghi(dim)(v)[d]
            r += [S.le(0, v.b[d]), S.le(0, v.b[dim + d]), S.le(lo, v.b[d]), S.lt(v.b[dim + d], hi)]
        return r
    CONTRACTS.append(Contract(("addsingularity<%dD>" if field else "computesingularST<%dD>") % dim, ("field_%d" if field else "source_%d") % dim, [MESH(dim, dof=dim), Int("N", (1, 3)), Real("cut", (0, 2)), In("h", dim, (.1, 1)), InI("b", 2 * dim, bs), Fns("f", nf, dim, always=True), Pred("inside", dim + 1), gr("v0"), gr("v1"), OutI("bad", 1)], ens,
        req, ret="I", harness="C30s", samples=100, functions="singularity::%s, fem::P1_integration%s, get_element, petsc_vec::at" % (("addsingularity", "") if field else ("computesingularST", "_grad"))))
for dim in (2, 3): mks(dim, 0)
mks(2, 1)
def mkp(dim, last):
    tab = lambda n, k, **kw: Grid(n, 2, lambda v: [0, 0], lambda v: [v.n, v.n], lambda v: k, "in", **kw)
    bnd = lambda end: lambda v: [(lambda m: m[3] + m[4] if end else m[3])(GV(v, d)) for d in range(dim)]
    gr = lambda nm, m="io": Grid(nm, dim, bnd(0), bnd(1), lambda v: dim, m)
    def nds(rng, v, i): return rng.randint(bnd(0)(v)[i], bnd(1)(v)[i] - 1)
    def one(v, i, j, d):
        """what the contact of particles i < j adds"""
        lo, hi, ok = [], [], S.lt(c(0), v.sg(i, j, 0))
        for e in range(dim):
            xs, xm, mx, _, _, per = GV(v, e)
            xm = xm - S.ite(S.land(S.eq(per, 0), S.eq(xs + xm, mx)), 1, 0)
            a, b = S.trunc(v.bx(i, j, e)), S.trunc(v.bx(i, j, dim + e))
            ok = S.land(ok, S.le(xs, b), S.le(a, xs + xm))
            lo.append(S.ite(S.lt(xs, a), a, xs)); hi.append(S.ite(S.lt(b, xs + xm), b, xs + xm))
        return S.ite(ok, v.f(d, S.real(i), S.real(j), *[S.real(x) for x in lo + hi]), c(0))
    def ens(v):
        yield "success; contacts, boxes and quadratures of this mesh", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0), S.eq(v.bad[1], 0))
        for q in v.all(*zip(bnd(0)(v), bnd(1)(v))):
            here = S.land(*[S.eq(q[d], v.node[d]) for d in range(dim)])
            for d in range(dim):
                yield "component %d of any node: each singular contact once, over the cells of this process its box meets" % d, S.eq(v.xv(*q, d), v.xv0(*q, d) + S.ite(here, S.sum(0, v.n - 1, lambda i: S.sum(i + 1, v.n, lambda j: one(v, i, j, d))), c(0)))
    def req(v):
        return [S.le(0, v.n)] + g_req(dim)(v) + vel_req(dim)(v) + [S.land(S.le(bnd(0)(v)[d], v.node[d]), S.lt(v.node[d], bnd(1)(v)[d])) for d in range(dim)]
    CONTRACTS.append(Contract(("add_singularity_to_last_sol<%dD>" if last else "add_singularity_in_fluid<%dD>") % dim, ("last_%d" if last else "fluid_%d") % dim, [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), In("h", dim, (.1, 1)), Int("n", (0, 4)), tab("sg", 1), tab("bx", 2 * dim, sample=(-2, 9)), Fns("f", dim, 2 + 2 * dim, always=True), InI("node", dim, nds), gr("xv"), gr("v0"), gr("v1"), OutI("bad", 2)], ens,
        req, ret="I", harness="C30p", samples=100, functions="singularity::%s, geometry::intersect, box_inside, get_DM_bounds, petsc_vec" % ("add_singularity_to_last_sol" if last else "add_singularity_in_fluid")))
for dim in (2, 3): mkp(dim, 0)
mkp(2, 1)
