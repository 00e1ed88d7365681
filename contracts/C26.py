from vc.contract import *
import re
HARNESS = "C26"
CONTRACTS = []
def quiet(E, ctx):
    E.hpat.append((re.compile(r"[^(]*operator<<"), lambda E, st, args, n: args[0]))
def mk(dim, second):
    """force on one particle of a contact: minus rotation of the sum over the points of its cap of stress times outward normal times weight"""
    def at(v, i, j):
        """local coordinates, outward normal and weight of a point of the cap"""
        H = v.q[1] if second else v.q[0]; th = S.asin(v.q[5] * H); N = S.real(v.N)
        s, k = S.sin(S.real(i) * th / N), S.cos(S.real(i) * th / N)
        z = v.q[2] + (1 - k) / H if second else (k - 1) / H
        kn = -k if second else k
        if dim == 2: return [z, s / H], [kn, s], th / N / H
        cj, sj = S.cos(2 * S.pi * S.real(j) / N), S.sin(2 * S.pi * S.real(j) / N)
        return [s * cj / H, s * sj / H, z], [s * cj, s * sj, kn], 2 * S.pi * th / N / N / H / H * s
    def traction(v, i, j, l):
        p, n, w = at(v, i, j); g = lambda a, b: v.f(1 + dim * a + b if dim == 2 else [[1, 2, 3], [2, 4, 5], [6, 7, 8]][a][b], *p)
        r = c(0)
        for m in range(dim): r = r + (g(l, m) + g(m, l) - (v.f(0, *p) if l == m else c(0))) * n[m]
        return w * r
    def ens(v):
        yield "the fields are those of this contact", S.eq(v.bad[0], 0)
        if dim == 2: ref = [S.sum(0, 2 * v.N, lambda k: traction(v, k - v.N, 0, l)) for l in range(2)]
        else: ref = [S.sum(0, v.N, lambda i: S.sum(0, v.N, lambda j: traction(v, i + 1, j + 1, l))) for l in range(3)]
        for d in range(dim):
            r = c(0)
            for l in range(dim): r = r + v.b[dim * l + d] * ref[l]
            yield "component %d: sum over the cap of stress times normal times weight, in the global frame" % d, S.eq(v.r[d], r)
    def req(v): return [S.eq(v.second, second), S.lt(0, v.N), S.lt(c(0), v.q[0]), S.lt(c(0), v.q[1]), S.le(v.q[5] * v.q[0], c(1)), S.le(v.q[5] * v.q[1], c(1)), S.lt(c(0), v.q[5])]
    CONTRACTS.append(Contract("compute_singular_forces_on_part%d<%dD>" % (2 if second else 1, dim), "on_part_%d" % dim, [Int("second", (second, second)), Int("N", (1, 4)), In("q", 6, (.1, 1)), In("b", dim * dim), In("o", dim), Fns("f", 9 + 3 if dim == 3 else 7, dim, always=True), Out("r", dim), OutI("bad", 1)], ens, req,
        handlers=quiet, samples=100, functions="singularity::compute_singular_forces_on_part%d, singularity::get_grad_u_sing_ref, get_p_sing_ref" % (2 if second else 1)))
for dim in (2, 3):
    for second in (0, 1): mk(dim, second)
VECMODEL = True
def mkp(dim, own):
    tab = lambda n, k: Grid(n, 2, lambda v: [0, 0], lambda v: [v.n, v.n], lambda v: k, "in")
    def ens(v):
        yield "success; each contact is looked at with the spacing and number of points asked for", S.land(S.eq(v.ret, 0), S.eq(v.bad[0], 0))
        for (q,) in v.all((0, v.n)):
            for d in range(dim):
                yield "component %d: minus the forces of the singular contacts as first and as second particle, nothing else" % d, S.eq(v.force(dim * q + d),
                    -(S.sum(q + 1, v.n, lambda j: S.ite(S.lt(c(0), v.sg(q, j, 0)), v.f1(q, j, d), c(0))) + S.sum(0, q, lambda i: S.ite(S.lt(c(0), v.sg(i, q, 0)), v.f2(i, q, d), c(0)))))
    CONTRACTS.append(Contract("compute_singular_forces<%dD>%s" % (dim, " of a context" if own else ""), "pairs_%d" % dim, [Int("own", (own, own)), Int("n", (0, 4)), Int("N", (1, 4)), In("h", dim, (.1, 1)), tab("sg", 1), tab("f1", dim), tab("f2", dim), In("old", lambda v: dim * v.n), Out("force", lambda v: dim * v.n), OutI("bad", 1)], ens,
        lambda v: [S.eq(v.own, own), S.le(0, v.n), S.lt(0, v.N)], ret="I", harness="C26p", samples=100, functions="singularity::compute_singular_forces (pairs of particles)"))
for dim in (2, 3):
    for own in (0, 1): mkp(dim, own)
