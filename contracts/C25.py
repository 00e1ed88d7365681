from vc.contract import *
from contracts.mesh import *
from contracts.C03 import mass
HARNESS = "C25"
CONTRACTS = []
bit = lambda k, d: k >> d & 1
def total(xs):
    r = c(0)
    for x in xs: r = r + x
    return r
def cell_in(v, GG, cell, dim):
    cs = []
    for d in range(dim):
        xs, xm, mx, gxs, gxm, per = GG(v, d)
        cs += [S.le(xs, cell[d]), S.lt(cell[d], xs + xm), S.lor(S.ne(per, 0), S.lt(cell[d], mx - 1))]
    return S.land(*cs)
def bnd(GG, dim, end): return lambda v: [(lambda m: m[3] + m[4] if end else m[3])(GG(v, d)) for d in range(dim)]
def product(v, GG, dim, q, k, x, el, nd):
    """row of the assembled product at node q over the cells of the local box"""
    w = c(0)
    for k1 in range(2 ** dim):
        cell = [q[d] - bit(k1, d) for d in range(dim)]; inn = cell_in(v, GG, cell, dim)
        if inn is False: continue
        s = total(x(*[cell[d] + bit(k2, d) for d in range(dim)], k) * el(k1, k2) for k2 in range(2 ** dim))
        w = w + (s if inn is True else S.ite(inn, s, c(0)))
    return w
def mk(dim):
    def ens(v):
        yield "success, vectors used on their own mesh", S.land(S.eq(v.ret, 0), S.eq(v.mis[0], 0))
        for GG, n, x, y, hh, nd in ((GV, "velocity: mass matrix with the velocity spacing", v.xv, v.yv, v.h, dim), (G, "pressure: mass matrix with twice the velocity spacing", v.xp, v.yp, [c(2) * v.h[d] for d in range(dim)], 1)):
            lo, hi = bnd(GG, dim, 0)(v), bnd(GG, dim, 1)(v)
            for k in range(nd):
                for q in v.all(*[(lo[d], hi[d]) for d in range(dim)]):
                    yield n, S.eq(y(*q, k), product(v, GG, dim, q, k, x, lambda i, j: mass(dim, i, j, hh), nd))
    gr = lambda n, GG, nd, m="io": Grid(n, dim, bnd(GG, dim, 0), bnd(GG, dim, 1), lambda v: nd, m)
    CONTRACTS.append(Contract("apply_mass_matrix<%dD>" % dim, "amass_%d" % dim, [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), In("h", dim, (.1, 1)), gr("xv", GV, dim, "in"), gr("xp", G, 1, "in"), gr("yv", GV, dim), gr("yp", G, 1),
        gr("v0", GV, dim), gr("v1", GV, dim), gr("p0", G, 1), gr("p1", G, 1), OutI("mis", 1)], ens, lambda v: g_req(dim)(v) + vel_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)], ret="I", samples=60 if dim == 2 else 10, merge=True, weight=9,
        functions="fem::apply_mass_matrix, make_matrix, diag_block_matrix, mass_mult, petsc_vec, get_DM_sizes"))
def problem(dim):
    def ens(v):
        opt = lambda k, x, dflt: S.ite(S.ne(v.given[k], 0), x, dflt)
        n = [opt(d, v.n[d], 17) for d in range(dim)]; per = [S.land(S.ne(v.given[6 + d], 0), S.ne(v.per[d], 0)) for d in range(dim)]
        L = [opt(3 + d, v.L[d], c(1)) for d in range(dim)]
        fl = [S.land(S.ne(v.given[9 + k], 0), S.ne(v.flag[k], 0)) for k in range(3)]; strain, assembled = fl[0], fl[1]
        yield "one mesh", S.eq(v.mesh[6], 1)
        for d in range(dim):
            yield "number of points, direction %d" % d, S.eq(v.mesh[d], n[d])
            yield "periodicity, direction %d" % d, S.iff(S.ne(v.mesh[3 + d], 0), per[d])
            yield "velocity spacing is half the pressure spacing L/(n-1), direction %d" % d, S.eq(v.hu[d] * (c(2) * S.real(n[d] - 1)), L[d])
        hu = v.hu
        def asm(lab, op, k, dm, cond, hh):
            i = 2 * op + k
            yield lab, S.imp(cond, S.land(S.eq(v.cnt[2 * i], 1), S.eq(v.cnt[2 * i + 1], dm)))
            for d in range(dim): yield lab + ", spacing in direction %d" % d, S.imp(cond, S.eq(v.hh[i * dim + d], hh[d]))
        hp = [c(2) * x for x in hu]
        for k, nm in ((0, "matrix"), (1, "preconditioner")):
            yield from asm("assembled %s: velocity block with the strain tensor" % nm, 1, k, 0, S.land(assembled, strain), hu)
            yield from asm("assembled %s: velocity block with the Laplacian" % nm, 0, k, 0, S.land(assembled, S.lnot(strain)), hu)
            yield "assembled %s: one velocity operator" % nm, S.eq(v.cnt[2 * (0 + k)] + v.cnt[2 * (2 + k)], S.ite(assembled, 1, 0))
        yield from asm("assembled matrix: coupling with the velocity spacing", 2, 0, 2, assembled, hu)
        yield from asm("assembled preconditioner: pressure mass with the pressure spacing", 3, 1, 2, assembled, hp)
        yield "assembled: no coupling in the preconditioner, no mass in the matrix", S.land(S.eq(v.cnt[2 * 5], 0), S.eq(v.cnt[2 * 6], 0))
        # without assembling: a shell for the whole matrix, one per block of the preconditioner
        free = S.lnot(assembled)
        def shell(lab, dm, app, diag, bc, hh):
            def is_(i): return S.land(S.eq(v.sh[4 * i], dm), *[S.eq(v.sshh[i * dim + d], hh[d]) for d in range(dim)], app(v.sh[4 * i + 1]), diag(v.sh[4 * i + 2]), S.eq(v.sh[4 * i + 3], bc))
            yield lab, S.imp(free, S.lor(*[is_(i) for i in range(3)]))
        vel = lambda a: S.land(S.imp(strain, S.eq(a, 1)), S.imp(S.lnot(strain), S.eq(a, 0)))
        yield "matrix-free: as many operators as needed", S.eq(v.mesh[7], S.ite(assembled, 0, 3))
        yield from shell("matrix-free: whole matrix on both meshes with the velocity spacing", 2, vel, lambda a: True, 1, hu)
        yield from shell("matrix-free: velocity block with the velocity spacing", 0, vel, lambda a: S.eq(a, 0), 1, hu)
        yield from shell("matrix-free: pressure mass with the pressure spacing", 1, lambda a: S.eq(a, 3), lambda a: S.eq(a, 3), 0, hp)
    def req(v):
        return [S.land(S.le(2, v.n[d]), S.lt(c(0), v.L[d])) for d in range(dim)]
    CONTRACTS.append(Contract("stokes<%dD>" % dim, "stokes_%d" % dim, [InI("given", 12, (0, 1)), InI("n", 3, (2, 40)), In("L", 3, (.2, 3)), InI("per", 3, (0, 1)), InI("flag", 3, (0, 1)),
        OutI("mesh", 8), OutI("cnt", 20), Out("hh", 10 * dim), OutI("sh", 12), Out("sshh", 3 * dim), Out("hu", dim)], ens, req, samples=200,
        functions="problem::stokes::stokes, options::process_options, make_matrix"))
def level(dim):
    # g: mesh of the level, g0: mesh of the problem; PETSc halves the number of cells at each coarsening
    G0 = lambda v, d: [v.g0[1 + 6 * d + k] for k in range(6)]
    cells = lambda m: m[2] - S.ite(S.ne(m[5], 0), 0, 1)
    def g0samp(rng, v, i):
        if i == 0: return dim
        d = (i - 1) // 6; k = (i - 1) % 6; xs, xm, mx, gxs, gxm, per = G(v, d)
        return [0, 1, (mx if per else mx - 1) * 2 ** (v.l - v.l0) + (0 if per else 1), -1 if per else 0, 3 if per else 2, per][k]
    def req(v):
        n = v.l - v.l0
        r = [S.le(0, v.l0), S.le(0, n), S.le(n, 15), S.le(1, S.pow2(n))]
        for d in range(dim):
            m, m0 = G(v, d), G0(v, d)
            r += [S.le(0, v.h[d]), S.iff(S.ne(m[5], 0), S.ne(m0[5], 0)), S.le(1, cells(m)), S.eq(cells(m0), S.pow2(n) * cells(m))]
        return r + g_req(dim)(v)
    def ens(v):
        yield "success", S.eq(v.ret, 0)
        for d in range(dim): yield "the cells of the level fill the domain, direction %d" % d, S.eq(v.hl[d] * S.real(cells(G(v, d))), v.h[d] * S.real(cells(G0(v, d))))
        o = v.out
        yield "on the mesh of the level", S.eq(o[0], 1)
        yield "same operator", S.eq(o[1], 1)
        yield "same diagonal", S.eq(o[2], 1)
        yield "with boundary conditions", S.eq(o[3], 1)
        yield "same boundary conditions", S.eq(o[8], 1)
        loc, tot = v.g[0], v.g[0]
        for d in range(dim): loc = loc * G(v, d)[1]; tot = tot * G(v, d)[2]
        yield "rows: the unknowns of the level", S.land(S.eq(o[4], loc), S.eq(o[5], tot))
        yield "multiplication: the block operator", S.eq(o[6], 1)
        yield "diagonal: that of the block operator", S.eq(o[7], 1)
        yield "the problem's own context is unchanged", S.land(S.eq(o[9], 1), *[S.eq(v.hl[dim + d], v.h[d]) for d in range(dim)])
    CONTRACTS.append(Contract("createLevelMatrices<%dD>" % dim, "level_%d" % dim, [MESH(dim, dof=dim), Int("l0", (0, 2)), Int("l", (2, 6)), InI("g0", 1 + 6 * dim, g0samp, fix={0: dim}), Int("op", (0, 1)), Int("bc", (0, 4 * dim * dim - 1)), In("h", dim, (.1, 1)), OutI("out", 10), Out("hl", 2 * dim)],
        ens, lambda v: req(v) + [S.le(0, v.bc), S.lt(v.bc, 4 * dim * dim)], ret="I", samples=200, functions="problem::createLevelMatrices, context, get_DM_sizes"))
for dim in (2, 3): mk(dim); problem(dim); level(dim)
