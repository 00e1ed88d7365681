from vc.contract import *
from contracts.mesh import *
HARNESS = "C11"
CONTRACTS = []
def share(v, lx, i, n, per): return c2(lx(i), S.land(S.eq(per, 0), S.eq(i, n - 1)))
def c2(x, last): return 2 * x - S.ind(last)
def mk(dim):
    def ens(v):
        yield "success", S.eq(v.ret, 0)
        for lab, o, dof in (("velocity", v.v, dim), ("pressure", v.p, 1)):
            yield lab + ": a set up %dD mesh, box stencil of width 1, %d component(s), named" % (dim, dof), S.land(S.eq(o[0], dim), S.eq(o[1], dof), S.eq(o[2], 1), S.eq(o[3], 1), S.eq(o[4], 1), S.eq(o[5], dof))
            for d in range(dim):
                per = S.ne(v.per[d], 0); n = v.n[d]
                size = (lambda a, b: S.ite(per, a, b))
                yield lab + ": number of points, direction %d" % d, S.eq(o[6 + 3 * d], size(2 * n - 2, 2 * n - 1) if dof == dim else size(n - 1, n))
                yield lab + ": periodic where asked, direction %d" % d, S.eq(o[8 + 3 * d], v.per[d])
                yield lab + ": same processes, direction %d" % d, S.eq(o[7 + 3 * d], v.np[d])
        for d, (l, u) in enumerate(((v.l0, v.u0), (v.l1, v.u1), (v.l2, v.u2))[:dim]):
            for (i,) in v.all((0, v.np[d])): yield "velocity nodes of each process, direction %d" % d, S.eq(u(i), share(v, l, i, v.np[d], v.per[d]))
    def req(v): return [S.land(S.le(2, v.n[d]), S.le(1, v.np[d]), S.le(0, v.per[d]), S.le(v.per[d], 1)) for d in range(dim)]
    ln = lambda d: (lambda v: v.np[d])
    CONTRACTS.append(Contract("createMesh<%dD>" % dim, "mesh_%d" % dim, [InI("n", dim, (2, 9)), InI("per", dim, (0, 1)), InI("np", 3, (1, 4), fix=None if dim == 3 else {2: 1}), InI("l0", ln(0), (1, 9)), InI("l1", ln(1), (1, 9)), InI("l2", ln(2), (1, 9)),
        OutI("v", 15), OutI("p", 15), OutI("u0", ln(0)), OutI("u1", ln(1)), OutI("u2", ln(2))], ens, req, ret="I", functions="fem::createMesh, createDMDA, set_lxu"))
    def elap(v):
        yield "success", S.eq(v.ret, 0)
        yield "a set up %dD mesh of one component" % dim, S.land(S.eq(v.v[0], dim), S.eq(v.v[1], 1), S.eq(v.v[2], 1), S.eq(v.v[4], 1), S.eq(v.v[5], 1))
        for d in range(dim): yield "number of points and periodicity, direction %d" % d, S.land(S.eq(v.v[6 + 3 * d], v.n[d] - v.per[d]), S.eq(v.v[8 + 3 * d], v.per[d]))
    CONTRACTS.append(Contract("createLaplacianMesh<%dD>" % dim, "lap_%d" % dim, [InI("n", dim, (2, 9)), InI("per", dim, (0, 1)), OutI("v", 15)], elap,
        lambda v: [S.land(S.le(2, v.n[d]), S.le(0, v.per[d]), S.le(v.per[d], 1)) for d in range(dim)], ret="I", functions="fem::createLaplacianMesh, createDMDA"))
    def cells(v, g, d, rm):
        xs, xm, mx, gxs, gxm, per = [g[1 + 6 * d + k] for k in range(6)]
        return xs, xs + xm - S.ind(S.land(S.ne(rm, 0), S.eq(per, 0), S.eq(xs + xm, mx)))
    def eb(v):
        for d in range(dim):
            lo, hi = cells(v, v.g, d, v.rm); lo1, hi1 = cells(v, v.g, d, 1)
            yield "box of the owned nodes, without the final ones where asked, direction %d" % d, S.land(S.eq(v.o[4 * d], lo), S.eq(v.o[4 * d + 1], hi))
            yield "by default the cells, direction %d" % d, S.land(S.eq(v.ot[2 * d], lo1), S.eq(v.ot[2 * d + 1], hi1))
            yield "global size and boundary type, direction %d" % d, S.land(S.eq(v.o[4 * d + 2], G(v, d)[2]), S.eq(v.o[4 * d + 3], G(v, d)[5]))
            # lemma: with the next process starting where this one ends (none after the last), the cells are consecutive from 0 to the last cell
            xs, xm, mx, gxs, gxm, per = G(v, d); last = S.eq(xs + xm, mx)
            yield "cells of consecutive processes follow each other, direction %d" % d, S.imp(S.lnot(last), S.eq(hi1, xs + xm))
            yield "the last process ends at the last cell, direction %d" % d, S.imp(last, S.eq(hi1, S.ite(S.ne(per, 0), mx, mx - 1)))
            # every cell in the box has its vertices among the ghosted nodes
            yield "cells lie in the ghosted box, direction %d" % d, S.imp(S.lt(lo1, hi1), S.land(S.le(gxs, lo1), S.lt(hi1, gxs + gxm)))
        yield "number of components", S.eq(v.ot[2 * dim], v.g[0])
    CONTRACTS.append(Contract("get_DM_bounds<%dD>" % dim, "bounds_%d" % dim, [MESH(dim), Int("rm", (0, 1)), OutI("o", 4 * dim), OutI("ot", 2 * dim + 1)], eb, g_req(dim), functions="fem::get_DM_bounds, get_DM_bounds_, get_global_bounds, get_boundary_type, get_dof"))
    other = lambda n: InI(n, 1 + 6 * dim, gsamp(dim))
    for k in range(3):
        def ec(v, k=k):
            for d in range(dim):
                lo, hi = cells(v, (v.g, v.g1, v.g2)[k], d, v.rm)
                yield "box of that component mesh, direction %d" % d, S.land(S.eq(v.o[2 * d], lo), S.eq(v.o[2 * d + 1], hi))
        CONTRACTS.append(Contract("get_DM_bounds of component %d<%dD>" % (k, dim), "boundsc%d_%d" % (k, dim), [MESH(dim), other("g1"), other("g2"), Int("rm", (0, 1)), OutI("o", 2 * dim)], ec, g_req(dim), functions="fem::get_DM_bounds(i), get_DM_bounds_"))
    for n in range(5):
        def es(v, n=n):
            yield "success", S.eq(v.ret, 0)
            for j, lab in ((1, "local"), (2, "total")):
                s = 0
                for k in range(max(n, 1)):
                    b = k * (1 + 6 * dim); p = v.gs[b]
                    for d in range(dim): p = p * v.gs[b + 6 * d + j + 1]
                    s = s + p
                yield lab + " size", S.eq(v.o[j - 1], s)
        def samp(rng, v, i): return rng.randint(1, 5)
        CONTRACTS.append(Contract("get_DM_sizes<%dD>, %s" % (dim, "no composite" if not n else "composite of %d" % n), "sizes%d_%d" % (n, dim), [InI("gs", max(n, 1) * (1 + 6 * dim), samp), OutI("o", 2)], es, ret="I", functions="fem::get_DM_sizes"))
for dim in (2, 3): mk(dim)
# induction on the processes: with s the first pressure node of process i and sv its first velocity node, sv = 2 s
def elx(v):
    for (i,) in v.all((0, v.n)): yield "velocity nodes of each process", S.eq(v.o(i), share(v, v.lx, i, v.n, v.per))
    yield "base: the first process starts at node 0 on both meshes", True
    if S.symbolic:
        for (i,) in v.all((0, v.n)):
            last = S.eq(i, v.n - 1)
            yield "step: the next process starts at twice its first pressure node", S.imp(S.lnot(last), S.eq(2 * v.s + v.o(i), 2 * (v.s + v.lx(i))))
            yield "end: the nodes of all processes are those of the mesh", S.imp(S.land(last, S.eq(v.s + v.lx(i), v.m)), S.eq(2 * v.s + v.o(i), 2 * v.m - S.ind(S.eq(v.per, 0))))
    else:
        s = sv = 0
        for i in range(v.n):
            yield "step: the next process starts at twice its first pressure node", sv == 2 * s
            s += v.lx(i); sv += v.o(i)
        yield "end: the nodes of all processes are those of the mesh", sv == 2 * s - (1 if v.per == 0 else 0)
CONTRACTS.append(Contract("set_lxu and the nesting of the partitions", "lxu", [Int("per", (0, 1)), Int("n", (1, 6)), InI("lx", lambda v: v.n, (1, 9)), OutI("o", lambda v: v.n), Ghost("s", "I"), Ghost("m", "I")], elx,
    lambda v: [S.le(1, v.n)], functions="fem::set_lxu"))
