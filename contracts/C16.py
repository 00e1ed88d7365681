from vc.contract import *
from contracts.mesh import *
from contracts.C14 import nodes
from contracts.C25 import product, bnd
from contracts.C03 import mass
HARNESS = "C14"
CONTRACTS = []
def mk(dim):
    def ens(v):
        for q in nodes(v, dim):
            for d in range(dim):
                yield "component %d = source at the coordinates of the node, unchanged without source" % d, S.eq(v.y(*q, d), S.ite(v.f_set[d], v.f(d, *[q[k] * v.h[k] for k in range(dim)]), v.y0(*q, d)))
    CONTRACTS.append(Contract("set_rhs_impl<%dD>" % dim, "rhs_%d" % dim, [MESH(dim), In("h", dim, (0.1, 1)), Fns("f", dim, dim), Grid("y", dim, olo(dim), ohi(dim), lambda v: dim)],
        ens, g_req(dim), functions="fem::set_rhs_impl, kernel_func_on_rhs, iterate, get_DM_bounds, petsc_vec::at_g", merge=True, samples=150))
    def has(v): yield "a right-hand side has a condition iff one component has a source", S.iff(v.ret, S.lor(*v.f_set))
    CONTRACTS.append(Contract("has_condition<%dD>" % dim, "hascond_%d" % dim, [Fns("f", dim, dim)], has, ret="B", functions="fem::rhs_conditions::has_condition"))
for dim in (2, 3): mk(dim)
def full(dim):
    def tval(v, q, d):
        own = S.land(*[S.land(S.le(a, x), S.lt(x, a + b)) for (a, b), x in zip([GV(v, e)[:2] for e in range(dim)], q)])
        return S.ite(own, S.ite(v.f_set[d], v.f(d, *[q[k] * v.h[k] for k in range(dim)]), c(0)), v.t0(*q, d))
    def ens(v):
        yield "success, vectors used on their own mesh and given back", S.land(S.eq(v.ret, 0), *[S.eq(v.mis[k], 0) for k in range(2)])
        lo, hi = bnd(GV, dim, 0)(v), bnd(GV, dim, 1)(v)
        for d in range(dim):
            for q in v.all(*[(lo[k], hi[k]) for k in range(dim)]):
                yield "component %d: the mass matrix times the source is added" % d, S.eq(v.y(*q, d), v.y0(*q, d) + product(v, GV, dim, q, d, lambda *a: tval(v, a[:-1], a[-1]), lambda i, j: mass(dim, i, j, v.h), dim))
        lo, hi = bnd(G, dim, 0)(v), bnd(G, dim, 1)(v)
        for q in v.all(*[(lo[k], hi[k]) for k in range(dim)]): yield "the pressure part is left alone", S.eq(v.yp(*q, 0), v.yp0(*q, 0))
    gr = lambda n, GG, nd, m="io": Grid(n, dim, bnd(GG, dim, 0), bnd(GG, dim, 1), lambda v: nd, m)
    CONTRACTS.append(Contract("set_rhs<%dD>" % dim, "setrhs_%d" % dim, [Int("comp", (0, 1)), MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), In("h", dim, (.1, 1)), Fns("f", dim, dim),
        gr("t", GV, dim), gr("y", GV, dim), gr("yp", G, 1), gr("v0", GV, dim), gr("v1", GV, dim), OutI("mis", 3)], ens, lambda v: [S.le(0, v.comp), S.le(v.comp, 1)] + g_req(dim)(v) + vel_req(dim)(v) + [S.lt(c(0), v.h[d]) for d in range(dim)],
        ret="I", samples=60 if dim == 2 else 10, merge=True, weight=9, harness="C16", functions="fem::set_rhs, set_rhs_impl, kernel_func_on_rhs, mass_mult, petsc_vec, get_DM_bounds"))
    def es(v):
        has = S.lor(*v.f_set)
        yield "success is reported", S.eq(v.ret, 0)
        two = S.eq(v.o[0], 2)
        yield "the Dirichlet values of the problem are set last, on the velocity part, with its spacing", S.land(S.le(1, v.o[0]), S.le(v.o[0], 2), S.eq(S.ite(two, v.o[3], v.o[1]), 2), S.eq(S.ite(two, v.o[4], v.o[2]), 1))
        yield "a source is added to the right-hand side before", S.imp(has, two)
        yield "only the source of the problem is added, on its meshes and with its spacing", S.imp(two, S.land(S.eq(v.o[1], 1), S.eq(v.o[2], 1)))
    CONTRACTS.append(Contract("stokes::setup_RHS<%dD>" % dim, "setup_%d" % dim, [MESH(dim, dof=1), InI("gv", 1 + 6 * dim, velsamp(dim), fix={0: dim}), In("h", dim, (.1, 1)), Fns("f", dim, dim), Fns("bc", 1, dim), OutI("o", 5)],
        es, lambda v: g_req(dim)(v) + vel_req(dim)(v), ret="I", samples=60, harness="C16", functions="problem::stokes::setup_RHS, rhs_conditions::has_condition, petsc_vec"))
for dim in (2, 3): full(dim)
