from vc.contract import *
from contracts.mesh import *
HARNESS = "C14"
CONTRACTS = []
names = ["left", "right", "bottom", "top", "back", "front"]
def nodes(v, dim):
    yield from v.all(*[(a, b) for a, b in zip(olo(dim)(v), ohi(dim)(v))])
def face(v, q, i):
    """q is a node of face i, which is not a periodic one"""
    d = i // 2; xs, xm, mx, gxs, gxm, per = G(v, d)
    return S.land(S.eq(per, 0), S.eq(q[d], 0) if i % 2 == 0 else S.eq(q[d], mx - 1))
def mk(dim):
    own = lambda n, m="io": Grid(n, dim, olo(dim), ohi(dim), lambda v: dim, m)
    bc = Fns("bc", 2 * dim * dim, dim)
    def ens(val, what):
        def f(v):
            for q in nodes(v, dim):
                for d in range(dim):
                    w = v.y0(*q, d)
                    for i in range(2 * dim):   # an edge or corner node takes the condition of its last face
                        w = S.ite(S.land(face(v, q, i), v.bc_set[dim * i + d]), val(v, q, i, d), w)
                    yield "component %d: %s on the faces with a condition, unchanged elsewhere" % (d, what), S.eq(v.y(*q, d), w)
        return f
    fn = "fem::%s, set_dirichlet_impl, kernel_%s_on_bc, iterate, get_boundary_type, get_global_bounds, get_DM_bounds, petsc_vec::at_g"
    CONTRACTS.append(Contract("SetDirichletOnRHS<%dD>" % dim, "bcrhs_%d" % dim, [MESH(dim), In("h", dim, (0.1, 1)), bc, own("y")],
        ens(lambda v, q, i, d: v.bc(dim * i + d, *[q[k] * v.h[k] for k in range(dim)]), "condition at the coordinates of the node"), g_req(dim), functions=fn % ("SetDirichletOnRHS", "func"), merge=True, weight=3, samples=150))
    CONTRACTS.append(Contract("SetNullDirichletOnRHS<%dD>" % dim, "bcnull_%d" % dim, [MESH(dim), bc, own("y")],
        ens(lambda v, q, i, d: c(0), "zero"), g_req(dim), functions=fn % ("SetNullDirichletOnRHS", "const"), merge=True, weight=3, samples=150))
    CONTRACTS.append(Contract("SetDirichletOnVec<%dD>" % dim, "bcvec_%d" % dim, [MESH(dim), bc, own("x", "in"), own("y")],
        ens(lambda v, q, i, d: v.x(*q, d), "value of the given vector"), g_req(dim), functions=fn % ("SetDirichletOnVec", "vec"), merge=True, weight=3, samples=150))
for dim in (2, 3): mk(dim)
