from vc.contract import *
from contracts.mesh import *
HARNESS = "C15"
def face(v, q):
    """node q of the local box lies on a non-periodic face of the domain"""
    return S.lor(*[S.land(S.eq(G(v, d)[5], 0), S.lor(S.eq(q[d], 0), S.eq(q[d], G(v, d)[2] - 1))) for d in range(2)])
def ens(v):
    yield "success is reported", S.eq(v.ret, 0)
    yield "rows are replaced by identity rows, given by local numbers of nodes of the local box", S.eq(v.bad[0], v.bad0[0])
    for q in v.all(*[(glo(2)(v)[k], ghi(2)(v)[k]) for k in range(2)]):
        for d in range(2):
            n = v.rows(*q, d) - v.rows0(*q, d)
            own = S.land(*[S.land(S.le(a, x), S.lt(x, b)) for a, b, x in zip(olo(2)(v), ohi(2)(v), q)])
            yield "owned boundary node: row of component %d replaced" % d, S.imp(S.land(own, face(v, q)), S.le(1, n))
            yield "no other row of component %d is touched" % d, S.imp(S.lnot(face(v, q)), S.eq(n, 0))
def req(v):
    one = S.eq(v.size, 1)
    return g_req(2)(v) + [S.le(1, v.size)] + [S.imp(one, S.land(S.eq(G(v, d)[0], 0), S.eq(G(v, d)[1], G(v, d)[2]))) for d in range(2)]
CONTRACTS = [Contract("SetDirichletOnMat<2D>", "bcmat", [MESH(2, dof=2), Int("size", (1, 3)), Grid("rows", 2, glo(2), ghi(2), 2), IOI("bad", 1, (0, 0))], ens, req, ret="I",
    functions="fem::SetDirichletOnMat, set_dirichlet_on_mat_impl, get_boundary_type", merge=False, weight=3)]
