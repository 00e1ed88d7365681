from vc.contract import *
HARNESS = "C01"
def shape(k, x, h, dim):
    """tensor-product linear function of vertex k (bit d of k = upper in direction d)"""
    r = 1
    for d in range(dim): r = r * ((x[d] / h[d]) if k >> d & 1 else 1 - x[d] / h[d])
    return r
def dshape(k, d0, x, h, dim):
    r = 1
    for d in range(dim):
        if d == d0: r = r * ((1 if k >> d & 1 else -1) / h[d])
        else: r = r * ((x[d] / h[d]) if k >> d & 1 else 1 - x[d] / h[d])
    return r
def vol(h, dim):
    r = h[0]
    for d in range(1, dim): r = r * h[d]
    return r
def req(dim): return lambda v: [S.lt(0, v.h[d]) for d in range(dim)]
def ens_q1(dim):
    n = 2 ** dim
    def f(v):
        for k in range(n): yield "shape function of vertex %d" % k, S.eq(v.o[k], shape(k, v.x, v.h, dim))
        s = 0
        for k in range(n): s = s + v.o[k]
        yield "partition of unity", S.eq(s, 1)
        # affine functions a + b.x are reproduced from their nodal values
        s = 0; e = v.a
        for k in range(n):
            nod = v.a
            for d in range(dim): nod = nod + v.b[d] * (v.h[d] if k >> d & 1 else 0)
            s = s + v.o[k] * nod
        for d in range(dim): e = e + v.b[d] * v.x[d]
        yield "affine functions reproduced", S.eq(s, e)
        for _ in v.given(*[S.land(S.le(0, v.x[d]), S.le(v.x[d], v.h[d])) for d in range(dim)]):
            for k in range(n): yield "non-negative in the cell, vertex %d" % k, S.le(0, v.o[k])
    return f
def ens_grad(dim):
    n = 2 ** dim
    def f(v):
        for k in range(n):
            for d in range(dim):
                yield "gradient of vertex %d, direction %d" % (k, d), S.eq(v.o[dim * k + d], vol(v.h, dim) * dshape(k, d, v.x, v.h, dim))
        for d in range(dim):
            s = 0
            for k in range(n): s = s + v.o[dim * k + d]
            yield "gradients sum to zero, direction %d" % d, S.eq(s, 0)
    return f
class GV(Ghost): pass
def aff(dim): return [Ghost("a"), GhostArr("b", dim)]
CONTRACTS = []
for dim in (2, 3):
    CONTRACTS.append(Contract("P1_integration<%dD>" % dim, "q1_%d" % dim, [In("x", dim), In("h", dim, (0.05, 2)), Out("o", 2 ** dim)] + aff(dim),
        ens_q1(dim), req(dim), functions="cafes::fem::P1_integration(position<double,%d>)" % dim))
    CONTRACTS.append(Contract("P1_integration_grad<%dD>" % dim, "g1_%d" % dim, [In("x", dim), In("h", dim, (0.05, 2)), Out("o", dim * 2 ** dim)],
        ens_grad(dim), req(dim), functions="cafes::fem::P1_integration_grad(position<double,%d>)" % dim))
