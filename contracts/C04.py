from vc.contract import *
HARNESS = "C04"
def ens(dim):
    def f(v):
        for p in v.all(*[(None, None)] * dim):
            inside = S.land(*[S.land(S.le(v.bl[d], p[d]), S.lt(p[d], v.ur[d])) for d in range(dim)])
            yield "visited exactly once iff inside the box", S.eq(v.cb(*p), S.ite(inside, 1, 0))
    return f
CONTRACTS = [Contract("iterate<box<int,%d>>" % dim, "it_%d" % dim, [InI("bl", dim, (-5, 4)), InI("ur", dim, (-4, 7)), Count("cb", dim)], ens(dim),
    functions="cafes::algorithm::iterate / iterate_impl (dim %d)" % dim) for dim in (2, 3)]
