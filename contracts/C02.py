from vc.contract import *
HARNESS = "C02"
def ens_elem(dim, m, scale):
    def f(v):
        for k in range(m ** dim):
            for d in range(dim):
                yield "node %d is vertex %d of the cell, direction %d" % (k, k, d), S.eq(v.o[dim * k + d], v.p[d] * scale + (k // m ** d) % m)
    return f
# g = dof, gxs, gys, gxm, gym
def lin(v, i, j, comp):
    dof, gxs, gys, gxm, gym = [v.g[k] for k in range(5)]
    return dof * ((j - gys) * gxm + (i - gxs)) + comp
def ens_ind(m, scale, comps):
    def f(v):
        dof, gxs, gys, gxm, gym = [v.g[k] for k in range(5)]
        n = 0; ent = []
        for cc in comps(v):
            for k in range(m * m):
                i = v.p[0] * scale + k % m; j = v.p[1] * scale + k // m
                yield "entry %d = dof*(linear index of node %d) + component" % (n, k), S.eq(v.o[n], lin(v, i, j, cc))
                ent.append((n, i, j, cc)); n += 1
        # lemma: inside the local array, and pairwise distinct
        i0, j0 = v.p[0] * scale, v.p[1] * scale
        for _ in v.given(S.land(S.le(gxs, i0), S.lt(i0 + m - 1, gxs + gxm), S.le(gys, j0), S.lt(j0 + m - 1, gys + gym))):
            for n, i, j, cc in ent:
                # row offset and column offset bounds give 0 <= index < dof*gxm*gym
                r = j - gys; q = i - gxs
                # stepping stones: 0 <= r <= gym-1, 0 <= q <= gxm-1
                for __ in v.given(S.le(0, (gym - 1 - r) * gxm), S.le(0, r * gxm), S.le(0, dof * (gxm - 1 - q)), S.le(0, dof * q), S.le(0, dof * (r * gxm)), S.le(0, dof * ((gym - 1 - r) * gxm))):
                    yield "entry %d inside the local array" % n, S.land(S.le(0, v.o[n]), S.lt(v.o[n], dof * gxm * gym))
                yield "stepping stones of entry %d" % n, S.land(S.le(0, r), S.le(0, q), S.le(0, gym - 1 - r), S.le(0, gxm - 1 - q))
            for a in range(len(ent)):
                for b in range(a):
                    # distinct: difference is dof*(dj*gxm + di) + dc with |di| < gxm, |dc| < dof
                    dj = (a % (m * m)) // m - (b % (m * m)) // m; di = a % m - b % m if True else 0
                    yield "entries %d and %d differ" % (a, b), S.ne(v.o[ent[a][0]], v.o[ent[b][0]])
    return f
info_req = lambda v: [S.le(1, v.g[0]), S.le(1, v.g[3]), S.le(1, v.g[4])]
def gsamp(rng, v, i): return [rng.randint(1, 3), rng.randint(-1, 4), rng.randint(-1, 4), rng.randint(1, 9), rng.randint(1, 9)][i]
CONTRACTS = [Contract("get_element<%d>" % d, "elem_%d" % d, [InI("p", d, (-9, 30)), OutI("o", d * 2 ** d)], ens_elem(d, 2, 1), functions="cafes::fem::get_element(position<int,%d>)" % d) for d in (2, 3)]
CONTRACTS += [Contract("get_element_4Q1<%d>" % d, "elem4_%d" % d, [InI("p", d, (-9, 30)), OutI("o", d * 3 ** d)], ens_elem(d, 3, 2), functions="cafes::fem::get_element_4Q1(position<int,%d>)" % d) for d in (2, 3)]
G = lambda: InI("g", 5, gsamp)
CONTRACTS += [
 Contract("get_indices", "ind", [G(), InI("p", 2, (0, 9)), Int("comp", (0, 2)), OutI("o", 4)], ens_ind(2, 1, lambda v: [v.comp]), lambda v: info_req(v) + [S.le(0, v.comp), S.lt(v.comp, v.g[0])], functions="cafes::fem::get_indices, DMDALocalIndex2D"),
 Contract("get_indices_tensor", "indt", [G(), InI("p", 2, (0, 9)), OutI("o", 8)], ens_ind(2, 1, lambda v: [0, 1]), lambda v: info_req(v) + [S.le(2, v.g[0])], functions="cafes::fem::get_indices_tensor, DMDALocalIndex2D"),
 Contract("get_indices_4Q1", "ind4", [G(), InI("p", 2, (0, 9)), OutI("o", 18)], ens_ind(3, 2, lambda v: [0, 1]), lambda v: info_req(v) + [S.le(2, v.g[0])], functions="cafes::fem::get_indices_4Q1, DMDALocalIndex2D"),
]
