from vc.contract import *
from contracts.mesh import *
from contracts.C03 import lap, mass, strain, pint
HARNESS = "C13"
CONTRACTS = []
bit = lambda k, d: k >> d & 1
def cell_in(v, cell):
    cs = []
    for d in range(2):
        xs, xm, mx, gxs, gxm, per = G(v, d)
        cs += [S.le(xs, cell[d]), S.lt(cell[d], xs + xm), S.lor(S.ne(per, 0), S.lt(cell[d], mx - 1))]
    return S.land(*cs)
def bad(v): return "nothing inserted outside the degrees of freedom of neighbouring nodes of the local box, and only by addition", S.eq(v.bad[0], v.bad0[0])
def square(name, entry, dof, table, el, where, ps, req, fn, cell=False, kinds=None, ret="I", weight=3):
    """rows and columns on the same mesh; el(v, k1, k2, a, b) or None"""
    def ens(v):
        if ret: yield "success is reported", S.eq(v.ret, 0)
        T0 = getattr(v, table + "0"); T1 = getattr(v, table)
        for q in v.all(*[(glo(2)(v)[k], ghi(2)(v)[k]) for k in range(2)]):
            for a in range(dof):
                for b in range(dof):
                    for dy in range(3):
                        for dx in range(3):
                            o = (dx - 1, dy - 1); s = ((a * dof + b) * 3 + dy) * 3 + dx; w = T0(*q, s)
                            for k1 in range(4):
                                k2 = [bit(k1, d) + o[d] for d in range(2)]
                                if any(x not in (0, 1) for x in k2): continue
                                e = el(v, k1, k2[0] + 2 * k2[1], a, b)
                                if e is None: continue
                                w = w + S.ite(where(v, [q[d] - bit(k1, d) for d in range(2)]), e, c(0))
                            yield "entry (node, component %d)-(node%+d%+d, component %d) = old + elementary entries of exactly the cells" % (a, o[0], o[1], b), S.eq(T1(*q, s), w)
        yield bad(v)
    CONTRACTS.append(Contract(name, entry, ps + [Grid(table, 2, glo(2), ghi(2), dof * dof * 9), IOI("bad", 1, (0, 0))], ens, req, ret=ret, functions=fn, samples=40, weight=weight))
pos_in = lambda v: [x for d in range(2) for x in (S.le(glo(2)(v)[d], v.pos[d]), S.lt(v.pos[d] + 1, ghi(2)(v)[d]))]
def psamp(rng, v, i):
    lo, hi = glo(2)(v)[i], ghi(2)(v)[i]
    return rng.randint(lo, max(lo, hi - 2))
POS = InI("pos", 2, psamp)
is_pos = lambda v, cell: S.land(*[S.eq(cell[d], v.pos[d]) for d in range(2)])
hpos = lambda v: [S.lt(c(0), v.h[d]) for d in range(2)]
Hh = In("h", 2, (0.1, 1))
for dof in (1, 2):
    gd = lambda v, dof=dof: g_req(2)(v) + [S.eq(v.g[0], dof)]
    M = lambda dof=dof: MESH(2, dof=dof)
    square("kernel_diag_block_A<%d components>" % dof, "kdiag_%d" % dof, dof, "vv", lambda v, k1, k2, a, b: v.m[4 * k1 + k2] if a == b else None, is_pos,
           [M(), POS, In("m", 16)], lambda v, gd=gd: gd(v) + pos_in(v), "kernel_diag_block_A, fem::get_indices")
    square("laplacian_assembling<%d components>" % dof, "lap_%d" % dof, dof, "vv", lambda v, k1, k2, a, b: lap(2, k1, k2, v.h) if a == b else None, cell_in,
           [M(), Hh], lambda v, gd=gd: gd(v) + hpos(v), "laplacian_assembling, kernel_diag_block_A, iterate, get_DM_bounds, getMatElemLaplacianA")
g2 = lambda v: g_req(2)(v) + [S.eq(v.g[0], 2)]
square("kernel_tensor_block_A", "ktens", 2, "vv", lambda v, k1, k2, a, b: v.m[8 * (k1 + 4 * a) + k2 + 4 * b], is_pos, [MESH(2, dof=2), POS, In("m", 64)], lambda v: g2(v) + pos_in(v), "kernel_tensor_block_A, fem::get_indices_tensor")
square("strain_tensor_assembling", "strain", 2, "vv", lambda v, k1, k2, a, b: strain(2, k1, k2, a, b, v.h), cell_in, [MESH(2, dof=2), Hh], lambda v: g2(v) + hpos(v), "strain_tensor_assembling, kernel_tensor_block_A, getMatElemStrainTensorA", ret=None)
# the velocity mesh belonging to a pressure mesh (C11)
VEL = InI("gv", 13, velsamp(2), fix={0: 2})
gp = lambda v: g_req(2)(v) + [S.eq(v.g[0], 1)] + vel_req(2)(v)
square("mass_assembling", "mass", 1, "pp", lambda v, k1, k2, a, b: mass(2, k1, k2, v.h), cell_in, [MESH(2, dof=1), VEL, Hh], lambda v: gp(v) + hpos(v), "mass_assembling, kernel_diag_block_A, getMatElemMassA")
square("diagonal_assembling", "diago", 1, "pp", lambda v, k1, k2, a, b: None, cell_in, [MESH(2, dof=1), VEL, Real("value")], gp, "diagonal_assembling, kernel_diag_block_A", ret=None)
for con in CONTRACTS[-2:]:     # the harness takes the velocity mesh first
    con.args = ["gv", "g"]
def coupling(name, entry, B, BT, where, ps, req, fn):
    def ens(v):
        yield "success is reported", S.eq(v.ret, 0)
        for q in v.all(*[(glo(2)(v)[k], ghi(2)(v)[k]) for k in range(2)]):
            for a in range(2):
                for dy in range(5):
                    for dx in range(5):
                        s = (a * 5 + dy) * 5 + dx; w = v.pv0(*q, s); u = v.vp0(*q, s)
                        for kp in range(4):
                            n = (dx - 2 + 2 * bit(kp, 0), dy - 2 + 2 * bit(kp, 1))      # node of the 3x3 velocity nodes of the cell
                            if any(x not in (0, 1, 2) for x in n): continue
                            kv = n[0] + 3 * n[1]; inn = where(v, [q[d] - bit(kp, d) for d in range(2)])
                            w = w + S.ite(inn, B(v, kp, kv, a), c(0)); u = u + S.ite(inn, BT(v, kp, kv, a), c(0))
                        yield "pressure row, velocity column %+d%+d component %d = old + B of exactly the cells" % (dx - 2, dy - 2, a), S.eq(v.pv(*q, s), w)
                        yield "velocity row %+d%+d component %d, pressure column = old - B^T of exactly the cells" % (dx - 2, dy - 2, a), S.eq(v.vp(*q, s), u)
        yield bad(v)
    con = Contract(name, entry, ps + [Grid("pv", 2, glo(2), ghi(2), 50), Grid("vp", 2, glo(2), ghi(2), 50), IOI("bad", 1, (0, 0))], ens, req, ret="I", functions=fn, samples=40, weight=5)
    con.args = ["gv", "g"]
    CONTRACTS.append(con)
coupling("B_BT_assembling", "bbt", lambda v, kp, kv, a: pint(2, kp, kv, a, v.h), lambda v, kp, kv, a: -pint(2, kp, kv, a, v.h), cell_in, [MESH(2, dof=1), VEL, Hh], lambda v: gp(v) + hpos(v),
         "B_BT_assembling, kernel_off_diag_block_A, getMatElemPressureA, getMatElemPressureAT")
def pos_cell(v): return [cell_in(v, v.pos)]
coupling("kernel_off_diag_block_A", "koff", lambda v, kp, kv, a: v.mb[18 * kp + kv + 9 * a], lambda v, kp, kv, a: v.mt[4 * (kv + 9 * a) + kp], is_pos,
         [MESH(2, dof=1), VEL, POS, In("mb", 72), In("mt", 72)], lambda v: gp(v) + pos_cell(v), "kernel_off_diag_block_A, fem::get_indices, fem::get_indices_4Q1")
