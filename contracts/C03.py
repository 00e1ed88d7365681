from vc.contract import *
HARNESS = "C03"
F = Fraction
# exact integrals over the unit interval of products of the two linear functions (and derivatives)
MASS = [[F(1, 3), F(1, 6)], [F(1, 6), F(1, 3)]]
STIF = [[F(1), F(-1)], [F(-1), F(1)]]
def MIX(a, b): return (F(-1, 2), F(1, 2))[a]          # int phi_a' phi_b
# coarse function a on [0,2], fine functions b on the two halves (unit fine length)
def _pf():
    PM = [[0] * 3 for _ in range(2)]; PD = [[0] * 3 for _ in range(2)]
    # p_a(x) = c0 + c1 x ; u_b piecewise: on cell e in {0,1} local s: value l0 + l1 s
    for a in range(2):
        for b in range(3):
            for e in range(2):
                p0 = (1 - F(e, 2)) if a == 0 else F(e, 2); p1 = F(-1, 2) if a == 0 else F(1, 2)
                if b == e: u0, u1 = F(1), F(-1)
                elif b == e + 1: u0, u1 = F(0), F(1)
                else: continue
                PM[a][b] += p0 * u0 + (p0 * u1 + p1 * u0) / 2 + p1 * u1 / 3
                PD[a][b] += u1 * (p0 + p1 / 2)
    return PM, PD
PM, PD = _pf()
def bit(k, d): return k >> d & 1
def prod(xs):
    r = F(1)
    for x in xs: r = r * x
    return r
def hp(h, ex):
    """product of powers of the spacings"""
    r = None
    for d, e in enumerate(ex):
        for _ in range(abs(e)):
            r = h[d] if r is None and e > 0 else ((1 / h[d]) if r is None else (r * h[d] if e > 0 else r / h[d]))
    return r if r is not None else 1
def integral(dim, i, j, di, dj, h):
    """int d_di(phi_i) d_dj(phi_j) over the cell; di/dj None: no derivative"""
    q = F(1); ex = [1] * dim
    for d in range(dim):
        a, b = bit(i, d), bit(j, d)
        if d == di and d == dj: q *= STIF[a][b]; ex[d] = -1
        elif d == di: q *= MIX(a, b); ex[d] = 0
        elif d == dj: q *= MIX(b, a); ex[d] = 0
        else: q *= MASS[a][b]
    return c(q) * hp(h, ex)
def pint(dim, ip, iv, d0, h):
    """int p_ip d_d0(u_iv) over the pressure cell (2h), h the velocity spacing"""
    q = F(1); ex = [1] * dim
    for d in range(dim):
        a = bit(ip, d); b = iv // 3 ** d % 3
        if d == d0: q *= PD[a][b]; ex[d] = 0
        else: q *= PM[a][b]
    return c(q) * hp(h, ex)
def lap(dim, i, j, h):
    r = 0
    for d in range(dim): r = r + integral(dim, i, j, d, d, h)
    return r
def strain(dim, i, j, d1, d2, h):
    """2 int D(phi_j e_d2) : D(phi_i e_d1)  (i test, j trial)"""
    r = integral(dim, i, j, d2, d1, h)
    if d1 == d2:
        for d in range(dim): r = r + integral(dim, i, j, d, d, h)
    return r
def mass(dim, i, j, h): return integral(dim, i, j, None, None, h)
req = lambda dim: (lambda v: [S.lt(0, v.h[d]) for d in range(dim)])
def mk(name, dim, n, ens, fn=None):
    return Contract("getMatElem%s<%dD>" % (name, dim), "%s_%d" % (name, dim), [In("h", dim, (0.05, 2)), Out("o", n)], ens, req(dim), functions="getMatElem%s(std::array<double,%d>)" % (name, dim), samples=100)
CONTRACTS = []
for dim in (2, 3):
    n = 2 ** dim; m = 3 ** dim
    def e_lap(v, dim=dim, n=n):
        for i in range(n):
            for j in range(n): yield "entry (%d,%d) = int grad phi_i . grad phi_j" % (i, j), S.eq(v.o[n * i + j], lap(dim, i, j, v.h))
            yield "constants in the kernel, row %d" % i, S.eq(sum((v.o[n * i + j] for j in range(1, n)), v.o[n * i]), 0)
            for j in range(i): yield "symmetric (%d,%d)" % (i, j), S.eq(v.o[n * i + j], v.o[n * j + i])
    def e_mass(v, dim=dim, n=n):
        tot = 0
        for i in range(n):
            for j in range(n):
                tot = tot + v.o[n * i + j]
                yield "entry (%d,%d) = int phi_i phi_j" % (i, j), S.eq(v.o[n * i + j], mass(dim, i, j, v.h))
        yield "total mass = volume of the cell", S.eq(tot, hp(v.h, [1] * dim))
    def e_strain(v, dim=dim, n=n):
        for i in range(n):
            for j in range(n):
                for a in range(dim):
                    for b in range(dim):
                        yield "entry (%d,%d,%d,%d) = 2 int D(phi_j e_%d):D(phi_i e_%d)" % (i, j, a, b, b, a), S.eq(v.o[((n * i + j) * dim + a) * dim + b], strain(dim, i, j, a, b, v.h))
                        yield "symmetric (%d,%d,%d,%d)" % (i, j, a, b), S.eq(v.o[((n * i + j) * dim + a) * dim + b], v.o[((n * j + i) * dim + b) * dim + a])
    def e_pres(v, dim=dim, n=n, m=m):
        for i in range(n):
            for j in range(m):
                for d in range(dim): yield "entry (%d,%d,%d) = int p_i d_%d(u_j)" % (i, j, d, d), S.eq(v.o[(m * i + j) * dim + d], pint(dim, i, j, d, v.h))
    CONTRACTS += [mk("Laplacian", dim, n * n, e_lap), mk("Mass", dim, n * n, e_mass), mk("StrainTensor", dim, n * n * dim * dim, e_strain), mk("Pressure", dim, n * m * dim, e_pres)]
# flattened (row-major in the order of get_indices*) versions used by assembly: rows are test functions
def f_strain(v):
    for a in range(2):
        for b in range(2):
            for i in range(4):
                for j in range(4):
                    yield "flattened row (%d,%d) column (%d,%d)" % (i, a, j, b), S.eq(v.o[(i + 4 * a) * 8 + j + 4 * b], strain(2, i, j, a, b, v.h))
def f_lap(v):
    for i in range(4):
        for j in range(4): yield "flattened (%d,%d)" % (i, j), S.eq(v.o[4 * i + j], lap(2, i, j, v.h))
def f_mass(v):
    for i in range(4):
        for j in range(4): yield "flattened (%d,%d)" % (i, j), S.eq(v.o[4 * i + j], mass(2, i, j, v.h))
def f_pA(v):
    for i in range(4):
        for j in range(9):
            for d in range(2): yield "flattened B (%d,%d,%d)" % (i, j, d), S.eq(v.o[18 * i + j + 9 * d], pint(2, i, j, d, v.h))
def f_pAT(v):
    for i in range(4):
        for j in range(9):
            for d in range(2): yield "flattened -B^T (%d,%d,%d)" % (i, j, d), S.eq(v.o[4 * (j + 9 * d) + i], -pint(2, i, j, d, v.h))
CONTRACTS += [mk("StrainTensorA", 2, 64, f_strain), mk("LaplacianA", 2, 16, f_lap), mk("MassA", 2, 16, f_mass), mk("PressureA", 2, 72, f_pA), mk("PressureAT", 2, 72, f_pAT)]
