// C13: what the assembly routines insert, seen through MatSetValuesLocal
#include <petsc.h>
#include "petsc_stub.hpp"
#include <cafes.hpp>
using namespace cafes;
// A matrix is the table of its local entries: vv[j][i][..] couples velocity node (i,j) to the nodes around it,
// pp[j][i][..] the same for pressure, pv[j][i][..] / vp[j][i][..] the pressure row / column of pressure node
// (i,j) with the velocity nodes around (2i,2j).
struct _p_Mat
{
    DM v, p;
    double ***vv, ***pp, ***pv, ***vp;
    int *bad;
};
extern "C" PetscErrorCode MatSetValuesLocal(Mat A, PetscInt nr, PetscInt const *r, PetscInt nc, PetscInt const *c, PetscScalar const *val, InsertMode mode)
{
    DMDALocalInfo const &v = A->v->info;
    int const dofv = v.dof;
    int blk[8] = {0, v.dof, v.gxm, v.gym, 0, 1, 1, 1}, nb = 1;
    int og[4] = {v.gxs, v.gys, 0, 0};
    if (A->p)
    {
        DMDALocalInfo const &p = A->p->info;
        blk[4] = v.dof * v.gxm * v.gym * v.gzm; blk[5] = p.dof; blk[6] = p.gxm; blk[7] = p.gym; nb = 2;
        og[2] = p.gxs; og[3] = p.gys;
    }
    if (mode != ADD_VALUES) { *A->bad += 1; return PETSC_SUCCESS; }
    for (int a = 0; a < nr; ++a)
    {
        int R[4]; vc_local(r[a], nb, 2, blk, R);
        if (R[0] < 0) { *A->bad += 1; continue; }
        R[2] += og[2 * R[0]]; R[3] += og[2 * R[0] + 1];
        for (int b = 0; b < nc; ++b)
        {
            int C[4]; vc_local(c[b], nb, 2, blk, C);
            if (C[0] < 0) { *A->bad += 1; continue; }
            C[2] += og[2 * C[0]]; C[3] += og[2 * C[0] + 1];
            double const x = val[a * nc + b];
            if (R[0] == C[0])
            {
                int dx = C[2] - R[2] + 1, dy = C[3] - R[3] + 1;
                if (dx < 0 || dx > 2 || dy < 0 || dy > 2) { *A->bad += 1; continue; }
                if (R[0] == 0) A->vv[R[3]][R[2]][((R[1] * dofv + C[1]) * 3 + dy) * 3 + dx] += x;
                else A->pp[R[3]][R[2]][3 * dy + dx] += x;
            }
            else
            {
                int const *P = R[0] ? R : C, *V = R[0] ? C : R;
                int dx = V[2] - 2 * P[2] + 2, dy = V[3] - 2 * P[3] + 2;
                if (dx < 0 || dx > 4 || dy < 0 || dy > 4) { *A->bad += 1; continue; }
                (R[0] ? A->pv : A->vp)[P[3]][P[2]][(V[1] * 5 + dy) * 5 + dx] += x;
            }
        }
    }
    return PETSC_SUCCESS;
}
static std::array<double, 2> H(double const *h) { return {{h[0], h[1]}}; }
#define ONE(DOF)                                                                                                              \
    extern "C" int kdiag_##DOF(int const *g, int const *pos, double const *m, double ***vv, int *bad)                  \
    {                                                                                                                         \
        _p_DM dm; vc_dm<2>(dm, g); _p_Mat M{&dm, nullptr, vv, nullptr, nullptr, nullptr, bad}; Mat A = &M;                       \
        std::array<double, 16> e; for (int i = 0; i < 16; ++i) e[i] = m[i];                                                    \
        kernel_diag_block_A(A, dm.info, e)(geometry::position<int, 2>{pos[0], pos[1]});                                        \
        return 0;                                                                                                             \
    }                                                                                                                         \
    extern "C" int lap_##DOF(int const *g, double const *h, double ***vv, int *bad)                                            \
    {                                                                                                                         \
        _p_DM dm; vc_dm<2>(dm, g); _p_Mat M{&dm, nullptr, vv, nullptr, nullptr, nullptr, bad}; Mat A = &M; DM d = &dm;           \
        return laplacian_assembling<2>(d, A, H(h));                                                                           \
    }
ONE(1)
ONE(2)
extern "C" int ktens(int const *g, int const *pos, double const *m, double ***vv, int *bad)
{
    _p_DM dm; vc_dm<2>(dm, g); _p_Mat M{&dm, nullptr, vv, nullptr, nullptr, nullptr, bad}; Mat A = &M;
    std::array<double, 64> e; for (int i = 0; i < 64; ++i) e[i] = m[i];
    kernel_tensor_block_A(A, dm.info, e)(geometry::position<int, 2>{pos[0], pos[1]});
    return 0;
}
extern "C" void strain(int const *g, double const *h, double ***vv, int *bad)
{
    _p_DM dm; vc_dm<2>(dm, g); _p_Mat M{&dm, nullptr, vv, nullptr, nullptr, nullptr, bad}; Mat A = &M; DM d = &dm;
    strain_tensor_assembling<2>(d, A, H(h));
}
struct pack
{
    _p_DM dv, dp, dm; DM d; _p_Mat M; Mat A;
    pack(int const *gv, int const *g, double ***pp, double ***pv, double ***vp, int *bad)
    {
        vc_dm<2>(dv, gv); vc_dm<2>(dp, g); dm.composite = 1; dm.ndm = 2; dm.sub[0] = &dv; dm.sub[1] = &dp; d = &dm;
        M = _p_Mat{&dv, &dp, nullptr, pp, pv, vp, bad}; A = &M;
    }
};
extern "C" int mass(int const *gv, int const *g, double const *h, double ***pp, int *bad)
{ pack P(gv, g, pp, nullptr, nullptr, bad); return mass_assembling<2>(P.d, P.A, H(h)); }
extern "C" void diago(int const *gv, int const *g, double value, double ***pp, int *bad)
{ pack P(gv, g, pp, nullptr, nullptr, bad); diagonal_assembling<2>(P.d, P.A, value); }
extern "C" int bbt(int const *gv, int const *g, double const *h, double ***pv, double ***vp, int *bad)
{ pack P(gv, g, nullptr, pv, vp, bad); return B_BT_assembling<2>(P.d, P.A, H(h)); }
extern "C" int koff(int const *gv, int const *g, int const *pos, double const *mb, double const *mt, double ***pv, double ***vp, int *bad)
{
    pack P(gv, g, nullptr, pv, vp, bad);
    std::array<double, 72> b, bt; for (int i = 0; i < 72; ++i) { b[i] = mb[i]; bt[i] = mt[i]; }
    int dec = P.dv.info.dof * P.dv.info.gxm * P.dv.info.gym * P.dv.info.gzm;
    kernel_off_diag_block_A(P.A, dec, P.dv.info, P.dp.info, b, bt)(geometry::position<int, 2>{pos[0], pos[1]});
    return 0;
}
