// C15: the rows of an assembled matrix replaced by Dirichlet conditions, seen through MatZeroRowsLocal
#include <petsc.h>
#include "petsc_stub.hpp"
struct _p_Mat { DM dm; double ***rows; int *bad; int size; };
static int vc_size;
extern "C" PetscErrorCode MatGetDM(Mat A, DM *dm) { *dm = A->dm; vc_size = A->size; return PETSC_SUCCESS; }
extern "C" int vc_comm_size(MPI_Comm, int *n) { *n = vc_size; return 0; }
#define MPI_Comm_size(c, n) vc_comm_size(c, n)
// every row of the list becomes a row of the identity; rows come by pairs
extern "C" PetscErrorCode MatZeroRowsLocal(Mat A, PetscInt n, PetscInt const *rows, PetscScalar diag, Vec x, Vec b)
{
    DMDALocalInfo const &v = A->dm->sub[0]->info;
    int const blk[4] = {0, v.dof, v.gxm, v.gym};
    if (diag != 1.0 || x || b) *A->bad += 1;
    int const m = n / 2;
    if (2 * m != n) { *A->bad += 1; return PETSC_SUCCESS; }
    for (int q = 0; q < m; ++q)
    {
        int R[4];
        vc_local(rows[2 * q], 1, 2, blk, R);
        if (R[0] < 0) *A->bad += 1; else A->rows[R[3] + v.gys][R[2] + v.gxs][R[1]] += 1;
        vc_local(rows[2 * q + 1], 1, 2, blk, R);
        if (R[0] < 0) *A->bad += 1; else A->rows[R[3] + v.gys][R[2] + v.gxs][R[1]] += 1;
    }
    return PETSC_SUCCESS;
}
#include <cafes.hpp>
using namespace cafes;
extern "C" int bcmat(int const *g, int size, double ***rows, int *bad)
{
    _p_DM v, dm; vc_dm<2>(v, g); dm.composite = 1; dm.ndm = 1; dm.sub[0] = &v;
    _p_Mat M{&dm, rows, bad, size}; Mat A = &M;
    fem::dirichlet_conditions<2> bc{};
    return fem::SetDirichletOnMat<2>(A, bc);
}
