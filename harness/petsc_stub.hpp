// Assumed contracts of the PETSc functions the verified code calls, as small
// C++ bodies: the same text is executed by the verifier and by native replay.
// A DM is its DMDALocalInfo plus, for a composite, its entries; everything the
// code under contract asks a DM comes from these fields.
#pragma once
#include <petsc.h>
#include <cstring>
struct _p_DM
{
    DMDALocalInfo info;
    int composite, ndm;
    DM sub[4];
    int npx, npy, npz;
    int level;      // times it has been coarsened
};
extern "C" {
PetscErrorCode DMDAGetLocalInfo(DM dm, DMDALocalInfo *i) { *i = dm->info; return PETSC_SUCCESS; }
PetscErrorCode DMGetCoarsenLevel(DM dm, PetscInt *l) { *l = dm->level; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeGetNumberDM(DM dm, PetscInt *n) { *n = dm->ndm; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeGetEntriesArray(DM dm, DM *o) { for (int i = 0; i < dm->ndm; ++i) o[i] = dm->sub[i]; return PETSC_SUCCESS; }
}
static inline PetscErrorCode vc_entries(DM dm, DM *a, DM *b) { if (a) *a = dm->sub[0]; if (b) *b = dm->sub[1]; return PETSC_SUCCESS; }
#define DMCompositeGetEntries(dm, a, b) vc_entries(dm, a, (DM *)(b))
// allocation: PETSc's variadic helpers by plain allocation
#include <new>
#undef PetscMalloc
#undef PetscFree
#undef PetscMalloc1
#undef PetscMalloc2
#undef PetscFree2
#define PetscMalloc(n, p) (*(void **)(p) = operator new(n), PETSC_SUCCESS)
#define PetscFree(p) (operator delete((void *)(p)), (p) = 0, PETSC_SUCCESS)
#define PetscMalloc1(n, p) PetscMalloc(sizeof(**(p)) * (n), p)
#define PetscMalloc2(n, p, m, q) (PetscMalloc1(n, p), PetscMalloc1(m, q))
#define PetscFree2(p, q) (PetscFree(p), PetscFree(q))
#undef PetscFree3
#define PetscFree3(p, q, r) (PetscFree(p), PetscFree(q), PetscFree(r))
#include <fem/mesh.hpp>
#include <petsc/vec.hpp>
// g: dof, (xs, xm, mx, gxs, gxm, periodic) per direction
template<int D> static void vc_dm(_p_DM &dm, int const *g)
{
    DMDALocalInfo &i = dm.info;
    dm.composite = 0; dm.ndm = 0; dm.npx = dm.npy = dm.npz = 1; dm.level = 0;
    i.dim = D; i.dof = g[0]; i.sw = 1; i.st = DMDA_STENCIL_BOX; i.da = &dm;
    i.xs = g[1]; i.xm = g[2]; i.mx = g[3]; i.gxs = g[4]; i.gxm = g[5]; i.bx = g[6] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE;
    i.ys = g[7]; i.ym = g[8]; i.my = g[9]; i.gys = g[10]; i.gym = g[11]; i.by = g[12] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE;
    if (D == 3) { i.zs = g[13]; i.zm = g[14]; i.mz = g[15]; i.gzs = g[16]; i.gzm = g[17]; i.bz = g[18] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE; }
    else { i.zs = 0; i.zm = 1; i.mz = 1; i.gzs = 0; i.gzm = 1; i.bz = DM_BOUNDARY_NONE; }
}
// a petsc_vec whose local array is p and whose global array is pg (no constructor: it would call PETSC)
template<std::size_t D> struct vc_vec
{
    alignas(16) unsigned char raw[sizeof(cafes::petsc::petsc_vec<D>)];
    cafes::petsc::petsc_vec<D> &v;
    template<class P> vc_vec(DM dm, int dof, P p, P pg) : v(*reinterpret_cast<cafes::petsc::petsc_vec<D> *>(raw))
    {
        v.dm_ = dm; v.dm_global_ = dm; v.entry_ = 0; v.dof_ = dof; v.readonly_ = false; v.iscomposite = PETSC_FALSE;
        v.pv_ = p; v.pvg_ = pg;
    }
};
// Local degree-of-freedom indices back to nodes.  b describes nb blocks (offset, dof, n0, .., n_{dim-1});
// out = block (-1 if r is in none), component, node (relative to the ghosted corner).  The verifier
// replaces this text by the same mixed-radix decomposition on symbolic integers (proving each digit in range).
extern "C" void vc_local(int r, int nb, int dim, int const *b, int *out)
#ifdef CAFES_VC_SYMBOLIC
    ;
#else
{
    out[0] = -1;
    for (int k = 0; k < nb; ++k, b += 2 + dim)
    {
        long sz = 1; for (int d = 0; d <= dim; ++d) sz *= b[1 + d];
        long q = long(r) - b[0];
        if (q < 0 || q >= sz) continue;
        out[0] = k;
        for (int d = 0; d <= dim; ++d) { out[1 + d] = q % b[1 + d]; q /= b[1 + d]; }
    }
}
#endif
