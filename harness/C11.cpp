// C11: meshes and their partition
#include <petsc.h>
#undef CHKERRQ
#define CHKERRQ(e) do { if (e) return e; } while (0)
#undef PETSC_COMM_WORLD
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#include "petsc_stub.hpp"
// Assumed contracts of the DMDA functions: a DMDA keeps what it is created with; before DMSetUp its partition
// and its fields do not exist (asking for them fails); DMSetUp picks the partition `split` for what was left to PETSC.
struct vc_da : _p_DM { int n[3], np[3], st, lxgiven; const int *lx[3]; int setup, names; };
static struct vc_mk { vc_da da[3]; int made; _p_DM c; int np[3]; const int *lx[3]; int *u[3]; } MK;
static inline PetscErrorCode vc_create(int D, DMBoundaryType bx, DMBoundaryType by, DMBoundaryType bz, int st, int nx, int ny, int nz, int px, int py, int pz, int dof, int s, const int *lx, const int *ly, const int *lz, DM *o)
{
    vc_da &d = MK.da[MK.made++];
    d.composite = d.ndm = 0; d.info.dim = D; d.info.dof = dof; d.info.sw = s; d.info.bx = bx; d.info.by = by; d.info.bz = bz;
    d.n[0] = nx; d.n[1] = ny; d.n[2] = nz; d.np[0] = px; d.np[1] = py; d.np[2] = pz; d.st = st; d.lx[0] = d.lx[1] = d.lx[2] = 0;
    if (lx) { d.lx[0] = MK.u[0]; for (int i = 0; i < px; ++i) MK.u[0][i] = lx[i]; }
    if (ly) { d.lx[1] = MK.u[1]; for (int i = 0; i < py; ++i) MK.u[1][i] = ly[i]; }
    if (lz) { d.lx[2] = MK.u[2]; for (int i = 0; i < pz; ++i) MK.u[2][i] = lz[i]; }
    d.lxgiven = (lx ? 1 : 0) + (ly ? 1 : 0) + (lz ? 1 : 0); d.setup = 0; d.names = 0;
    *o = &d; return PETSC_SUCCESS;
}
extern "C" {
PetscErrorCode DMDACreate2d(MPI_Comm, DMBoundaryType bx, DMBoundaryType by, DMDAStencilType st, PetscInt nx, PetscInt ny, PetscInt px, PetscInt py, PetscInt dof, PetscInt s, const PetscInt lx[], const PetscInt ly[], DM *o)
{ return vc_create(2, bx, by, DM_BOUNDARY_NONE, st, nx, ny, 1, px, py, 1, dof, s, lx, ly, 0, o); }
PetscErrorCode DMDACreate3d(MPI_Comm, DMBoundaryType bx, DMBoundaryType by, DMBoundaryType bz, DMDAStencilType st, PetscInt nx, PetscInt ny, PetscInt nz, PetscInt px, PetscInt py, PetscInt pz, PetscInt dof, PetscInt s, const PetscInt lx[], const PetscInt ly[], const PetscInt lz[], DM *o)
{ return vc_create(3, bx, by, bz, st, nx, ny, nz, px, py, pz, dof, s, lx, ly, lz, o); }
PetscErrorCode DMSetUp(DM d) { vc_da &a = *(vc_da *)d; if (a.setup) return PETSC_SUCCESS; a.setup = 1; for (int i = 0; i < a.info.dim; ++i) { if (a.np[i] == PETSC_DECIDE) a.np[i] = MK.np[i]; if (!a.lx[i]) a.lx[i] = MK.lx[i]; } return PETSC_SUCCESS; }
PetscErrorCode DMDASetFieldName(DM d, PetscInt k, const char *) { vc_da &a = *(vc_da *)d; if (!a.setup) return PETSC_ERR_ORDER; if (k < 0 || k >= a.info.dof) return PETSC_ERR_ARG_OUTOFRANGE; ++a.names; return PETSC_SUCCESS; }
PetscErrorCode DMDAGetInfo(DM d, PetscInt *, PetscInt *, PetscInt *, PetscInt *, PetscInt *px, PetscInt *py, PetscInt *pz, PetscInt *, PetscInt *, DMBoundaryType *, DMBoundaryType *, DMBoundaryType *, DMDAStencilType *)
{ vc_da &a = *(vc_da *)d; if (px) *px = a.np[0]; if (py) *py = a.np[1]; if (pz) *pz = a.np[2]; return PETSC_SUCCESS; }
PetscErrorCode DMDAGetOwnershipRanges(DM d, const PetscInt *x[], const PetscInt *y[], const PetscInt *z[])
{ vc_da &a = *(vc_da *)d; if (!a.setup) return PETSC_ERR_ORDER; if (x) *x = a.lx[0]; if (y) *y = a.lx[1]; if (z) *z = a.lx[2]; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeCreate(MPI_Comm, DM *o) { MK.c.composite = 1; MK.c.ndm = 0; *o = &MK.c; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeAddDM(DM c, DM d) { c->sub[c->ndm++] = d; return PETSC_SUCCESS; }
PetscErrorCode DMSetFromOptions(DM) { return PETSC_SUCCESS; }
PetscErrorCode DMDestroy(DM *d) { *d = 0; return PETSC_SUCCESS; }
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char[], PetscBool *b) { *b = ((DM)o)->composite ? PETSC_TRUE : PETSC_FALSE; return PETSC_SUCCESS; }
}
using namespace cafes;
static void start(int const *np, int const *l0, int const *l1, int const *l2, int *u0, int *u1, int *u2)
{ MK.u[0] = u0; MK.u[1] = u1; MK.u[2] = u2; MK.made = 0; MK.c.ndm = 0; MK.np[0] = np[0]; MK.np[1] = np[1]; MK.np[2] = np[2]; MK.lx[0] = l0; MK.lx[1] = l1; MK.lx[2] = l2; }
// per mesh: dim, dof, stencil width, box stencil, set up, named, then (size, processes, boundary) per direction
static void show(DM d, int *o)
{
    vc_da &a = *(vc_da *)d; o[0] = a.info.dim; o[1] = a.info.dof; o[2] = a.info.sw; o[3] = a.st == DMDA_STENCIL_BOX; o[4] = a.setup; o[5] = a.names;
    const int b[3] = {a.info.bx, a.info.by, a.info.bz};
    for (int i = 0; i < 3; ++i) { o[6 + 3 * i] = a.n[i]; o[7 + 3 * i] = a.np[i]; o[8 + 3 * i] = b[i] == DM_BOUNDARY_PERIODIC ? 1 : b[i] == DM_BOUNDARY_NONE ? 0 : -1; }
}
template<int D> static int mesh(int const *nn, int const *per, int const *np, int const *l0, int const *l1, int const *l2, int *v, int *p, int *u0, int *u1, int *u2)
{
    start(np, l0, l1, l2, u0, u1, u2);
    std::array<int, D> n; std::array<PetscBool, D> pe; for (int i = 0; i < D; ++i) { n[i] = nn[i]; pe[i] = per[i] ? PETSC_TRUE : PETSC_FALSE; }
    DM dm = 0; int e = fem::createMesh<D>(dm, n, pe);
    if (e || !dm || !dm->composite || dm->ndm != 2) return e ? e : -1;
    show(dm->sub[0], v); show(dm->sub[1], p);
    return 0;
}
template<int D> static int lap(int const *nn, int const *per, int *v)
{
    const int one[3] = {1, 1, 1}; start(one, one, one, one, 0, 0, 0);
    std::array<int, D> n; std::array<PetscBool, D> pe; for (int i = 0; i < D; ++i) { n[i] = nn[i]; pe[i] = per[i] ? PETSC_TRUE : PETSC_FALSE; }
    DM dm = 0; int e = fem::createLaplacianMesh<D>(dm, n, pe);
    if (e || !dm) return e ? e : -1;
    show(dm, v); return 0;
}
extern "C" int lxu(int per, int n, int const *lx, int *o) { int *r = fem::set_lxu(per != 0, n, lx); for (int i = 0; i < n; ++i) o[i] = r[i]; return 0; }
template<int D> static void bounds(int const *g, int rm, int *o, int *ot)
{
    _p_DM m; vc_dm<D>(m, g); DM d = &m;
    auto b = fem::get_DM_bounds<D>(d, rm != 0); auto gb = fem::get_global_bounds<D>(d); auto t = fem::get_boundary_type<D>(d);
    auto b1 = fem::get_DM_bounds<D>(d);
    for (int i = 0; i < D; ++i) { o[4 * i] = b.bottom_left[i]; o[4 * i + 1] = b.upper_right[i]; o[4 * i + 2] = gb[i]; o[4 * i + 3] = t[i] == DM_BOUNDARY_PERIODIC ? 1 : 0; ot[2 * i] = b1.bottom_left[i]; ot[2 * i + 1] = b1.upper_right[i]; }
    ot[2 * D] = fem::get_dof(d);
}
template<int D, int k> static void boundsc(int const *g0, int const *g1, int const *g2, int rm, int *o)
{
    _p_DM a, b, c, m; vc_dm<D>(a, g0); vc_dm<D>(b, g1); vc_dm<D>(c, g2); m.composite = 1; m.ndm = 3; m.sub[0] = &a; m.sub[1] = &b; m.sub[2] = &c; DM d = &m;
    auto r = fem::get_DM_bounds<D>(d, k, rm != 0);
    for (int i = 0; i < D; ++i) { o[2 * i] = r.bottom_left[i]; o[2 * i + 1] = r.upper_right[i]; }
}
template<int D, int N> static int sizes(int const *g, int *o)
{
    _p_DM a[4], m; m.composite = 1; m.ndm = N; for (int k = 0; k < (N ? N : 1); ++k) { vc_dm<D>(a[k], g + k * (1 + 6 * D)); m.sub[k] = &a[k]; }
    DM d = N ? &m : &a[0]; int l = -7, t = -7;
    int e = fem::get_DM_sizes(d, l, t); o[0] = l; o[1] = t; return e;
}
#define ALL(D)                                                                                                                    \
    extern "C" int mesh_##D(int const *nn, int const *per, int const *np, int const *l0, int const *l1, int const *l2, int *v, int *p, int *u0, int *u1, int *u2) { return mesh<D>(nn, per, np, l0, l1, l2, v, p, u0, u1, u2); } \
    extern "C" int lap_##D(int const *nn, int const *per, int *v) { return lap<D>(nn, per, v); }                                    \
    extern "C" void bounds_##D(int const *g, int rm, int *o, int *ot) { bounds<D>(g, rm, o, ot); }                                   \
    extern "C" void boundsc0_##D(int const *g0, int const *g1, int const *g2, int rm, int *o) { boundsc<D, 0>(g0, g1, g2, rm, o); } \
    extern "C" void boundsc1_##D(int const *g0, int const *g1, int const *g2, int rm, int *o) { boundsc<D, 1>(g0, g1, g2, rm, o); } \
    extern "C" void boundsc2_##D(int const *g0, int const *g1, int const *g2, int rm, int *o) { boundsc<D, 2>(g0, g1, g2, rm, o); } \
    extern "C" int sizes0_##D(int const *g, int *o) { return sizes<D, 0>(g, o); }                                                    \
    extern "C" int sizes1_##D(int const *g, int *o) { return sizes<D, 1>(g, o); }                                                    \
    extern "C" int sizes2_##D(int const *g, int *o) { return sizes<D, 2>(g, o); }                                                    \
    extern "C" int sizes3_##D(int const *g, int *o) { return sizes<D, 3>(g, o); }                                                    \
    extern "C" int sizes4_##D(int const *g, int *o) { return sizes<D, 4>(g, o); }
ALL(2)
ALL(3)
