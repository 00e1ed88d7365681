// Assumed contracts of PETSc vectors on (composite) DMDAs, as small C++ bodies.  Include after petsc_stub.hpp.
// A global vector is the ghosted table of its values: the owned nodes are the entries of this process, and
// sending ghosted contributions adds them (ADD_VALUES) to the table, the ones at nodes owned by others
// included; inserting local values (INSERT_VALUES) writes those of the owned nodes only; receiving copies the table.  Two local vectors per mesh, of unknown content, can be taken.
#pragma once
struct _p_Vec { void *a; DM dm; Vec sub[2]; };
struct vc_pool { DM dm; _p_Vec l[2]; int busy[2]; };
static vc_pool vc_pools[2];
static int vc_misuse;      // a local vector taken beyond the two, or a vector used on the wrong mesh
static inline int vc_pool_of(DM dm) { return dm == vc_pools[0].dm ? 0 : dm == vc_pools[1].dm ? 1 : (++vc_misuse, 0); }
template<class P, class F> static void vc_each2(DM dm, P a, F f)
{ auto &i = dm->info; for (int y = i.gys; y < i.gys + i.gym; ++y) for (int x = i.gxs; x < i.gxs + i.gxm; ++x) for (int d = 0; d < i.dof; ++d) f(a[y][x][d], y, x, d); }
template<class P, class F> static void vc_each3(DM dm, P a, F f)
{ auto &i = dm->info; for (int z = i.gzs; z < i.gzs + i.gzm; ++z) for (int y = i.gys; y < i.gys + i.gym; ++y) for (int x = i.gxs; x < i.gxs + i.gxm; ++x) for (int d = 0; d < i.dof; ++d) f(a[z][y][x][d], z, y, x, d); }
static inline void vc_set(Vec v, double s)
{
    if (v->dm->info.dim == 2) vc_each2(v->dm, (double ***)v->a, [=](double &r, int, int, int) { r = s; });
    else vc_each3(v->dm, (double ****)v->a, [=](double &r, int, int, int, int) { r = s; });
}
template<class P, class F> static void vc_own2(DM dm, P a, F f)
{ auto &i = dm->info; for (int y = i.ys; y < i.ys + i.ym; ++y) for (int x = i.xs; x < i.xs + i.xm; ++x) for (int d = 0; d < i.dof; ++d) f(a[y][x][d], y, x, d); }
template<class P, class F> static void vc_own3(DM dm, P a, F f)
{ auto &i = dm->info; for (int z = i.zs; z < i.zs + i.zm; ++z) for (int y = i.ys; y < i.ys + i.ym; ++y) for (int x = i.xs; x < i.xs + i.xm; ++x) for (int d = 0; d < i.dof; ++d) f(a[z][y][x][d], z, y, x, d); }
static inline void vc_set_own(Vec v, double s)
{
    if (v->dm->info.dim == 2) vc_own2(v->dm, (double ***)v->a, [=](double &r, int, int, int) { r = s; });
    else vc_own3(v->dm, (double ****)v->a, [=](double &r, int, int, int, int) { r = s; });
}
// with VC_GLOBAL_OWN, setting a global vector sets the entries of this process: those of the others are what the others did
#ifdef VC_GLOBAL_OWN
static inline void vc_setg(Vec v, double s) { auto &p = vc_pools[vc_pool_of(v->dm)]; if (v == &p.l[0] || v == &p.l[1]) vc_set(v, s); else vc_set_own(v, s); }
#else
static inline void vc_setg(Vec v, double s) { vc_set(v, s); }
#endif
static inline void vc_insert(Vec from, Vec to)
{
    if (from->dm != to->dm) { ++vc_misuse; return; }
    if (from->dm->info.dim == 2) { auto b = (double ***)from->a; vc_own2(from->dm, (double ***)to->a, [=](double &r, int y, int x, int d) { r = b[y][x][d]; }); }
    else { auto b = (double ****)from->a; vc_own3(from->dm, (double ****)to->a, [=](double &r, int z, int y, int x, int d) { r = b[z][y][x][d]; }); }
}
static inline void vc_send(Vec from, Vec to, int add)
{
    if (from->dm != to->dm) { ++vc_misuse; return; }
    if (from->dm->info.dim == 2)
    {
        auto b = (double ***)from->a;
        if (add) vc_each2(from->dm, (double ***)to->a, [=](double &r, int y, int x, int d) { r += b[y][x][d]; });
        else vc_each2(from->dm, (double ***)to->a, [=](double &r, int y, int x, int d) { r = b[y][x][d]; });
    }
    else
    {
        auto b = (double ****)from->a;
        if (add) vc_each3(from->dm, (double ****)to->a, [=](double &r, int z, int y, int x, int d) { r += b[z][y][x][d]; });
        else vc_each3(from->dm, (double ****)to->a, [=](double &r, int z, int y, int x, int d) { r = b[z][y][x][d]; });
    }
}
extern "C" {
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char[], PetscBool *b) { *b = ((DM)o)->composite ? PETSC_TRUE : PETSC_FALSE; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeGetAccessArray(DM, Vec v, PetscInt n, const PetscInt *e, Vec *o) { for (int i = 0; i < n; ++i) o[i] = v->sub[e[i]]; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeRestoreAccessArray(DM, Vec, PetscInt, const PetscInt *, Vec *) { return PETSC_SUCCESS; }
PetscErrorCode DMGetLocalVector(DM dm, Vec *v)
{ auto &p = vc_pools[vc_pool_of(dm)]; int k = p.busy[0] ? 1 : 0; if (p.busy[k]) ++vc_misuse; p.busy[k] = 1; *v = &p.l[k]; return PETSC_SUCCESS; }
PetscErrorCode DMRestoreLocalVector(DM dm, Vec *v) { auto &p = vc_pools[vc_pool_of(dm)]; p.busy[*v == &p.l[1]] = 0; return PETSC_SUCCESS; }
PetscErrorCode DMDAVecGetArrayDOF(DM, Vec v, void *a) { *(void **)a = v->a; return PETSC_SUCCESS; }
PetscErrorCode DMDAVecGetArrayDOFRead(DM, Vec v, void *a) { *(void **)a = v->a; return PETSC_SUCCESS; }
PetscErrorCode DMDAVecRestoreArrayDOF(DM, Vec, void *) { return PETSC_SUCCESS; }
PetscErrorCode DMDAVecRestoreArrayDOFRead(DM, Vec, void *) { return PETSC_SUCCESS; }
PetscErrorCode DMGlobalToLocalBegin(DM, Vec, InsertMode, Vec) { return PETSC_SUCCESS; }
PetscErrorCode DMGlobalToLocalEnd(DM, Vec g, InsertMode m, Vec l) { vc_send(g, l, m == ADD_VALUES); return PETSC_SUCCESS; }
PetscErrorCode DMLocalToGlobalBegin(DM, Vec, InsertMode, Vec) { return PETSC_SUCCESS; }
PetscErrorCode DMLocalToGlobalEnd(DM, Vec l, InsertMode m, Vec g) { if (m == ADD_VALUES) vc_send(l, g, 1); else vc_insert(l, g); return PETSC_SUCCESS; }
PetscErrorCode VecSet(Vec v, PetscScalar s) { if (v->a) vc_setg(v, s); else for (int i = 0; i < 2; ++i) if (v->sub[i] && v->sub[i]->a) vc_setg(v->sub[i], s); return PETSC_SUCCESS; }
}
// shell matrices: a context and the operations that are set
struct _p_Mat { void *ctx; void (*mult)(); void (*diag)(); int n, N; };
static _p_Mat vc_mats[6]; static int vc_nmat;
extern "C" {
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt n, PetscInt m, PetscInt N, PetscInt M, void *ctx, Mat *A)
{ Mat a = &vc_mats[vc_nmat++]; a->ctx = ctx; a->mult = 0; a->diag = 0; a->n = n == m ? n : -1; a->N = N == M ? N : -1; *A = a; return PETSC_SUCCESS; }
PetscErrorCode MatShellSetOperation(Mat A, MatOperation o, void (*f)()) { if (o == MATOP_MULT) A->mult = f; if (o == MATOP_GET_DIAGONAL) A->diag = f; return PETSC_SUCCESS; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx; return PETSC_SUCCESS; }
PetscErrorCode MatSetFromOptions(Mat) { return PETSC_SUCCESS; }
PetscErrorCode MatDestroy(Mat *A) { *A = 0; return PETSC_SUCCESS; }
PetscErrorCode MatMult(Mat A, Vec x, Vec y) { return ((PetscErrorCode(*)(Mat, Vec, Vec))A->mult)(A, x, y); }
PetscErrorCode MatGetDiagonal(Mat A, Vec x) { return ((PetscErrorCode(*)(Mat, Vec))A->diag)(A, x); }
}
// mesh g of dimension D with its two local vectors l0, l1
template<int D, class P> static void vc_mesh(int k, _p_DM &dm, int const *g, P l0, P l1)
{
    vc_dm<D>(dm, g); vc_pools[k].dm = &dm; vc_pools[k].busy[0] = vc_pools[k].busy[1] = 0;
    vc_pools[k].l[0] = {(void *)l0, &dm, {0, 0}}; vc_pools[k].l[1] = {(void *)l1, &dm, {0, 0}};
    vc_misuse = 0; vc_nmat = 0;
}
static inline void vc_composite(_p_DM &c, _p_DM &a, _p_DM &b) { c.composite = 1; c.ndm = 2; c.sub[0] = &a; c.sub[1] = &b; }
#undef PETSC_COMM_WORLD
#define PETSC_COMM_WORLD MPI_COMM_WORLD
