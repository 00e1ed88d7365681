// C25: spacings of the operators
#include <petsc.h>
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
// the options database: value k is given or not
static struct vc_db { int given[12]; int n[3]; double L[3]; int per[3]; int flag[3]; } DB;
static inline int vc_opt(const char *s)
{
    const char *t[12] = {"-mx", "-my", "-mz", "-Lx", "-Ly", "-Lz", "-xperiod", "-yperiod", "-zperiod", "-strain_tensor", "-assembling", "-PMM"};
    for (int k = 0; k < 12; ++k) { int i = 0; while (s[i] && s[i] == t[k][i]) ++i; if (!s[i] && !t[k][i]) return k; }
    return -1;
}
static inline PetscErrorCode vc_opt_int(const char *s, PetscInt cur, PetscInt *v) { int k = vc_opt(s); *v = k >= 0 && DB.given[k] ? DB.n[k] : cur; return PETSC_SUCCESS; }
static inline PetscErrorCode vc_opt_real(const char *s, double cur, double *v) { int k = vc_opt(s); *v = k >= 0 && DB.given[k] ? DB.L[k - 3] : cur; return PETSC_SUCCESS; }
static inline PetscErrorCode vc_opt_bool(const char *s, PetscBool cur, PetscBool *v)
{ int k = vc_opt(s); *v = k >= 0 && DB.given[k] ? ((k < 9 ? DB.per[k - 6] : DB.flag[k - 9]) ? PETSC_TRUE : PETSC_FALSE) : cur; return PETSC_SUCCESS; }
#undef PetscOptionsBegin
#undef PetscOptionsEnd
#undef PetscOptionsInt
#undef PetscOptionsReal
#undef PetscOptionsBool
#define PetscOptionsBegin(...) PETSC_SUCCESS
#define PetscOptionsEnd() PETSC_SUCCESS
#define PetscOptionsInt(s, t, m, c, v, f) vc_opt_int(s, c, v)
#define PetscOptionsReal(s, t, m, c, v, f) vc_opt_real(s, c, v)
#define PetscOptionsBool(s, t, m, c, v, f) vc_opt_bool(s, c, v)
// what the set-up of a problem does with its meshes and matrices: meshes are numbered 0 velocity, 1 pressure, 2 both
static struct vc_log { _p_DM dm[3]; _p_Vec v[2], part[2]; _p_Mat A, P, nest; int npre, nmesh, mesh[6], cnt[5][2], on[5][2], nestn[2], nul; double h[5][2][3]; } LG;
static inline int vc_dmid(DM d) { return d == &LG.dm[0] ? 0 : d == &LG.dm[1] ? 1 : d == &LG.dm[2] ? 2 : -1; }
extern "C" {
PetscErrorCode DMCreateGlobalVector(DM, Vec *v) { *v = &LG.v[0]; return PETSC_SUCCESS; }
PetscErrorCode VecDuplicate(Vec, Vec *v) { *v = &LG.v[1]; return PETSC_SUCCESS; }
PetscErrorCode DMSetMatType(DM, MatType) { return PETSC_SUCCESS; }
PetscErrorCode MatSetDM(Mat, DM) { return PETSC_SUCCESS; }
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { return PETSC_SUCCESS; }
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType) { return PETSC_SUCCESS; }
PetscErrorCode MatCreateNest(MPI_Comm, PetscInt n, const IS *, PetscInt m, const IS *, const Mat *a, Mat *P)
{ for (int i = 0; i < 2; ++i) LG.nestn[i] = a[2 * i + i] == &vc_mats[1] ? 1 : a[2 * i + i] == &vc_mats[2] ? 2 : 0; *P = &LG.nest; return PETSC_SUCCESS; }
}
#include <fem/mesh.hpp>
#include <fem/assembling.hpp>
#include <fem/matrixFree.hpp>
#include <problem/context.hpp>
#include <problem/options.hpp>
template<std::size_t D> static void vc_did(int op, DM d, Mat m, std::array<double, D> const &h)
{ int k = m == &LG.A ? 0 : 1; LG.cnt[op][k]++; LG.on[op][k] = vc_dmid(d); for (std::size_t i = 0; i < D; ++i) LG.h[op][k][i] = h[i]; }
// callees by their contracts (C11, C13, C15): what they are asked for is recorded
namespace cafes {
namespace fem {
template<int D> PetscErrorCode vc_createMesh(DM &dm, std::array<int, D> const &n, std::array<PetscBool, D> const &p)
{ for (int i = 0; i < D; ++i) { LG.mesh[i] = n[i]; LG.mesh[3 + i] = p[i] ? 1 : 0; } ++LG.nmesh; dm = &LG.dm[2]; return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_SetDirichletOnMat(Mat &, dirichlet_conditions<D>) { return PETSC_SUCCESS; }
}
template<class C, class O> PetscErrorCode vc_PreallocateMat(C *, O, const MatType, Mat *m, bool pre) { *m = pre ? &LG.P : &LG.A; ++LG.npre; return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_laplacian_assembling(DM &d, Mat &A, std::array<double, D> const &h) { vc_did<D>(0, d, A, h); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_strain_tensor_assembling(DM &d, Mat &A, std::array<double, D> const &h) { vc_did<D>(1, d, A, h); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_B_BT_assembling(DM &d, Mat &A, std::array<double, D> const &h) { vc_did<D>(2, d, A, h); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_mass_assembling(DM &d, Mat &A, std::array<double, D> const &h) { vc_did<D>(3, d, A, h); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_diagonal_assembling(DM &d, Mat &A, double s) { std::array<double, D> h{}; h[0] = s; vc_did<D>(4, d, A, h); return PETSC_SUCCESS; }
}
#define createMesh vc_createMesh
#define SetDirichletOnMat vc_SetDirichletOnMat
#define PreallocateMat vc_PreallocateMat
#define laplacian_assembling vc_laplacian_assembling
#define strain_tensor_assembling vc_strain_tensor_assembling
#define B_BT_assembling vc_B_BT_assembling
#define mass_assembling vc_mass_assembling
#define diagonal_assembling vc_diagonal_assembling
#include <cafes.hpp>
extern "C" {
PetscErrorCode DMGetGlobalVector(DM, Vec *v) { *v = &LG.v[1]; return PETSC_SUCCESS; }
PetscErrorCode VecNormalize(Vec, PetscReal *) { return PETSC_SUCCESS; }
MPI_Comm PetscObjectComm(PetscObject) { return MPI_COMM_WORLD; }
PetscErrorCode MatNullSpaceCreate(MPI_Comm, PetscBool, PetscInt, const Vec *, MatNullSpace *n) { *n = 0; return PETSC_SUCCESS; }
PetscErrorCode MatSetNullSpace(Mat, MatNullSpace) { return PETSC_SUCCESS; }
// a level of the multigrid: the solver asks for the matrix of its mesh
struct _p_KSP { DM dm; };
static struct vc_lev { int n, N, type, mult, diag; void *ctx; DM dm; } LV;
PetscErrorCode KSPGetDM(KSP k, DM *d) { *d = k->dm; return PETSC_SUCCESS; }
PetscErrorCode MatSetSizes(Mat, PetscInt m, PetscInt n, PetscInt M, PetscInt N) { LV.n = m == n ? m : -1; LV.N = M == N ? M : -1; return PETSC_SUCCESS; }
PetscErrorCode MatSetType(Mat, MatType) { ++LV.type; return PETSC_SUCCESS; }
PetscErrorCode MatShellSetContext(Mat, void *c) { LV.ctx = c; return PETSC_SUCCESS; }
}
using namespace cafes;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
// mesh, assembled: per operator and matrix (count, mesh) and spacing; shell: per shell matrix (mesh, operator) and spacing
template<int D> static void stokes(const int *given, const int *n, const double *L, const int *per, const int *flag, int *mesh, int *cnt, double *h, int *sh, double *shh, double *hu)
{
    using P = petsc::petsc_vec<D>; using A = std::array<double, D>; using F = PetscErrorCode (*)(P &, P &, A const &); using F1 = PetscErrorCode (*)(P &, A const &);
    LG = vc_log{}; LG.v[1].sub[0] = &LG.part[0]; LG.v[1].sub[1] = &LG.part[1]; int g[19] = {1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0};
    vc_mesh<D>(0, LG.dm[0], g, (double *)0, (double *)0); vc_mesh<D>(1, LG.dm[1], g, (double *)0, (double *)0); vc_composite(LG.dm[2], LG.dm[0], LG.dm[1]);
    for (int i = 0; i < 12; ++i) DB.given[i] = given[i];
    for (int i = 0; i < 3; ++i) { DB.n[i] = n[i]; DB.L[i] = L[i]; DB.per[i] = per[i]; DB.flag[i] = flag[i]; }
    fem::dirichlet_conditions<D> bc{}; fem::rhs_conditions<D> rc{};
    problem::stokes<D> s(bc, rc);
    for (int i = 0; i < 6; ++i) mesh[i] = LG.mesh[i];
    mesh[6] = LG.nmesh; mesh[7] = vc_nmat;
    for (int o = 0; o < 5; ++o) for (int k = 0; k < 2; ++k)
    { cnt[2 * (2 * o + k)] = LG.cnt[o][k]; cnt[2 * (2 * o + k) + 1] = LG.on[o][k]; for (int d = 0; d < D; ++d) h[(2 * o + k) * D + d] = LG.h[o][k][d]; }
    for (int i = 0; i < 3; ++i)
    {
        sh[4 * i] = sh[4 * i + 1] = sh[4 * i + 2] = sh[4 * i + 3] = -1;
        for (int d = 0; d < D; ++d) shh[i * D + d] = 0;
        if (i >= vc_nmat) continue;
        auto c = (problem::context<D> *)vc_mats[i].ctx;
        sh[4 * i] = vc_dmid(c->dm);
        F l = fem::laplacian_mult<D>, t = fem::strain_tensor_mult<D>, m = fem::mass_mult<D>; F1 dl = fem::diag_laplacian_mult<D>, dm = fem::diag_mass_mult<D>;
        sh[4 * i + 1] = c->apply == l ? 0 : c->apply == t ? 1 : c->apply == m ? 3 : -1;
        sh[4 * i + 2] = c->apply_diag == dl ? 0 : c->apply_diag == dm ? 3 : -1;
        sh[4 * i + 3] = c->set_bc_;
        for (int d = 0; d < D; ++d) shh[i * D + d] = c->h[d];
    }
    for (int d = 0; d < D; ++d) hu[d] = s.ctx->h[d];
}
// the operator of a level: context, sizes and spacing
template<int D> static int level(const int *g, const int *g0, int l, int l0, int op, int bc, const double *h, int *out, double *hl)
{
    using P = petsc::petsc_vec<D>; using A = std::array<double, D>; using F = PetscErrorCode (*)(P &, P &, A const &); using F1 = PetscErrorCode (*)(P &, A const &);
    using C = problem::context<D>;
    LV = vc_lev{}; _p_DM dm, dm0; vc_dm<D>(dm, g); vc_dm<D>(dm0, g0); dm.level = l; dm0.level = l0; _p_KSP k{&dm}; _p_Mat m{};
    F apply = op ? (F)fem::strain_tensor_mult<D> : (F)fem::laplacian_mult<D>; F1 dl = fem::diag_laplacian_mult<D>;
    auto c0 = new C{&dm0, H<D>(h), apply, dl}; fem::dirichlet_conditions<D> b{};
    auto f = [](const PetscReal *, PetscScalar *u) { *u = 0.; };
    for (int i = 0; i < 2 * D; ++i) for (int j = 0; j < D; ++j) b.conditions_[i][j] = (bc >> 1) == i * D + j ? 0 : (condition_fn)f;
    c0->set_dirichlet_bc(b);
    int e = problem::createLevelMatrices<C, D>(&k, &m, &m, c0);
    auto c = (C *)LV.ctx;
    out[0] = c->dm == &dm; out[1] = c->apply == apply; out[2] = c->apply_diag == dl; out[3] = c->set_bc_; out[4] = LV.n; out[5] = LV.N;
    out[6] = m.mult == (void (*)())(PetscErrorCode (*)(Mat, Vec, Vec))fem::diag_block_matrix<C>; out[7] = m.diag == (void (*)())(PetscErrorCode (*)(Mat, Vec))fem::diag_diag_block_matrix<C>;
    out[8] = 1; for (int i = 0; i < 2 * D; ++i) for (int j = 0; j < D; ++j) if (c->bc_.conditions_[i][j] != b.conditions_[i][j]) out[8] = 0;
    out[9] = c0->dm == &dm0; for (int d = 0; d < D; ++d) { hl[d] = c->h[d]; hl[D + d] = c0->h[d]; }
    return e;
}
#define SARGS const int *given, const int *n, const double *L, const int *per, const int *flag, int *mesh, int *cnt, double *h, int *sh, double *shh, double *hu
#define ALL(D)                                                                                                                    \
    extern "C" int amass_##D(int const *g, int const *gv, double const *h, AR<D> xv, AR<D> xp, AR<D> yv, AR<D> yp, AR<D> v0, AR<D> v1, AR<D> p0, AR<D> p1, int *mis) \
    {                                                                                                                             \
        _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, p0, p1); vc_composite(c, a, b);                           \
        _p_Vec x1{(void *)xv, &a, {0, 0}}, x2{(void *)xp, &b, {0, 0}}, y1{(void *)yv, &a, {0, 0}}, y2{(void *)yp, &b, {0, 0}}, x{0, &c, {&x1, &x2}}, y{0, &c, {&y1, &y2}}; \
        int e = fem::apply_mass_matrix<D>(&c, &x, &y, H<D>(h)); mis[0] = vc_misuse; return e;                                       \
    }                                                                                                                             \
    extern "C" int level_##D(const int *g, int l0, int l, const int *g0, int op, int bc, const double *h, int *out, double *hl) { return level<D>(g, g0, l, l0, op, bc, h, out, hl); } \
    extern "C" void stokes_##D(SARGS) { stokes<D>(given, n, L, per, flag, mesh, cnt, h, sh, shh, hu); }
ALL(2)
ALL(3)
