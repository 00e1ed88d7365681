// C31: the control problems as compositions of their parts.  A vector is two generic entries: one at a node of a particle, one at a node of the
// boundary.  What the parts do to them (contracts of C14, C16, C18-C20, C25, C29, C30, and the fluid solver) is arbitrary functions of the table vc_f.
#include <petsc.h>
#include "petsc_stub.hpp"
#undef PETSC_COMM_WORLD
#define PETSC_COMM_WORLD MPI_COMM_WORLD
struct _p_Vec { double a[2]; };
namespace cafes { namespace petsc {
template<std::size_t D> struct vc_thin { Vec v_global_; std::size_t entry_; bool ro_; vc_thin(DM, Vec v, std::size_t e, bool ro = true) : v_global_(v), entry_(e), ro_(ro) {} template<class I> double *at(I const &) { return v_global_->a; } };
template<> struct petsc_vec<2> : vc_thin<2> { static constexpr std::size_t dimensions = 2; using vc_thin<2>::vc_thin; };
template<> struct petsc_vec<3> : vc_thin<3> { static constexpr std::size_t dimensions = 3; using vc_thin<3>::vc_thin; };
} }
#include <fem/bc.hpp>
#include <fem/mesh.hpp>
#include <fem/matrixFree.hpp>
#include <particle/particle.hpp>
#include <particle/forces_torques.hpp>

typedef void (*vc_fn)(double const *, double *);
static vc_fn *vc_f; static int vc_wrong; static double const *vc_h; static int const *vc_b;
static const int N = 2, SZ = 3, NA = 24;                 // particles, of 1 and 2 surface points; arguments of the functions
static double vc_app(int k, int n, double const *x) { double a[NA], r; for (int i = 0; i < NA; ++i) a[i] = i < n ? x[i] : 0; vc_f[k](a, &r); return r; }
static _p_Vec *vc_pool; static int vc_busy[2];
enum { SOLVE = 0, SRC = 2, SING = 4, LAST = 6, CTRL = 8, MASS = 9, BC = 11, KRYLOV = 12, RHS = 14, Y = 16, SURF = 18 };
namespace cafes {
namespace fem {
template<std::size_t D> PetscErrorCode vc_dir(petsc::petsc_vec<D> &x, dirichlet_conditions<D> b, std::array<double, D> const &h)
{ for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d]) ++vc_wrong; if (x.entry_ != 0) ++vc_wrong; double z = 0; x.v_global_->a[1] = vc_app(BC, 0, &z); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_null(petsc::petsc_vec<D> &x, dirichlet_conditions<D> b) { if (x.entry_ != 0) ++vc_wrong; x.v_global_->a[1] = 0; return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_mass(DM, Vec x, Vec y, std::array<double, D> const &h)
{ for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d]) ++vc_wrong; double r[2]; for (int k = 0; k < 2; ++k) r[k] = vc_app(MASS + k, 2, x->a); y->a[0] = r[0]; y->a[1] = r[1]; return PETSC_SUCCESS; }
template<std::size_t D> geometry::box<int, D> vc_bounds(DM, std::size_t i)
{ if (i) ++vc_wrong; geometry::box<int, D> r; for (std::size_t d = 0; d < D; ++d) { r.bottom_left[d] = vc_b[d]; r.upper_right[d] = vc_b[D + d]; } return r; }
}
static int vc_size;
template<class P, class S, class R, class B, class U, class X, std::size_t D, class T>
std::size_t vc_materials(P &p, S &s, R &r, B &nb, U &num, X const &box, std::array<double, D> const &h, T const &dp, std::size_t)
{
    for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d] || box.bottom_left[d] != vc_b[d] || box.upper_right[d] != vc_b[D + d]) ++vc_wrong;
    s.resize(N); r.resize(N); nb.resize(N); num.resize(N);
    for (int i = 0; i < N; ++i) { s[i].resize(1 + i); r[i].resize(1 + i); nb[i] = 1 + i; num[i] = 1; }
    return vc_size;
}
namespace problem {
static Vec vc_ctrl; static bool vc_csing;
template<std::size_t D, class P, class F, class T> PetscErrorCode vc_forces(P const &, Vec c, geometry::box<int, D> const &b, F &, T &, std::vector<int> const &, std::array<double, D> const &h, bool s)
{ vc_ctrl = c; vc_csing = s; for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d] || b.bottom_left[d] != vc_b[d] || b.upper_right[d] != vc_b[D + d]) ++vc_wrong; return PETSC_SUCCESS; }
} }
#define SetDirichletOnRHS vc_dir
#define SetNullDirichletOnRHS vc_null
#define apply_mass_matrix vc_mass
#define get_DM_bounds vc_bounds
#define set_materials vc_materials
#define forces_torques_with_control vc_forces
namespace cafes { namespace problem { using fem::vc_dir; using fem::vc_null; } }
#include <problem/dton.hpp>
#include <problem/sem.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using CT = typename std::conditional<D == 2, double, VD<3>>::type;
template<std::size_t D> struct Inner { DM dm; std::array<double, D> h; fem::dirichlet_conditions<D> bc_{}; };
static int vc_nksp;
template<std::size_t D> struct Prob
{
    Inner<D> *ctx; Vec sol, rhs;
    PetscErrorCode setup_KSP() { ++vc_nksp; return PETSC_SUCCESS; }
    // the source is added, the boundary values are imposed
    PetscErrorCode setup_RHS() { double z = 0; rhs->a[0] += vc_app(SRC, 0, &z); rhs->a[1] = vc_app(BC, 0, &z); return PETSC_SUCCESS; }
    PetscErrorCode solve() { double r[2]; for (int k = 0; k < 2; ++k) r[k] = vc_app(SOLVE + k, 2, rhs->a); sol->a[0] = r[0]; sol->a[1] = r[1]; return PETSC_SUCCESS; }
};
template<std::size_t D> using Ctx = problem::particle_context<D, vc_shape<D>, Prob<D>>;
template<std::size_t D> using GG = std::vector<std::vector<VD<D>>>;
// the table of surface values in a row
template<std::size_t D> static int flat(GG<D> const &g, double *x)
{
    int n = 0; if (g.size() != N) ++vc_wrong;
    for (int i = 0; i < N; ++i) { if (g[i].size() != (std::size_t)(1 + i)) ++vc_wrong; for (int j = 0; j <= i; ++j) for (std::size_t d = 0; d < D; ++d) x[n++] = g[i][j][d]; }
    return n;
}
template<std::size_t D> static void surf(Ctx<D> &c, GG<D> &g, bool rm)
{
    double x[NA]; flat<D>(g, x); int n = 0;
    double a[3] = {c.problem.sol->a[0], c.problem.sol->a[1], rm ? 1. : 0.};
    for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) for (std::size_t d = 0; d < D; ++d) g[i][j][d] = vc_app(SURF + n++, 3, a);
}
template<std::size_t D> static void spread(Ctx<D> &c, GG<D> const &g)
{ double x[NA]; int n = flat<D>(g, x); c.problem.rhs->a[0] = vc_app(RHS, n, x); c.problem.rhs->a[1] = 0; }
template<std::size_t D> static int fl(std::vector<VD<D>> const &m, double *x) { if (m.size() != N) ++vc_wrong; int n = 0; for (int i = 0; i < N; ++i) for (std::size_t d = 0; d < D; ++d) x[n++] = m[i][d]; return n; }
static int fl1(std::vector<double> const &m, double *x) { if (m.size() != N) ++vc_wrong; for (int i = 0; i < N; ++i) x[i] = m[i]; return N; }
static int fl(std::vector<double> const &m, double *x) { return fl1(m, x); }
template<std::size_t D> static void put(std::vector<VD<D>> &m, int k, double const *x, int n) { int q = 0; for (int i = 0; i < N; ++i) for (std::size_t d = 0; d < D; ++d) m[i][d] += vc_app(k + q++, n, x); }
static void put(std::vector<double> &m, int k, double const *x, int n) { for (int i = 0; i < N; ++i) m[i] += vc_app(k + i, n, x); }
template<std::size_t D> struct K { static const int C = D == 2 ? 1 : 3, G = SURF + SZ * D, MEAN = G, CROSS = MEAN + N * D, SL = CROSS + N * C, PM = SL + SZ * D, PC = PM + N * D, END = PC + N * C; };
namespace cafes {
#define PARTS(D)                                                                                                                                                   \
    namespace singularity {                                                                                                                                         \
    template<> PetscErrorCode add_singularity_in_fluid<D, Ctx<D>>(Ctx<D> &c) { double z = 0; for (int k = 0; k < 2; ++k) c.problem.rhs->a[k] += vc_app(SING + k, 0, &z); return PETSC_SUCCESS; } \
    template<> PetscErrorCode add_singularity_to_last_sol<D, Ctx<D>>(Ctx<D> &, Vec v) { double z = 0; for (int k = 0; k < 2; ++k) v->a[k] += vc_app(LAST + k, 0, &z); return PETSC_SUCCESS; } \
    }                                                                                                                                                               \
    namespace problem {                                                                                                                                             \
    template<> PetscErrorCode set_rhs_problem_impl<D, Ctx<D>>(Ctx<D> &, Vec x, petsc::petsc_vec<D> &u, bool apply)                                                   \
    { if (u.ro_ || u.entry_) ++vc_wrong; double a[3] = {x->a[0], x->a[1], apply ? 1. : 0.}; u.v_global_->a[0] = vc_app(CTRL, 3, a); return PETSC_SUCCESS; }          \
    template<> PetscErrorCode interp_fluid_to_surf<D, Ctx<D>>(Ctx<D> &c, GG<D> &g, bool rm, bool) { surf<D>(c, g, rm); return PETSC_SUCCESS; }                        \
    template<> PetscErrorCode SL_to_Rhs<D, Ctx<D>>(Ctx<D> &c, GG<D> const &g) { spread<D>(c, g); return PETSC_SUCCESS; }                                             \
    template<> PetscErrorCode simple_layer<D, Ctx<D>, std::vector<CT<D>>>(Ctx<D> &, GG<D> &g, std::vector<VD<D>> &m, std::vector<CT<D>> &r)                          \
    { double x[NA], w[NA]; int n = flat<D>(g, x), q = 0; fl(r, w); fl(m, w); put(m, K<D>::MEAN, x, n); put(r, K<D>::CROSS, x, n); for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) for (int d = 0; d < D; ++d) g[i][j][d] = vc_app(K<D>::SL + q++, n, x); return PETSC_SUCCESS; } \
    template<> PetscErrorCode projection<D, Ctx<D>, std::vector<CT<D>>>(Ctx<D> &c, std::vector<VD<D>> &m, std::vector<CT<D>> &r)                                     \
    { double x[2] = {c.problem.sol->a[0], c.problem.sol->a[1]}; double w[NA]; fl(m, w); fl(r, w); for (auto &e : m) e.fill(0.); std::fill(r.begin(), r.end(), CT<D>{}); put(m, K<D>::PM, x, 2); put(r, K<D>::PC, x, 2); return PETSC_SUCCESS; } \
    template<> PetscErrorCode compute_y<D, Ctx<D>, std::vector<CT<D>>>(Ctx<D> &c, Vec y, std::vector<VD<D>> const &m, std::vector<CT<D>> const &r)                   \
    { double x[NA]; x[0] = c.problem.sol->a[0]; x[1] = c.problem.sol->a[1]; int n = 2 + fl(m, x + 2); n += fl(r, x + n); for (int k = 0; k < 2; ++k) y->a[k] = vc_app(Y + k, n, x); return PETSC_SUCCESS; } \
    template<> PetscErrorCode compute_y<D, Ctx<D>>(Ctx<D> &c, Vec y) { for (int k = 0; k < 2; ++k) y->a[k] = vc_app(Y + k, 2, c.problem.sol->a); return PETSC_SUCCESS; } \
    }
PARTS(2)
PARTS(3)
}
// shell matrices, the Krylov solver and whole vectors
struct _p_Mat { void *ctx; void (*mult)(); int n, m, N, M; };
static _p_Mat vc_mat; static _p_Vec vc_sol, vc_rhs, vc_x0; static int vc_dup; static _p_Vec vc_dups[3];
struct _p_KSP { Mat a, p; };
static _p_KSP vc_ksp; static double vc_yk[2]; static int vc_kn; static double vc_b2[2];
extern "C" {
PetscErrorCode VecSet(Vec v, PetscScalar s) { v->a[0] = v->a[1] = s; return PETSC_SUCCESS; }
PetscErrorCode VecZeroEntries(Vec v) { v->a[0] = v->a[1] = 0; return PETSC_SUCCESS; }
PetscErrorCode VecAXPBY(Vec y, PetscScalar a, PetscScalar b, Vec x) { for (int k = 0; k < 2; ++k) y->a[k] = a * x->a[k] + b * y->a[k]; return PETSC_SUCCESS; }
PetscErrorCode VecWAXPY(Vec w, PetscScalar a, Vec x, Vec y) { for (int k = 0; k < 2; ++k) w->a[k] = a * x->a[k] + y->a[k]; return PETSC_SUCCESS; }
PetscErrorCode VecCopy(Vec x, Vec y) { y->a[0] = x->a[0]; y->a[1] = x->a[1]; return PETSC_SUCCESS; }
PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x) { for (int k = 0; k < 2; ++k) y->a[k] += a * x->a[k]; return PETSC_SUCCESS; }
PetscErrorCode VecAYPX(Vec y, PetscScalar a, Vec x) { for (int k = 0; k < 2; ++k) y->a[k] = a * y->a[k] + x->a[k]; return PETSC_SUCCESS; }
PetscErrorCode VecScale(Vec x, PetscScalar a) { x->a[0] *= a; x->a[1] *= a; return PETSC_SUCCESS; }
PetscErrorCode VecDuplicate(Vec, Vec *y) { *y = &vc_dups[vc_dup++]; return PETSC_SUCCESS; }
PetscErrorCode DMGetGlobalVector(DM, Vec *v) { int k = vc_busy[0] ? 1 : 0; if (vc_busy[k]) ++vc_wrong; vc_busy[k] = 1; *v = vc_pool + k; return PETSC_SUCCESS; }
PetscErrorCode DMRestoreGlobalVector(DM, Vec *v) { vc_busy[*v == vc_pool + 1] = 0; *v = 0; return PETSC_SUCCESS; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt n, PetscInt m, PetscInt N, PetscInt M, void *c, Mat *A) { vc_mat = {c, 0, n, m, N, M}; *A = &vc_mat; return PETSC_SUCCESS; }
PetscErrorCode MatShellSetOperation(Mat A, MatOperation o, void (*f)()) { if (o == MATOP_MULT) A->mult = f; else ++vc_wrong; return PETSC_SUCCESS; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx; return PETSC_SUCCESS; }
PetscErrorCode MatCreateVecs(Mat, Vec *r, Vec *l) { *r = &vc_sol; *l = &vc_rhs; return PETSC_SUCCESS; }
PetscErrorCode MatMult(Mat A, Vec x, Vec y) { return ((PetscErrorCode(*)(Mat, Vec, Vec))A->mult)(A, x, y); }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { vc_ksp = {0, 0}; *k = &vc_ksp; return PETSC_SUCCESS; }
PetscErrorCode KSPSetOptionsPrefix(KSP, const char[]) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat p) { k->a = a; k->p = p; return PETSC_SUCCESS; }
PetscErrorCode KSPGetPC(KSP, PC *p) { *p = 0; return PETSC_SUCCESS; }
PetscErrorCode PCSetType(PC, PCType) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetFromOptions(KSP) { return PETSC_SUCCESS; }
// the solver applies the operator to a vector of its own (at least once, with the flags of that moment), and returns anything
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    ++vc_kn; if (!k->a || b != &vc_rhs || x != &vc_sol) { ++vc_wrong; return PETSC_SUCCESS; }
    _p_Vec y; int e = MatMult(k->a, &vc_x0, &y); vc_yk[0] = y.a[0]; vc_yk[1] = y.a[1]; double r[2];
    for (int i = 0; i < 2; ++i) r[i] = vc_app(KRYLOV + i, 2, b->a);
    x->a[0] = r[0]; x->a[1] = r[1]; return (PetscErrorCode)e;
}
}
// st: initial vectors: fluid solution, right-hand side, two work vectors, control, control right-hand side, argument of the operator
// what: 0 operator with the given flags, 1 right-hand side of the control problem, 2 solve, 3 (SEM) velocities after, 4 (SEM) forces
template<std::size_t D, class T> static int run(int what, double const *h, int const *b, int size, double const *st, int const *fl, vc_fn *f, double const *dp, double *o, int *bad)
{
    const double z[4] = {0, 0, 0, 0};
    vc_f = f; vc_h = h; vc_b = b; vc_size = size; vc_wrong = 0; vc_busy[0] = vc_busy[1] = 0; vc_dup = 0; vc_kn = 0; vc_nksp = 0; vc_yk[0] = vc_yk[1] = 0;
    _p_Vec S{{st[0], st[1]}}, R{{st[2], st[3]}}, P[2] = {{{st[4], st[5]}}, {{st[6], st[7]}}}; vc_pool = P;
    vc_sol = {{st[8], st[9]}}; vc_rhs = {{st[10], st[11]}}; vc_x0 = {{st[12], st[13]}};
    for (int i = 0; i < 3; ++i) vc_dups[i] = {{st[14 + 2 * i], st[15 + 2 * i]}};
    Inner<D> in; in.dm = 0; for (std::size_t d = 0; d < D; ++d) in.h[d] = h[d];
    Prob<D> p{&in, &S, &R};
    std::vector<vc_part<D>> ps; ps.reserve(N); for (int i = 0; i < N; ++i) ps.push_back(vc_mkpart<D>(i, z, z, st, st, z, 1.));
    T q = T::make(ps, p);
    auto &pb = *q.p;
    int e = pb.create_Mat_and_Vec(); e |= pb.setup_KSP();
    _p_Vec y{{0, 0}};
    q.prep(fl, what);
    if (what == 0) { e |= MatMult(pb.A, &vc_x0, &y); o[0] = y.a[0]; o[1] = y.a[1]; }
    else if (what == 1) { e |= pb.setup_RHS(); o[0] = pb.rhs->a[0]; o[1] = pb.rhs->a[1]; }
    else if (what == 2) { e |= pb.solve(); o[0] = S.a[0]; o[1] = S.a[1]; o[2] = pb.sol->a[0]; o[3] = pb.sol->a[1]; o[4] = vc_yk[0]; o[5] = vc_yk[1]; }
    else q.more(what, o);
    bad[0] = vc_wrong + vc_busy[0] + vc_busy[1]; bad[1] = vc_nksp; bad[2] = vc_kn; bad[3] = vc_mat.n; bad[4] = vc_mat.m; bad[5] = vc_ksp.a == &vc_mat && vc_ksp.p == &vc_mat;
    return e;
}
template<std::size_t D> using DP = typename std::conditional<D == 2, double, std::array<double, 2>>::type;
template<std::size_t D> struct dton
{
    using M = problem::DtoN<vc_shape<D>, D, Prob<D>>; M *p;
    static dton make(std::vector<vc_part<D>> &ps, Prob<D> &p) { return {new M{ps, p, DP<D>{}}}; }
    void prep(int const *fl, int what) { { p->ctx->compute_rhs = fl[0]; p->ctx->add_rigid_motion = fl[1]; p->ctx->compute_singularity = fl[2]; } p->use_sing = fl[3]; }
    void more(int, double *) {}
};
template<std::size_t D> struct sem
{
    using M = problem::SEM<vc_shape<D>, D, Prob<D>>; M *p;
    static sem make(std::vector<vc_part<D>> &ps, Prob<D> &p) { return {new M{ps, p, DP<D>{}}}; }
    void prep(int const *fl, int what) { p->ctx->compute_rhs = fl[0]; }
    void more(int what, double *o)
    {
        if (what == 3) { p->get_new_velocities(); int n = 0; for (int i = 0; i < N; ++i) for (std::size_t d = 0; d < D; ++d) o[n++] = p->parts_[i].velocity_[d]; }
        else { std::vector<VD<D>> F; std::vector<CT<D>> Q; problem::vc_ctrl = 0; p->get_new_forces_torques(F, Q); o[0] = problem::vc_ctrl == p->sol && !problem::vc_csing; }
    }
};
#define ONE(D) \
    extern "C" int dton_##D(int what, double const *h, int const *b, int size, double const *st, int const *fl, vc_fn *f, double *o, int *bad) { return run<D, dton<D>>(what, h, b, size, st, fl, f, h, o, bad); } \
    extern "C" int sem_##D(int what, double const *h, int const *b, int size, double const *st, int const *fl, vc_fn *f, double *o, int *bad) { return run<D, sem<D>>(what, h, b, size, st, fl, f, h, o, bad); }
ONE(2)
ONE(3)
