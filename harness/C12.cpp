// C12: matrix-free kernels and operators
#include <petsc.h>
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include <cafes.hpp>
using namespace cafes;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
template<std::size_t D> static geometry::position<int, D> P(int const *p) { geometry::position<int, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = p[d]; return r; }
#define CELL(D, N, M)                                                                                                             \
    extern "C" void kdiag_##D(int dof, int const *p, double const *m, AR<D> x, AR<D> y)                                            \
    {                                                                                                                              \
        std::array<std::array<double, N>, N> e; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) e[i][j] = m[N * i + j];     \
        vc_vec<D> vx(nullptr, dof, x, x), vy(nullptr, dof, y, y);                                                                  \
        fem::kernel_diag_block(vx.v, vy.v, e)(P<D>(p));                                                                            \
    }                                                                                                                              \
    extern "C" void kdiagdiag_##D(int dof, int const *p, double const *m, AR<D> y)                                                 \
    {                                                                                                                              \
        std::array<std::array<double, N>, N> e; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) e[i][j] = m[N * i + j];     \
        vc_vec<D> vy(nullptr, dof, y, y);                                                                                          \
        fem::kernel_diag_diag_block(vy.v, e)(P<D>(p));                                                                             \
    }                                                                                                                              \
    extern "C" void ktens_##D(int const *p, double const *m, AR<D> x, AR<D> y)                                                     \
    {                                                                                                                              \
        std::array<std::array<std::array<std::array<double, D>, D>, N>, N> e;                                                      \
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) e[i][j][a][b] = m[((N * i + j) * D + a) * D + b]; \
        vc_vec<D> vx(nullptr, D, x, x), vy(nullptr, D, y, y);                                                                      \
        fem::kernel_tensor_block(vx.v, vy.v, e)(P<D>(p));                                                                          \
    }                                                                                                                              \
    extern "C" void koff_##D(int const *p, double const *m, AR<D> xv, AR<D> xp, AR<D> yv, AR<D> yp)                                \
    {                                                                                                                              \
        std::array<std::array<std::array<double, D>, M>, N> e;                                                                     \
        for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int a = 0; a < D; ++a) e[i][j][a] = m[(M * i + j) * D + a];    \
        vc_vec<D> v1(nullptr, D, xv, xv), v2(nullptr, 1, xp, xp), w1(nullptr, D, yv, yv), w2(nullptr, 1, yp, yp);                  \
        fem::kernel_off_diag_block(v1.v, v2.v, w1.v, w2.v, e)(P<D>(p));                                                            \
    }                                                                                                                              \
    extern "C" void lap_##D(int const *g, double const *h, AR<D> x, AR<D> y)                                                       \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vx(&dm, g[0], x, x), vy(&dm, g[0], y, y); fem::laplacian_mult<D>(vx.v, vy.v, H<D>(h)); }  \
    extern "C" void mass_##D(int const *g, double const *h, AR<D> x, AR<D> y)                                                      \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vx(&dm, g[0], x, x), vy(&dm, g[0], y, y); fem::mass_mult<D>(vx.v, vy.v, H<D>(h)); }       \
    extern "C" void dlap_##D(int const *g, double const *h, AR<D> y)                                                               \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vy(&dm, g[0], y, y); fem::diag_laplacian_mult<D>(vy.v, H<D>(h)); }                       \
    extern "C" void dmass_##D(int const *g, double const *h, AR<D> y)                                                              \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vy(&dm, g[0], y, y); fem::diag_mass_mult<D>(vy.v, H<D>(h)); }                            \
    extern "C" void strain_##D(int const *g, double const *h, AR<D> x, AR<D> y)                                                    \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vx(&dm, D, x, x), vy(&dm, D, y, y); fem::strain_tensor_mult<D>(vx.v, vy.v, H<D>(h)); }    \
    extern "C" void bbt_##D(int const *g, double const *h, AR<D> xv, AR<D> xp, AR<D> yv, AR<D> yp)                                 \
    {                                                                                                                              \
        _p_DM dm; vc_dm<D>(dm, g);                                                                                                 \
        vc_vec<D> v1(nullptr, D, xv, xv), v2(&dm, 1, xp, xp), w1(nullptr, D, yv, yv), w2(&dm, 1, yp, yp);                          \
        fem::B_and_BT_mult<D>(v1.v, v2.v, w1.v, w2.v, H<D>(h));                                                                    \
    }
CELL(2, 4, 9)
CELL(3, 8, 27)
// ---- operators as PETSc calls them: on global vectors, through a shell matrix
template<int D> using Fn = PetscErrorCode (*)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &);
template<std::size_t D> static fem::dirichlet_conditions<D> BC(condition_fn const *f)
{
    fem::dirichlet_conditions<D> bc{};
    for (std::size_t i = 0; i < 2 * D; ++i) for (std::size_t d = 0; d < D; ++d) bc.conditions_[i][d] = f[D * i + d];
    return bc;
}
template<int D> static int shell1(int const *g, double const *h, int setbc, condition_fn const *bc, AR<D> x, AR<D> y, AR<D> l0, AR<D> l1, int *mis)
{
    using C = problem::context<D>;
    _p_DM a; vc_mesh<D>(0, a, g, l0, l1); vc_pools[1].dm = 0; _p_Vec vx{(void *)x, &a, {0, 0}}, vy{(void *)y, &a, {0, 0}};
    C c{&a, H<D>(h), fem::mass_mult<D>}; c.set_dirichlet_bc(BC<D>(bc)); c.set_bc_ = c.set_bc_ && setbc;
    Mat A = fem::make_matrix<C>(&c); int e = MatMult(A, &vx, &vy); mis[0] = vc_misuse; mis[1] = A->n; mis[2] = A->N; mis[3] = A->diag == 0; return e;
}
template<int D> static int shelld(int const *g, double const *h, AR<D> y, AR<D> l0, AR<D> l1, int *mis)
{
    using C = problem::context<D>;
    _p_DM a; vc_mesh<D>(0, a, g, l0, l1); vc_pools[1].dm = 0; _p_Vec vy{(void *)y, &a, {0, 0}};
    C c{&a, H<D>(h), fem::mass_mult<D>, fem::diag_mass_mult<D>};
    Mat A = fem::make_matrix<C>(&c); int e = MatGetDiagonal(A, &vy); mis[0] = vc_misuse; return e;
}
// any operator: y += w x with an arbitrary field w times the first spacing
template<int D> struct anyop { static AR<D> w; static PetscErrorCode apply(petsc::petsc_vec<D> &x, petsc::petsc_vec<D> &y, std::array<double, D> const &h); };
template<int D> AR<D> anyop<D>::w = 0;
template<> PetscErrorCode anyop<2>::apply(petsc::petsc_vec<2> &x, petsc::petsc_vec<2> &y, std::array<double, 2> const &h)
{ auto a = x.pv_, w_ = w; vc_each2(y.dm_, y.pv_, [=](double &r, int j, int i, int d) { r += h[0] * w_[j][i][d] * a[j][i][d]; }); return PETSC_SUCCESS; }
template<> PetscErrorCode anyop<3>::apply(petsc::petsc_vec<3> &x, petsc::petsc_vec<3> &y, std::array<double, 3> const &h)
{ auto a = x.pv_, w_ = w; vc_each3(y.dm_, y.pv_, [=](double &r, int k, int j, int i, int d) { r += h[0] * w_[k][j][i][d] * a[k][j][i][d]; }); return PETSC_SUCCESS; }
template<int D> static int shellst(int const *g, int const *gv, double const *h, int setbc, condition_fn const *bc, AR<D> w, AR<D> xv, AR<D> xp, AR<D> yv, AR<D> yp, AR<D> v0, AR<D> v1, AR<D> p0, AR<D> p1, int *mis)
{
    using C = problem::context<D>;
    _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, p0, p1); vc_composite(c, a, b);
    _p_Vec x1{(void *)xv, &a, {0, 0}}, x2{(void *)xp, &b, {0, 0}}, y1{(void *)yv, &a, {0, 0}}, y2{(void *)yp, &b, {0, 0}}, x{0, &c, {&x1, &x2}}, y{0, &c, {&y1, &y2}};
    anyop<D>::w = w; C k{&c, H<D>(h), anyop<D>::apply}; k.set_dirichlet_bc(BC<D>(bc)); k.set_bc_ = k.set_bc_ && setbc;
    Mat A = fem::make_matrix<C>(&k, fem::stokes_matrix<C>); int e = MatMult(A, &x, &y); mis[0] = vc_misuse; return e;
}
template<int D> static int shelldd(int const *g, int const *gv, double const *h, AR<D> yv, AR<D> yp, AR<D> v0, AR<D> v1, AR<D> p0, AR<D> p1, int *mis)
{
    using C = problem::context<D, 2>;
    _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, p0, p1); vc_composite(c, a, b);
    _p_Vec y1{(void *)yv, &a, {0, 0}}, y2{(void *)yp, &b, {0, 0}}, y{0, &c, {&y1, &y2}};
    C k{&c, {{H<D>(h), H<D>(h + D)}}, fem::mass_mult<D>, fem::diag_mass_mult<D>};
    Mat A = fem::make_matrix<C>(&k); int e = MatGetDiagonal(A, &y); mis[0] = vc_misuse; return e;
}
#define SHELL(D)                                                                                                                  \
    extern "C" int mshell_##D(int const *g, double const *h, int setbc, condition_fn const *bc, AR<D> x, AR<D> y, AR<D> l0, AR<D> l1, int *mis) { return shell1<D>(g, h, setbc, bc, x, y, l0, l1, mis); } \
    extern "C" int mdiag_##D(int const *g, double const *h, AR<D> y, AR<D> l0, AR<D> l1, int *mis) { return shelld<D>(g, h, y, l0, l1, mis); } \
    extern "C" int mstokes_##D(int const *g, int const *gv, double const *h, int setbc, condition_fn const *bc, AR<D> w, AR<D> xv, AR<D> xp, AR<D> yv, AR<D> yp, AR<D> v0, AR<D> v1, AR<D> p0, AR<D> p1, int *mis) \
    { return shellst<D>(g, gv, h, setbc, bc, w, xv, xp, yv, yp, v0, v1, p0, p1, mis); }                                               \
    extern "C" int mdd_##D(int const *g, int const *gv, double const *h, AR<D> yv, AR<D> yp, AR<D> v0, AR<D> v1, AR<D> p0, AR<D> p1, int *mis) { return shelldd<D>(g, gv, h, yv, yp, v0, v1, p0, p1, mis); }
SHELL(2)
SHELL(3)
