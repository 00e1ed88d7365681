// C20: between the grid and the surface points.  The boundary conditions (C14) and the imposed motion (C19) are recorded.
#include <petsc.h>
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <fem/bc.hpp>
static double *vc_rec; static int *vc_cnt;
namespace cafes { namespace fem {
// null Dirichlet conditions: on which vector they are imposed, and what is there
template<std::size_t D> PetscErrorCode vc_null_bc(petsc::petsc_vec<D> &x, dirichlet_conditions<D> b) { vc_cnt[0]++; vc_cnt[1] = x.v_global_ == (Vec)vc_rec; vc_cnt[2] = x.entry_; return PETSC_SUCCESS; }
} }
#define SetNullDirichletOnRHS vc_null_bc
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using SP = std::pair<geometry::position<int, D>, geometry::position<double, D>>;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> struct Inner { DM dm; std::array<double, D> h; fem::dirichlet_conditions<D> bc_; };
template<std::size_t D> struct Prob { Inner<D> *ctx; Vec sol, rhs; };
template<std::size_t D> struct Ctx
{ Prob<D> &problem; std::vector<vc_part<D>> &particles; std::vector<std::vector<SP<D>>> const &surf_points; std::vector<std::vector<VD<D>>> const &radial_vec; std::vector<int> const &nb_surf_points; };
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
template<int D> static int both(int back, int const *g, int const *gv, double const *h, int n, int const *sz, int const *nb, double const *area, double const *ve, double const *w, int rigid, void *sp, void *rv, void *gg, AR<D> xv, AR<D> v0, AR<D> v1, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, (AR<D>)0, (AR<D>)0); vc_composite(c, a, b);
    _p_Vec x1{(void *)xv, &a, {0, 0}}, x2{(void *)0, &b, {0, 0}}, x{0, &c, {&x1, &x2}};
    fem::dirichlet_conditions<D> bc{};
    Inner<D> in{&c, H<D>(h), bc}; Prob<D> p{&in, &x, &x};
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) { const double q[4] = {0, 0, 0, area[i]}; ps.push_back(vc_mkpart<D>(i, z, q, ve + D * i, w + C * i, z, 1.)); }
    vc_jag<SP<D>> S(sp, sz, n); vc_jag<VD<D>> R(rv, sz, n), G(gg, sz, n);
    std::vector<int> N = vc_in<int>(nb, n);
    Ctx<D> ctx{p, ps, S.v, R.v, N};
    vc_cnt = bad; bad[0] = bad[1] = bad[2] = 0; vc_rec = (double *)&x;
    int e = back ? problem::SL_to_Rhs<D>(ctx, G.v) : problem::interp_fluid_to_surf<D>(ctx, G.v, rigid != 0, false);
    bad[3] = vc_misuse;
    return e;
}
#define ALL(D)                                                                                                                    \
    extern "C" int surf_##D(int const *g, int const *gv, double const *h, int n, int const *sz, double const *ve, double const *w, int rigid, void *sp, void *rv, void *gg, AR<D> xv, AR<D> v0, AR<D> v1, int *bad) \
    { return both<D>(0, g, gv, h, n, sz, sz, ve, ve, w, rigid, sp, rv, gg, xv, v0, v1, bad); }                                       \
    extern "C" int spread_##D(int const *g, int const *gv, double const *h, int n, int const *sz, int const *nb, double const *area, void *sp, void *gg, AR<D> xv, AR<D> v0, AR<D> v1, int *bad) \
    { std::vector<double> zz; zz.resize(3 * n); return both<D>(1, g, gv, h, n, sz, nb, area, zz.data(), zz.data(), 0, sp, gg, gg, xv, v0, v1, bad); }
ALL(2)
ALL(3)
