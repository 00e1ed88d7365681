// C19: rigid-body motion
#include <petsc.h>
#include "mpi.hpp"
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using CT = typename std::conditional<D == 2, double, VD<3>>::type;
template<std::size_t D> struct Ctx
{ std::vector<std::vector<VD<D>>> const &radial_vec; std::vector<int> const &nb_surf_points; std::vector<vc_part<D>> &particles; };
// n particles; particle i has sz[i] points
template<std::size_t D> static int rigid(int n, int const *sz, double const *v, double const *w, void *r, void *g)
{
    const double z[4] = {0, 0, 0, 0};
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) ps.push_back(vc_mkpart<D>(i, z, z, v + D * i, w + (D == 2 ? 1 : 3) * i, z, 1.));
    vc_jag<VD<D>> R(r, sz, n), G(g, sz, n);
    return problem::interp_rigid_motion_(ps, R.v, G.v);
}
template<std::size_t D> static int layer(int n, int const *sz, int const *nb, double const *cd, void *r, void *g, double const *om, double const *oc, double *mean, double *cr, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) { const double q[4] = {cd[i], 0, 0, 0}; ps.push_back(vc_mkpart<D>(i, z, q, z, z, z, 1.)); }
    vc_jag<VD<D>> R(r, sz, n), G(g, sz, n);
    std::vector<int> N = vc_in<int>(nb, n);
    Ctx<D> c{R.v, N, ps};
    std::vector<VD<D>> m(n); std::vector<CT<D>> x(n);
    vc_others(om, oc); vc_at(m.data(), x.data());
    int e = problem::simple_layer(c, G.v, m, x);
    auto pm = (double const *)m.data(); for (int i = 0; i < int(D) * n; ++i) mean[i] = pm[i];
    auto px = (double const *)x.data(); for (int i = 0; i < C * n; ++i) cr[i] = px[i];
    bad[0] = MP.bad; bad[1] = MP.k;
    return e;
}
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
typedef int (*pred)(double const *);
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
template<std::size_t D> static void proj(int n, int const *b, int const *pb, int const *num, int scale, double const *h, double const *ce, pred in, AR<D> u, double *mean, double *cr)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    vc_inside = in; vc_boxes = pb;
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) ps.push_back(vc_mkpart<D>(i, ce + D * i, z, z, z, z, 1.));
    std::vector<int> N = vc_in<int>(num, n);
    vc_vec<D> sol(nullptr, D, u, u);
    std::vector<VD<D>> m = vc_in<VD<D>>((VD<D> const *)mean, n); std::vector<CT<D>> x = vc_in<CT<D>>((CT<D> const *)cr, n);   // whatever they held before
    problem::projection_impl(ps, sol.v, vc_box<int, D>(b), m, x, N, scale, H<D>(h));
    auto pm = (double const *)m.data(); for (int i = 0; i < int(D) * n; ++i) mean[i] = pm[i];
    auto px = (double const *)x.data(); for (int i = 0; i < C * n; ++i) cr[i] = px[i];
}
#define ALL(D)                                                                                                                    \
    extern "C" int rigid_##D(int n, int const *sz, double const *v, double const *w, void *r, void *g) { return rigid<D>(n, sz, v, w, r, g); } \
    extern "C" int layer_##D(int n, int const *sz, int const *nb, double const *cd, void *r, void *g, double const *om, double const *oc, double *mean, double *cr, int *bad) { return layer<D>(n, sz, nb, cd, r, g, om, oc, mean, cr, bad); } \
    extern "C" void proj_##D(int n, int const *b, int const *pb, int const *num, int scale, double const *h, double const *ce, pred in, AR<D> u, double *mean, double *cr) { proj<D>(n, b, pb, num, scale, h, ce, in, u, mean, cr); }
ALL(2)
ALL(3)
