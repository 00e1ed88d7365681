// C19: the means of a projected field over all processes.  The sums of this process (contract of projection_impl) are arbitrary.
#include <petsc.h>
#include "mpi.hpp"
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using CT = typename std::conditional<D == 2, double, VD<3>>::type;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
// what projection_impl is called with: one call, whose box is kept, the field it sees copied to vc_seen
static int vc_calls, vc_wrong, vc_scale; static int *vc_b; static double const *vc_h, *vc_lm, *vc_lc; static void *vc_seen; static void const *vc_num, *vc_ps;
template<std::size_t D> static PetscErrorCode given(std::vector<vc_part<D>> const &p, petsc::petsc_vec<D> &sol, geometry::box<int, D> const &box, std::vector<VD<D>> &m, std::vector<CT<D>> &x, std::vector<int> const &num, std::size_t scale, std::array<double, D> const &h)
{
    const int C = D == 2 ? 1 : 3;
    ++vc_calls;
    for (std::size_t d = 0; d < D; ++d) { vc_b[d] = box.bottom_left[d]; vc_b[D + d] = box.upper_right[d]; if (h[d] != vc_h[d]) ++vc_wrong; }
    if ((int)scale != vc_scale || (void const *)num.data() != vc_num || (void const *)p.data() != vc_ps) ++vc_wrong;
    _p_Vec see{vc_seen, sol.v_->dm, {0, 0}}; vc_send(sol.v_, &see, 0);
    auto pm = (double *)m.data(); for (std::size_t i = 0; i < D * p.size(); ++i) pm[i] = vc_lm[i];
    auto px = (double *)x.data(); for (std::size_t i = 0; i < C * p.size(); ++i) px[i] = vc_lc[i];
    return PETSC_SUCCESS;
}
namespace cafes { namespace problem {
#define SPEC(D) template<> PetscErrorCode projection_impl<vc_shape<D>, std::vector<CT<D>>, D>(std::vector<vc_part<D>> const &p, petsc::petsc_vec<D> &s, geometry::box<int, D> const &b, std::vector<VD<D>> &m, std::vector<CT<D>> &x, std::vector<int> const &n, std::size_t sc, std::array<double, D> const &h) { return given<D>(p, s, b, m, x, n, sc, h); }
SPEC(2)
SPEC(3)
} }
template<std::size_t D> struct PInner { DM dm; std::array<double, D> h; };
template<std::size_t D> struct PProb { PInner<D> *ctx; Vec sol, rhs; };
template<std::size_t D> struct PCtx { PProb<D> &problem; std::vector<vc_part<D>> &particles; std::vector<int> const &num; std::size_t scale; };
template<int D> static int projall(int const *g, int const *gv, int n, int const *num, int scale, double const *h, double const *lm, double const *lc, AR<D> u, AR<D> v0, AR<D> v1, AR<D> seen, double const *om, double const *oc, double *mean, double *cr, int *b, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    vc_calls = vc_wrong = 0; vc_b = b; vc_h = h; vc_scale = scale; vc_lm = lm; vc_lc = lc; vc_seen = (void *)seen;
    _p_DM a, q, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, q, g, (AR<D>)0, (AR<D>)0); vc_composite(c, a, q);
    _p_Vec x1{(void *)u, &a, {0, 0}}, x2{(void *)0, &q, {0, 0}}, y{0, &c, {&x1, &x2}}, other{0, &c, {0, 0}};
    PInner<D> inner{&c, H<D>(h)}; PProb<D> p{&inner, &y, &other};
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) ps.push_back(vc_mkpart<D>(i, z, z, z, z, z, 1.));
    std::vector<int> N = vc_in<int>(num, n);
    PCtx<D> ctx{p, ps, N, (std::size_t)scale}; vc_num = N.data(); vc_ps = ps.data();
    std::vector<VD<D>> m = vc_in<VD<D>>((VD<D> const *)mean, n); std::vector<CT<D>> x = vc_in<CT<D>>((CT<D> const *)cr, n);
    vc_others(om, oc); vc_at(m.data(), x.data());
    int e = problem::projection<D>(ctx, m, x);
    auto pm = (double const *)m.data(); for (int i = 0; i < int(D) * n; ++i) mean[i] = pm[i];
    auto px = (double const *)x.data(); for (int i = 0; i < C * n; ++i) cr[i] = px[i];
    bad[0] = MP.bad; bad[1] = MP.k; bad[2] = vc_misuse; bad[3] = vc_calls; bad[4] = vc_wrong;
    return e;
}
#define ALL(D) extern "C" int projall_##D(int const *g, int const *gv, int n, int const *num, int scale, double const *h, double const *lm, double const *lc, AR<D> u, AR<D> v0, AR<D> v1, AR<D> seen, double const *om, double const *oc, double *mean, double *cr, int *b, int *bad) \
    { return projall<D>(g, gv, n, num, scale, h, lm, lc, u, v0, v1, seen, om, oc, mean, cr, b, bad); }
ALL(2)
ALL(3)
