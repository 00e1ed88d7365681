// C18: forces and torques.  The list of nodes of each particle (contract of find_fluid_points_insides, C17) is arbitrary.
#include <petsc.h>
#include "mpi.hpp"
#include "petsc_stub.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using CT = typename std::conditional<D == 2, double, VD<3>>::type;
template<std::size_t D> using PI = geometry::position<int, D>;
static void *vc_lists; static int vc_wrong;            // table of vectors of nodes; calls with other arguments than expected
static int const *vc_want; static double const *vc_h;  // the box of this process, the spacing
static double const *vc_sing; static int vc_sing_n;     // forces of the singular fields
template<std::size_t D> static std::vector<PI<D>> nodes(vc_part<D> const &p, geometry::box<int, D> const &b, std::array<double, D> const &h)
{
    int i = p.surface();
    for (std::size_t d = 0; d < D; ++d)
    {
        int lo = vc_want[d], hi = vc_want[D + d], pl = vc_boxes[2 * D * i + d], ph = vc_boxes[2 * D * i + D + d];
        if (b.bottom_left[d] != (lo < pl ? pl : lo) || b.upper_right[d] != (ph < hi ? ph : hi) || h[d] != vc_h[d]) ++vc_wrong;
    }
    auto const &v = (*(std::vector<std::vector<PI<D>>> *)vc_lists)[i];
    return vc_in<PI<D>>(v.data(), v.size());
}
namespace cafes
{
template<> auto find_fluid_points_insides(vc_part<2> const &p, geometry::box<int, 2> const &b, std::array<double, 2> const &h) { return nodes<2>(p, b, h); }
template<> auto find_fluid_points_insides(vc_part<3> const &p, geometry::box<int, 3> const &b, std::array<double, 3> const &h) { return nodes<3>(p, b, h); }
namespace singularity
{
template<std::size_t D> static PetscErrorCode given(std::vector<vc_part<D>> const &p, std::vector<physics::force<D>> &f, std::array<double, D> const &h)
{
    for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d]) ++vc_wrong;
    if (f.size() != p.size() || (int)p.size() != vc_sing_n) ++vc_wrong;
    for (std::size_t i = 0; i < f.size(); ++i) for (std::size_t d = 0; d < D; ++d) f[i][d] = vc_sing[D * i + d];
    return PETSC_SUCCESS;
}
template<> PetscErrorCode compute_singular_forces<2, vc_shape<2>>(std::vector<vc_part<2>> const &p, std::vector<physics::force<2>> &f, std::array<double, 2> const &h, std::size_t) { return given<2>(p, f, h); }
template<> PetscErrorCode compute_singular_forces<3, vc_shape<3>>(std::vector<vc_part<3>> const &p, std::vector<physics::force<3>> &f, std::array<double, 3> const &h, std::size_t) { return given<3>(p, f, h); }
}
}
struct _p_Vec { double const *a; };
extern "C" PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { *a = v->a; return PETSC_SUCCESS; }
extern "C" PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **) { return PETSC_SUCCESS; }
template<std::size_t D> static int forces(int n, int const *b, int const *pb, int const *sz, void *pts, double const *control, double const *h, double const *ce, double const *vol, int const *num, int sing, double const *sf, double const *of, double const *ot, double *force, double *torque, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    vc_boxes = pb; vc_want = b; vc_h = h; vc_wrong = 0; vc_sing = sf; vc_sing_n = n;
    vc_jag<PI<D>> J(pts, sz, n); vc_lists = &J.v;
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) { const double q[4] = {0, 0, vol[i], 0}; ps.push_back(vc_mkpart<D>(i, ce + D * i, q, z, z, z, 1.)); }
    std::vector<int> N = vc_in<int>(num, n);
    _p_Vec c = {control};
    std::array<double, D> H; for (std::size_t d = 0; d < D; ++d) H[d] = h[d];
    std::vector<VD<D>> f(n); std::vector<CT<D>> t(n);
    vc_others(of, ot); vc_at(f.data(), t.data());
    int e = forces_torques_with_control(ps, &c, vc_box<int, D>(b), f, t, N, H, sing != 0);
    auto pf = (double const *)f.data(); for (int i = 0; i < int(D) * n; ++i) force[i] = pf[i];
    auto pt = (double const *)t.data(); for (int i = 0; i < C * n; ++i) torque[i] = pt[i];
    bad[0] = MP.bad; bad[1] = MP.k; bad[2] = vc_wrong;
    return e;
}
#define ALL(D) extern "C" int forces_##D(int n, int const *b, int const *pb, int const *sz, void *pts, double const *control, double const *h, double const *ce, double const *vol, int const *num, int sing, double const *sf, double const *of, double const *ot, double *force, double *torque, int *bad) { return forces<D>(n, b, pb, sz, pts, control, h, ce, vol, num, sing, sf, of, ot, force, torque, bad); }
ALL(2)
ALL(3)
