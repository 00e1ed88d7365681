// C29: between the control of the particles and the fluid nodes.  The list of nodes of each particle (contract of
// find_fluid_points_insides, C17) is arbitrary, without repetition.
#include <petsc.h>
#include "mpi.hpp"
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
template<std::size_t D> using VD = geometry::vector<double, D>;
template<std::size_t D> using CT = typename std::conditional<D == 2, double, VD<3>>::type;
template<std::size_t D> using PI = geometry::position<int, D>;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
static void *vc_lists; static int vc_wrong;            // table of vectors of nodes; calls with other arguments than expected
static int const *vc_want; static double const *vc_h;  // the velocity mesh of this process (its last nodes in a direction that is not periodic are left out), the spacing
template<std::size_t D> static std::vector<PI<D>> nodes(vc_part<D> const &p, geometry::box<int, D> const &b, std::array<double, D> const &h)
{
    int i = p.surface();
    for (std::size_t d = 0; d < D; ++d)
    {
        int const *m = vc_want + 1 + 6 * d; int lo = m[0], hi = m[0] + m[1] - (m[0] + m[1] == m[2] && !m[5] ? 1 : 0), pl = vc_boxes[2 * D * i + d], ph = vc_boxes[2 * D * i + D + d];
        if (b.bottom_left[d] != (lo < pl ? pl : lo) || b.upper_right[d] != (ph < hi ? ph : hi) || h[d] != vc_h[d]) ++vc_wrong;
    }
    auto const &v = (*(std::vector<std::vector<PI<D>>> *)vc_lists)[i];
    return vc_in<PI<D>>(v.data(), v.size());
}
namespace cafes
{
template<> auto find_fluid_points_insides(vc_part<2> const &p, geometry::box<int, 2> const &b, std::array<double, 2> const &h) { return nodes<2>(p, b, h); }
template<> auto find_fluid_points_insides(vc_part<3> const &p, geometry::box<int, 3> const &b, std::array<double, 3> const &h) { return nodes<3>(p, b, h); }
}
static _p_Vec VX; static double *vc_px;
extern "C" {
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { if (v != &VX) ++vc_wrong; *a = vc_px; return PETSC_SUCCESS; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **) { return PETSC_SUCCESS; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **a) { if (v != &VX) ++vc_wrong; *a = vc_px; return PETSC_SUCCESS; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **) { return PETSC_SUCCESS; }
}
template<std::size_t D> struct Inner { DM dm; std::array<double, D> h; };
template<std::size_t D> struct Prob { Inner<D> *ctx; Vec sol, rhs; };
template<std::size_t D> struct Ctx { Prob<D> &problem; std::vector<vc_part<D>> &particles; };
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
// what: 0 the control to the mesh, 1 the field less its rigid motion to the control, 2 the field to the control
template<int D> static int run(int what, int const *g, int const *gv, int n, int const *pb, int const *sz, void *pts, double *x, double const *h, double const *ce, double const *ci, double const *rho, double const *f, int forces, double const *me, double const *cr, AR<D> u, AR<D> v0, AR<D> v1, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; const int C = D == 2 ? 1 : 3;
    _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, (AR<D>)0, (AR<D>)0); vc_composite(c, a, b);
    _p_Vec u1{(void *)u, &a, {0, 0}}, u2{(void *)0, &b, {0, 0}}, U{0, &c, {&u1, &u2}};
    vc_boxes = pb; vc_want = gv; vc_h = h; vc_wrong = 0; vc_px = x;
    vc_jag<PI<D>> J(pts, sz, n); vc_lists = &J.v;
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) { const double q[4] = {0, ci[i], 0, 0}; ps.push_back(vc_mkpart<D>(i, ce + D * i, q, z, z, f + D * i, rho[i])); }
    Inner<D> in{&c, H<D>(h)}; Prob<D> p{&in, &U, &U}; Ctx<D> ctx{p, ps};
    int e;
    if (what == 0) { petsc::petsc_vec<D> pu(&c, &U, 0, false); e = problem::set_rhs_problem_impl<D>(ctx, &VX, pu, forces != 0); }
    else if (what == 1)
    {
        std::vector<VD<D>> m = vc_in<VD<D>>(me, n); std::vector<CT<D>> k = vc_in<CT<D>>(cr, n);
        e = problem::compute_y<D>(ctx, &VX, m, k);
    }
    else e = problem::compute_y<D>(ctx, &VX);
    bad[0] = vc_wrong; bad[1] = vc_misuse;
    return e;
}
#define ARGS(D) int const *g, int const *gv, int n, int const *pb, int const *sz, void *pts, double const *h, double const *ce, AR<D> u, AR<D> v0, AR<D> v1, int *bad
#define ALL(D)                                                                                                                    \
    extern "C" int control_##D(ARGS(D), double *x, double const *rho, double const *f, int forces) { std::vector<double> z; z.resize(3 * n); return run<D>(0, g, gv, n, pb, sz, pts, x, h, ce, rho, rho, f, forces, z.data(), z.data(), u, v0, v1, bad); } \
    extern "C" int y_rigid_##D(ARGS(D), double *x, double const *ci, double const *me, double const *cr) { std::vector<double> z; z.resize(3 * n); return run<D>(1, g, gv, n, pb, sz, pts, x, h, ce, ci, ci, z.data(), 0, me, cr, u, v0, v1, bad); } \
    extern "C" int y_##D(ARGS(D), double *x) { std::vector<double> z; z.resize(3 * n); return run<D>(2, g, gv, n, pb, sz, pts, x, h, ce, z.data(), z.data(), z.data(), 0, z.data(), z.data(), u, v0, v1, bad); }
ALL(2)
ALL(3)
