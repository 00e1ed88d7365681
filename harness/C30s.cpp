// C30: quadrature of the singular source terms on the grid and on the surface points.  The singular fields in the global frame are arbitrary
// functions of the position, and so are the points the particles contain.
#include <petsc.h>
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
typedef void (*vc_fn)(double const *, double *);
static vc_fn *vc_field;
template<std::size_t D> static double vc_at(int k, geometry::position<double, D> const &p) { double x[D], r; for (std::size_t d = 0; d < D; ++d) x[d] = p[d]; vc_field[k](x, &r); return r; }
// fields: 0..D-1 local coordinates, then pressure, velocity, gradient
namespace cafes { namespace singularity {
template<std::size_t D> struct vc_sing
{
    using position_type = geometry::position<double, D>;
    double scale, cutoff_dist_;
    position_type get_pos_in_part_ref(position_type const &p) { position_type r; for (std::size_t d = 0; d < D; ++d) r[d] = vc_at<D>(d, p); return r; }
    double get_p_sing(position_type &p) { return vc_at<D>(D, p); }
    std::array<double, D> get_u_sing(position_type const &p) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = vc_at<D>(D + 1 + d, p); return r; }
    std::array<std::array<double, D>, D> get_grad_u_sing(position_type p) { std::array<std::array<double, D>, D> r; for (std::size_t d = 0; d < D; ++d) for (std::size_t e = 0; e < D; ++e) r[d][e] = vc_at<D>(2 * D + 1 + D * d + e, p); return r; }
};
template<> struct singularity<vc_shape<2>, 2> : vc_sing<2> {};
template<> struct singularity<vc_shape<3>, 3> : vc_sing<3> {};
} }
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<int D> static singularity::singularity<vc_shape<D>, D> contact(double N, double cut, vc_fn *f) { singularity::singularity<vc_shape<D>, D> s; s.scale = N; s.cutoff_dist_ = cut; vc_field = f; return s; }
template<int D> static int grid(int field, int const *g, int N, double cut, double const *h, int const *b, vc_fn *f, int (*inside)(double const *), AR<D> v0, AR<D> v1, int *bad)
{
    const double z[4] = {0, 0, 0, 0}; vc_inside = inside;
    _p_DM a; vc_mesh<D>(0, a, g, v0, v1); _p_Vec x{(void *)v1, &a, {0, 0}};
    auto p = vc_mkpart<D>(0, z, z, z, z, z, 1.), q = vc_mkpart<D>(1, z, z, z, z, z, 1.);
    petsc::petsc_vec<D> sol(&a, &x, 0, false);
    std::array<double, D> hh; for (int d = 0; d < D; ++d) hh[d] = h[d];
    int e = 0;
    if (!field) e = singularity::computesingularST(contact<D>(N, cut, f), p, q, sol, vc_box<int, D>(b), hh);
    else if constexpr (D == 2) e = singularity::addsingularity(contact<D>(N, cut, f), p, q, sol, vc_box<int, D>(b), hh);
    bad[0] = vc_misuse; return e;
}
extern "C" int source_2(int const *g, int N, double cut, double const *h, int const *b, vc_fn *f, int (*in)(double const *), AR<2> v0, AR<2> v1, int *bad) { return grid<2>(0, g, N, cut, h, b, f, in, v0, v1, bad); }
extern "C" int source_3(int const *g, int N, double cut, double const *h, int const *b, vc_fn *f, int (*in)(double const *), AR<3> v0, AR<3> v1, int *bad) { return grid<3>(0, g, N, cut, h, b, f, in, v0, v1, bad); }
extern "C" int field_2(int const *g, int N, double cut, double const *h, int const *b, vc_fn *f, int (*in)(double const *), AR<2> v0, AR<2> v1, int *bad) { return grid<2>(1, g, N, cut, h, b, f, in, v0, v1, bad); }
