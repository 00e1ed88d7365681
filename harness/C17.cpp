// C17: rasterisation of particles.  The shape is any type with a contains() predicate.
#include "petsc_stub.hpp"
#include "vec.hpp"
#ifdef CAFES_VC_SYMBOLIC
namespace cafes { namespace geometry { template<typename T, std::size_t D> struct position; } }
namespace std { template<size_t D> struct vc_traced<cafes::geometry::position<int, D>> { static constexpr int dim = D; }; }
#endif
#include <cafes.hpp>
using namespace cafes;
typedef int (*pred)(double const *);
template<std::size_t D> struct anyshape
{
    using dimension_type = std::integral_constant<std::size_t, D>;
    geometry::position<double, D> center_; std::array<double, D> shape_factors_; pred in;
    bool contains(geometry::position<double, D> const &p) const { double x[D]; for (std::size_t d = 0; d < D; ++d) x[d] = p[d]; return in(x); }
    void surface() const; void bounding_box() const; double surface_area() const; double volume() const; double Cd_R() const; double Ci_R() const;
};
template<class T, std::size_t D> static geometry::box<T, D> mk(T const *b) { geometry::box<T, D> r; for (std::size_t d = 0; d < D; ++d) { r.bottom_left[d] = b[d]; r.upper_right[d] = b[D + d]; } return r; }
template<std::size_t D> static std::array<double, D> arr(double const *h) { std::array<double, D> a; for (std::size_t d = 0; d < D; ++d) a[d] = h[d]; return a; }
#define FL(D)                                                                                                             \
    extern "C" int fluid_##D(int const *b, double const *h, pred in, void (*cnt)(int const *))                            \
    {                                                                                                                      \
        anyshape<D> s; s.in = in; s.center_.fill(0); s.shape_factors_.fill(1); physics::velocity<D> v; for (std::size_t d = 0; d < D; ++d) v[d] = 0;         \
        typename particle<anyshape<D>>::angular_velocity_type w{};                                                         \
        particle<anyshape<D>> p(s, v, w);                                                                                  \
        auto r = find_fluid_points_insides(p, mk<int, D>(b), arr<D>(h));                                                   \
        vc_all(r, cnt);                                                                                                    \
        return 0;                                                                                                          \
    }                                                                                                                      \
    extern "C" void surf_##D(int n, double const *sp, int const *b, double const *h, void *out)                            \
    {                                                                                                                      \
        auto s = vc_in<geometry::position<double, D>>(sp, n);                                                              \
        vc_out(out, find_surf_points_insides(s, mk<int, D>(b), arr<D>(h)));                                                \
    }                                                                                                                      \
    extern "C" void radial_##D(int n, double const *sp, int const *b, double const *h, double const *c, void *out)         \
    {                                                                                                                      \
        auto s = vc_in<geometry::position<double, D>>(sp, n);                                                              \
        geometry::position<double, D> ce; for (std::size_t d = 0; d < D; ++d) ce[d] = c[d];                                 \
        vc_out(out, find_radial_surf_points_insides(s, mk<int, D>(b), arr<D>(h), ce));                                     \
    }
FL(2)
FL(3)
