// C10: points on the boundary of the shapes, and constants of the exact bodies
#include <cafes.hpp>
#include "vec.hpp"
using namespace cafes;
template<std::size_t D> static geometry::position<double, D> P(double const *c) { geometry::position<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = c[d]; return r; }
template<std::size_t D> static std::array<double, D> A(double const *c) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = c[d]; return r; }
static geometry::quaternion Q(double const *c) { geometry::quaternion q; for (int i = 0; i < 4; ++i) q.components_[i] = c[i]; return q; }
template<std::size_t D> static int nth(std::vector<geometry::position<double, D>> const &p, int i, double *o) { for (std::size_t d = 0; d < D; ++d) o[d] = 0; if (i >= 0 && i < (int)p.size()) for (std::size_t d = 0; d < D; ++d) o[d] = p[i][d]; return p.size(); }
extern "C" {
// the i-th of the points, and how many there are
int circle_pts(double const *c, double r, double const *q, double k, int i, double *o) { return nth(make_circle(P<2>(c), r, Q(q)).surface(k), i, o); }
int ell2_pts(double const *c, double const *a, double n, double const *q, double k, double tol, int i, double *o) { geometry::super_ellipsoid<double, 2> s(P<2>(c), A<2>(a), n, Q(q)); return nth(s.surface(k, tol), i, o); }
double theta_step(double r1, double r2, double th, double eps, double K, double tol) { return geometry::theta(r1, r2, th, eps, K, tol); }
// a slice of a 3D shape at height z, scaled by phi
int slice_pts(double const *a, double eps, double k, double z, double phi, double tol, int i, double *o) { return nth(geometry::uniform_sampling(A<3>(a), eps, k, z, phi, tol), i, o); }
int ell3_pts(double const *c, double const *a, double n, double e, double const *q, double const *k, double tol, int i, double *o) { geometry::super_ellipsoid<double, 3> s(P<3>(c), A<3>(a), n, e, Q(q)); return nth(s.surface(A<2>(k), tol), i, o); }
// points at given angles; from the centre, too
int ell2_at(int m, int i, double const *c, double const *a, double n, double const *u, double *o, double *w, double *at, double *rad)
{
    geometry::super_ellipsoid<double, 2> s(P<2>(c), A<2>(a), n); auto us = vc_in<double>(u, m);
    auto x = s.at(u[i]), r = s.radial(u[i]); for (int d = 0; d < 2; ++d) { at[d] = x[d]; rad[d] = r[d]; }
    auto R = s.radial_vector(us); int nr = nth(R, i, w); int n1 = nth(s.surface(us), i, o); return n1 == nr ? n1 : -1;
}
int ell3_at(int m, int i, double const *c, double const *a, double n, double e, double const *u, double const *v, double *o, double *w, double *at, double *rad)
{
    geometry::super_ellipsoid<double, 3> s(P<3>(c), A<3>(a), n, e); auto us = vc_in<double>(u, m), vs = vc_in<double>(v, m);
    auto x = s.at(u[i], v[i]), r = s.radial(u[i], v[i]); for (int d = 0; d < 3; ++d) { at[d] = x[d]; rad[d] = r[d]; }
    auto R = s.radial_vector(us, vs); int nr = nth(R, i, w); int n1 = nth(s.surface(us, vs), i, o); return n1 == nr ? n1 : -1;
}
void constants2(double const *c, double r, double *o) { auto s = make_circle(P<2>(c), r); o[0] = s.surface_area(); o[1] = s.volume(); o[2] = s.Cd_R(); o[3] = s.Ci_R(); }
void constants3(double const *c, double r, double *o) { auto s = make_sphere(P<3>(c), r); o[0] = s.surface_area(); o[1] = s.volume(); o[2] = s.Cd_R(); o[3] = s.Ci_R(); }
}
