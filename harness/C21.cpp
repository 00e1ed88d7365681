// C21: frame of a singularity
#include <cafes.hpp>
using namespace cafes;
template<int D> struct shp;
template<> struct shp<2> { using type = geometry::circle<double>; };
template<> struct shp<3> { using type = geometry::sphere<double>; };
template<int D> static particle<typename shp<D>::type> part(const double *c, const double *v, double r)
{
  geometry::position<double, D> p; physics::velocity<D> u;
  for (int d = 0; d < D; ++d) { p[d] = c[d]; u[d] = v[d]; }
  typename particle<typename shp<D>::type>::angular_velocity_type w{};
  return {typename shp<D>::type(p, r), u, w};
}
// the second centre is at distance L from the first in the direction of the unit vector n
#define SARGS const double *c1, const double *v1, double r1, double L, const double *n, const double *v2, double r2, double h
#define SCALL c1, v1, r1, L, n, v2, r2, h
template<int D> static singularity::singularity<typename shp<D>::type, D> sing(SARGS)
{ double c2[D]; for (int d = 0; d < D; ++d) c2[d] = c1[d] + L * n[d]; return {part<D>(c1, v1, r1), part<D>(c2, v2, r2), h}; }
template<int D> static void frame(SARGS, double *b, double *o, double *vs, double *s)
{
  auto S = sing<D>(SCALL);
  for (int i = 0; i < D; ++i) { for (int d = 0; d < D; ++d) b[i * D + d] = S.base_[i][d]; o[i] = S.origin_[i]; vs[i] = S.vector_space_[i]; }
  s[0] = S.UN_; s[1] = S.UT_; s[2] = S.contact_length_; s[3] = S.H1_; s[4] = S.H2_; s[5] = S.cutoff_dist_; s[6] = S.param_; s[7] = S.is_singularity_;
}
// the frame is given by its orthonormal axes b and origin o: the maps and the field in the global frame
template<int D> static void maps(const double *b, const double *o, const double *p, double *inn, double *out, double *back)
{
  double z[3] = {}, e1[3] = {1, 0, 0}; auto S = sing<D>(z, z, 1, 3, e1, z, 1, .1);
  geometry::position<double, D> q;
  for (int i = 0; i < D; ++i) { for (int d = 0; d < D; ++d) S.base_[i][d] = b[i * D + d]; S.origin_[i] = o[i]; q[i] = p[i]; }
  auto a = S.get_pos_in_part_ref(q); auto e = S.get_pos_from_part_ref(q); auto f = S.get_pos_from_part_ref(a);
  for (int i = 0; i < D; ++i) { inn[i] = a[i]; out[i] = e[i]; back[i] = f[i]; }
}
// the facing points are the origin of the frame and the point at distance a from it along the normal axis
template<int D> static void apex(double H, double M, double a, double U, double P, double *u1, double *u2)
{
  double z[3] = {}, e1[3] = {1, 0, 0}; auto S = sing<D>(z, z, 1, 3, e1, z, 1, .1);
  S.H1_ = H; S.H2_ = M; S.contact_length_ = a; S.UN_ = U; S.param_ = P;
  geometry::position<double, D> q1{}, q2{}; q2[2 * D - 4] = a;
  auto f = S.get_u_sing_ref(q1), e = S.get_u_sing_ref(q2);
  for (int i = 0; i < D; ++i) { u1[i] = f[i]; u2[i] = e[i]; }
}
template<int D> static void field(const double *b, const double *o, double H, double M, double a, double U, double P, const double *p, double *u, double *g, double *pr)
{
  double z[3] = {}, e1[3] = {1, 0, 0}; auto S = sing<D>(z, z, 1, 3, e1, z, 1, .1);
  S.H1_ = H; S.H2_ = M; S.contact_length_ = a; S.UN_ = U; S.param_ = P;
  geometry::position<double, D> q;
  for (int i = 0; i < D; ++i) { for (int d = 0; d < D; ++d) S.base_[i][d] = b[i * D + d]; S.origin_[i] = o[i]; q[i] = p[i]; }
  auto f = S.get_u_sing(q); auto G = S.get_grad_u_sing(q); pr[0] = S.get_p_sing(q);
  auto r = S.get_u_sing_ref(S.get_pos_in_part_ref(q));
  for (int i = 0; i < D; ++i) { u[i] = f[i]; u[D + i] = r[i]; for (int j = 0; j < D; ++j) g[i * D + j] = G[i][j]; }
#ifdef CAFES_VC_NATIVE
  // finite differences of the velocity
  for (int j = 0; j < D; ++j) { double h = 1e-5; auto q1 = q, q2 = q; q1[j] -= h; q2[j] += h; auto f1 = S.get_u_sing(q1), f2 = S.get_u_sing(q2); for (int i = 0; i < D; ++i) g[D * D + i * D + j] = (f2[i] - f1[i]) / (2 * h); }
#endif
}
// the box of cells of a contact of cut-off distance C, gap a and radii r1, r2
template<int D> static void box(const double *b, const double *o, double r1, double r2, double a, double C, const double *h, int *lo, int *hi)
{
  double z[3] = {}, e1[3] = {1, 0, 0}; auto S = sing<D>(z, z, 1, 3, e1, z, 1, .1);
  S.H1_ = 1./r1; S.H2_ = 1./r2; S.contact_length_ = a; S.cutoff_dist_ = C;
  std::array<double, D> k;
  for (int i = 0; i < D; ++i) { for (int d = 0; d < D; ++d) S.base_[i][d] = b[i * D + d]; S.origin_[i] = o[i]; k[i] = h[i]; }
  auto B = S.get_box(k);
  for (int i = 0; i < D; ++i) { lo[i] = B.bottom_left[i]; hi[i] = B.upper_right[i]; }
}
#define FARGS const double *b, const double *o, double H, double M, double a, double U, double P, const double *p, double *u, double *g, double *pr
#define BARGS const double *b, const double *o, double r1, double r2, double a, double C, const double *h, const double *
extern "C" {
void box2(BARGS q, int *lo, int *hi) { box<2>(b, o, r1, r2, a, C, h, lo, hi); }
void box3(BARGS q, int *lo, int *hi) { box<3>(b, o, r1, r2, a, C, h, lo, hi); }
void field2(FARGS) { field<2>(b, o, H, M, a, U, P, p, u, g, pr); }
void field3(FARGS) { field<3>(b, o, H, M, a, U, P, p, u, g, pr); }
void frame2(SARGS, double *b, double *o, double *vs, double *s) { frame<2>(SCALL, b, o, vs, s); }
void frame3(SARGS, double *b, double *o, double *vs, double *s) { frame<3>(SCALL, b, o, vs, s); }
void maps2(const double *b, const double *o, const double *p, double *inn, double *out, double *back) { maps<2>(b, o, p, inn, out, back); }
void maps3(const double *b, const double *o, const double *p, double *inn, double *out, double *back) { maps<3>(b, o, p, inn, out, back); }
void apex2(double H, double M, double a, double U, double P, double *u1, double *u2) { apex<2>(H, M, a, U, P, u1, u2); }
void apex3(double H, double M, double a, double U, double P, double *u1, double *u2) { apex<3>(H, M, a, U, P, u1, u2); }
}
