// The real class singularity for any contact; its analytic fields and their derivatives (C23) are arbitrary functions of the local coordinates.
#pragma once
#include <particle/singularity/UandPNormal.hpp>
#include <particle/geometry/position.hpp>
typedef void (*vc_fn)(double const *, double *);
static vc_fn *vc_field; static double vc_arg[6]; static int vc_wrong;
// field k at local coordinates p, for the curvatures, gap, velocity and truncation of the contact
template<std::size_t D> static double vc_at(int k, cafes::geometry::position<double, D> const &p, double H1, double H2, double a, double U, double l, double e)
{
    if (H1 != vc_arg[0] || H2 != vc_arg[1] || a != vc_arg[2] || U != vc_arg[3] || l != vc_arg[4] || e != vc_arg[4]) ++vc_wrong;
    double x[D], r; for (std::size_t d = 0; d < D; ++d) x[d] = p[d];
    vc_field[k](x, &r); return r;
}
#define p_sing_withT_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(0, p, H1, H2, a, U, l, e)
#define dxux_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(1, p, H1, H2, a, U, l, e)
#define dzux_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(2, p, H1, H2, a, U, l, e)
#define dxuz_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(3, p, H1, H2, a, U, l, e)
#define dzuz_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(4, p, H1, H2, a, U, l, e)
#define ux_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(5, p, H1, H2, a, U, l, e)
#define uz_sing_normalMvt2D(p, H1, H2, a, U, l, e, x) vc_at<2>(6, p, H1, H2, a, U, l, e)
#define p_sing_withT_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(0, p, H1, H2, a, U, l, e)
#define dxux_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(1, p, H1, H2, a, U, l, e)
#define dyux_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(2, p, H1, H2, a, U, l, e)
#define dzux_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(3, p, H1, H2, a, U, l, e)
#define dxuy_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(2, p, H1, H2, a, U, l, e) /* = dyux: the field is axisymmetric (C23) */
#define dyuy_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(4, p, H1, H2, a, U, l, e)
#define dzuy_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(5, p, H1, H2, a, U, l, e)
#define dxuz_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(6, p, H1, H2, a, U, l, e)
#define dyuz_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(7, p, H1, H2, a, U, l, e)
#define dzuz_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(8, p, H1, H2, a, U, l, e)
#define ux_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(9, p, H1, H2, a, U, l, e)
#define uy_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(10, p, H1, H2, a, U, l, e)
#define uz_sing_normalMvt3D(p, H1, H2, a, U, l, e, x) vc_at<3>(11, p, H1, H2, a, U, l, e)
#include <cafes.hpp>
using namespace cafes;
template<int D> struct shp;
template<> struct shp<2> { using type = geometry::circle<double>; };
template<> struct shp<3> { using type = geometry::sphere<double>; };
template<int D> using sing_t = singularity::singularity<typename shp<D>::type, D>;
template<int D> static particle<typename shp<D>::type> part(double x)
{
    geometry::position<double, D> p; physics::velocity<D> u; for (int d = 0; d < D; ++d) p[d] = u[d] = 0; p[0] = x;
    typename particle<typename shp<D>::type>::angular_velocity_type w{};
    return {typename shp<D>::type(p, 1.), u, w};
}
// a contact with any frame b, o, curvatures, gap, cut-off distance, velocity and truncation
template<int D> static sing_t<D> contact(double const *q, double const *b, double const *o, vc_fn *f)
{
    sing_t<D> S(part<D>(0), part<D>(3), .1);
    S.H1_ = q[0]; S.H2_ = q[1]; S.contact_length_ = q[2]; S.UN_ = q[3]; S.param_ = q[4]; S.cutoff_dist_ = q[5];
    for (int i = 0; i < D; ++i) { S.origin_[i] = o[i]; for (int d = 0; d < D; ++d) S.base_[i][d] = b[i * D + d]; }
    for (int i = 0; i < 6; ++i) vc_arg[i] = q[i];
    vc_field = f; vc_wrong = 0;
    return S;
}
