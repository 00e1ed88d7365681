// particles of any shape: the geometric quantities of the shape are arbitrary
#pragma once
// which points the particles contain: (particle, coordinates) -> 0/1; their boxes on the grid
static int (*vc_inside)(double const *);
static int const *vc_boxes;
template<class T, std::size_t D> static cafes::geometry::box<T, D> vc_box(T const *b) { cafes::geometry::box<T, D> r; for (std::size_t d = 0; d < D; ++d) { r.bottom_left[d] = b[d]; r.upper_right[d] = b[D + d]; } return r; }
template<std::size_t D> struct vc_shape
{
    using dimension_type = std::integral_constant<std::size_t, D>;
    using position_type = cafes::geometry::position<double, D>;
    position_type center_; std::array<double, D> shape_factors_; double cd, ci, vol, area; long id;
    double Cd_R() const { return cd; }
    double Ci_R() const { return ci; }
    double volume() const { return vol; }
    double surface_area() const { return area; }
    int surface() const { return id; }   // the number of the particle
    bool contains(position_type const &p) const { double x[D + 1]; x[0] = id; for (std::size_t d = 0; d < D; ++d) x[d + 1] = p[d]; return vc_inside(x); }
    cafes::geometry::box<int, D> bounding_box(std::array<double, D> const &h) const { return vc_box<int, D>(vc_boxes + 2 * D * id); }
};
template<std::size_t D> using vc_part = cafes::particle<vc_shape<D>>;
// particle k of the table: centre, (cd, ci, volume, area), velocity, angular velocity, force, density
template<std::size_t D> static vc_part<D> vc_mkpart(int k, double const *ce, double const *q, double const *v, double const *w, double const *f, double rho)
{
    vc_shape<D> s; s.id = k; s.cd = q[0]; s.ci = q[1]; s.vol = q[2]; s.area = q[3];
    for (std::size_t d = 0; d < D; ++d) { s.center_[d] = ce[d]; s.shape_factors_[d] = 1; }
    cafes::physics::velocity<D> ve; for (std::size_t d = 0; d < D; ++d) ve[d] = v[d];
    typename vc_part<D>::angular_velocity_type an{}; double *pa = (double *)&an; for (std::size_t d = 0; d < (D == 2 ? 1 : 3); ++d) pa[d] = w[d];
    vc_part<D> p(s, ve, an); p.rho_ = rho; for (std::size_t d = 0; d < D; ++d) p.force_[d] = f[d];
    return p;
}
