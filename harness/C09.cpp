// C09: which points the shapes contain, and their boxes
#include <cafes.hpp>
using namespace cafes;
template<std::size_t D> static geometry::position<double, D> P(double const *c) { geometry::position<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = c[d]; return r; }
template<std::size_t D> static std::array<double, D> A(double const *c) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = c[d]; return r; }
static geometry::quaternion Q(double const *c) { geometry::quaternion q; for (int i = 0; i < 4; ++i) q.components_[i] = c[i]; return q; }
static geometry::super_ellipsoid<double, 2> mk2(double const *c, double const *a, double n, double, double const *q) { return {P<2>(c), A<2>(a), n, Q(q)}; }
static geometry::super_ellipsoid<double, 3> mk3(double const *c, double const *a, double n, double e, double const *q) { return {P<3>(c), A<3>(a), n, e, Q(q)}; }
template<class S, std::size_t D> static void boxes(S const &s, double const *h, double *o, int *ob)
{
    auto b = s.bounding_box(); auto i = s.bounding_box(A<D>(h));
    for (std::size_t d = 0; d < D; ++d) { o[d] = b.bottom_left[d]; o[D + d] = b.upper_right[d]; ob[d] = i.bottom_left[d]; ob[D + d] = i.upper_right[d]; }
}
extern "C" {
bool circle_in(double const *c, double r, double const *q, int turned, double const *p) { if (turned) return make_circle(P<2>(c), r, Q(q)).contains(P<2>(p)); return make_circle(P<2>(c), r).contains(P<2>(p)); }
bool sphere_in(double const *c, double r, double const *q, int turned, double const *p) { if (turned) return make_sphere(P<3>(c), r, Q(q)).contains(P<3>(p)); return make_sphere(P<3>(c), r).contains(P<3>(p)); }
bool ell2_in(double const *c, double const *a, double n, double const *q, double const *p) { return mk2(c, a, n, 0, q).contains(P<2>(p)); }
bool ell3_in(double const *c, double const *a, double n, double e, double const *q, double const *p) { return mk3(c, a, n, e, q).contains(P<3>(p)); }
bool maker2_in(double const *c, double const *a, double n, double const *q, double const *p) { return make_ellipsoid(P<2>(c), A<2>(a), n, Q(q)).contains(P<2>(p)); }
bool maker3_in(double const *c, double const *a, double n, double e, double const *q, double const *p) { return make_ellipsoid(P<3>(c), A<3>(a), n, e, Q(q)).contains(P<3>(p)); }
void box2(double const *c, double const *a, double n, double const *q, double const *h, double *o, int *ob) { boxes<geometry::super_ellipsoid<double, 2>, 2>(mk2(c, a, n, 0, q), h, o, ob); }
void box3(double const *c, double const *a, double n, double e, double const *q, double const *h, double *o, int *ob) { boxes<geometry::super_ellipsoid<double, 3>, 3>(mk3(c, a, n, e, q), h, o, ob); }
void circle_box(double const *c, double r, double const *h, double *o, int *ob) { boxes<geometry::circle<>, 2>(make_circle(P<2>(c), r), h, o, ob); }
void sphere_box(double const *c, double r, double const *h, double *o, int *ob) { boxes<geometry::sphere<>, 3>(make_sphere(P<3>(c), r), h, o, ob); }
}
