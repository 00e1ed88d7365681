// C08: quaternions
#include <cafes.hpp>
using namespace cafes;
static geometry::quaternion mk(double const *c) { geometry::quaternion q; for (int i = 0; i < 4; ++i) q.components_[i] = c[i]; return q; }
static void put(geometry::quaternion const &q, double *o) { for (int i = 0; i < 4; ++i) o[i] = q.components_[i]; }
extern "C" {
void from_axis(double angle, double const *a, double *o) { geometry::quaternion q{angle, {a[0], a[1], a[2]}}; put(q, o); }
void from_angle(double angle, double *o) { geometry::quaternion q{angle}; put(q, o); }
void norml(double const *c, double *o) { auto q = mk(c); q.normalize(); put(q, o); }
void conjg(double const *c, double *o, double *c1) { auto q = mk(c); put(q.conj(), o); put(q, c1); }
void rot2(double const *c, double const *p, double *o) { geometry::position<double, 2> x{p[0], p[1]}; auto r = mk(c).rotate(x); o[0] = r[0]; o[1] = r[1]; }
void rot3(double const *c, double const *p, double *o) { geometry::position<double, 3> x{p[0], p[1], p[2]}; auto r = mk(c).rotate(x); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
void rotback3(double const *c, double const *p, double *o) { geometry::position<double, 3> x{p[0], p[1], p[2]}; auto q = mk(c); auto r = q.conj().rotate(q.rotate(x)); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
void rotback2(double const *c, double const *p, double *o) { geometry::position<double, 2> x{p[0], p[1]}; auto q = mk(c); auto r = q.conj().rotate(q.rotate(x)); for (int i = 0; i < 2; ++i) o[i] = r[i]; }
bool isrot(double const *c) { return mk(c).is_rotate(); }
void turn3(double angle, double const *a, double const *p, double *o) { geometry::position<double, 3> x{p[0], p[1], p[2]}; geometry::quaternion q{angle, {a[0], a[1], a[2]}}; auto r = q.rotate(x); for (int i = 0; i < 3; ++i) o[i] = r[i]; }
void turn2(double angle, double const *p, double *o) { geometry::position<double, 2> x{p[0], p[1]}; geometry::quaternion q{angle}; auto r = q.rotate(x); for (int i = 0; i < 2; ++i) o[i] = r[i]; }
}
