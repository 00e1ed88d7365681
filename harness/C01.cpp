// C01: marshal plain arrays into the real types and call the real functions
#include <cafes.hpp>
using namespace cafes;
extern "C" {
void q1_2(double const *x, double const *h, double *o)
{
    geometry::position<double, 2> p{x[0], x[1]};
    std::array<double, 2> hh{{h[0], h[1]}};
    auto r = fem::P1_integration(p, hh);
    for (int i = 0; i < 4; ++i) o[i] = r[i];
}
void q1_3(double const *x, double const *h, double *o)
{
    geometry::position<double, 3> p{x[0], x[1], x[2]};
    std::array<double, 3> hh{{h[0], h[1], h[2]}};
    auto r = fem::P1_integration(p, hh);
    for (int i = 0; i < 8; ++i) o[i] = r[i];
}
void g1_2(double const *x, double const *h, double *o)
{
    geometry::position<double, 2> p{x[0], x[1]};
    std::array<double, 2> hh{{h[0], h[1]}};
    auto r = fem::P1_integration_grad(p, hh);
    for (int i = 0; i < 4; ++i)
        for (int d = 0; d < 2; ++d) o[2 * i + d] = r[i][d];
}
void g1_3(double const *x, double const *h, double *o)
{
    geometry::position<double, 3> p{x[0], x[1], x[2]};
    std::array<double, 3> hh{{h[0], h[1], h[2]}};
    auto r = fem::P1_integration_grad(p, hh);
    for (int i = 0; i < 8; ++i)
        for (int d = 0; d < 3; ++d) o[3 * i + d] = r[i][d];
}
}
