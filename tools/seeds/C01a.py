ID="C01a"; PROPERTY="C01"
NEEDS="3D, a point off the axes of the cell, spacings that differ between the first and the second direction"
BREAKS="the last component of the gradient of one shape function uses the distance to the face of another direction"
EDITS=[("cafes/fem/quadrature.hpp","(h[0] - x[0]) * (h[2] - x[2]),\n                        -(h[0] - x[0]) * x[1]}};","(h[0] - x[0]) * (h[2] - x[2]),\n                        -(h[1] - x[0]) * x[1]}};")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    int bad = 0;
    std::array<double, 3> H[2] = {{{.5, .5, .5}}, {{.5, .25, .125}}};
    for (auto const &h : H) {
        double vol = h[0] * h[1] * h[2];
        geometry::position<double, 3> x{.3 * h[0], .6 * h[1], .8 * h[2]};
        auto g = fem::P1_integration_grad(x, h);
        for (int d = 0; d < 3; ++d) {
            double e = 1e-6, sum = 0; auto a = x, b = x; a[d] += e; b[d] -= e;
            auto fa = fem::P1_integration(a, h), fb = fem::P1_integration(b, h);
            for (int i = 0; i < 8; ++i) { sum += g[i][d]; if (std::abs(g[i][d] / vol - (fa[i] - fb[i]) / (2 * e)) > 1e-6) { std::printf("function %d: derivative %d\n", i, d); bad = 1; } }
            if (std::abs(sum) > 1e-12) bad = 1;
        }
    }
    return bad;
}
'''
