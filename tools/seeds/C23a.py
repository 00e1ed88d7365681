ID="C23a"; PROPERTY="C23"
NEEDS="3D, a point away from the axis and from the surface of the first particle"
BREAKS="the derivative of the radial velocity across the gap, which the stress uses, is not that of the velocity"
EDITS=[("cafes/particle/singularity/UandPNormal.hpp","return 6 * r * U * (t3 - t4 - t5 + 4 * z) / t9 / t12 / t11 * (-t11 * t20 + 2 * t17 * t9);","return 6 * r * U * (t3 - t4 - t5 + 4 * z) / t9 / t12 / t11 * (-t11 * t20 + t17 * t9);")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    int bad = 0; double H = 4., M = 3., a = .05, U = 1.5, l = .02, eps = .02;
    for (double r = .05; r < .25; r += .04) for (double z = .001; z < .05; z += .013) {
        double e = 1e-6;
        using P = geometry::position<double, 3>;
        P x{.6 * r, .8 * r, z}, p{.6 * r, .8 * r, z + e}, m{.6 * r, .8 * r, z - e};
        double d = (singularity::ur_sing_normalMvt3D(p, H, M, a, U, l, eps, NULL) - singularity::ur_sing_normalMvt3D(m, H, M, a, U, l, eps, NULL)) / (2 * e), f = singularity::dzur_sing_normalMvt3D(x, H, M, a, U, l, eps, NULL);
        if (std::abs(d - f) > 1e-4 * (1 + std::abs(d))) { std::printf("r %g z %g: %g instead of %g\n", r, z, f, d); bad = 1; }
    }
    return bad;
}
'''
