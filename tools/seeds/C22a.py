ID="C22a"; PROPERTY="C22"
NEEDS="a distance in the transition layer off its middle (the derivative of highest order)"
BREAKS="the function given as the fourth derivative of the truncation is not the derivative of the third"
EDITS=[("cafes/particle/singularity/truncation.hpp","return 15120/128.0*X*(7*X4-10*X2+3);","return 15120/128.0*X*(7*X4-9*X2+2);")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    int bad = 0; double l = 2., eps = 1.5;
    for (double s = .6; s < 3.4; s += .1) {
        double e = 1e-6, d = (singularity::d3chiTrunc(std::sqrt(s + e), l, eps) - singularity::d3chiTrunc(std::sqrt(s - e), l, eps)) / (2 * e), f = singularity::d4chiTrunc(std::sqrt(s), l, eps);
        if (std::abs(d - f) > 1e-4 * (1 + std::abs(f))) { std::printf("s = %g: %g instead of %g\n", s, f, d); bad = 1; }
    }
    return bad;
}
'''
