ID="C08a"; PROPERTY="C08"
NEEDS="a rotation whose axis has non-zero y and z parts (never a plane rotation)"
BREAKS="the 3D rotation matrix has a wrong sign in one of its entries, so that lengths are not preserved"
EDITS=[("cafes/particle/geometry/quaternion.hpp","(2*x*z-2*y*w)*pos[0] +   (2*y*z+2*x*w)*pos[1]","(2*x*z-2*y*w)*pos[0] +   (2*y*z+2*x*w-4*x*y*z*x)*pos[1]")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main()
{
    geometry::quaternion q(.7, {.48, .6, .64});
    auto p = q.rotate(geometry::position<double, 3>{1., 2., -.5});
    auto r = q.conj().rotate(p);
    double n = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
    if (std::abs(n - 5.25) > 1e-12 || std::abs(r[1] - 2) > 1e-12) { std::printf("squared length %g instead of 5.25\n", n); return 1; }
    return 0;
}
'''
