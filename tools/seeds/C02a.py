ID="C02a"; PROPERTY="C02"
BREAKS="the assembled indices of the second component of a pressure cell address another row of nodes when gys is not zero: component taken out of the dof factor"
EDITS=[("cafes/fem/quadrature.hpp","that[7 + d * 9] =\n                    d + DMDALocalIndex2D(info, 2 * ix[0] + 1, 2 * ix[1] + 2);","that[7 + d * 9] = that[4 + d * 9] + info.dof * info.xm;")]
NEEDS="a mesh part with ghost columns (several processes or a periodic direction), so that gxm differs from xm"
BREAKS="get_indices_4Q1 finds the top middle node of a pressure cell with the owned instead of the ghosted row length"
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main()
{
    DMDALocalInfo i; i.dof = 2; i.gxs = 3; i.gys = 5; i.gxm = 12; i.gym = 9; i.xs = 4; i.ys = 6; i.xm = 10; i.ym = 7;
    auto a = fem::get_indices_4Q1(i, geometry::position<int, 2>{3, 4});
    for (int d = 0; d < 2; ++d) for (int k = 0; k < 9; ++k) {
        int x = 6 + k % 3, y = 8 + k / 3, e = d + 2 * ((y - 5) * 12 + x - 3);
        if (a[k + 9 * d] != e) { std::printf("node %d component %d: %d instead of %d\n", k, d, a[k + 9 * d], e); return 1; }
    }
    return 0;
}
'''
