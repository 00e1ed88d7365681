ID="C05a"; PROPERTY="C05"
NEEDS="a second box that reaches further down than the first one"
BREAKS="union_box no longer holds its first box"
EDITS=[("cafes/particle/geometry/box.hpp","bout.upper_right[i] = std::max( b1.upper_right[i], b2.upper_right[i]);","bout.upper_right[i] = std::max( b2.upper_right[i], b1.bottom_left[i] + std::abs(b1.upper_right[i] - bout.bottom_left[i]));")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main()
{
    for (int a = -4; a < 4; ++a) for (int b = a; b < 5; ++b) for (int e = -4; e < 4; ++e) for (int f = e; f < 5; ++f) {
        geometry::box<int, 2> p{{a, 0}, {b, 2}}, q{{e, -1}, {f, 1}};
        auto u = geometry::union_box(p, q);
        if (u.bottom_left[0] != std::min(a, e) || u.upper_right[0] != std::max(b, f)) { std::printf("union of [%d,%d] and [%d,%d] is [%d,%d]\n", a, b, e, f, u.bottom_left[0], u.upper_right[0]); return 1; }
    }
    return 0;
}
'''
