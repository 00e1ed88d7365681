ID="C09a"; PROPERTY="C09"
NEEDS="a super-ellipsoid with a grid node just inside its right or top extremity, less than half a spacing away"
BREAKS="the integer box is half a spacing short: the last line of nodes inside the shape is left out"
EDITS=[("cafes/particle/geometry/super_ellipsoid.hpp","return {(b.bottom_left/h - 1.), b.upper_right/h + 1.};","return {(b.bottom_left/h - 1.), b.upper_right/h + .5};")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    int bad = 0; std::array<double, 2> h{{.1, .1}};
    for (double c = .5; c < .6; c += .013) {
        geometry::super_ellipsoid<double, 2> s({c, c}, {.303, .2}, 2.);
        auto b = s.bounding_box(h);
        for (int j = 0; j < 12; ++j) for (int i = 0; i < 12; ++i)
            if (s.contains({i * h[0], j * h[1]}) && !(i >= b.bottom_left[0] && i < b.upper_right[0] && j >= b.bottom_left[1] && j < b.upper_right[1])) { std::printf("centre %g: node %d %d is inside the shape, not in the box\n", c, i, j); bad = 1; }
    }
    return bad;
}
'''
