ID="C17a"; PROPERTY="C17"
NEEDS="a 3D mesh whose spacings in the last two directions differ, a particle that spans several layers"
BREAKS="the height of the layers advances by the spacing of the second direction, so nodes outside the particle are listed as inside"
EDITS=[("cafes/particle/particle.hpp","iz<b.upper_right[2]; z+=h[2], ++iz)","iz<b.upper_right[2]; z+=h[1], ++iz)")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0;
    std::array<double, 3> H[2] = {{{.125, .125, .125}}, {{.125, .25, .0625}}};
    for (auto const &h : H) {
        auto s = make_sphere({.51, .52, .53}, .4, 0.);
        auto p = make_particle_with_force(s, {0., 0., 0.}, 1.);
        geometry::box<int, 3> b{{1, 0, 2}, {9, 5, 17}};
        auto l = find_fluid_points_insides(p, b, h);
        std::size_t n = 0;
        for (int k = 2; k < 17; ++k) for (int j = 0; j < 5; ++j) for (int i = 1; i < 9; ++i) {
            double x = i * h[0] - .51, y = j * h[1] - .52, z = k * h[2] - .53;
            bool in = x * x + y * y + z * z < .16, found = false;
            for (auto const &q : l) found = found || (q[0] == i && q[1] == j && q[2] == k);
            if (in != found) bad = 1;
            n += in;
        }
        if (n != l.size()) bad = 1;
    }
    if (bad) std::printf("the nodes listed are not those inside the sphere\n");
    PetscFinalize();
    return bad;
}
'''
