ID="C24a"; PROPERTY="C24"
NEEDS="different refinement factors in the two directions"
BREAKS="fine nodes get the value at another height of the cell when the factors differ"
EDITS=[("cafes/posttraitement/interpolation.hpp","i*h[0]/refine[0], j*h[1]/refine[1]}","i*h[0]/refine[0], j*h[1]/refine[0]}")]
DEMO=r'''
#include <cafes.hpp>
#include <posttraitement/interpolation.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0;
    for (int c = 0; c < 2; ++c) {
        DM dm, dav, dap, dmr; Vec s, r;
        fem::createMesh<2>(dm, {{5, 6}}, {{PETSC_FALSE, PETSC_FALSE}});
        std::array<double, 2> h{{.125, .1}}; std::array<int, 2> ref{{2, c ? 3 : 2}};
        DMCreateGlobalVector(dm, &s);
        {
            petsc::petsc_vec<2> u(dm, s, 0, false), p(dm, s, 1, false);
            for (int j = 0; j < 11; ++j) for (int i = 0; i < 9; ++i) { double *v = u.at_g(geometry::position<int, 2>{i, j}); v[0] = 3 * i * h[0] - 2 * j * h[1]; v[1] = 1 + j * h[1]; }
            for (int j = 0; j < 6; ++j) for (int i = 0; i < 5; ++i) p.at_g(geometry::position<int, 2>{i, j})[0] = 5 * j * h[1] + i * h[0];
        }
        posttraitement::linear_interpolation(dm, s, dmr, r, ref, h);
        {
            petsc::petsc_vec<2> u(dmr, r, 0), p(dmr, r, 1);
            for (int j = 0; j <= 10 * ref[1]; ++j) for (int i = 0; i <= 8 * ref[0]; ++i) {
                double x = i * h[0] / ref[0], y = j * h[1] / ref[1]; double const *v = u.at_g(geometry::position<int, 2>{i, j});
                if (std::abs(v[0] - (3 * x - 2 * y)) > 1e-9 || std::abs(v[1] - (1 + y)) > 1e-9) bad = 1;
            }
        }
        if (bad) std::printf("refinement by %d and %d: the interpolant of an affine field is wrong\n", ref[0], ref[1]);
    }
    PetscFinalize();
    return bad;
}
'''
