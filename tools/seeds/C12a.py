ID="C12a"; PROPERTY="C12"
NEEDS="a 3D mesh periodic in one of the first two directions only"
BREAKS="the operators loop over one row of cells too many or too few: the last row is dropped according to the periodicity of the wrong direction"
EDITS=[("cafes/fem/mesh.hpp","""        if(box.upper_right[2] == info.mz && info.bz != DM_BOUNDARY_PERIODIC)
          --box.upper_right[2];
        if(box.upper_right[1] == info.my && info.by != DM_BOUNDARY_PERIODIC)""","""        if(box.upper_right[2] == info.mz && info.bz != DM_BOUNDARY_PERIODIC)
          --box.upper_right[2];
        if(box.upper_right[1] == info.my && info.bx != DM_BOUNDARY_PERIODIC)""")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0;
    for (int per = 0; per < 8; ++per) {
        DM dm; DMBoundaryType b[3];
        for (int d = 0; d < 3; ++d) b[d] = per >> d & 1 ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE;
        DMDACreate3d(PETSC_COMM_WORLD, b[0], b[1], b[2], DMDA_STENCIL_BOX, 5, 6, 7, PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE, 1, 1, 0, 0, 0, &dm);
        DMSetUp(dm);
        std::array<double, 3> h{{.5, .25, .2}}; double vol = h[0] * h[1] * h[2]; int n[3] = {5, 6, 7};
        for (int d = 0; d < 3; ++d) vol *= n[d] - (per >> d & 1 ? 0 : 1);
        Vec g; DMCreateGlobalVector(dm, &g); VecSet(g, 1.);
        Vec r; VecDuplicate(g, &r); VecSet(r, 0.);
        {
            petsc::petsc_vec<3> x(dm, g, 0), y(dm, r, 0, false);
            x.global_to_local(INSERT_VALUES); y.fill(0.);
            fem::mass_mult<3>(x, y, h);
            y.local_to_global(ADD_VALUES);
        }
        double s; VecSum(r, &s);
        if (std::abs(s - vol) > 1e-9) { std::printf("periodicity %d: mass of the domain %g instead of %g\n", per, s, vol); bad = 1; }
        VecDestroy(&g); VecDestroy(&r); DMDestroy(&dm);
    }
    PetscFinalize();
    return bad;
}
'''
