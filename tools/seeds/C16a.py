ID="C16a"; PROPERTY="C16"
NEEDS="a 3D source"
BREAKS="the source is evaluated at coordinates whose last one uses the spacing of the first direction, when there are more than two directions"
EDITS=[("cafes/fem/rhs.hpp","          coord[i] = pos[i]*h[i];","          coord[i] = pos[i]*h[i%2];")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
void zc(PetscReal const *x, PetscScalar *u) { *u = x[2]; }
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    DM dm; int bad = 0;
    DMDACreate3d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, 3, 3, 3, PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE, 3, 1, 0, 0, 0, &dm); DMSetUp(dm);
    Vec g; DMCreateGlobalVector(dm, &g); VecSet(g, 0.);
    {
        petsc::petsc_vec<3> x(dm, g, 0, false);
        auto r = make_rhs<3>({{zc, nullptr, zc}});
        fem::set_rhs_impl<3>(x, r, {{.5, .25, .2}}, fem::kernel_func_on_rhs);
    }
    double const *a; VecGetArrayRead(g, &a);
    for (int k = 0; k < 3; ++k) for (int q = 0; q < 9; ++q) for (int d = 0; d < 3; ++d)
        if (std::abs(a[(k * 9 + q) * 3 + d] - (d == 1 ? 0. : k * .2)) > 1e-12) bad = 1;
    if (bad) std::printf("source not taken at the node\n");
    VecRestoreArrayRead(g, &a); VecDestroy(&g); DMDestroy(&dm);
    PetscFinalize();
    return bad;
}
'''
