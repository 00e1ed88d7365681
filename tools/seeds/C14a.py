ID="C14a"; PROPERTY="C14"
NEEDS="a direction with a single layer of owned nodes on the last process, or a boundary process owning exactly one node in that direction: a mesh decomposed so finely that one process has a one-node slab at the upper face"
BREAKS="upper faces get their condition only where the process owns more than one node in that direction"
EDITS=[("cafes/fem/bc.hpp","          if (box.upper_right[d] == gbounds[d])\n          {","          if (box.upper_right[d] == gbounds[d] && box.length(d) > 1)\n          {")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
void two(PetscReal const *, PetscScalar *u) { *u = 2; }
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int size; MPI_Comm_size(PETSC_COMM_WORLD, &size);
    DM dm; PetscInt lx[1] = {4}, ly[2] = {5, 1};
    DMDACreate2d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, 4, 6, 1, 2, 2, 1, lx, ly, &dm); DMSetUp(dm);
    Vec g; DMCreateGlobalVector(dm, &g); VecSet(g, 0.);
    auto bc = make_bc<2>({{{nullptr, nullptr}}, {{nullptr, nullptr}}, {{nullptr, nullptr}}, {{two, two}}});
    {
        petsc::petsc_vec<2> x(dm, g, 0, false);
        fem::SetDirichletOnRHS<2>(x, bc, {{.5, .5}});
    }
    double s; VecSum(g, &s); int bad = std::abs(s - 4 * 2 * 2.) > 1e-12;
    if (bad) std::printf("sum over the top face %g instead of 16\n", s);
    VecDestroy(&g); DMDestroy(&dm);
    PetscFinalize();
    return bad;
}
'''
DEMO_NP=2
