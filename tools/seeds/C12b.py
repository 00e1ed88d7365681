ID="C12b"; PROPERTY="C12"
NEEDS="a field with several components whose input changes from node to node (an anisotropic tensor product), 3D"
BREAKS="the tensor kernel applies the transpose of each component block, seen only where the block is not symmetric (off-diagonal velocity couplings of different nodes)"
EDITS=[("cafes/fem/operator.hpp","uy[d1] += ux[d2] * matelem[k1][k2][d1][d2];","uy[d1] += ux[d2] * matelem[k2][k1][d1][d2];")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
// on one cell, y = K x: compare with the flattened matrix used for assembly, component blocks (d1, d2)
template<std::size_t D> int check(DM dm, std::array<double, D> h)
{
    constexpr int N = 1 << D; auto K = getMatElemStrainTensor(h); int bad = 0;
    for (int k2 = 0; k2 < N; ++k2) for (std::size_t e = 0; e < D; ++e) {
        Vec g, r; DMCreateGlobalVector(dm, &g); VecDuplicate(g, &r); VecSet(g, 0.); VecSet(r, 0.);
        VecSetValue(g, k2 * D + e, 1., INSERT_VALUES); VecAssemblyBegin(g); VecAssemblyEnd(g);
        {
            petsc::petsc_vec<D> x(dm, g, 0), y(dm, r, 0, false);
            x.global_to_local(INSERT_VALUES); y.fill(0.);
            fem::strain_tensor_mult<D>(x, y, h);
            y.local_to_global(ADD_VALUES);
        }
        double const *a; VecGetArrayRead(r, &a);
        for (int k1 = 0; k1 < N; ++k1) for (std::size_t d = 0; d < D; ++d)
            if (std::abs(a[k1 * D + d] - K[k1][k2][d][e]) > 1e-12) bad = 1;
        VecRestoreArrayRead(r, &a); VecDestroy(&g); VecDestroy(&r);
    }
    if (bad) std::printf("%dD: not the product with the elementary matrix\n", int(D));
    return bad;
}
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    DM a, b; int bad = 0;
    DMDACreate2d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, 2, 2, PETSC_DECIDE, PETSC_DECIDE, 2, 1, 0, 0, &a); DMSetUp(a);
    DMDACreate3d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, 2, 2, 2, PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE, 3, 1, 0, 0, 0, &b); DMSetUp(b);
    bad |= check<2>(a, {{.5, .25}}); bad |= check<3>(b, {{.5, .25, .2}});
    DMDestroy(&a); DMDestroy(&b);
    PetscFinalize();
    return bad;
}
'''
