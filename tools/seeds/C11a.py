ID="C11a"; PROPERTY="C11"
NEEDS="a 3D mesh periodic in the last direction but not in the second, or the other way round"
BREAKS="the velocity nodes of the last process in the third direction are counted with the periodicity of the second"
EDITS=[("cafes/fem/mesh.hpp","lzu = set_lxu(period[2], npz, lz);","lzu = set_lxu(period[1], npz, lz);")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
#include <unistd.h>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0;
    PetscPushErrorHandler(PetscReturnErrorHandler, NULL);
    for (int per = 0; per < 8; ++per) {
        DM dm = NULL, v = NULL, p = NULL; std::array<PetscBool, 3> b; std::array<int, 3> n{{5, 6, 7}};
        for (int d = 0; d < 3; ++d) b[d] = per >> d & 1 ? PETSC_TRUE : PETSC_FALSE;
        int ierr = fem::createMesh<3>(dm, n, b), nd = 0;
        if (!ierr) DMCompositeGetNumberDM(dm, &nd);
        if (ierr || nd != 2) { std::printf("periodicity %d: no mesh\n", per); bad = 1; continue; }
        DMCompositeGetEntries(dm, &v, &p);
        DMDALocalInfo i; DMDAGetLocalInfo(v, &i); int m[3] = {i.mx, i.my, i.mz}, l[3] = {i.xm, i.ym, i.zm};
        for (int d = 0; d < 3; ++d) { int e = b[d] ? 2 * (n[d] - 1) : 2 * n[d] - 1; if (m[d] != e || l[d] != e) { std::printf("periodicity %d: direction %d has %d nodes\n", per, d, m[d]); bad = 1; } }
    }
    _exit(bad);
}
'''
