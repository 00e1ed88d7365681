ID="C21a"; PROPERTY="C21"
NEEDS="3D, a purely normal relative velocity and a contact direction with a negative second component"
BREAKS="in the degenerate case the first tangent loses the sign of the second component of the normal, so the frame is no longer orthogonal"
EDITS=[("cafes/particle/singularity/singularity.hpp","base_[0][1]    =  sign(base_[2][1])*base_[2][0];","base_[0][1]    =  sign(base_[2][2])*base_[2][0];")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0;
    for (int s = 0; s < 8; ++s) {
        double n[3] = {s & 1 ? -.75 : .75, s & 2 ? -.5 : .5, s & 4 ? -.25 : .25};
        for (int still = 0; still < 2; ++still) {
        double l = std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]), L = 2.125 / l;
        auto a = make_sphere({0., 0., 0.}, 1., 0.), b = make_sphere({L * n[0], L * n[1], L * n[2]}, 1., 0.);
        auto p = make_particle_with_velocity(a, {0., 0., 0.}, {0., 0., 0.}), q = make_particle_with_velocity(b, {0., 0., 0.}, {0., 0., 0.});
        if (!still) q.velocity_ = {n[1], -n[0], 0.};
        singularity::singularity<decltype(a), 3> S(p, q, .01);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            double d = 0; for (int k = 0; k < 3; ++k) d += S.base_[i][k] * S.base_[j][k];
            if (!(std::abs(d - (i == j)) < 1e-9)) { std::printf("n = %g %g %g: e%d . e%d = %g\n", n[0], n[1], n[2], i, j, d); bad = 1; }
        } }
    }
    PetscFinalize();
    return bad;
}
'''
