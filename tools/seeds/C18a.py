ID="C18a"; PROPERTY="C18"
NEEDS="3D, several processes, and a particle other than the first shared between processes"
BREAKS="the torques summed over the processes are one third short: the last components are left as each process computed them"
EDITS=[("cafes/particle/forces_torques.hpp","torques.size()*(Dimensions==2?1:3), MPI_DOUBLE","torques.size()*(Dimensions==2?1:2), MPI_DOUBLE")]
DEMO_NP=2
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int rank, size; MPI_Comm_rank(PETSC_COMM_WORLD, &rank); MPI_Comm_size(PETSC_COMM_WORLD, &size);
    std::array<double, 3> h{{.1, .1, .1}};
    auto s1 = make_sphere({.52, .31, .48}, .2, 0.), s2 = make_sphere({.47, .73, .51}, .2, 0.);
    std::vector<decltype(make_particle_with_force(s1, {0., 0., 0.}, 1.))> parts{make_particle_with_force(s1, {0., 0., 0.}, 1.), make_particle_with_force(s2, {0., 0., 0.}, 1.)};
    geometry::box<int, 3> box{{0, 0, rank * 11 / size}, {11, 11, (rank + 1) * 11 / size}};
    std::vector<int> counts{17, 19};
    std::vector<geometry::vector<double, 3>> f(2), t(2);
    double ref[2][3] = {{0}};
    std::vector<double> c;
    for (int ip = 0; ip < 2; ++ip) {
        auto pb = parts[ip].bounding_box(h);
        auto nb = geometry::overlap_box(box, pb);
        for (auto &q : find_fluid_points_insides(parts[ip], nb, h)) {
            double g[3], x[3];
            for (int d = 0; d < 3; ++d) { g[d] = 1. + q[0] * .3 - q[1] * .2 * d + q[2] * d * d; c.push_back(g[d]); x[d] = q[d] * h[d] - parts[ip].center_[d]; }
            for (int d = 0; d < 3; ++d) ref[ip][d] += x[(d + 1) % 3] * g[(d + 2) % 3] - x[(d + 2) % 3] * g[(d + 1) % 3];
        }
        for (int d = 0; d < 3; ++d) ref[ip][d] *= parts[ip].volume() / counts[ip];
    }
    MPI_Allreduce(MPI_IN_PLACE, ref, 6, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
    Vec control; VecCreateSeqWithArray(PETSC_COMM_SELF, 1, c.size(), c.data(), &control);
    forces_torques_with_control(parts, control, box, f, t, counts, h, false);
    int bad = 0;
    for (int ip = 0; ip < 2; ++ip) for (int d = 0; d < 3; ++d)
        if (std::abs(t[ip][d] - ref[ip][d]) > 1e-9) { std::printf("[%d] torque %d of particle %d: %g instead of %g\n", rank, d, ip, t[ip][d], ref[ip][d]); bad = 1; }
    VecDestroy(&control);
    PetscFinalize();
    return bad;
}
'''
