ID="C19a"; PROPERTY="C19"
NEEDS="a process whose nodes a particle does not meet, and accumulators that hold the values of an earlier projection"
BREAKS="the mean of the particle is the one left by the earlier projection on the processes the particle does not meet"
EDITS=[("cafes/problem/particle_operator.hpp","""        mean[ipart] = 0;
        cross_prod[ipart] = 0;
        auto pbox = p.bounding_box(h);
        if (geometry::intersect(box, pbox)){
""","""        cross_prod[ipart] = 0;
        auto pbox = p.bounding_box(h);
        if (geometry::intersect(box, pbox)){
          mean[ipart] = 0;
""")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    DM dm; fem::createMesh<2>(dm, {{11, 11}}, {{PETSC_FALSE, PETSC_FALSE}});
    std::array<double, 2> h{{.05, .05}};
    Vec s; DMCreateGlobalVector(dm, &s); VecSet(s, 1.);
    auto c = make_circle({.5, .5}, .2, 0.), far_ = make_circle({.15, .2}, .1, 0.);
    std::vector<decltype(make_particle_with_force(c, {0., 0.}, 1.))> parts{make_particle_with_force(c, {0., 0.}, 1.), make_particle_with_force(far_, {0., 0.}, 1.)};
    std::vector<geometry::vector<double, 2>> mean(2); std::vector<double> cross(2);
    mean[0] = 0; mean[1] = 0;
    std::vector<int> num{100, 25};
    geometry::box<int, 2> all{{0, 0}, {20, 20}}, part{{0, 0}, {3, 3}};
    double first[2], again[2];
    {
        petsc::petsc_vec<2> u(dm, s, 0); u.global_to_local(INSERT_VALUES);
        problem::projection_impl(parts, u, part, mean, cross, num, 2, h);
        first[0] = mean[0][0]; first[1] = mean[1][0];
        problem::projection_impl(parts, u, all, mean, cross, num, 2, h);
        problem::projection_impl(parts, u, part, mean, cross, num, 2, h);
        again[0] = mean[0][0]; again[1] = mean[1][0];
    }
    int bad = first[0] != again[0] || first[1] != again[1];
    if (bad) std::printf("the same projection gives %g %g, then %g %g\n", first[0], first[1], again[0], again[1]);
    PetscFinalize();
    return bad;
}
'''
