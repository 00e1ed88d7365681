ID="C31a"; PROPERTY="C31"
NEEDS="the singular source switched on while the other data are off (flags chosen by the user)"
BREAKS="boundary values are put into the right-hand side although the flags switch the data off: the operator given to the solver is not linear"
EDITS=[("cafes/problem/particle_operator.hpp","""      auto petsc_rhs = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, ctx.problem.rhs, 0);

      if (ctx.compute_rhs)""","""      auto petsc_rhs = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, ctx.problem.rhs, 0);

      if (ctx.compute_rhs || ctx.compute_singularity)""")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
struct inner { DM dm; std::array<double, 2> h; fem::dirichlet_conditions<2> bc_; };
struct prob { inner *ctx; Vec rhs, sol; PetscErrorCode setup_RHS() { return 0; } };
template<class P> struct context { std::vector<P> particles; prob problem; bool compute_rhs, compute_singularity; };
void one(const PetscReal *, PetscScalar *u) { *u = 1.; }
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    DM dm; fem::createMesh<2>(dm, {{11, 11}}, {{PETSC_FALSE, PETSC_FALSE}});
    auto a = make_circle({.5, .5}, .2, 0.);
    using P = decltype(make_particle_with_force(a, {0., 0.}, 1.));
    inner in{dm, {{.05, .05}}, make_bc<2>({{{one, one}}, {{one, one}}, {{one, one}}, {{one, one}}})};
    context<P> c; c.problem.ctx = &in; c.particles = {make_particle_with_force(a, {0., 0.}, 1.)};
    DMCreateGlobalVector(dm, &c.problem.rhs); VecDuplicate(c.problem.rhs, &c.problem.sol);
    geometry::box<int, 2> box{{0, 0}, {21, 21}};
    int n = 2 * find_fluid_points_insides(c.particles[0], geometry::overlap_box(box, c.particles[0].bounding_box(in.h)), in.h).size(), bad = 0;
    Vec x; VecCreateSeq(PETSC_COMM_SELF, n, &x); VecSet(x, 0.);
    for (int f = 0; f < 4; ++f) {
        c.compute_rhs = f & 1; c.compute_singularity = f >> 1;
        VecSet(c.problem.rhs, 0.);
        problem::init_problem<2>(c, x);
        PetscReal s; VecNorm(c.problem.rhs, NORM_INFINITY, &s);
        if ((s != 0) != c.compute_rhs) { std::printf("source %d singular %d: boundary values %g\n", (int)c.compute_rhs, (int)c.compute_singularity, s); bad = 1; }
    }
    PetscFinalize();
    return bad;
}
'''
