ID="C29a"; PROPERTY="C29"
NEEDS="forces switched on and a particle with density different from those before it"
BREAKS="the density of the first particle is used for the weight of every particle"
EDITS=[("cafes/problem/particle_operator.hpp","u[i] = px[num++] + p.rho_*p.force_[i];","u[i] = px[num++] + ctx.particles[0].rho_*p.force_[i];")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
template<class P> struct inner { DM dm; std::array<double, 2> h; };
template<class P> struct prob { inner<P> *ctx; };
template<class P> struct context { std::vector<P> particles; prob<P> problem; };
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    DM dm; fem::createMesh<2>(dm, {{11, 11}}, {{PETSC_FALSE, PETSC_FALSE}});
    auto a = make_circle({.3, .3}, .2, 0.), b = make_circle({.7, .7}, .15, 0.);
    using P = decltype(make_particle_with_force(a, {0., 0.}, 1.));
    inner<P> in{dm, {{.05, .05}}}; context<P> ctx;
    ctx.particles = {make_particle_with_force(a, {1., 2.}, 3.), make_particle_with_force(b, {-1., 4.}, 5.)};
    ctx.problem.ctx = &in;
    geometry::box<int, 2> box{{0, 0}, {21, 21}};
    std::vector<double> x; std::vector<geometry::position<int, 2>> where; std::vector<int> who;
    for (int i = 0; i < 2; ++i) for (auto &q : find_fluid_points_insides(ctx.particles[i], geometry::overlap_box(box, ctx.particles[i].bounding_box(in.h)), in.h)) { where.push_back(q); who.push_back(i); x.push_back(q[0] + .5); x.push_back(q[1] * 2.); }
    Vec v, f; VecCreateSeqWithArray(PETSC_COMM_SELF, 1, x.size(), x.data(), &v); DMCreateGlobalVector(dm, &f); VecSet(f, 0.);
    int bad = where.empty();
    {
        petsc::petsc_vec<2> u(dm, f, 0, false);
        problem::set_rhs_problem_impl<2>(ctx, v, u, true);
        for (std::size_t k = 0; k < where.size(); ++k) for (int d = 0; d < 2; ++d) {
            auto &p = ctx.particles[who[k]];
            if (std::abs(u.at_g(where[k])[d] - (x[2 * k + d] + p.rho_ * p.force_[d])) > 1e-12) bad = 1;
        }
    }
    if (bad) std::printf("the control and weight of a particle are not those put at its nodes\n");
    PetscFinalize();
    return bad;
}
'''
