ID="C26a"; PROPERTY="C26"
NEEDS="3D (the second particle of the contact)"
BREAKS="one shear component of the stress on the second particle adds the wrong pair of derivatives, so the traction is not that of a symmetric stress"
EDITS=[("cafes/particle/singularity/add_singularity.hpp","""                    position_type normal{sini_t * cosj_t, sini_t * sinj_t,
                                         -cosi_t};

                    auto gradUsing = sing.get_grad_u_sing_ref(pos);
                    auto psing = sing.get_p_sing_ref(pos);

                    sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                    sigma[0][1] = 2 * mu * gradUsing[0][1];
                    sigma[0][2] = mu * (gradUsing[0][2] + gradUsing[2][0]);

                    sigma[1][0] = sigma[0][1];
                    sigma[1][1] = 2 * mu * gradUsing[1][1] - psing;
                    sigma[1][2] = mu * (gradUsing[1][2] + gradUsing[2][1]);""","""                    position_type normal{sini_t * cosj_t, sini_t * sinj_t,
                                         -cosi_t};

                    auto gradUsing = sing.get_grad_u_sing_ref(pos);
                    auto psing = sing.get_p_sing_ref(pos);

                    sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                    sigma[0][1] = 2 * mu * gradUsing[0][1];
                    sigma[0][2] = mu * (gradUsing[0][2] + gradUsing[2][0]);

                    sigma[1][0] = sigma[0][1];
                    sigma[1][1] = 2 * mu * gradUsing[1][1] - psing;
                    sigma[1][2] = mu * (gradUsing[1][2] + gradUsing[2][0]);""")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, NULL, NULL);
    int bad = 0, N = 20;
    auto a = make_sphere({0., 0., 0.}, 1., 0.), b = make_sphere({0., 0., 2.25}, 1.2, 0.);
    auto p = make_particle_with_velocity(a, {0., 0., 0.}, {0., 0., 0.}), q = make_particle_with_velocity(b, {0., 0., -1.}, {0., 0., 0.});
    singularity::singularity<decltype(a), 3> s(p, q, .01);
    auto f = singularity::compute_singular_forces_on_part2(s, N);
    double th = std::asin(s.cutoff_dist_ * s.H2_), F[3] = {0, 0, 0}, G[3] = {0, 0, 0}, R = 1 / s.H2_;
    for (int i = 1; i <= N; ++i) for (int j = 1; j <= N; ++j) {
        double ci = std::cos(i * th / N), si = std::sin(i * th / N), cj = std::cos(2 * M_PI * j / N), sj = std::sin(2 * M_PI * j / N);
        geometry::position<double, 3> x{si * cj * R, si * sj * R, s.contact_length_ + (1 - ci) * R};
        double n[3] = {si * cj, si * sj, -ci};
        auto g = s.get_grad_u_sing_ref(x); double pr = s.get_p_sing_ref(x);
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
            F[k] += 2 * M_PI * th / N / N * R * R * si * (g[k][l] + g[l][k] - (k == l) * pr) * n[l];
    }
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) G[k] += s.base_[l][k] * F[l];
    for (int k = 0; k < 3; ++k) if (!(std::abs(f[k] - G[k]) < 1e-9 * (1 + std::abs(G[k])))) { std::printf("force %d: %g instead of %g\n", k, f[k], G[k]); bad = 1; }
    PetscFinalize();
    return bad;
}
'''
