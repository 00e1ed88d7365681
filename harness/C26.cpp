// C26: forces of the singular fields.
#include "singfields.hpp"
#define ALL(D)                                                                                                                       \
    extern "C" void on_part_##D(int second, int N, double const *q, double const *b, double const *o, vc_fn *f, double *r, int *bad)    \
    {                                                                                                                                  \
        auto S = contact<D>(q, b, o, f);                                                                                                 \
        physics::force<D> F = second ? singularity::compute_singular_forces_on_part2(S, N) : singularity::compute_singular_forces_on_part1(S, N); \
        for (int d = 0; d < D; ++d) r[d] = F[d];                                                                                         \
        bad[0] = vc_wrong;                                                                                                               \
    }
ALL(2)
ALL(3)
