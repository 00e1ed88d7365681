// C26: forces of the singular fields over the pairs of particles.  A contact is known by the numbers of its particles; whether
// it is singular and the forces on its two particles (the other contracts of C26) are arbitrary.
#include <petsc.h>
#include "petsc_stub.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
typedef double ***TAB;
static TAB vc_sing, vc_f1, vc_f2; static double const *vc_h; static int vc_wrong, vc_N;
namespace cafes { namespace singularity {
#define VC_SING(D)                                                                                                                  \
    template<> struct singularity<vc_shape<D>, D>                                                                                    \
    {                                                                                                                                \
        int i, j; bool is_singularity_;                                                                                              \
        singularity(vc_part<D> const &p, vc_part<D> const &q, double h, double = 4, double = .2) : i(p.surface()), j(q.surface()), is_singularity_(vc_sing[j][i][0] > 0) { if (h != vc_h[0]) ++vc_wrong; } \
    };                                                                                                                               \
    template<> auto compute_singular_forces_on_part1<vc_shape<D>>(singularity<vc_shape<D>, D> s, std::size_t N) { if ((int)N != vc_N) ++vc_wrong; physics::force<D> f; for (int d = 0; d < D; ++d) f[d] = vc_f1[s.j][s.i][d]; return f; } \
    template<> auto compute_singular_forces_on_part2<vc_shape<D>>(singularity<vc_shape<D>, D> s, std::size_t N) { if ((int)N != vc_N) ++vc_wrong; physics::force<D> f; for (int d = 0; d < D; ++d) f[d] = vc_f2[s.j][s.i][d]; return f; }
VC_SING(2)
VC_SING(3)
} }
template<std::size_t D> struct Inner { std::array<double, D> h; };
template<std::size_t D> struct Prob { Inner<D> *ctx; };
template<std::size_t D> struct Ctx { Prob<D> &problem; std::vector<vc_part<D>> &particles; };
template<std::size_t D> static int pairs(int own, int n, int N, double const *h, TAB sg, TAB f1, TAB f2, double const *old, double *force, int *bad)
{
    const double z[4] = {0, 0, 0, 0};
    vc_sing = sg; vc_f1 = f1; vc_f2 = f2; vc_h = h; vc_N = N; vc_wrong = 0;
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) ps.push_back(vc_mkpart<D>(i, z, z, z, z, old + D * i, 1.));
    Inner<D> in; for (std::size_t d = 0; d < D; ++d) in.h[d] = h[d];
    int e;
    if (own)
    {
        Prob<D> p{&in}; Ctx<D> ctx{p, ps};
        e = singularity::compute_singular_forces<D>(ctx, N);
        for (int i = 0; i < n; ++i) for (std::size_t d = 0; d < D; ++d) force[D * i + d] = ps[i].force_[d];
    }
    else
    {
        std::vector<physics::force<D>> f(n);
        for (int i = 0; i < n; ++i) for (std::size_t d = 0; d < D; ++d) f[i][d] = old[D * i + d];
        e = singularity::compute_singular_forces<D, vc_shape<D>>(ps, f, in.h, N);
        for (int i = 0; i < n; ++i) for (std::size_t d = 0; d < D; ++d) force[D * i + d] = f[i][d];
    }
    bad[0] = vc_wrong; return e;
}
#define ALL(D) extern "C" int pairs_##D(int own, int n, int N, double const *h, TAB sg, TAB f1, TAB f2, double const *old, double *force, int *bad) \
    { return own ? pairs<D>(1, n, N, h, sg, f1, f2, old, force, bad) : pairs<D>(0, n, N, h, sg, f1, f2, old, force, bad); }
ALL(2)
ALL(3)
