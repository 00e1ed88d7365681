// C30: the singular fields in the global frame
#include "singfields.hpp"
#define ALL(D)                                                                                                                       \
    extern "C" void field_##D(double const *q, double const *b, double const *o, vc_fn *f, double const *x, double *u, double *g, double *p, double *ul, int *bad) \
    {                                                                                                                                  \
        auto S = contact<D>(q, b, o, f);                                                                                                 \
        geometry::position<double, D> y; for (int d = 0; d < D; ++d) y[d] = x[d];                                                        \
        auto U = S.get_u_sing(y); auto G = S.get_grad_u_sing(y); p[0] = S.get_p_sing(y); auto L = S.get_u_sing_ref(y);                    \
        for (int d = 0; d < D; ++d) { u[d] = U[d]; ul[d] = L[d]; for (int e = 0; e < D; ++e) g[D * d + e] = G[d][e]; }                     \
        bad[0] = vc_wrong;                                                                                                               \
    }
ALL(2)
ALL(3)
