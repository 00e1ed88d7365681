// C14 / C16: Dirichlet values on vectors, right-hand sides
#include <petsc.h>
#include "petsc_stub.hpp"
#include <cafes.hpp>
using namespace cafes;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
template<std::size_t D> static fem::dirichlet_conditions<D> BC(condition_fn const *f)
{
    fem::dirichlet_conditions<D> bc{};
    for (std::size_t i = 0; i < 2 * D; ++i) for (std::size_t d = 0; d < D; ++d) bc.conditions_[i][d] = f[D * i + d];
    return bc;
}
#define ALL(D)                                                                                                                   \
    extern "C" void bcrhs_##D(int const *g, double const *h, condition_fn const *bc, AR<D> y)                                     \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vy(&dm, D, y, y); fem::SetDirichletOnRHS<D>(vy.v, BC<D>(bc), H<D>(h)); }                 \
    extern "C" void bcnull_##D(int const *g, condition_fn const *bc, AR<D> y)                                                     \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vy(&dm, D, y, y); fem::SetNullDirichletOnRHS<D>(vy.v, BC<D>(bc)); }                      \
    extern "C" void bcvec_##D(int const *g, condition_fn const *bc, AR<D> x, AR<D> y)                                             \
    { _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vx(&dm, D, x, x), vy(&dm, D, y, y); fem::SetDirichletOnVec<D>(vx.v, vy.v, BC<D>(bc)); }   \
    extern "C" void rhs_##D(int const *g, double const *h, condition_fn const *f, AR<D> y)                                        \
    {                                                                                                                            \
        _p_DM dm; vc_dm<D>(dm, g); vc_vec<D> vy(&dm, D, y, y); fem::rhs_conditions<D> r;                                          \
        for (int d = 0; d < D; ++d) r.conditions_[d] = f[d];                                                                     \
        fem::set_rhs_impl<D>(vy.v, r, H<D>(h), fem::kernel_func_on_rhs);                                                         \
    }                                                                                                                            \
    extern "C" bool hascond_##D(condition_fn const *f) { fem::rhs_conditions<D> r; for (int d = 0; d < D; ++d) r.conditions_[d] = f[d]; return r.has_condition(); }
ALL(2)
ALL(3)
