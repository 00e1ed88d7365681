// C16: right-hand sides on (composite) vectors
#include <petsc.h>
#include "petsc_stub.hpp"
#define VC_GLOBAL_OWN
#include "petsc_vecs.hpp"
static Vec vc_tmp; static int vc_tmp_out;     // the global vector that can be taken
extern "C" {
PetscErrorCode DMGetGlobalVector(DM d, Vec *v) { if (d != vc_tmp->dm) ++vc_misuse; ++vc_tmp_out; *v = vc_tmp; return PETSC_SUCCESS; }
PetscErrorCode DMRestoreGlobalVector(DM, Vec *v) { if (*v == vc_tmp) --vc_tmp_out; return PETSC_SUCCESS; }
}
#include <fem/rhs.hpp>
#include <fem/bc.hpp>
#include <fem/mesh.hpp>
#include <fem/matrixFree.hpp>
#include <problem/context.hpp>
#include <problem/options.hpp>
// what setup_RHS asks its callees for, in order
static struct vc_log { int n, op[4]; void *vec[4], *dm[4]; int entry; const double *h[4]; const void *cond[4]; } LG;
static inline int vc_did(int op, void *v, void *d, const double *h, const void *c) { int k = LG.n++; if (k < 4) { LG.op[k] = op; LG.vec[k] = v; LG.dm[k] = d; LG.h[k] = h; LG.cond[k] = c; } return 0; }
namespace cafes { namespace fem {
template<std::size_t Ndof, std::size_t Ndm, std::size_t D> PetscErrorCode vc_set_rhs(DM dm, Vec rhs, rhs_conditions<Ndof> const &c, std::array<double, D> const &h) { vc_did(Ndm == 1 ? 1 : 9, rhs, dm, h.data(), &c); return PETSC_SUCCESS; }
template<std::size_t D> PetscErrorCode vc_SetDirichletOnRHS(petsc::petsc_vec<D> &x, dirichlet_conditions<D> bc, std::array<double, D> const &h)
{ vc_did(2, x.v_entry_, x.dm_, h.data(), (void *)bc.conditions_[0][0]); return PETSC_SUCCESS; }
} }
#define set_rhs vc_set_rhs
#define SetDirichletOnRHS vc_SetDirichletOnRHS
#include <problem/stokes.hpp>
#undef set_rhs
#undef SetDirichletOnRHS
#include <cafes.hpp>
using namespace cafes;
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> static std::array<double, D> H(double const *h) { std::array<double, D> r; for (std::size_t d = 0; d < D; ++d) r[d] = h[d]; return r; }
#define ALL(D)                                                                                                                    \
    extern "C" int setrhs_##D(int comp, int const *g, int const *gv, double const *h, condition_fn const *f, AR<D> t, AR<D> y, AR<D> yp, AR<D> v0, AR<D> v1, int *mis) \
    {                                                                                                                             \
        _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, (double *)0, (double *)0); vc_composite(c, a, b);          \
        _p_Vec t1{(void *)t, &a, {0, 0}}, y1{(void *)y, &a, {0, 0}}, y2{(void *)yp, &b, {0, 0}}, T{0, &c, {&t1, 0}}, Y{0, &c, {&y1, &y2}}; \
        vc_tmp = comp ? &T : &t1; vc_tmp_out = 0; fem::rhs_conditions<D> r; for (int d = 0; d < D; ++d) r.conditions_[d] = f[d];    \
        int e = comp ? fem::set_rhs<D, 1>(&c, &Y, r, H<D>(h)) : fem::set_rhs<D, 1>(&a, &y1, r, H<D>(h)); mis[0] = vc_misuse; mis[1] = vc_tmp_out; mis[2] = vc_pools[0].busy[0] + vc_pools[0].busy[1]; return e; \
    }                                                                                                                             \
    extern "C" int setup_##D(int const *g, int const *gv, double const *h, condition_fn const *f, condition_fn const *bc, int *o)        \
    {                                                                                                                             \
        using P = problem::stokes<D>; alignas(16) static char buf[sizeof(P)]; P *s = (P *)buf; LG = vc_log{};                        \
        _p_DM a, b, c; vc_mesh<D>(0, a, gv, (double *)0, (double *)0); vc_mesh<D>(1, b, g, (double *)0, (double *)0); vc_composite(c, a, b); \
        _p_Vec y1{0, &a, {0, 0}}, y2{0, &b, {0, 0}}, Y{0, &c, {&y1, &y2}};                                                         \
        problem::context<D> ctx{&c, H<D>(h), nullptr};                                           \
        s->ctx = &ctx; s->rhs = &Y; for (int d = 0; d < D; ++d) s->rhsc_.conditions_[d] = f[d];                                    \
        ctx.bc_.conditions_[0][0] = bc[0];                                                                                        \
        int e = s->P::setup_RHS(); o[0] = LG.n;                                                                                    \
        for (int k = 0; k < 2; ++k) { o[1 + 2 * k] = LG.op[k]; o[2 + 2 * k] = LG.op[k] == 1 ? LG.vec[k] == &Y && LG.dm[k] == &c && LG.h[k] == ctx.h.data() && LG.cond[k] == &s->rhsc_ : LG.op[k] == 2 ? LG.vec[k] == &y1 && LG.dm[k] == &a && LG.h[k] == ctx.h.data() && LG.cond[k] == (void *)bc[0] : 0; } \
        return e;                                                                                                                 \
    }
ALL(2)
ALL(3)
