// C30: singular source terms over the pairs of particles.  A contact is known by the numbers of its particles; whether it is singular, its box on
// the grid and what its quadrature over a box (the other contracts of C30) puts at a node are arbitrary.
#include <petsc.h>
#include "petsc_stub.hpp"
#include "petsc_vecs.hpp"
#include "vec.hpp"
#include <cafes.hpp>
#include "particles.hpp"
using namespace cafes;
typedef double ***TAB;
typedef void (*vc_fn)(double const *, double *);
static TAB vc_sg, vc_bx; static double const *vc_h; static int vc_wrong; static int const *vc_node; static vc_fn *vc_what;
namespace cafes { namespace singularity {
template<std::size_t D> struct vc_sing
{
    int i, j; bool is_singularity_;
    vc_sing(vc_part<D> const &p, vc_part<D> const &q, double h) : i(p.surface()), j(q.surface()), is_singularity_(vc_sg[j][i][0] > 0) { if (h != vc_h[0]) ++vc_wrong; }
    geometry::box<int, D> get_box(std::array<double, D> h) { for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d]) ++vc_wrong; int b[2 * D]; for (std::size_t d = 0; d < 2 * D; ++d) b[d] = (int)vc_bx[j][i][d]; return vc_box<int, D>(b); }
};
// what the contact puts at the node: a function of its particles and of the box
template<std::size_t D> static int vc_put(vc_sing<D> const &s, vc_part<D> const &p, vc_part<D> const &q, petsc::petsc_vec<D> &sol, geometry::box<int, D> const &b, std::array<double, D> const &h)
{
    if (p.surface() != s.i || q.surface() != s.j) ++vc_wrong;
    for (std::size_t d = 0; d < D; ++d) if (h[d] != vc_h[d]) ++vc_wrong;
    double x[2 + 2 * D]; x[0] = s.i; x[1] = s.j; for (std::size_t d = 0; d < D; ++d) { x[2 + d] = b.bottom_left[d]; x[2 + D + d] = b.upper_right[d]; }
    geometry::position<int, D> n; for (std::size_t d = 0; d < D; ++d) n[d] = vc_node[d];
    auto u = sol.at(n);
    for (std::size_t d = 0; d < D; ++d) { double r; vc_what[d](x, &r); u[d] += r; }
    return 0;
}
#define VC_SING(D)                                                                                                                  \
    template<> struct singularity<vc_shape<D>, D> : vc_sing<D> { singularity(vc_part<D> const &p, vc_part<D> const &q, double h, double = 4, double = .2) : vc_sing<D>(p, q, h) {} }; \
    template<> PetscErrorCode computesingularST<vc_shape<D>>(singularity<vc_shape<D>, D> s, vc_part<D> const &p, vc_part<D> const &q, petsc::petsc_vec<D> &sol, geometry::box<int, D> b, std::array<double, D> const &h) { return vc_put<D>(s, p, q, sol, b, h); }
VC_SING(2)
VC_SING(3)
template<> PetscErrorCode addsingularity<vc_shape<2>>(singularity<vc_shape<2>, 2> s, vc_part<2> const &p, vc_part<2> const &q, petsc::petsc_vec<2> &sol, geometry::box<int, 2> b, std::array<double, 2> const &h) { return vc_put<2>(s, p, q, sol, b, h); }
} }
template<int D> using AR = typename std::conditional<D == 2, double ***, double ****>::type;
template<std::size_t D> struct Inner { DM dm; std::array<double, D> h; };
template<std::size_t D> struct Prob { Inner<D> *ctx; Vec sol, rhs; };
template<std::size_t D> struct Ctx { Prob<D> &problem; std::vector<vc_part<D>> &particles; };
template<int D> static int pairs(int last, int const *g, int const *gv, double const *h, int n, TAB sg, TAB bx, vc_fn *f, int const *node, AR<D> xv, AR<D> v0, AR<D> v1, int *bad)
{
    const double z[4] = {0, 0, 0, 0};
    vc_sg = sg; vc_bx = bx; vc_h = h; vc_what = f; vc_node = node; vc_wrong = 0;
    _p_DM a, b, c; vc_mesh<D>(0, a, gv, v0, v1); vc_mesh<D>(1, b, g, (AR<D>)0, (AR<D>)0); vc_composite(c, a, b);
    _p_Vec x1{(void *)xv, &a, {0, 0}}, x2{(void *)0, &b, {0, 0}}, x{0, &c, {&x1, &x2}};
    std::vector<vc_part<D>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i) ps.push_back(vc_mkpart<D>(i, z, z, z, z, z, 1.));
    Inner<D> in; in.dm = &c; for (int d = 0; d < D; ++d) in.h[d] = h[d];
    Prob<D> p{&in, &x, &x}; Ctx<D> ctx{p, ps};
    int e;
    if (last) { if constexpr (D == 2) e = singularity::add_singularity_to_last_sol<D>(ctx, &x); else e = -1; }
    else e = singularity::add_singularity_in_fluid<D>(ctx);
    bad[0] = vc_wrong; bad[1] = vc_misuse; return e;
}
#define ONE(nm, last, D) extern "C" int nm##_##D(int const *g, int const *gv, double const *h, int n, TAB sg, TAB bx, vc_fn *f, int const *node, AR<D> xv, AR<D> v0, AR<D> v1, int *bad) { return pairs<D>(last, g, gv, h, n, sg, bx, f, node, xv, v0, v1, bad); }
ONE(fluid, 0, 2)
ONE(fluid, 0, 3)
ONE(last, 1, 2)
