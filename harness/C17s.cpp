// C17: counting the nodes, surface points and sub-points of all particles.  The lists of nodes and of surface points of
// each particle (contracts of find_fluid_points_insides, find_surf_points_insides, find_radial_surf_points_insides) are arbitrary.
#include <petsc.h>
#include "mpi.hpp"
#include "petsc_stub.hpp"
#include "vec.hpp"
#include <cafes.hpp>
using namespace cafes;
typedef int (*pred)(double const *);
template<std::size_t D> using P = geometry::position<double, D>;
template<std::size_t D> using PI = geometry::position<int, D>;
template<std::size_t D> using SP = std::pair<PI<D>, P<D>>;
template<std::size_t D> using VD = geometry::vector<double, D>;
// calls with other arguments than expected are counted in vc_wrong; lists of the particles
static int vc_wrong; static int const *vc_boxes, *vc_b, *vc_nf; static pred vc_inside; static double const *vc_h, *vc_ce, *vc_dp; static double *vc_sfc; static void *vc_sp, *vc_rv, *vc_fl;
template<std::size_t D> struct anyshape
{
    using dimension_type = std::integral_constant<std::size_t, D>;
    P<D> center_; std::array<double, D> shape_factors_; long id;
    bool contains(P<D> const &p) const { double x[D + 1]; x[0] = id; for (std::size_t d = 0; d < D; ++d) x[d + 1] = p[d]; return vc_inside(x); }
    geometry::box<int, D> bounding_box(std::array<double, D> const &h) const
    {
        geometry::box<int, D> r; for (std::size_t d = 0; d < D; ++d) { if (h[d] != vc_h[d]) ++vc_wrong; r.bottom_left[d] = vc_boxes[2 * D * id + d]; r.upper_right[d] = vc_boxes[2 * D * id + D + d]; }
        return r;
    }
    // the surface points: a list of as many points as the number of the particle, which tells it apart
    std::vector<P<D>> surface(double dp) const { if (dp != *vc_dp) ++vc_wrong; return vc_in<P<D>>(vc_sfc, id); }
    double surface_area() const; double volume() const; double Cd_R() const; double Ci_R() const;
};
template<std::size_t D> static void common(int i, geometry::box<int, D> const &b, std::array<double, D> const &h)
{
    for (std::size_t d = 0; d < D; ++d)
    {
        int lo = vc_b[d], hi = vc_b[D + d], pl = vc_boxes[2 * D * i + d], ph = vc_boxes[2 * D * i + D + d];
        if (b.bottom_left[d] != (lo < pl ? pl : lo) || b.upper_right[d] != (ph < hi ? ph : hi) || h[d] != vc_h[d]) ++vc_wrong;
    }
}
template<std::size_t D> static std::vector<PI<D>> nodes(particle<anyshape<D>> const &p, geometry::box<int, D> const &b, std::array<double, D> const &h)
{ int i = p.shape_factors_[0]; common<D>(i, b, h); return vc_in<PI<D>>(vc_fl, vc_nf[i]); }
template<std::size_t D> static std::vector<SP<D>> surf(std::vector<P<D>> const &s, geometry::box<int, D> const &b, std::array<double, D> const &h)
{ int i = s.size(); common<D>(i, b, h); auto const &v = (*(std::vector<std::vector<SP<D>>> *)vc_sp)[i]; return vc_in<SP<D>>(v.data(), v.size()); }
template<std::size_t D> static std::vector<VD<D>> radial(std::vector<P<D>> const &s, geometry::box<int, D> const &b, std::array<double, D> const &h, P<D> const &c)
{
    int i = s.size(); common<D>(i, b, h); for (std::size_t d = 0; d < D; ++d) if (c[d] != vc_ce[D * i + d]) ++vc_wrong;
    auto const &v = (*(std::vector<std::vector<VD<D>>> *)vc_rv)[i]; return vc_in<VD<D>>(v.data(), v.size());
}
namespace cafes
{
#define SPEC(D)                                                                                                                                                    \
    template<> auto find_fluid_points_insides(particle<anyshape<D>> const &p, geometry::box<int, D> const &b, std::array<double, D> const &h) { return nodes<D>(p, b, h); } \
    template<> auto find_surf_points_insides<D>(std::vector<P<D>> const &s, geometry::box<int, D> const &b, std::array<double, D> const &h) { return surf<D>(s, b, h); }  \
    template<> auto find_radial_surf_points_insides<D>(std::vector<P<D>> const &s, geometry::box<int, D> const &b, std::array<double, D> const &h, P<D> c) { return radial<D>(s, b, h, c); }
SPEC(2)
SPEC(3)
}
// lists of lists that only record: the length of each list, and its entry of number k (k arbitrary)
template<class T> struct recorder
{
    int *n; double *rec; int w, k, sized;
    struct one
    {
        recorder *r; std::size_t i;
        template<class It> void assign(It a, It b)
        {
            r->n[i] = b - a;
            if (r->k < b - a) put(a[r->k]);
        }
        template<class V> one &operator=(V const &v) { assign(v.begin(), v.end()); return *this; }
        std::size_t size() const { return r->n[i]; }
        template<std::size_t D> void put(std::pair<PI<D>, P<D>> const &x) { for (std::size_t d = 0; d < D; ++d) { r->rec[r->w * i + d] = x.first[d]; r->rec[r->w * i + D + d] = x.second[d]; } }
        template<std::size_t D> void put(VD<D> const &x) { for (std::size_t d = 0; d < D; ++d) r->rec[r->w * i + d] = x[d]; }
    };
    void resize(std::size_t m) { sized = m; for (std::size_t i = 0; i < m; ++i) n[i] = 0; }
    one operator[](std::size_t i) { return {this, i}; }
};
template<std::size_t D> static int run(int n, int const *b, int const *pb, double const *h, double const *ce, double dp, int scale, pred in, int const *nf, int const *sz, void *sp, void *rv, int const *onb, int const *onum, int k, int *ns, double *rs, int *nr, double *rr, int *nb, int *num, int *bad)
{
    vc_wrong = 0; vc_boxes = pb; vc_b = b; vc_nf = nf; vc_inside = in; vc_h = h; vc_ce = ce; vc_dp = &dp;
#ifdef CAFES_VC_SYMBOLIC
    vc_sfc = rr; vc_fl = ns;
#else
    std::vector<double> junk(D * (n + 100)); vc_sfc = junk.data(); vc_fl = junk.data();
#endif
    vc_jag<SP<D>> S(sp, sz, n); vc_jag<VD<D>> R(rv, sz, n); vc_sp = &S.v; vc_rv = &R.v;
    std::vector<particle<anyshape<D>>> ps; ps.reserve(n);
    for (int i = 0; i < n; ++i)
    {
        anyshape<D> s; s.id = i; for (std::size_t d = 0; d < D; ++d) { s.center_[d] = ce[D * i + d]; s.shape_factors_[d] = i; }
        physics::velocity<D> v; for (std::size_t d = 0; d < D; ++d) v[d] = 0;
        typename particle<anyshape<D>>::angular_velocity_type w{};
        ps.push_back(particle<anyshape<D>>(s, v, w));
    }
    recorder<SP<D>> A{ns, rs, 2 * int(D), k, 0}; recorder<VD<D>> B{nr, rr, int(D), k, 0}; std::vector<int> N(n), M(n);
    vc_others(0); MP.iother[0] = onb; MP.iother[1] = onum; vc_at(N.data(), M.data());
    geometry::box<int, D> box; std::array<double, D> hh; for (std::size_t d = 0; d < D; ++d) { box.bottom_left[d] = b[d]; box.upper_right[d] = b[D + d]; hh[d] = h[d]; }
    int size = set_materials(ps, A, B, N, M, box, hh, dp, scale);
    for (int i = 0; i < n; ++i) { nb[i] = N[i]; num[i] = M[i]; }
    bad[0] = vc_wrong; bad[1] = MP.bad; bad[2] = MP.k - 2; bad[3] = A.sized - n; bad[4] = B.sized - n; bad[5] = (int)N.size() - n; bad[6] = (int)M.size() - n;
    return size;
}
#define ALL(D) extern "C" int materials_##D(int n, int const *b, int const *pb, double const *h, double const *ce, double dp, int scale, pred in, int const *nf, int const *sz, void *sp, void *rv, int const *onb, int const *onum, int k, int *ns, double *rs, int *nr, double *rr, int *nb, int *num, int *bad) \
    { return run<D>(n, b, pb, h, ce, dp, scale, in, nf, sz, sp, rv, onb, onum, k, ns, rs, nr, rr, nb, num, bad); }
ALL(2)
ALL(3)
