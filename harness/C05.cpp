// C05: boxes
#include <cafes.hpp>
using namespace cafes;
template<class T, std::size_t D> static geometry::box<T, D> mk(T const *b)
{
    geometry::box<T, D> r;
    for (std::size_t d = 0; d < D; ++d) { r.bottom_left[d] = b[d]; r.upper_right[d] = b[D + d]; }
    return r;
}
template<class T, std::size_t D> static void put(geometry::box<T, D> const &r, T *o)
{
    for (std::size_t d = 0; d < D; ++d) { o[d] = r.bottom_left[d]; o[D + d] = r.upper_right[d]; }
}
template<class T, std::size_t D> static geometry::position<T, D> pt(T const *p)
{
    geometry::position<T, D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = p[d];
    return r;
}
#define ALL(T, N, D)                                                                                                   \
    extern "C" void len_##N##D(T const *b, double *o) { auto x = mk<T, D>(b); for (std::size_t d = 0; d < D; ++d) o[d] = x.length(d); o[D] = x.length(); }  \
    extern "C" bool inside_##N##D(T const *b, T const *p) { return geometry::point_inside(mk<T, D>(b), pt<T, D>(p)); } \
    extern "C" bool intersect_##N##D(T const *a, T const *b) { return geometry::intersect(mk<T, D>(a), mk<T, D>(b)); } \
    extern "C" bool check_##N##D(T const *a, T const *b) { return geometry::check_box_inside(mk<T, D>(a), mk<T, D>(b)); } \
    extern "C" void overlap_##N##D(T const *a, T const *b, T *o) { put<T, D>(geometry::overlap_box(mk<T, D>(a), mk<T, D>(b)), o); } \
    extern "C" void binside_##N##D(T const *a, T const *b, T *o) { put<T, D>(geometry::box_inside(mk<T, D>(a), mk<T, D>(b)), o); } \
    extern "C" void union_##N##D(T const *a, T const *b, T *o) { put<T, D>(geometry::union_box(mk<T, D>(a), mk<T, D>(b)), o); } \
    extern "C" int points_##N##D(T const *a, T *o) { auto p = mk<T, D>(a).get_box_points(); int n = 0; for (auto const &x : p) { if (n < (1 << D)) for (std::size_t d = 0; d < D; ++d) o[n * D + d] = x[d]; n++; } return n; }
ALL(int, i, 2)
ALL(int, i, 3)
ALL(double, d, 2)
ALL(double, d, 3)
