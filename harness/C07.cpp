// C07: cross products
#include <cafes.hpp>
using namespace cafes;
template<class X> static X get(double const *p, std::size_t n) { X r; for (std::size_t d = 0; d < n; ++d) r[d] = p[d]; return r; }
template<class X> static void put(X const &x, double *o, std::size_t n) { for (std::size_t d = 0; d < n; ++d) o[d] = x[d]; }
template<std::size_t D> using P = geometry::position<double, D>;
template<std::size_t D> using V = geometry::vector<double, D>;
#define C3(N, T) extern "C" void N(double const *a, double const *b, double *o, double *ab) { auto x = get<T<3>>(a, 3); auto y = get<T<3>>(b, 3); \
    auto r = geometry::cross_product(x, y); static_assert(std::is_same<decltype(r), T<3>>::value, "type"); put(r, o, 3); put(x, ab, 3); put(y, ab + 3, 3); }
C3(c3_p, P) C3(c3_v, V)
#define C2(N, T1, T2) extern "C" double N(double const *a, double const *b, double *ab) { auto x = get<T1<2>>(a, 2); auto y = get<T2<2>>(b, 2); \
    auto r = geometry::cross_product(x, y); put(x, ab, 2); put(y, ab + 2, 2); return r; }
C2(c2_pp, P, P) C2(c2_vv, V, V) C2(c2_pv, P, V) C2(c2_vp, V, P)
#define CS(N, T) \
    extern "C" void sl_##N(double const *w, double const *b, double *o, double *ab) { auto x = get<T<2>>(b, 2); put(geometry::cross_product(w[0], x), o, 2); ab[0] = w[0]; put(x, ab + 1, 2); } \
    extern "C" void sr_##N(double const *w, double const *b, double *o, double *ab) { auto x = get<T<2>>(b, 2); put(geometry::cross_product(x, w[0]), o, 2); ab[0] = w[0]; put(x, ab + 1, 2); } \
    extern "C" void al_##N(double const *w, double const *b, double *o, double *ab) { T<1> z; z[0] = w[0]; auto x = get<T<2>>(b, 2); put(geometry::cross_product(z, x), o, 2); ab[0] = z[0]; put(x, ab + 1, 2); } \
    extern "C" void ar_##N(double const *w, double const *b, double *o, double *ab) { T<1> z; z[0] = w[0]; auto x = get<T<2>>(b, 2); put(geometry::cross_product(x, z), o, 2); ab[0] = z[0]; put(x, ab + 1, 2); }
CS(p, P) CS(v, V)
