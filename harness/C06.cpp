// C06: arithmetic of position, vector, velocity and force
#include <cafes.hpp>
using namespace cafes;
template<class X, class E> static X get(E const *p, std::size_t n) { X r; for (std::size_t d = 0; d < n; ++d) r[d] = p[d]; return r; }
template<class X, class E> static void put(X const &x, E *o, std::size_t n) { for (std::size_t d = 0; d < n; ++d) o[d] = x[d]; }
// every operator: result in o; the operands are written back to a1/b1 so that the frame can be stated
#define BIN(NAME, D, TA, EA, TB, EB, TO, EO, EXPR)                                                                     \
    extern "C" void NAME##_##D(EA const *pa, EB const *pb, EO *o, EA *a1, EB *b1) {                                    \
        auto a = get<TA>(pa, D); auto b = get<TB>(pb, D); auto r = EXPR; static_assert(std::is_same<decltype(r), TO>::value, "result type"); \
        put(r, o, D); put(a, a1, D); put(b, b1, D); }
#define BINS(NAME, D, TA, EA, TB, TO, EO, EXPR)                                                                        \
    extern "C" void NAME##_##D(EA const *pa, TB s, EO *o, EA *a1) {                                                    \
        auto a = get<TA>(pa, D); TB const b = s; auto r = EXPR; static_assert(std::is_same<decltype(r), TO>::value, "result type"); put(r, o, D); put(a, a1, D); }
#define UN(NAME, D, TA, EA, EO, EXPR)                                                                                  \
    extern "C" void NAME##_##D(EA const *pa, EO *o, EA *a1) { auto a = get<TA>(pa, D); auto r = EXPR; put(r, o, D); put(a, a1, D); }
template<std::size_t D> using posd = geometry::position<double, D>;
template<std::size_t D> using posi = geometry::position<int, D>;
template<std::size_t D> using vecd = geometry::vector<double, D>;
template<std::size_t D> using vel = physics::velocity<D>;
template<std::size_t D> using forc = physics::force<D>;
template<std::size_t D> using arr = std::array<double, D>;
template<std::size_t D> using arri = std::array<int, D>;
template<class A, class F> static A tap(A &a, F f) { A &r = f(a); if (&r != &a) r[0] = 0. / 0.; return a; }
// in-place forms: o = left operand afterwards (and the returned reference is the left operand)
#define INP(NAME, D, TA, EA, TB, EB, OP)                                                                               \
    extern "C" void NAME##_##D(EA const *pa, EB const *pb, EA *o, EB *b1, int *ref) {                                  \
        auto a = get<TA>(pa, D); auto b = get<TB>(pb, D); auto &r = (a OP b); *ref = (&r == &a); put(a, o, D); put(b, b1, D); }
#define INPS(NAME, D, TA, EA, TB, OP)                                                                                  \
    extern "C" void NAME##_##D(EA const *pa, TB s, EA *o, int *ref) {                                                  \
        auto a = get<TA>(pa, D); TB const b = s; auto &r = (a OP b); *ref = (&r == &a); put(a, o, D); }
#define ALL(D)                                                                                                         \
    INP(pos_mul, D, posd<D>, double, posd<D>, double, *=) INP(pos_mula, D, posd<D>, double, arr<D>, double, *=)        \
    INP(pos_sub, D, posd<D>, double, posd<D>, double, -=) INP(pos_add, D, posd<D>, double, posd<D>, double, +=)        \
    INP(pos_addv, D, posd<D>, double, vel<D>, double, +=) INP(pos_diva, D, posd<D>, double, arr<D>, double, /=)        \
    INPS(pos_adds, D, posd<D>, double, double, +=) INPS(pos_subs, D, posd<D>, double, double, -=)                      \
    INPS(pos_divs, D, posd<D>, double, double, /=)                                                                     \
    INP(posi_mul, D, posi<D>, int, posi<D>, int, *=) INP(posi_mula, D, posi<D>, int, arri<D>, int, *=)                 \
    INP(posi_sub, D, posi<D>, int, posi<D>, int, -=) INP(posi_add, D, posi<D>, int, posi<D>, int, +=)                  \
    INPS(posi_adds, D, posi<D>, int, int, +=) INPS(posi_subs, D, posi<D>, int, int, -=)                                \
    INPS(posi_divs, D, posi<D>, int, int, /=)                                                                          \
    BIN(bpos_addv, D, posd<D>, double, vel<D>, double, posd<D>, double, a + b)                                         \
    BINS(bpos_adds, D, posd<D>, double, double, posd<D>, double, a + b)                                                \
    BIN(bpos_add, D, posd<D>, double, posd<D>, double, posd<D>, double, a + b)                                         \
    BINS(bpos_subs, D, posd<D>, double, double, posd<D>, double, a - b)                                                \
    BIN(bpos_sub, D, posd<D>, double, posd<D>, double, posd<D>, double, a - b)                                         \
    BIN(bpos_mul, D, posd<D>, double, posd<D>, double, posd<D>, double, a * b)                                         \
    BIN(bpos_mula, D, posd<D>, double, arr<D>, double, posd<D>, double, a * b)                                         \
    BIN(bpos_imula, D, posi<D>, int, arr<D>, double, posd<D>, double, a * b)                                           \
    BIN(bpos_imuld, D, posi<D>, int, posd<D>, double, posd<D>, double, a * b)                                          \
    BIN(bpos_diva, D, posd<D>, double, arr<D>, double, posd<D>, double, a / b)                                         \
    BINS(bpos_divs, D, posd<D>, double, double, posd<D>, double, a / b)                                                \
    BIN(bposi_add, D, posi<D>, int, posi<D>, int, posi<D>, int, a + b)                                                 \
    BIN(bposi_sub, D, posi<D>, int, posi<D>, int, posd<D>, double, a - b)                                              \
    BIN(bposi_mul, D, posi<D>, int, posi<D>, int, posi<D>, int, a * b)                                                 \
    BINS(bposi_adds, D, posi<D>, int, int, posi<D>, int, a + b)                                                        \
    BINS(bposi_subs, D, posi<D>, int, int, posi<D>, int, a - b)                                                        \
    UN(pos_ceil, D, posd<D>, double, int, geometry::ceil(a)) UN(pos_floor, D, posd<D>, double, int, geometry::floor(a)) \
    UN(pos_fromi, D, posi<D>, int, double, posd<D>(a)) UN(pos_toi, D, posd<D>, double, int, posi<D>(a))                \
    INP(vec_mul, D, vecd<D>, double, vecd<D>, double, *=) INPS(vec_muls, D, vecd<D>, double, double, *=)               \
    INP(vec_add, D, vecd<D>, double, vecd<D>, double, +=) INP(vec_sub, D, vecd<D>, double, vecd<D>, double, -=)        \
    INP(vec_addv, D, vecd<D>, double, vel<D>, double, +=) INP(vec_subv, D, vecd<D>, double, vel<D>, double, -=)        \
    INPS(vec_divs, D, vecd<D>, double, double, /=)                                                                     \
    BINS(bvec_muls, D, vecd<D>, double, double, vecd<D>, double, a * b)                                                \
    BINS(bvec_smul, D, vecd<D>, double, double, vecd<D>, double, b * a)                                                \
    BIN(bvec_add, D, vecd<D>, double, vecd<D>, double, vecd<D>, double, a + b)                                         \
    UN(bvec_neg, D, vecd<D>, double, double, -a)                                                                       \
    BIN(bvec_subv, D, vecd<D>, double, vel<D>, double, vecd<D>, double, a - b)                                         \
    BIN(bvel_subv, D, vel<D>, double, vecd<D>, double, vecd<D>, double, a - b)                                         \
    BINS(bvec_divs, D, vecd<D>, double, double, vecd<D>, double, a / b)                                                \
    BINS(bvec_divi, D, vecd<D>, double, int, vecd<D>, double, a / b)                                                   \
    UN(vec_fromp, D, posd<D>, double, double, vecd<D>(a)) UN(vec_fromv, D, vel<D>, double, double, vecd<D>(a))         \
    INP(vel_add, D, vel<D>, double, vel<D>, double, +=)                                                                \
    BIN(bvel_add, D, vel<D>, double, vel<D>, double, vel<D>, double, a + b)                                            \
    INP(for_add, D, forc<D>, double, forc<D>, double, +=) INP(for_sub, D, forc<D>, double, forc<D>, double, -=)        \
    INPS(for_muls, D, forc<D>, double, double, *=) INPS(for_adds, D, forc<D>, double, double, +=)                      \
    BINS(bfor_muls, D, forc<D>, double, double, forc<D>, double, a * b)                                                \
    BINS(bfor_smul, D, forc<D>, double, double, forc<D>, double, b * a)                                                \
    BINS(bfor_adds, D, forc<D>, double, double, forc<D>, double, a + b)                                                \
    BINS(bfor_sadd, D, forc<D>, double, double, forc<D>, double, b + a)                                                \
    BIN(bfor_add, D, forc<D>, double, forc<D>, double, forc<D>, double, a + b)                                         \
    BIN(bfor_sub, D, forc<D>, double, forc<D>, double, forc<D>, double, a - b)                                         \
    extern "C" void for_fill_##D(double x, double *o) { forc<D> f; f.fill(x); put(f, o, D); }
ALL(2)
ALL(3)
extern "C" void ctor_2(double x, double y, double *o)
{
    posd<2> p{x, y}; vecd<2> v{x, y}; vel<2> u{x, y}; forc<2> f{x, y};
    put(p, o, 2); put(v, o + 2, 2); put(u, o + 4, 2); put(f, o + 6, 2);
}
extern "C" void ctor_3(double x, double y, double z, double *o)
{
    posd<3> p{x, y, z}; vecd<3> v{x, y, z}; vel<3> u{x, y, z}; forc<3> f{x, y, z};
    put(p, o, 3); put(v, o + 3, 3); put(u, o + 6, 3); put(f, o + 9, 3);
}
