// vectors over the arrays the verifier (or native replay) passes in
#pragma once
#include <vector>
#ifdef CAFES_VC_SYMBOLIC
extern "C" void vc_take(void *handle, void const *data, std::size_t n);
extern "C" void vc_each(void const *data, void (*cb)(int const *));
// hands a result vector to the specification
template<class T> static void vc_out(void *handle, std::vector<T> const &v) { vc_take(handle, v.p_, v.n_); }
// calls cb on every element of a traced vector
template<class T> static void vc_all(std::vector<T> const &v, void (*cb)(int const *)) { vc_each(v.p_, cb); }
// vector over n elements at p
template<class T> static std::vector<T> vc_in(void const *p, int n) { return std::vector<T>(std::vc_view{}, (T *)p, (std::size_t)n); }
template<class T> struct vc_io { std::vector<T> v; vc_io(void *p, int n) : v(std::vc_view{}, (T *)p, (std::size_t)n) {} };
// vector of n vectors: the table holds (pointer, size, capacity) records
template<class T> struct vc_jag { std::vector<std::vector<T>> v; vc_jag(void *tab, int const *, int n) : v(std::vc_view{}, (std::vector<T> *)tab, (std::size_t)n) {} };
#else
#include <cstring>
template<class T> static void vc_out(void *handle, std::vector<T> const &v) { struct H { long n; char *p; } *h = (H *)handle; h->n = v.size(); std::memcpy(h->p, v.data(), v.size() * sizeof(T)); }
template<class T> static void vc_all(std::vector<T> const &v, void (*cb)(int const *)) { for (auto const &q : v) { int x[T::dimensions]; for (std::size_t d = 0; d < T::dimensions; ++d) x[d] = q[d]; cb(x); } }
template<class T> static std::vector<T> vc_in(void const *p, int n) { return std::vector<T>((T const *)p, (T const *)p + n); }
template<class T> struct vc_io { std::vector<T> v; T *q; vc_io(void *p, int n) : v((T *)p, (T *)p + n), q((T *)p) {} ~vc_io() { std::copy(v.begin(), v.end(), q); } };
template<class T> struct vc_jag
{
    std::vector<std::vector<T>> v; T **q;
    vc_jag(void *tab, int const *sz, int n) : q((T **)tab) { for (int i = 0; i < n; ++i) v.push_back(std::vector<T>(q[i], q[i] + sz[i])); }
    ~vc_jag() { for (std::size_t i = 0; i < v.size(); ++i) std::copy(v[i].begin(), v[i].end(), q[i]); }
};
#endif
