// C02: node lists and local indices of a cell
#include <cafes.hpp>
using namespace cafes;
template<class A> static void put(A const &a, int *o) { for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t d = 0; d < a[i].size(); ++d) *o++ = a[i][d]; }
static DMDALocalInfo mkinfo(int const *g)
{
    DMDALocalInfo info;
    info.dim = 2; info.dof = g[0];
    info.gxs = g[1]; info.gys = g[2]; info.gzs = 0; info.gxm = g[3]; info.gym = g[4]; info.gzm = 1;
    return info;
}
extern "C" {
void elem_2(int const *p, int *o) { geometry::position<int, 2> x{p[0], p[1]}; put(fem::get_element(x), o); }
void elem_3(int const *p, int *o) { geometry::position<int, 3> x{p[0], p[1], p[2]}; put(fem::get_element(x), o); }
void elem4_2(int const *p, int *o) { geometry::position<int, 2> x{p[0], p[1]}; put(fem::get_element_4Q1(x), o); }
void elem4_3(int const *p, int *o) { geometry::position<int, 3> x{p[0], p[1], p[2]}; put(fem::get_element_4Q1(x), o); }
void ind(int const *g, int const *p, int comp, int *o)
{
    DMDALocalInfo info = mkinfo(g); geometry::position<int, 2> x{p[0], p[1]};
    auto r = fem::get_indices(info, x, comp);
    for (std::size_t i = 0; i < r.size(); ++i) o[i] = r[i];
}
void indt(int const *g, int const *p, int *o)
{
    DMDALocalInfo info = mkinfo(g); geometry::position<int, 2> x{p[0], p[1]};
    auto r = fem::get_indices_tensor(info, x);
    for (std::size_t i = 0; i < r.size(); ++i) o[i] = r[i];
}
void ind4(int const *g, int const *p, int *o)
{
    DMDALocalInfo info = mkinfo(g); geometry::position<int, 2> x{p[0], p[1]};
    auto r = fem::get_indices_4Q1(info, x);
    for (std::size_t i = 0; i < r.size(); ++i) o[i] = r[i];
}
}
