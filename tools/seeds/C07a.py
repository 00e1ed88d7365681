ID="C07a"; PROPERTY="C07"
NEEDS="a scalar spin given as an array of one value, written after the vector"
BREAKS="v x w in the plane has the wrong sign in one component"
EDITS=[("cafes/particle/geometry/cross_product.hpp","return {  rz[0]*x[1],\n               -rz[0]*x[0]","return { -rz[0]*x[1],\n                rz[0]*x[0]")]
DEMO=r'''
#include <cafes.hpp>
#include <cstdio>
using namespace cafes;
int main()
{
    std::array<double, 2> x{{2., -3.}}; std::array<double, 1> w{{.5}};
    auto a = geometry::cross_product(x, w), b = geometry::cross_product(w, x), c = geometry::cross_product(x, .5);
    for (int d = 0; d < 2; ++d) if (a[d] != -b[d] || a[d] != c[d]) { std::printf("not antisymmetric\n"); return 1; }
    return 0;
}
'''
