// C04: iterate over a box, reporting every visited position
#include <cafes.hpp>
using namespace cafes;
extern "C" {
void it_2(int const *bl, int const *ur, void (*cb)(int const *))
{
    geometry::box<int, 2> b{{bl[0], bl[1]}, {ur[0], ur[1]}};
    algorithm::iterate(b, [&](auto const &p) { int q[2] = {p[0], p[1]}; cb(q); });
}
void it_3(int const *bl, int const *ur, void (*cb)(int const *))
{
    geometry::box<int, 3> b{{bl[0], bl[1], bl[2]}, {ur[0], ur[1], ur[2]}};
    algorithm::iterate(b, [&](auto const &p) { int q[3] = {p[0], p[1], p[2]}; cb(q); });
}
}
