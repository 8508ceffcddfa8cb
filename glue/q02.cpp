// 3-vector algebra
#include <cmath>
#include "vp.hpp"
#include "vec_functions.hpp"
using namespace picsar::multi_physics;
using V = vec3<REAL>;
static void show(const char *n, const V &v) { vp::out(n, v.data(), 3); }
extern "C" void VP_ENTRY()
{
    REAL x[6], s = vp::sym<REAL>("s");
    vp::symv<REAL>("v", x, 6);
    V a{x[0], x[1], x[2]}, b{x[3], x[4], x[5]};
    vp::out("n2", norm2(a));
    vp::out("n", norm(a));
    vp::out("dot", dot(a, b));
    vp::out("self", dot(a, a));
    show("cross", cross(a, b));
    show("selfcross", cross(a, a));
    show("vs", a * s);
    show("sv", s * a);
    show("div", a / s);
    show("add", a + b);
    show("sub", a - b);
    show("mix", (a + b) * s - cross(a, b) / s);
    show("a", a);
    show("b", b);
}
