// general purpose utilities of the QED library
#define PXRMP_CORE_ONLY
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "utilities.hpp"
using namespace picsar::multi_physics;
extern "C" void VP_ENTRY()
{
    int mode = vp::cfg("mode"), n = vp::cfg("n");
    if (mode <= 2) {
        REAL a = vp::sym<REAL>("a"), b = vp::sym<REAL>("b");
        std::vector<REAL> v = mode == 0 ? generate_lin_spaced_vec<REAL>(a, b, n) : mode == 1 ? generate_log_spaced_vec<REAL>(a, b, n) : generate_log_lin_log_spaced_vec<REAL>(a, b, n);
        vp::outi("size", (int)v.size());
        if (!v.empty())
            vp::out("v", v.data(), (int)v.size());
    } else if (mode == 3) {
        REAL c[16], x = vp::sym<REAL>("x");
        vp::symv<REAL>("c", c, n);
        vp::outi("i", (int)(picsar_upper_bound(c, c + n, x) - c));
    } else if (mode == 4) {
        vp::outi("k", (int)poisson_distrib<REAL>(vp::sym<REAL>("lam"), vp::sym<REAL>("u")));
    }
}
