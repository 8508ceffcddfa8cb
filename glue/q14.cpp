// random number wrapper, Bessel function wrapper, default control parameters
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <random>
#include <utility>
#include "vp.hpp"
namespace std {
// the generator: what it was seeded with and how many numbers it has given; every number is an input
struct vp_generator {
    typedef unsigned result_type;
    int s = -1, k = 0;
    void seed(uint64_t x) { s = (int)x; k = 0; }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0x7fffffffu; }
    result_type operator()() { vp::outi("stream", s); return (unsigned)vp::symi("g", k++); }
};
// the standard library's formula without its long double arithmetic
template <> inline double generate_canonical<double, 53, vp_generator>(vp_generator &g)
{
    double a = (double)(int)g(), b = (double)(int)g();
    return (a + b * 2147483648.0) / (2147483648.0 * 2147483648.0);
}
// the standard library's function throws for large arguments
template <class A, class B> double vp_cyl_bessel_k(A v, B x)
{
    if (!(x <= 15000)) std::abort();
    vp::out("bv", (double)v);
    vp::out("bx", (double)x);
    return vp::sym<double>("bes");
}
}
#define mt19937_64 vp_generator
#define cyl_bessel_k vp_cyl_bessel_k
#include "rng_wrapper.hpp"
#include "special_functions.hpp"
#include "breit_wheeler_engine_ctrl.h"
#include "quantum_sync_engine_ctrl.h"
using namespace picsar::multi_physics;
typedef stl_rng_wrapper<REAL> W;
static void draw(W &w, int n, int kind)
{
    REAL a = vp::sym<REAL>("a"), b = vp::sym<REAL>("b");
    for (int i = 0; i < n; i++)
        vp::out("x", (kind >> i) & 1 ? w.exp(a) : w.unf(a, b));
}
extern "C" void VP_ENTRY()
{
    int mode = vp::cfg("mode"), how = vp::cfg("how"), n = vp::cfg("n"), kind = vp::cfg("kind");
    if (mode == 0) {
        W w(7);
        if (how == 1) {
            std::mt19937_64 g;
            g.seed(9);
            W v(std::move(g));
            draw(v, n, kind);
        } else if (how == 2) {      // a copy goes on by itself
            vp::out("skip", w.unf(0, 1));
            W v(w);
            vp::out("skip", w.unf(0, 1));
            draw(v, n, kind);
        } else if (how == 3) {
            W v(5);
            vp::out("skip", w.unf(0, 1));
            v = w;
            vp::out("skip", w.unf(0, 1));
            draw(v, n, kind);
        } else if (how == 4) {
            vp::out("skip", w.unf(0, 1));
            W v(std::move(w));
            draw(v, n, kind);
        } else
            draw(w, n, kind);
    } else if (mode == 1) {
        vp::out("k", (double)k_v(vp::sym<REAL>("v"), vp::sym<REAL>("x")));
    } else {
        breit_wheeler_engine_ctrl<REAL> b;
        quantum_synchrotron_engine_ctrl<REAL> q;
        REAL x[10] = {b.chi_phot_min, b.chi_phot_tdndt_min, b.chi_phot_tdndt_max, b.chi_phot_tpair_min, b.chi_phot_tpair_max,
                      q.chi_part_min, q.chi_part_tdndt_min, q.chi_part_tdndt_max, q.chi_part_tem_min, q.chi_part_tem_max};
        vp::out("c", x, 10);
        int y[6] = {(int)b.chi_phot_tdndt_how_many, (int)b.chi_phot_tpair_how_many, (int)b.chi_frac_tpair_how_many, (int)q.chi_part_tdndt_how_many, (int)q.chi_part_tem_how_many, (int)q.prob_tem_how_many};
        for (int i = 0; i < 6; i++) vp::outi("n", y[i]);
    }
}
