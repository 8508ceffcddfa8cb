// Schwinger pair production engine
#define PXRMP_CORE_ONLY
#include <cmath>
#include <utility>
#include <vector>
#include "vp.hpp"
#include "schwinger_pair_engine.hpp"
using namespace picsar::multi_physics;
// every draw is an input of its own; the requested ranges are recorded
struct RNG {
    int k = 0;
    REAL unf(REAL a, REAL b) { vp::out("range", a); vp::out("range", b); return vp::sym<REAL>("u", k++); }
    REAL exp(REAL l) { vp::out("range", (REAL)-5); return l; }
};
using ENG = schwinger_pair_engine<REAL, RNG>;
extern "C" void VP_ENTRY()
{
    int mode = vp::cfg("mode"), how = vp::cfg("how");
    REAL v[6], d[4], lam = vp::sym<REAL>("lam");
    vp::symv<REAL>("v", v, 6);
    if (mode == 0) {
        vp::out("rate", ENG::internal_compute_schwinger_pair_production_rate(v[0], v[1], v[2], v[3], v[4], v[5], lam));
        return;
    }
    vp::symv<REAL>("d", d, 4);
    if (mode == 1 || mode == 2) {
        bool ev = mode == 2;
        REAL w = 7;
        size_t n = 99;
        if (mode == 1) {
            ENG::internal_generate_pairs_single(v[0], v[1], v[2], v[3], v[4], v[5], d[0], d[1], d[2], d[3], &ev, &w, lam, vp::sym<REAL>("u", 0));
            n = ev;
        } else
            ENG::internal_generate_pairs_multiple(v[0], v[1], v[2], v[3], v[4], v[5], d[0], d[1], d[2], d[3], &n, &w, lam, vp::sym<REAL>("u", 0));
        vp::outi("n", (int)n);
        vp::out("w", w);
        return;
    }
    // the engine object: constructed, copied, moved, wavelength set
    ENG a(RNG(), how == 3 ? (REAL)5 : lam);
    ENG b(a);
    ENG c(std::move(b));
    ENG &e = how == 1 ? c : a;
    if (how == 2)
        a.set_lambda(lam);
    if (how == 3)
        a.set_lambda(lam);
    vp::out("lambda", e.get_lambda());
    if (mode == 3)
        vp::out("rate", e.compute_schwinger_pair_production_rate(v[0], v[1], v[2], v[3], v[4], v[5]));
    else if (mode == 4) {
        auto p = e.get_new_pair_position();
        vp::out("pos", p.data(), 3);
    }
#ifndef NOPAIRS
    else if (mode == 5) {
        std::pair<bool, REAL> r = e.generate_pairs_single(v[0], v[1], v[2], v[3], v[4], v[5], d[0], d[1], d[2], d[3]);
        vp::outi("n", r.first);
        vp::out("w", r.second);
    } else {
        std::pair<size_t, REAL> r = e.generate_pairs_multiple(v[0], v[1], v[2], v[3], v[4], v[5], d[0], d[1], d[2], d[3]);
        vp::outi("n", (int)r.first);
        vp::out("w", r.second);
    }
#endif
}
