// Stand-in for Boost's modified Bessel functions: uninterpreted functions for the engine, the ones of libstdc++ natively
#ifndef VP_BESSEL
#define VP_BESSEL
#include "vp.hpp"
#ifdef VP_ENGINE
extern "C" double vp_k13(double), vp_k23(double), vp_k53(double);
#else
#include <tr1/cmath>
inline double vp_k(double n, double x) { return x > 700 ? 0 : std::tr1::cyl_bessel_k(n, x); }
inline double vp_k13(double x) { return vp_k(1.0 / 3, x); }
inline double vp_k23(double x) { return vp_k(2.0 / 3, x); }
inline double vp_k53(double x) { return vp_k(5.0 / 3, x); }
#endif
namespace boost { namespace math {
template <class A, class B> inline B cyl_bessel_k(A n, B x)
{
    double t = 3 * (double)n;
    if (t > 1 - 1e-5 && t < 1 + 1e-5) return (B)vp_k13((double)x);
    if (t > 2 - 1e-5 && t < 2 + 1e-5) return (B)vp_k23((double)x);
    if (t > 5 - 1e-5 && t < 5 + 1e-5) return (B)vp_k53((double)x);
    vp::outi("unknown order", 1);
    return 0;
}
} }
#endif
