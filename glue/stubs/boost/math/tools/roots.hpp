// Stand-in for Boost's root search: records the guess, the direction and the function at a sample; the root is an input
#ifndef VP_ROOTS
#define VP_ROOTS
#include <utility>
#include <cstdint>
#include "vp.hpp"
inline void (*&vpr_hook())() { static void (*h)() = nullptr; return h; }        // called before every search
namespace boost { using uintmax_t = std::uintmax_t; namespace math { namespace tools {
template <class R> struct eps_tolerance { int bits; eps_tolerance(unsigned b) : bits(b) {} bool operator()(const R &, const R &) const { return true; } };
inline int &rootno() { static int n = 0; return n; }        // searches so far
template <class F, class R, class T, class I> __attribute__((always_inline)) inline std::pair<R, R> bracket_and_solve_root(F f, const R &guess, const R &factor, bool rising, T, I &)
{
    if (vpr_hook()) vpr_hook()();
    int n = rootno()++;
    vp::out("guess", guess);
    vp::outi("rising", rising);
    vp::out("rf", f(vp::sym<R>("rs", n)));
    R r = vp::sym<R>("root", n);
    return std::pair<R, R>(r, r);
}
template <class F, class R, class T, class I> std::pair<R, R> toms748_solve(F f, const R &a, const R &, T t, I &m) { return bracket_and_solve_root(f, a, a, true, t, m); }
} } }
#endif
