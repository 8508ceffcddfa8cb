// Stand-in for the numerical quadrature of Boost (an external library): every integral is U(b) - U(a) for a fixed increasing U of the
// nesting depth, so that integrals over adjacent intervals add up; the interval and one sample of the integrand are recorded.
#ifndef VP_QUADMODEL
#define VP_QUADMODEL
#include <cmath>
#include <functional>
#include <limits>
#include <utility>
#include "vp.hpp"
namespace vpq {
typedef void (*Hook)();
inline Hook &hook() { static Hook h = nullptr; return h; }        // called before every outermost integral
inline int &depth() { static int d = 0; return d; }
template <class R> R U(R x, int d) { using std::log; return (R)(d + 1) * log(x + 1); }
constexpr double INFTY = 100;       // U of infinity
template <class R> R record(const std::function<R(R)> &f, R a, R b, R x, R ub)
{
    int d = depth();
    if (d == 0 && hook()) hook()();
    depth() = d + 1;
    R v = f(x);
    depth() = d;
    const char *n = d == 0 ? "q0" : d == 1 ? "q1" : "q2";
    vp::out(n, x);
    vp::out(n, v);
    vp::out(d == 0 ? "l0" : d == 1 ? "l1" : "l2", a);
    vp::out(d == 0 ? "l0" : d == 1 ? "l1" : "l2", b);
    return ub - U(a, d);
}
template <class R> R fin(const std::function<R(R)> &f, R a, R b) { return record<R>(f, a, b, a + (b - a) * vp::sym<R>("t", depth()), U(b, depth())); }
template <class R> R inf(const std::function<R(R)> &f, R a) { return record<R>(f, a, (R)-1, a + vp::sym<R>("t", depth()), (R)(INFTY * (depth() + 1))); }
template <class R> R any(const std::function<R(R)> &f, R a, R b) { return b > std::numeric_limits<R>::max() ? inf<R>(f, a) : fin<R>(f, a, b); }
}
namespace boost { namespace math { namespace quadrature {
template <class F, class R> R trapezoidal(F f, R a, R b) { return vpq::any<R>(f, a, b); }
template <class R> struct tanh_sinh { template <class F> R integrate(F f, R a, R b) { return vpq::any<R>(f, a, b); } };
template <class R, unsigned N> struct gauss_kronrod { template <class F> static R integrate(F f, R a, R b) { return vpq::any<R>(f, a, b); } };
} } }
#endif
