// harness interface for C++ drivers (same externals as the Fortran drivers)
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstring>
extern "C" {
void vp_sym_(const char *, int *, double *, long);
void vp_symf_(const char *, int *, float *, long);
void vp_symi_(const char *, int *, int *, long);
void vp_cfg_(const char *, int *, long);
void vp_cfgr_(const char *, double *, long);
void vp_out_(const char *, int *, double *, long);
void vp_outf_(const char *, int *, float *, long);
void vp_outi_(const char *, int *, int *, long);
}
namespace vp {
#define VPI inline __attribute__((always_inline))
VPI int cfg(const char *n) { int v; vp_cfg_(n, &v, __builtin_strlen(n)); return v; }
VPI double cfgr(const char *n) { double v; vp_cfgr_(n, &v, __builtin_strlen(n)); return v; }
VPI void get(const char *n, int i, double &v) { vp_sym_(n, &i, &v, __builtin_strlen(n)); }
VPI void get(const char *n, int i, float &v) { vp_symf_(n, &i, &v, __builtin_strlen(n)); }
template <class R> VPI R sym(const char *n, int i = 0) { R v; get(n, i, v); return v; }
VPI int symi(const char *n, int i = 0) { int v; vp_symi_(n, &i, &v, __builtin_strlen(n)); return v; }
VPI void out(const char *n, double v) { int k = 1; vp_out_(n, &k, &v, __builtin_strlen(n)); }
VPI void out(const char *n, float v) { int k = 1; vp_outf_(n, &k, &v, __builtin_strlen(n)); }
VPI void out(const char *n, const double *v, int k) { vp_out_(n, &k, const_cast<double *>(v), __builtin_strlen(n)); }
VPI void out(const char *n, const float *v, int k) { vp_outf_(n, &k, const_cast<float *>(v), __builtin_strlen(n)); }
VPI void outi(const char *n, int v) { int k = 1; vp_outi_(n, &k, &v, __builtin_strlen(n)); }
template <class R> VPI void symv(const char *n, R *v, int k) { for (int i = 0; i < k; i++) get(n, i, v[i]); }
}
#endif
