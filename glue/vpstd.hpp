// File streams and cerr of the standard library, replaced by a file system in memory (engine and native build alike; no file is touched).
// As in the library, a read which fails leaves its destination alone, and every later read of the stream fails.
#ifndef VPSTD_HPP
#define VPSTD_HPP
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include "vp.hpp"
namespace vpfs {
struct file { char name[32]; char *data; long len; };
inline file *files() { static file f[8]; return f; }
inline int &count() { static int n = 0; return n; }
inline bool same(const char *a, const char *b)
{
    int i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return a[i] == b[i];
}
inline file *find(const char *n, bool make)
{
    for (int i = 0; i < count(); i++) if (same(files()[i].name, n)) return files() + i;
    if (!make) return nullptr;
    file *f = files() + count()++;
    for (int i = 0; i < 31 && n[i]; i++) f->name[i] = n[i];
    f->data = (char *)std::malloc(8192);
    return f;
}
inline void vp_copy(char *d, const char *s, long n) { volatile long k = n; if (n > 0) std::memmove(d, s, k); }
struct stream {
    file *f = nullptr;
    long pos = 0;
    bool bad = false;
    explicit operator bool() const { return !bad; }
    bool operator!() const { return bad; }
    bool good() const { return !bad; }
    bool fail() const { return bad; }
    bool eof() const { return bad; }
    bool is_open() const { return f; }
    void close() { if (!f) bad = true; f = nullptr; }
};
struct ofs : stream {
    ofs() {}
    template <class S> ofs(const S &n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
    void open(const std::string &n, std::ios_base::openmode m = std::ios_base::out) { open(n.c_str(), m); }
    void open(const char *n, std::ios_base::openmode m = std::ios_base::out)
    {
        f = find(n, true);
        if (m & std::ios_base::app) pos = f->len; else { f->len = 0; pos = 0; }
    }
    ofs &write(const char *p, long n)
    {
        if (!f || bad) { bad = true; return *this; }
        vp_copy(f->data + pos, p, n);
        pos += n;
        if (pos > f->len) f->len = pos;
        return *this;
    }
    ofs &flush() { return *this; }
};
struct ifs : stream {
    ifs() {}
    template <class S> ifs(const S &n, std::ios_base::openmode m = std::ios_base::in) { open(n, m); }
    void open(const std::string &n, std::ios_base::openmode m = std::ios_base::in) { open(n.c_str(), m); }
    void open(const char *n, std::ios_base::openmode = std::ios_base::in) { f = find(n, false); pos = 0; bad = !f; }
    ifs &read(char *p, long n)
    {
        if (!f || bad) { bad = true; return *this; }
        long k = f->len - pos < n ? f->len - pos : n;
        vp_copy(p, f->data + pos, k);
        pos += k;
        if (k < n) bad = true;
        return *this;
    }
};
struct err { template <class T> err &operator<<(const T &) { vp::outi("message", 1); return *this; } };
inline err &cerr_() { static err e; return e; }
}
namespace std { using vp_ofstream = vpfs::ofs; using vp_ifstream = vpfs::ifs; static vpfs::err vp_cerr; }
#define ofstream vp_ofstream
#define ifstream vp_ifstream
#define cerr vp_cerr
#ifdef VP_ENGINE
template class std::basic_string<char>;
#endif
#endif
