// P34 support: allocation failures injected into the C parts of the library (link-time wrapping of malloc, calloc, realloc, free).
#pragma once
#include "mon.hpp"
#include <unordered_set>
#include <memory>
namespace oom {
using namespace mon;
struct St { bool armed = false; long n = 0, fail = -1; bool all = false; long injected = 0; std::unordered_set<void*> live; bool busy = false; };
inline St& s() { static St x; return x; }
inline bool refuse(size_t n) { St& t = s(); if (!t.armed) return false; long i = t.n++; if (t.fail >= 0 && (i == t.fail || (t.all && i > t.fail))) { ++t.injected; return true; } return n > ((size_t)1 << 31); }
}
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (oom::refuse(n)) return 0; void* p = __real_malloc(n); if (p && oom::s().armed) oom::s().live.insert(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (oom::refuse(b && a > (size_t)-1 / b ? (size_t)-1 : a * b)) return 0; void* p = __real_calloc(a, b); if (p && oom::s().armed) oom::s().live.insert(p); return p; }
void* __wrap_realloc(void* q, size_t n) { if (oom::refuse(n)) return 0; bool had = oom::s().live.count(q) > 0; void* p = __real_realloc(q, n); if (p || n == 0) { if (had) oom::s().live.erase(q); if (p && (oom::s().armed || had)) oom::s().live.insert(p); } return p; }
void __wrap_free(void* p) { if (p) oom::s().live.erase(p); __real_free(p); }
}
namespace oom {
// One call under test: objects it is given, what it makes of them, and how everything is disposed of.
struct Inst {
    std::function<bool()> run;             // true = reported success
    std::function<std::string()> given;    // content of the objects handed to the call
    std::function<std::string()> result;   // content of what it made, after success
    std::function<void()> dispose;         // give back everything
    bool keeps = false;                    // extends an object: capacity may stay grown after a failure
    bool retry = true;                     // the same call may be repeated after a failure
    bool setup_ok = true;
};
typedef std::function<void(Inst&)> Make;
struct Guard { explicit Guard(long k, bool all) { St& t = s(); t.n = 0; t.fail = k; t.all = all; t.injected = 0; t.armed = true; } ~Guard() { s().armed = false; s().fail = -1; } };
struct Track { Track() { St& t = s(); t.n = 0; t.fail = -1; t.armed = true; } ~Track() { s().armed = false; } };
inline int free_fd() { int f = ::open("/dev/null", O_RDONLY); if (f >= 0) ::close(f); return f; }
inline long live() { return (long)s().live.size(); }

inline void probe(Rng& r, const std::string& name, const std::string& desc, const Make& make, long maxk = 200)
{
    s().live.clear(); std::string good; long n = 0; int fd0;
    { Inst I; { Track t; make(I); } if (!I.setup_ok) { ev("skipped"); return; } std::string g0 = I.given(); bool ok; { Guard t(-1, false); ok = I.run(); n = s().n; } if (!CHK(ok, name + ":refused", desc + " with memory available")) { Track t; I.dispose(); return; } good = I.result(); { Track t; I.dispose(); } if (!CHK(live() == 0, name + ":leak", cat(desc, " leaves ", live(), " blocks behind without any failure"))) return; }
    ev("allocations_" + name, n); uint64_t h = hcomb(hstr(name), hstr(good)); nontrivial(h);
    std::vector<std::pair<long, bool>> todo; for (long k = 0; k < n; ++k) { todo.push_back({k, false}); todo.push_back({k, true}); }
    if ((long)todo.size() > maxk) { r.shuffle(todo); todo.resize(maxk); }
    for (auto& kk : todo) {
        std::string d = cat(desc, " allocation ", kk.first, kk.second ? " and all later ones" : "", " of ", n, " failing");
        s().live.clear(); Inst I; { Track t; make(I); } std::string g0 = I.given(); long l0 = live(); fd0 = free_fd(); bool ok; { Guard t(kk.first, kk.second); ok = I.run(); } ev("failures_injected"); int fd1 = free_fd();
        for (int i = 0; i < 50 && fd1 > fd0; ++i) { ::usleep(1000); fd1 = free_fd(); } // the sanitizer runtime opens /proc files from a thread of its own
        if (ok) { ev("failures_absorbed"); if (!CHK(I.result() == good, name + ":wrong-result", d + ": success reported, but the result differs")) { Track t; I.dispose(); return; } }
        else {
            ev("failures_reported");
            if (!CHK(I.given() == g0, name + ":given-changed", d + ": the objects given differ after the failure")) { Track t; I.dispose(); return; }
            if (!I.keeps && !CHK(live() == l0, name + ":failure-leak", cat(d, ": ", live() - l0, " blocks not given back after the failure"))) { Track t; I.dispose(); return; }
            if (!CHK(fd1 <= fd0, name + ":failure-descriptor", cat(d, ": a descriptor stays open: ", fd0, " before and ", fd1, " after"))) return;
            if (I.retry) { bool ok2; { Guard t(-1, false); ok2 = I.run(); } ev("retries"); if (!CHK(ok2, name + ":retry-refused", d + ": the repeated call fails with memory available") || !CHK(I.result() == good, name + ":retry-differs", d + ": the repeated call gives another result")) { Track t; I.dispose(); return; } }
        }
        { Track t; I.dispose(); }
        if (!CHK(live() == 0, name + ":failure-leak", cat(d, ": ", live(), " blocks never given back"))) return;
    }
}
template <class T> inline void put(std::string& o, const T* p, size_t n) { if (!p) { o += "null;"; return; } o += cat(n, ":"); o.append((const char*)p, n * sizeof(T)); o += ';'; }
} // namespace oom
