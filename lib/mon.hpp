// Monitor support: seeded case generator, violation recorder, event counters. One process runs a range of cases.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <algorithm>
#include <limits>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>

#ifdef MON_LIFE
#include <alloca.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace mon {

#ifdef MON_LIFE
// Lifetime mode (P35): every case of a harness runs twice or more with the same seed; fresh heap blocks and the stack hold other values
// each time. Watched: blocks and descriptors not given back, and whether anything the case observes depends on those values.
struct Life { long live = 0, total = 0; int pause = 0; unsigned char fill = 0xA5; uint64_t digest = 0; long observed = 0; int rep = 0; std::vector<uint64_t>* trace = 0; };
inline Life& life() { static Life l; return l; }
struct Pause { Pause() { ++life().pause; } ~Pause() { --life().pause; } };
inline void life_malloc(const volatile void* p, size_t n) { Life& l = life(); if (l.pause) return; ++l.live; ++l.total; if (p && n < 60000) memset((void*)p, l.fill, n); }
inline void life_free(const volatile void* p) { Life& l = life(); if (p && !l.pause) --l.live; }
inline void observe(uint64_t v) { Life& l = life(); l.digest = (l.digest ^ v) * 0x100000001b3ull + (l.digest >> 29); ++l.observed; }
inline void observe_d(double d) { uint64_t u; if (d != d) u = 0x7ff8dead; else std::memcpy(&u, &d, 8); observe(u); }
#define MON_OBS(x) mon::observe((uint64_t)(x))
#define MON_OBS2(a, b) (mon::observe_d(a), mon::observe_d(b))
#define MON_PAUSE mon::Pause mon_pause_
#else
#define MON_OBS(x) ((void)0)
#define MON_OBS2(a, b) ((void)0)
#define MON_PAUSE ((void)0)
#endif

struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool p(double q) { return u() < q; }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

struct State {
    int fd = -1;
    long cs = -1;
    bool verbose = false;
    std::string tier = "quick";
    uint64_t seed = 1;
    std::map<std::string, long> ev;
    std::map<std::string, int> vcount;
    std::set<uint64_t> hashes;
    int nsample = 0;
    int case_viol = 0;
};
inline State& st() { static State s; return s; }

inline void raw(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t w = ::write(st().fd, s.data() + o, s.size() - o); if (w <= 0) break; o += (size_t)w; } }
inline std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else r += c; } return r; }

struct Fail : std::exception { std::string m; explicit Fail(const std::string& s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } ~Fail() noexcept override {} };

inline void violate_now(const std::string& key, const std::string& detail) {
    int& c = st().vcount[key];
    ++st().case_viol;
    if (++c <= 3) raw("viol " + std::to_string(st().cs) + " " + key + "\t" + esc(detail.substr(0, 3000)) + "\n");
}
#ifdef MON_LIFE
inline void violate(const std::string& key, const std::string&) { for (char c : key) observe((unsigned char)c); } // the business of another property
inline void ev(const char*, long n = 1) { observe(n); }
inline void ev(const std::string&, long n = 1) { observe(n); }
#else
inline void violate(const std::string& key, const std::string& detail) { violate_now(key, detail); }
inline void ev(const char* name, long n = 1) { st().ev[name] += n; }
inline void ev(const std::string& name, long n = 1) { st().ev[name] += n; }
#endif
inline void nontrivial(uint64_t h) { MON_PAUSE; MON_OBS(h); if (st().hashes.insert(h).second) raw("hash " + std::to_string(h) + "\n"); }
inline void sample(const std::string& s) { MON_PAUSE; if (st().nsample++ < 2) raw("sample " + esc(s.substr(0, 1500)) + "\n"); }

inline uint64_t hcomb(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0x100000001b3ull; }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline uint64_t hdbl(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

template <class... A> inline std::string cat(const A&... a) { std::ostringstream o; o.precision(17); int d[] = {0, ((void)(o << a), 0)...}; (void)d; return o.str(); }
template <class V> inline std::string vec(const V& v, size_t maxn = 40) { std::ostringstream o; o.precision(12); o << "["; size_t n = 0; for (const auto& x : v) { if (n++) o << ","; if (n > maxn) { o << "..."; break; } o << x; } o << "]"; return o.str(); }

// check helpers: return true when fine
inline long& nchecks() { static long n = 0; return n; }
inline bool close(double a, double b, double rtol, double scale) { if (a == b) return true; double t = rtol * std::max(std::max(std::fabs(a), std::fabs(b)), scale); return std::fabs(a - b) <= t; } // NaN -> false
// details are built lazily
inline bool seen(bool c) { MON_OBS(c); return c; }
inline bool seen2(double a, double b, double rtol, double scale) { MON_OBS2(a, b); return close(a, b, rtol, scale); }
#define CHK(c, key, det) (++mon::nchecks(), mon::seen(bool(c)) ? true : (mon::violate((key), (det)), false))
inline bool near_fail(double a, double b, double rtol, double scale, const std::string& key, const std::string& what) { violate(key, cat(what, ": got ", a, " expected ", b, " (diff ", a - b, ", rtol ", rtol, ", scale ", scale, ")")); return false; }
#define NEAR(a, b, rtol, scale, key, what) (++mon::nchecks(), mon::seen2((a), (b), (rtol), (scale)) ? true : mon::near_fail((a), (b), (rtol), (scale), (key), (what)))

inline void on_hang(int) { const char m[] = "MONITOR-HANG: case exceeded its CPU budget\n"; ssize_t w = ::write(2, m, sizeof m - 1); (void)w; _exit(78); }

typedef std::function<void(long k, Rng& r)> CaseFn;

#ifdef MON_LIFE
__attribute__((noinline)) inline void paint(unsigned char c) { volatile unsigned char* p = (volatile unsigned char*)alloca(200 << 10); for (size_t i = 0; i < (200 << 10); ++i) p[i] = c; asm volatile("" ::"r"(p) : "memory"); }
inline int free_fd() { int f = ::open("/dev/null", O_RDONLY); if (f >= 0) ::close(f); return f; }
inline void life_case(long k, uint64_t h, CaseFn& fn, const char* name) {
    static bool hooked = false; Life& l = life(); if (!hooked) { l.pause = 1; __sanitizer_install_malloc_and_free_hooks(life_malloc, life_free); hooked = true; }
    const int fills[4] = {0xA5, 0x00, 0xFF, 0x3F}; uint64_t dg[4]; long dl[4]; int df[4]; long ob[4]; int n = 2; long total0 = l.total;
    for (int rep = 0; rep < n; ++rep) {
        Rng r(h); l.fill = fills[rep]; l.digest = 1; l.observed = 0; l.rep = rep; paint(rep == 0 ? 0x7f : rep == 1 ? 0x00 : 0xC3); int f0 = free_fd(); long live0 = l.live; l.pause = 0;
        try { fn(k, r); } catch (...) { observe(0xdead); }
        l.pause = 1; dl[rep] = l.live - live0; df[rep] = free_fd() - f0; dg[rep] = l.digest; ob[rep] = l.observed;
        if (rep == 1 && (dl[1] != 0 || df[1] != 0 || dg[1] != dg[0])) n = 4; // static objects may have grown, a library may have started up: look again
    }
    std::string p = name; for (auto& ch : p) ch = toupper((unsigned char)ch); st().ev["life_runs_" + p] += n; st().ev["allocations_watched"] += l.total - total0; st().ev["values_observed"] += ob[0]; if (l.total > total0) st().ev["cases_with_allocations"] += 1;
    if (n == 4 && dl[2] > 0 && dl[3] > 0) violate_now(p + ":leak", cat("allocations not given back in repeated runs of the case: ", dl[0], " ", dl[1], " ", dl[2], " ", dl[3]));
    if (n == 4 && df[2] > 0 && df[3] > 0) violate_now(p + ":descriptor-leak", cat("descriptors not given back in repeated runs: ", df[0], " ", df[1], " ", df[2], " ", df[3]));
    if (n == 4 && (dg[1] != dg[2] || dg[2] != dg[3])) violate_now(p + ":unreproducible", cat("repeated runs of the case over other contents of fresh memory observe other values: ", dg[0], " ", dg[1], " ", dg[2], " ", dg[3], " (values observed ", ob[0], " ", ob[1], " ", ob[2], " ", ob[3], ")"));
}
#endif

// cpu_limit: CPU seconds one case may take before it is called a hang (normal cases take milliseconds)
inline int run(int argc, char** argv, const char* name, CaseFn fn, int cpu_limit = 60) {
    long from = 0, to = 1;
    std::string out = "/dev/stdout";
    for (int a = 1; a < argc; ++a) {
        std::string s = argv[a];
        if (s == "--seed") st().seed = std::strtoull(argv[++a], 0, 10);
        else if (s == "--from") from = std::atol(argv[++a]);
        else if (s == "--to") to = std::atol(argv[++a]);
        else if (s == "--out") out = argv[++a];
        else if (s == "--tier") st().tier = argv[++a];
        else if (s == "--verbose") st().verbose = true;
    }
    st().fd = out == "/dev/stdout" ? dup(1) : ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    signal(SIGPROF, on_hang);
    for (long k = from; k < to; ++k) {
        st().cs = k;
        st().case_viol = 0;
        raw("case " + std::to_string(k) + "\n");
        struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &tv, 0);
        uint64_t h = hstr(name); h = hcomb(h, st().seed); h = hcomb(h, (uint64_t)k);
#ifdef MON_LIFE
        life_case(k, h, fn, name);
#else
        Rng r(h);
        try {
            fn(k, r);
        } catch (const std::exception& e) {
            violate("unexpected-exception", cat("exception escaped: ", e.what()));
        } catch (...) {
            violate("unexpected-exception", "unknown exception escaped");
        }
#endif
        if (nchecks()) { ev("checks", nchecks()); nchecks() = 0; }
        std::string evs;
        for (auto& kv : st().ev) evs += "ev " + kv.first + " " + std::to_string(kv.second) + "\n";
        st().ev.clear();
        raw(evs);
    }
    struct itimerval tv; std::memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, 0);
    raw("done\n");
    return 0;
}

// silence the library's own chatter on cout (it is captured by the driver anyway)
inline std::string slurp(const std::string& f) { std::string s; FILE* p = fopen(f.c_str(), "rb"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
inline void spit(const std::string& f, const std::string& s) { FILE* p = fopen(f.c_str(), "wb"); if (p) { fwrite(s.data(), 1, s.size(), p); fclose(p); } }

} // namespace mon
