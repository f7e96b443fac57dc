// Hostile input: text mutators, and execution of one input under memory-accounting monitors.
// Include in exactly one translation unit: it replaces global operator new/delete.
#pragma once
#include "mon.hpp"
#include "deck.hpp"
#include <new>
#include <atomic>
#include <dirent.h>
#include <alloca.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace hx {
using namespace mon;
static long g_live = 0, g_total = 0; static unsigned char g_fill = 0xA5; static size_t g_cap = 256u << 20; static long g_refused = 0;
static void on_malloc(const volatile void*, size_t) { ++g_live; ++g_total; }
static void on_free(const volatile void* p) { if (p) --g_live; }
inline void* cap_new(size_t n) { if (n > g_cap) { ++g_refused; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) { ++g_refused; throw std::bad_alloc(); } memset(p, g_fill, n < 65536 ? n : 65536); return p; }
} // namespace hx
void* operator new(size_t n) { return hx::cap_new(n); }
void* operator new[](size_t n) { return hx::cap_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return hx::cap_new(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return hx::cap_new(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

namespace hx {
__attribute__((noinline)) inline void paint(unsigned char c) { volatile unsigned char* p = (volatile unsigned char*)alloca(48 << 10); for (size_t i = 0; i < (48 << 10); ++i) p[i] = c; asm volatile("" ::"r"(p) : "memory"); }
inline int free_fd() { int f = open("/dev/null", O_RDONLY); if (f >= 0) close(f); return f; }

// Runs fn (returns a description of everything the caller can see) twice with different fill patterns of fresh memory and stack.
// Reported: differing outcomes, memory or descriptors not given back, exceptions that are no std::exception.
struct Result { bool ok; std::string what; };
template <class F> inline Result guarded(const std::string& key, const std::string& ctx, F fn)
{
    static bool hooked = false; if (!hooked) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); hooked = true; }
    Result res[3]; long delta[3]; int fdd[3]; long refused[3];
    int nrun = 2;
    for (int k = 0; k < nrun; ++k) {
        res[k].ok = true; res[k].what.reserve(1 << 16); std::string other; other.reserve(256); int f0 = free_fd(); long r0 = g_refused, live0 = g_live; g_fill = k & 1 ? 0x00 : 0xA5; paint(k & 1 ? 0x00 : 0x7f);
        { dk::CoutCatch cc; std::string out; bool ok = true; const char* bad = 0; long live1 = g_live; (void)live1;
          try { out = fn(); } catch (const std::exception& e) { ok = false; } catch (const char*) { ok = false; } catch (...) { ok = false; bad = "an exception that is not a std::exception escaped"; }
          res[k].ok = ok; size_t n = std::min(out.size(), (size_t)60000); res[k].what.assign(out.data(), n); if (out.size() > n) { uint64_t h = hstr(out); res[k].what.append((char*)&h, 8); } if (bad) other.assign(bad); }
        delta[k] = g_live - live0; fdd[k] = free_fd() - f0; refused[k] = g_refused - r0; if (!other.empty()) violate(key + ":exception-type", other + "\n" + ctx);
        if (k == 1 && (delta[1] != 0 || fdd[1] != 0)) nrun = 3; // a capacity of some static object may have grown, the sanitizer may have started its symbolizer: look once more
    }
    (void)fdd; ev("monitored_runs", nrun); g_fill = 0xA5;
    CHK(delta[nrun - 1] == 0, key + ":leak", cat(delta[nrun - 1], " allocations not released (previous run ", delta[nrun - 2], ", outcome ", res[0].ok ? "accepted" : "refused", ")\n", ctx));
    CHK(!(nrun == 3 && fdd[1] != 0 && (fdd[1] > 0) == (fdd[2] > 0) && fdd[2] != 0), key + ":descriptor-leak", cat("lowest free descriptor moved by ", fdd[nrun - 1], "\n", ctx));
    if (refused[0]) ev("allocation_limits_hit");
    bool same = res[0].ok == res[1].ok && res[0].what == res[1].what; std::string d; if (!same) { size_t i = 0; while (i < res[0].what.size() && i < res[1].what.size() && res[0].what[i] == res[1].what[i]) ++i; d = cat("first: ", res[0].ok ? "accepted ..." : "refused", res[0].what.substr(i > 60 ? i - 60 : 0, 200), "\nsecond: ", res[1].ok ? "accepted ..." : "refused", res[1].what.substr(i > 60 ? i - 60 : 0, 200), "\n"); }
    CHK(same, key + ":unreproducible", "the same input gives different results when fresh memory holds other values\n" + d + ctx);
    ev(res[0].ok ? "accepted" : "refused"); return res[0];
}

// ---- text mutation ----
struct Piece { std::string s; bool ws; };
inline std::vector<Piece> split(const std::string& t) { std::vector<Piece> v; for (size_t i = 0; i < t.size();) { bool w = isspace((unsigned char)t[i]) != 0; size_t j = i; while (j < t.size() && (isspace((unsigned char)t[j]) != 0) == w) ++j; Piece p; p.s = t.substr(i, j - i); p.ws = w; v.push_back(p); i = j; } return v; }
inline std::string joinp(const std::vector<Piece>& v) { std::string s; for (auto& p : v) s += p.s; return s; }
inline std::string hostile_number(Rng& r)
{
    static const char* n[] = {"0", "-1", "1e308", "-1e308", "1e999", "nan", "inf", "-inf", "99999999999", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "18446744073709551616", "1e-320", "0x10", "1.5", "-0.5", "1e9", "1D5", "1e", "+", "-", ".", "1..2", "1.2.3", "65536", "1000000", "3.", ".5", "+7", "1e5000", "00012", "1,5", "9e18", "-9.3e18", "1e10", "3000000000"};
    return n[r.i(0, 38)];
}
inline std::string hostile_token(Rng& r)
{
    static const char* t[] = {"/", "*", "1*", "3*", "0*", "-2*", "1000000000*1", "99999999999*0.5", "-3*2.5", "0*7", "2.5*1", "1*1*1", "1e10*3", "1e300*1", "nan*1", "1*", "2*/", "'", "''", "'a", "a'", "\"", "--", "-", "---", "//", "PORO", "INCLUDE", "DATES", "TSTEP", "A", "a", "*x", "5*'A'", "!", "=", "<", ">", "&", "&#;", "&#x110000;", "<!--", "-->", "<![CDATA[", "/>", "</", "SWOF", "FIELD", "1*-", "*/", "#", "%n%s", "\\", "50000000*0.25", "'very long name with blanks that goes on and on and on and on and on'"};
    int n = sizeof t / sizeof *t; return t[r.i(0, n - 1)];
}
inline std::string garbage(Rng& r, int maxn) { std::string s; int n = r.i(1, maxn), w = r.i(0, 3); for (int i = 0; i < n; ++i) s += w == 0 ? (char)r.i(0, 255) : w == 1 ? (char)r.i(0, 31) : w == 2 ? (char)r.i(32, 126) : (char)r.i(128, 255); return s; }
inline std::string mutate_once(Rng& r, const std::string& t, const std::string& donor, std::string& log)
{
    if (t.empty()) { log += "+fill "; return garbage(r, 30); }
    std::vector<Piece> v = split(t); std::vector<int> tok; for (size_t i = 0; i < v.size(); ++i) if (!v[i].ws) tok.push_back((int)i);
    int w = r.i(0, 19); if (tok.empty() && w >= 2) w = r.i(0, 1); size_t at = r.next() % t.size();
    auto T = [&]() -> int { return tok[r.next() % tok.size()]; };
    switch (w) {
    case 0: log += "truncate "; return t.substr(0, at);
    case 1: { log += "bytes "; std::string s = t; if (r.p(0.5)) s.insert(at, garbage(r, 8)); else { int n = r.i(1, 4); for (int i = 0; i < n; ++i) s[r.next() % s.size()] = (char)(r.p(0.5) ? r.i(0, 255) : "/*'-\n\t 0\0=<>&\"#.eE+"[r.i(0, 18)]); } return s; }
    case 2: { log += "delete-token "; int i = T(); v[i].s.clear(); return joinp(v); }
    case 3: { log += "dup-token "; int i = T(); v[i].s += " " + v[i].s; return joinp(v); }
    case 4: { log += "swap-tokens "; int i = T(), j = T(); std::swap(v[i].s, v[j].s); return joinp(v); }
    case 5: case 6: case 7: { log += "number "; std::vector<int> nn; for (int i : tok) if (isdigit((unsigned char)v[i].s[0]) || v[i].s[0] == '-' || v[i].s[0] == '.') nn.push_back(i); int i = nn.empty() ? T() : nn[r.next() % nn.size()]; v[i].s = hostile_number(r); return joinp(v); }
    case 8: case 9: { log += "token "; int i = T(); if (r.p(0.5)) v[i].s = hostile_token(r); else v[i].s += (r.p(0.5) ? " " : "") + hostile_token(r); return joinp(v); }
    case 10: { log += "delete-slash "; std::vector<size_t> q; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '/') q.push_back(i); if (q.empty()) return t.substr(0, at); std::string s = t; s.erase(q[r.next() % q.size()], 1); return s; }
    case 11: { log += "insert-slash "; std::string s = t; s.insert(at, r.p(0.5) ? "/" : " /\n"); return s; }
    case 12: { log += "delete-range "; size_t n = r.next() % std::min<size_t>(t.size(), r.p(0.5) ? 20 : 400) + 1; std::string s = t; s.erase(at, n); return s; }
    case 13: { log += "dup-range "; size_t n = r.next() % 200 + 1; std::string s = t; s.insert(r.next() % (t.size() + 1), t.substr(at, n)); return s; }
    case 14: { log += "splice "; if (donor.empty()) return t; size_t a = r.next() % donor.size(), n = r.next() % 300 + 1; std::string s = t; s.insert(at, donor.substr(a, n)); return s; }
    case 15: { log += "join-lines "; std::string s = t; for (int k = 0; k < 3; ++k) { size_t p = s.find('\n', r.next() % s.size()); if (p != std::string::npos) s[p] = ' '; } return s; }
    case 16: { log += "split-token "; int i = T(); if (v[i].s.size() > 1) v[i].s.insert(r.next() % v[i].s.size(), r.p(0.5) ? "\n" : " "); return joinp(v); }
    case 17: { log += "crlf "; std::string s; for (char c : t) { if (c == '\n') s += '\r'; s += c; } return s; }
    case 18: { log += "long-token "; int i = T(); v[i].s = std::string(r.i(200, 3000), "Aa1/*'-"[r.i(0, 6)]); return joinp(v); }
    default: { log += "cut-front "; return t.substr(at); }
    }
}
inline std::string mutate(Rng& r, std::string t, const std::string& donor, std::string& log) { int n = r.p(0.6) ? 1 : r.p(0.7) ? r.i(2, 4) : r.i(5, 20); for (int k = 0; k < n; ++k) { t = mutate_once(r, t, donor, log); if (t.size() > 400000) t.resize(400000); } return t; }
} // namespace hx
