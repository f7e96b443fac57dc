// P39: units, averages, run reports, stop watches and object factories against their definitions.
#include "config.h"
#include "mon.hpp"
#include <opm/core/utility/Average.hpp>
#include <opm/core/utility/Units.hpp>
#include <string>
#include <opm/core/utility/ErrorMacros.hpp>
#include <iostream>
#include <opm/core/utility/Factory.hpp>
#include <opm/core/utility/StopWatch.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <complex>
#include <sstream>
using namespace mon;
typedef long double L;

// ---------------------------------------------------------------- averages
static double num(Rng& r) { switch (r.i(0, 5)) { case 0: return r.u(0, 1); case 1: return r.logu(1e-20, 1e20); case 2: return r.i(0, 20); case 3: return r.logu(1e-100, 1e100); case 4: return 9.869e-16 * r.logu(1e-3, 1e4); default: return r.u(1, 100); } }
struct V3 { double x[3]; V3() { x[0] = x[1] = x[2] = 0; } V3& operator+=(const V3& o) { for (int i = 0; i < 3; ++i) x[i] += o.x[i]; return *this; } V3& operator*=(double s) { for (int i = 0; i < 3; ++i) x[i] *= s; return *this; } };
template <class T> static void averages(Rng& r, double eps, const char* tn)
{
    T a = (T)num(r), b = r.p(0.1) ? a : (T)num(r); if (std::is_same<T, float>::value) { a = (T)r.logu(1e-12, 1e12); b = r.p(0.1) ? a : (T)r.logu(1e-12, 1e12); }
    if (r.p(0.3)) b = a * (T)r.logu(0.1, 10); std::string d = cat(tn, " ", a, " ", b);
    T A = Opm::utils::arithmeticAverage<T, T>(a, b), G = Opm::utils::geometricAverage<T>(a, b); bool hz = a + b == 0; T H = hz ? 0 : Opm::utils::harmonicAverage<T>(a, b);
    L la = a, lb = b; NEAR((double)A, (double)((la + lb) / 2), eps, (double)((la + lb) / 2), "arithmetic", d); ev("averages");
    L p = la * lb; if (p > 1e-290L && p < 1e290L || p == 0) { NEAR((double)G, (double)std::sqrt(p), eps, (double)std::sqrt(p), "geometric", d); ev("geometric"); if (!hz) { L h = 2 * p / (la + lb); NEAR((double)H, (double)h, eps, (double)h, "harmonic", d); ev("harmonic"); } }
    double m = std::min(a, b), M = std::max(a, b), s = 4 * eps * M;
    if (!hz && m > 0 && p > 1e-290L && p < 1e290L) { CHK(m - s <= H && H <= G + s && G <= A + s && A <= M + s, "ordering", d); if (a == b) CHK(std::fabs(H - a) <= s && std::fabs(G - a) <= s && A == a, "idempotent", d);
        CHK((Opm::utils::arithmeticAverage<T, T>(b, a) == A) && Opm::utils::geometricAverage<T>(b, a) == G && Opm::utils::harmonicAverage<T>(b, a) == H, "symmetric", d); }
    // signed arithmetic means and other types
    double u = r.u(-1e6, 1e6), v = r.u(-1e6, 1e6); double z = Opm::utils::arithmeticAverage<double, double>(u, v); NEAR(z, (double)(((L)u + v) / 2), 4e-16, std::fabs(u) + std::fabs(v), "arithmetic", cat(u, " ", v));
    V3 x, y; for (int i = 0; i < 3; ++i) { x.x[i] = r.u(-5, 5); y.x[i] = r.u(-5, 5); } V3 w = Opm::utils::arithmeticAverage<V3, V3>(x, y); for (int i = 0; i < 3; ++i) NEAR(w.x[i], 0.5 * (x.x[i] + y.x[i]), 4e-16, 10, "arithmetic-vector", cat(i)); ev("vector_averages");
    std::complex<double> c1(u, v), c2(v, r.u(-1, 1)), c3 = Opm::utils::arithmeticAverage<std::complex<double>, std::complex<double> >(c1, c2); NEAR(c3.real(), 0.5 * (u + v), 4e-16, std::fabs(u) + std::fabs(v), "arithmetic-complex", cat(u, v)); NEAR(c3.imag(), 0.5 * (v + c2.imag()), 4e-16, std::fabs(v) + 1, "arithmetic-complex", cat(u, v));
    nontrivial(hcomb(hdbl(A), hcomb(hdbl(G), hdbl(H))));
}

// ---------------------------------------------------------------- units
struct U { const char* n; double have; L want; };
static const std::vector<U>& units()
{
    using namespace Opm::unit; using namespace Opm::prefix; static std::vector<U> t; if (!t.empty()) return t;
    const L in = 0.0254L, lb = 0.45359237L, g = 9.80665L, cm = 0.01L, d = 86400.0L;
    U x[] = { {"micro", micro, 1e-6L}, {"milli", milli, 1e-3L}, {"centi", centi, 1e-2L}, {"deci", deci, 1e-1L}, {"kilo", kilo, 1e3L}, {"mega", mega, 1e6L}, {"giga", giga, 1e9L}, {"meter", meter, 1}, {"inch", inch, in}, {"feet", feet, 12 * in},
        {"second", second, 1}, {"minute", minute, 60}, {"hour", hour, 3600}, {"day", day, d}, {"year", year, 365 * d}, {"gallon", gallon, 231 * in * in * in}, {"stb", stb, 42 * 231 * in * in * in}, {"liter", liter, 1e-3L}, {"kilogram", kilogram, 1}, {"pound", pound, lb},
        {"gravity", Opm::unit::gravity, g}, {"Newton", Newton, 1}, {"lbf", lbf, lb * g}, {"Pascal", Pascal, 1}, {"barsa", barsa, 1e5L}, {"atm", atm, 101325}, {"psia", psia, lb * g / (in * in)}, {"Pas", Pas, 1}, {"Poise", Poise, 0.1L}, {"darcy", darcy, cm * cm * 1e-3L / (101325.0L) * 1 } };
    for (auto& u : x) t.push_back(u); // 1 darcy: 1 cP, 1 cm/s, 1 atm/cm -> (0.01 m/s * 1e-3 Pa s) / (101325 Pa / 0.01 m)
    return t;
}
static void unit_case(Rng& r)
{
    const std::vector<U>& t = units(); for (auto& u : t) NEAR(u.have, (double)u.want, 4e-15, (double)u.want, "unit", u.n); ev("units", (long)t.size());
    for (int k = 0; k < 20; ++k) {
        const U& u = r.pick(t); double q = (r.p(0.5) ? 1 : -1) * (r.p(0.1) ? 0 : r.logu(1e-12, 1e12)); double si = Opm::unit::convert::from(q, u.have), back = Opm::unit::convert::to(si, u.have), out = Opm::unit::convert::to(q, u.have);
        NEAR(si, (double)((L)q * u.want), 1e-14, std::fabs((double)((L)q * u.want)), "from", cat(u.n, " ", q)); NEAR(out, (double)((L)q / u.want), 1e-14, std::fabs((double)((L)q / u.want)), "to", cat(u.n, " ", q)); NEAR(back, q, 1e-15, std::fabs(q), "round-trip", cat(u.n, " ", q)); ev("conversions"); nontrivial(hcomb(hdbl(si), hdbl(out)));
        double v = r.u(-1e3, 1e3); NEAR(Opm::unit::square(v), v * v, 1e-15, v * v, "square", cat(v)); NEAR(Opm::unit::cubic(v), v * v * v, 1e-15, std::fabs(v * v * v), "cubic", cat(v));
    }
}

// ---------------------------------------------------------------- reports
static void reports(Rng& r)
{
    Opm::SimulatorReport s; CHK(s.pressure_time == 0 && s.transport_time == 0 && s.total_time == 0, "report-initial", ""); double p = 0, t = 0, o = 0; int n = r.i(0, 8);
    for (int i = 0; i < n; ++i) { Opm::SimulatorReport q; q.pressure_time = r.p(0.2) ? 0 : r.logu(1e-4, 1e5); q.transport_time = r.p(0.2) ? 0 : r.logu(1e-4, 1e5); q.total_time = r.p(0.2) ? (r.p(0.5) ? 0 : r.logu(1e-4, 1e5)) : q.pressure_time + q.transport_time + r.u(); Opm::SimulatorReport keep = q; s += q; p += q.pressure_time; t += q.transport_time; o += q.total_time; CHK(keep.pressure_time == q.pressure_time && keep.transport_time == q.transport_time && keep.total_time == q.total_time, "report-argument", ""); ev("report_sums"); }
    if (r.p(0.2)) { s += s; p += p; t += t; o += o; } std::string d = cat(p, " ", t, " ", o);
    NEAR(s.pressure_time, p, 1e-14, p, "report-pressure", d); NEAR(s.transport_time, t, 1e-14, t, "report-transport", d); NEAR(s.total_time, o, 1e-14, o, "report-total", d);
    for (int par = 0; par < 2; ++par) {
        std::ostringstream os; int prec = r.i(1, 17); os.precision(prec); if (par) s.reportParam(os); else s.report(os); std::string x = os.str(); std::istringstream is(x); std::string line; double got[3] = {-1, -1, -1}; int lines = 0;
        while (std::getline(is, line)) { ++lines; size_t c = line.rfind(par ? '=' : ':'); if (!CHK(c != std::string::npos, "report-text", x)) return; double v = std::atof(line.c_str() + c + 1); std::string k = line.substr(0, c); for (auto& ch : k) ch = (char)std::tolower(ch); int w = k.find("pressure") != std::string::npos ? 0 : k.find("transport") != std::string::npos ? 1 : k.find("total") != std::string::npos ? 2 : -1; if (!CHK(w >= 0 && got[w] == -1, "report-text", x)) return; got[w] = v; }
        double tol = std::pow(10.0, 1 - prec) * 0.51 + 1e-15; CHK(lines == 3, "report-lines", x); NEAR(got[0], s.pressure_time, tol, s.pressure_time, "report-text-pressure", x); NEAR(got[1], s.transport_time, tol, s.transport_time, "report-text-transport", x); NEAR(got[2], s.total_time, tol, s.total_time, "report-text-total", x); ev("report_texts");
    }
    nontrivial(hcomb(hdbl(p), hdbl(o)));
}

// ---------------------------------------------------------------- stop watches
static boost::posix_time::ptime now() { return boost::posix_time::microsec_clock::local_time(); }
static double secs(boost::posix_time::time_duration d) { return d.total_microseconds() / 1e6; }
static void watch(Rng& r)
{
    typedef boost::posix_time::ptime P; Opm::time::StopWatch w; int st = 0; P s0, s1, l0, l1, e0, e1; int n = r.i(1, 25); std::string hist; uint64_t h = 77;
    for (int i = 0; i < n; ++i) {
        if (r.p(0.4)) { volatile double x = 0; for (int k = r.i(0, 3000); k > 0; --k) x = x + 1; } if (r.p(0.02)) ::usleep(r.i(1, 3000));
        int op = r.i(0, 4); bool threw = false; double v = 0; std::streambuf* old = std::cerr.rdbuf(0); P a = now();
        try { if (op == 0) w.start(); else if (op == 1) w.stop(); else if (op <= 3) v = w.secsSinceStart(); else v = w.secsSinceLast(); } catch (const std::exception&) { threw = true; }
        P b = now(); std::cerr.rdbuf(old); std::cerr.clear(); static const char* N[] = {"start", "stop", "since-start", "since-start", "since-last"}; hist += cat(" ", N[op], threw ? "!" : ""); h = hcomb(h, op * 2 + threw); bool want = op == 0 ? false : op == 1 ? st != 1 : st == 0;
        if (!CHK(threw == want, "watch-refusal", hist)) return; ev(threw ? "watch_refused" : "watch_calls"); if (threw) continue;
        const double tiny = 2e-6;
        if (op == 0) { st = 1; s0 = l0 = a; s1 = l1 = b; }
        else if (op == 1) { st = 2; e0 = a; e1 = b; }
        else { P r0 = st == 1 ? a : e0, r1 = st == 1 ? b : e1; P f0 = op == 4 ? l0 : s0, f1 = op == 4 ? l1 : s1; double lo = secs(r0 - f1), hi = secs(r1 - f0);
            CHK(v >= lo - tiny && v <= hi + tiny, op == 4 ? "watch-since-last" : "watch-since-start", cat(hist, ": ", v, " s, between ", lo, " and ", hi)); ev(st == 1 ? "watch_running" : "watch_stopped"); if (op == 4) { l0 = r0; l1 = r1; } }
    }
    nontrivial(h);
}

// ---------------------------------------------------------------- factories
static long alive = 0;
struct Base { int v; Base() : v(0) { ++alive; } Base(const Base& o) : v(o.v) { ++alive; } virtual ~Base() { --alive; } virtual int kind() const = 0; };
template <int K> struct D : Base { virtual int kind() const { return K; } };
struct Other { virtual ~Other() {} virtual int kind() const { return -7; } };
typedef Opm::Factory<Base> F;
static void add(int k, const std::string& n) { switch (k) { case 0: F::addCreator<D<0> >(n); break; case 1: F::addCreator<D<1> >(n); break; case 2: F::addCreator<D<2> >(n); break; default: F::addCreator<D<3> >(n); } }
static std::map<std::string, int>& reg() { static std::map<std::string, int> x; return x; }
static void factory(Rng& r, long k0)
{
    reg().clear(); // names carry the case number, so that a case replayed alone behaves the same
    std::vector<F::ProductPtr> objs; std::vector<std::pair<int, int>> model; int n = r.i(5, 40); uint64_t h = 9; long before = alive;
    for (int i = 0; i < n; ++i) {
        std::string name = cat(r.p(0.5) ? "type" : r.p(0.5) ? "Type" : "", r.i(0, 12), "#", k0); int op = r.i(0, 3); h = hcomb(h, hstr(name) + op); std::streambuf* old = std::cerr.rdbuf(0); bool threw = false; F::ProductPtr q;
        if (op == 0) { int k = r.i(0, 3); add(k, name); reg()[name] = k; ev("registrations"); }
        else if (op == 1) { try { q = F::createObject(name); } catch (const std::exception&) { threw = true; } std::cerr.rdbuf(old); bool known = reg().count(name) > 0; if (!CHK(threw == !known, "factory-refusal", name)) return; ev(known ? "created" : "unknown_types"); if (known) { CHK(q && q->kind() == reg()[name], "factory-type", name); CHK(q->v == 0, "factory-fresh", name); q->v = r.i(1, 1000); objs.push_back(q); model.push_back({reg()[name], q->v}); } }
        else if (op == 2 && !objs.empty()) { int j = r.i(0, (int)objs.size() - 1); bool ok = reg().count(name) && reg()[name] == model[j].first; try { q = F::cloneObject(name, objs[j]); } catch (const std::exception&) { threw = true; } std::cerr.rdbuf(old); if (!CHK(threw == !ok, "clone-refusal", name)) return; ev(ok ? "cloned" : "clone_refused"); if (ok) { CHK(q.get() != objs[j].get(), "clone-same-object", name); CHK(q->kind() == model[j].first && q->v == model[j].second, "clone-content", name); q->v += 1; objs.push_back(q); model.push_back({model[j].first, q->v}); } }
        else if (op == 3 && !objs.empty() && r.p(0.5)) { int j = r.i(0, (int)objs.size() - 1); q.reset(); objs.erase(objs.begin() + j); model.erase(model.begin() + j); ev("dropped"); }
        std::cerr.rdbuf(old); std::cerr.clear(); q.reset();
        for (size_t j = 0; j < objs.size(); ++j) CHK(objs[j]->kind() == model[j].first && objs[j]->v == model[j].second && objs[j].use_count() == 1, "factory-object-changed", name); CHK(alive - before == (long)objs.size(), "factory-lifetime", cat(alive - before, " objects alive, ", objs.size(), " held"));
    }
    bool threw = false; std::streambuf* old = std::cerr.rdbuf(0); try { Opm::Factory<Other>::createObject("type1"); } catch (const std::exception&) { threw = true; } std::cerr.rdbuf(old); std::cerr.clear(); CHK(threw, "factories-mixed", "another family's type name accepted"); nontrivial(h);
}
static void one(long k, Rng& r)
{
    averages<double>(r, 8e-16, "double"); averages<float>(r, 4e-7, "float"); unit_case(r); reports(r); watch(r); factory(r, k);
}
int main(int argc, char** argv) { return mon::run(argc, argv, "p39", [](long k, Rng& r) { one(k, r); }, 60); }
