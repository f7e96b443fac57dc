// P31: one-dimensional tables and monotone cubic interpolation against independent models.
#include "mon.hpp"
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>
#include <iostream>
using namespace mon;
using namespace Opm;
typedef std::vector<double> VD;

static VD inc(Rng& r, int n) { VD x(n); double sc = r.p(0.5) ? 1.0 : r.logu(1e-6, 1e7), off = r.p(0.5) ? 0.0 : r.u(-10, 10); double t = off; for (int i = 0; i < n; ++i) { x[i] = t * sc; t += r.p(0.1) ? r.u(0.001, 0.01) : r.u(0.05, 2); } return x; }
static double amax(const VD& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

// interval index by linear scan: last i with x >= xv[i], clamped to [0, n-2]
static int interval(const VD& xv, double x) { int i = 0; while (i + 2 < (int)xv.size() && x >= xv[i + 1]) ++i; return i; }
static double lin(const VD& x, const VD& y, double t) { int i = interval(x, t); double w = (t - x[i]) / (x[i + 1] - x[i]); return y[i] + w * (y[i + 1] - y[i]); }

static void nonuniform(Rng& r)
{
    int n = r.i(2, 14); VD x = inc(r, n), y(n); int mode = r.i(0, 2); double ys = r.logu(1e-8, 1e6);
    double t = r.u(-3, 3); for (int i = 0; i < n; ++i) { if (mode == 0) y[i] = ys * r.u(-5, 5); else { t += r.p(0.0) ? 0 : r.u(0.01, 2) * (mode == 1 ? 1 : -1); y[i] = ys * t; } }
    typedef NonuniformTableLinear<double> T; T f(x, y); double S = amax(y), X = x.back() - x[0]; double slope = 0; for (int i = 0; i + 1 < n; ++i) slope = std::max(slope, std::fabs((y[i + 1] - y[i]) / (x[i + 1] - x[i])));
    CHK(f.domain().first == x[0] && f.domain().second == x.back(), "nonuni:domain", "domain");
    auto checkall = [&](const T& f, const VD& x, const char* tag) {
        double xm = amax(x); double slp = 0; for (int i = 0; i + 1 < n; ++i) slp = std::max(slp, std::fabs((y[i + 1] - y[i]) / (x[i + 1] - x[i]))); double tolS = S + slp * xm;
        for (int i = 0; i < n; ++i) NEAR(f(x[i]), y[i], 1e-14, S, std::string("nonuni:node") + tag, cat("node ", i, " of ", n));
        for (int q = 0; q < 25; ++q) {
            double p = q < 3 ? x[0] - r.u(0, 1) * (x.back() - x[0]) : q < 6 ? x.back() + r.u(0, 1) * (x.back() - x[0]) : q < 10 ? x[r.i(0, n - 1)] : x[0] + r.u() * (x.back() - x[0]);
            NEAR(f(p), lin(x, y, p), 1e-13, tolS, std::string("nonuni:value") + tag, cat("x=", p, " nodes ", vec(x), " values ", vec(y)));
            int i = interval(x, p); NEAR(f.derivative(p), (y[i + 1] - y[i]) / (x[i + 1] - x[i]), 1e-12, slp * 1e-3, std::string("nonuni:derivative") + tag, cat("x=", p, " nodes ", vec(x)));
            NEAR(linearInterpolation(x, y, p), lin(x, y, p), 1e-13, tolS, "lin:value", cat("x=", p)); int ix = -7; NEAR(linearInterpolation(x, y, p, ix), lin(x, y, p), 1e-13, tolS, "lin:value-ix", cat("x=", p)); CHK(ix == i, "lin:index", cat("x=", p, " index ", ix, " expected ", i, " nodes ", vec(x))); CHK(tableIndex(x, p) == i, "lin:tableIndex", cat("x=", p)); ev("linear_evaluations", 5);
        }
        if (mode) for (int q = 0; q < 12; ++q) {
            double yl = std::min(y[0], y.back()), yh = std::max(y[0], y.back()); double v = q < 2 ? yl - r.u() * (yh - yl) : q < 4 ? yh + r.u() * (yh - yl) : q < 6 ? y[r.i(0, n - 1)] : r.u(yl, yh);
            double p = f.inverse(v); NEAR(f(p), v, 1e-10, tolS, std::string("nonuni:inverse") + tag, cat("f(inverse(", v, ")) with inverse ", p, " decreasing=", mode == 2)); ev("inverse_lookups");
        }
    };
    checkall(f, x, ""); T copy(f); CHK(copy == f && f == copy, "nonuni:equal", "copy differs");
    { VD y2 = y; y2[r.i(0, n - 1)] += S; T g(x, y2); CHK(!(g == f), "nonuni:equal", "different y equal"); VD x2 = x; x2[n - 1] += X; T h(x2, y); CHK(!(h == f), "nonuni:equal", "different x equal"); }
    double c = r.u(-5, 5), d = c + r.logu(0.01, 100); VD xr(n); for (int i = 0; i < n; ++i) xr[i] = (x[i] - x[0]) * (d - c) / X + c;
    f.rescaleDomain(std::make_pair(c, d)); NEAR(f.domain().first, c, 1e-14, 1, "nonuni:rescale", "left"); NEAR(f.domain().second, d, 1e-13, 1, "nonuni:rescale", "right");
    // evaluate the rescaled table away from nodes (rounding of the nodes moves interval ends), then its inverse
    for (int q = 0; q < 20; ++q) { int i = r.i(0, n - 2); double w = r.u(0.01, 0.99), p = xr[i] + w * (xr[i + 1] - xr[i]); double slp = std::fabs((y[i + 1] - y[i]) / (xr[i + 1] - xr[i])); NEAR(f(p), y[i] + w * (y[i + 1] - y[i]), 1e-11, S + slp * amax(xr), "nonuni:rescaled-value", cat("x=", p)); }
    if (mode) for (int q = 0; q < 8; ++q) { double v = r.u(std::min(y[0], y.back()), std::max(y[0], y.back())), p = f.inverse(v); CHK(p >= c - 1e-9 * (d - c) && p <= d + 1e-9 * (d - c), "nonuni:rescaled-inverse", cat("inverse ", p, " outside the rescaled domain [", c, ",", d, "]")); double slp = 0; for (int i = 0; i + 1 < n; ++i) slp = std::max(slp, std::fabs((y[i + 1] - y[i]) / (xr[i + 1] - xr[i]))); NEAR(f(p), v, 1e-10, S + slp * amax(xr), "nonuni:rescaled-inverse", cat("f(inverse(", v, ")) after rescaling, decreasing=", mode == 2)); }
    checkall(copy, x, ":copy"); // the copy is unaffected by rescaling the original
    // flat pieces: inverse still returns a preimage for values off the flats; descending lookup tables
    if (n >= 4 && mode) { VD yf = y; int k = r.i(1, n - 3); yf[k + 1] = yf[k]; bool ok = true; for (int i = 0; i + 1 < n; ++i) if (mode == 1 ? yf[i + 1] < yf[i] : yf[i + 1] > yf[i]) ok = false; if (ok) { T g(x, yf); for (int q = 0; q < 6; ++q) { double v = r.u(std::min(yf[0], yf.back()), std::max(yf[0], yf.back())); NEAR(g(g.inverse(v)), v, 1e-10, S + slope * amax(x), "nonuni:inverse-flat", cat("value ", v)); } } }
    { VD xd(x.rbegin(), x.rend()), yd(y.rbegin(), y.rend()); for (int q = 0; q < 8; ++q) { double p = x[0] + r.u(-0.3, 1.3) * X; NEAR(linearInterpolation(xd, yd, p), lin(x, y, p), 1e-12, S + slope * amax(x), "lin:descending", cat("x=", p)); } }
    bool thrown = false; if (n >= 2) { VD bad = x; std::swap(bad[0], bad[n - 1]); try { T g(bad, y); } catch (...) { thrown = true; } CHK(thrown, "nonuni:unsorted", "unsorted x values accepted"); }
    nontrivial(hcomb(hcomb(hstr("nonuni"), n), hdbl(x[1] + y[0])));
}

static void uniform(Rng& r)
{
    int n = r.i(2, 40); double a = r.u(-10, 10) * (r.p(0.5) ? 1 : 1e5), b = a + r.logu(1e-3, 1e6); VD y(n); double ys = r.logu(1e-8, 1e6); for (auto& v : y) v = ys * r.u(-5, 5);
    typedef UniformTableLinear<double> T; T f(a, b, y), f2(a, b, &y[0], n); double S = amax(y), M = std::max(std::fabs(a), std::fabs(b));
    CHK(f == f2, "uni:ctor", "vector and pointer construction differ");
    auto checkall = [&](const T& f, double a, double b, const char* tag) {
        double h = (b - a) / (n - 1), xt = 1e-14 * std::max(std::fabs(a), std::fabs(b)) * 8 / h, slope = 0; for (int i = 0; i + 1 < n; ++i) slope = std::max(slope, std::fabs(y[i + 1] - y[i]));
        double tol = S + slope * xt * 1e13;
        for (int i = 0; i < n; ++i) NEAR(f(a + i * h), y[i], 1e-13, tol, std::string("uni:node") + tag, cat("node ", i));
        CHK(f(a) == y[0], std::string("uni:left-end") + tag, cat(f(a), " vs ", y[0])); NEAR(f(b), y[n - 1], 1e-13, tol, std::string("uni:right-end") + tag, "right end");
        for (int q = 0; q < 20; ++q) { int i = r.i(0, n - 2); double w = r.u(0.02, 0.98), p = a + (i + w) * h; NEAR(f(p), (1 - w) * y[i] + w * y[i + 1], 1e-13, tol, std::string("uni:value") + tag, cat("x=", p)); NEAR(f.derivative(p), (y[i + 1] - y[i]) / h, 1e-11, slope / h * 1e-3, std::string("uni:derivative") + tag, cat("x=", p)); ev("linear_evaluations", 2); }
        for (int q = 0; q < 4; ++q) { double p = r.logu(1e-6, 1e3) * (b - a); if (a - p < a) { CHK(f(a - p) == y[0], std::string("uni:below") + tag, cat("f(", a - p, ")=", f(a - p))); CHK(f.derivative(a - p) == 0, std::string("uni:below-derivative") + tag, cat(f.derivative(a - p))); } if (b + p > b) { NEAR(f(b + p), y[n - 1], 1e-13, tol, std::string("uni:above") + tag, cat("f(", b + p, ")")); CHK(f.derivative(b + p) == 0, std::string("uni:above-derivative") + tag, cat(f.derivative(b + p))); } }
        NEAR(f.derivative(b), (y[n - 1] - y[n - 2]) / h, 1e-11, 0, std::string("uni:derivative-end") + tag, "slope at the right end");
        NEAR(f.derivative(a), (y[1] - y[0]) / h, 1e-11, 0, std::string("uni:derivative-end") + tag, "slope at the left end");
    };
    checkall(f, a, b, ""); CHK(f.domain().first == a && f.domain().second == b, "uni:domain", "domain");
    { std::ostringstream o; o.precision(17); o << f; std::istringstream in(o.str()); double px, py; for (int i = 0; i < n; ++i) { if (!CHK((bool)(in >> px >> py), "uni:print", "short output")) break; NEAR(px, a + i * (b - a) / (n - 1), 1e-13, M, "uni:print", "x"); CHK(py == y[i], "uni:print", "y"); } CHK(!(in >> px), "uni:print", "too long output"); }
    int thrown = 0; T g(f); try { g.setLeftPolicy(T::Throw); } catch (...) { ++thrown; } try { g.setRightPolicy(T::Extrapolate); } catch (...) { ++thrown; } CHK(thrown == 2, "uni:policy", "unimplemented policy accepted"); g.setLeftPolicy(T::ClosestValue); g.setRightPolicy(T::ClosestValue); CHK(g == f, "uni:policy", "changed by refused policy");
    double c = r.u(-5, 5), d = c + r.logu(0.01, 100); g.rescaleDomain(std::make_pair(c, d)); checkall(g, c, d, ":rescaled"); CHK(g.domain().first == c && g.domain().second == d, "uni:domain", "rescaled"); CHK(!(g == f), "uni:equal", "rescaled equal to original"); checkall(f, a, b, ":again");
    VD y2 = y; y2[r.i(0, n - 1)] += S; CHK(!(T(a, b, y2) == f), "uni:equal", "different values equal"); thrown = 0; try { T(b, a, y); } catch (...) { ++thrown; } try { T(a, b, VD(1, 1.0)); } catch (...) { ++thrown; } CHK(thrown == 2, "uni:invalid", "empty domain or single value accepted");
    nontrivial(hcomb(hcomb(hstr("uni"), n), hdbl(a + y[0])));
}

struct CubicModel { std::map<double, double> d; };
static void flags(MonotCubicInterpolator& f, const std::map<double, double>& m, const char* tag)
{
    bool si = true, sd = true, i = true, d = true; double p = 0; bool first = true; double mx = -1e300, mn = 1e300;
    for (auto& kv : m) { if (!first) { if (!(kv.second > p)) si = false; if (!(kv.second < p)) sd = false; if (kv.second < p) i = false; if (kv.second > p) d = false; } p = kv.second; first = false; mx = std::max(mx, p); mn = std::min(mn, p); }
    CHK(f.isMonotone() == (i || d) && f.isStrictlyMonotone() == (si || sd) && f.isStrictlyIncreasing() == si && f.isStrictlyDecreasing() == sd && f.isMonotoneIncreasing() == i && f.isMonotoneDecreasing() == d, std::string("cubic:flags") + tag, cat("flags ", f.isMonotone(), f.isStrictlyMonotone(), f.isStrictlyIncreasing(), f.isStrictlyDecreasing(), f.isMonotoneIncreasing(), f.isMonotoneDecreasing(), " expected ", (i || d), (si || sd), si, sd, i, d, " values ", vec(f.get_fVector())));
    auto A = f.getMaximumF(), B = f.getMinimumF(); CHK(A.second == mx && m.count(A.first) && m.at(A.first) == mx, std::string("cubic:max") + tag, cat("max ", A.second, " at ", A.first, " expected ", mx)); CHK(B.second == mn && m.count(B.first) && m.at(B.first) == mn, std::string("cubic:min") + tag, cat("min ", B.second, " at ", B.first, " expected ", mn));
    CHK(f.getMinimumX() == std::make_pair(m.begin()->first, m.begin()->second) && f.getMaximumX() == std::make_pair(m.rbegin()->first, m.rbegin()->second), std::string("cubic:xrange") + tag, "x range"); CHK(f.getSize() == (int)m.size(), std::string("cubic:size") + tag, cat(f.getSize(), " vs ", m.size()));
    VD xv = f.get_xVector(), fv = f.get_fVector(); std::map<double, double> back; if (CHK(xv.size() == fv.size() && xv.size() == m.size(), std::string("cubic:vectors") + tag, "sizes")) { for (size_t k = 0; k < xv.size(); ++k) back[xv[k]] = fv[k]; CHK(back == m, std::string("cubic:vectors") + tag, "contents"); }
}
// values, policy beyond the ends, monotonicity, slope continuity of the interpolant
static void shape(MonotCubicInterpolator& f, const std::map<double, double>& m, Rng& r, const char* tg)
{
    std::string tag = tg; VD x, y; for (auto& kv : m) { x.push_back(kv.first); y.push_back(kv.second); } int n = x.size(); double S = amax(y), X = amax(x); bool i = true, d = true; for (int k = 0; k + 1 < n; ++k) { if (y[k + 1] < y[k]) i = false; if (y[k + 1] > y[k]) d = false; }
    for (int k = 0; k < n; ++k) NEAR(f(x[k]), y[k], 1e-13, S, "cubic:node" + tag, cat("node ", k)); double span = x.back() - x[0]; for (int q = 0; q < 3; ++q) { double p = r.logu(1e-6, 10) * span; CHK(f(x[0] - p) == y[0] && f(x.back() + p) == y.back(), "cubic:outside" + tag, cat("f(", x[0] - p, ")=", f(x[0] - p), " f(", x.back() + p, ")=", f(x.back() + p))); }
    double prevslope = 0, prevnz = 0;
    for (int k = 0; k + 1 < n; ++k) {
        double h = x[k + 1] - x[k], D = y[k + 1] - y[k], noise = 1e-11 * (S + std::fabs(D) * X / h);
        double v[5], t[5] = {0, 0.25, 0.5, 0.75, 1}, q[5]; for (int j = 0; j < 5; ++j) { q[j] = f(x[k] + t[j] * h); v[j] = q[j] - y[k]; }
        // cubic through t=0,.25,.5,1 -> check at .75, endpoint slopes
        double c1, c2, c3; { double a = v[1], b = v[2], e = v[4]; // a=c1/4+c2/16+c3/64, b=c1/2+c2/4+c3/8, e=c1+c2+c3
            double A2 = 16 * a, B2 = 4 * b; // 4c1+c2+c3/4 ; 2c1+c2+c3/2
            double u = A2 - B2, w = B2 - e; // 2c1 - c3/4 ; c1 - c3/2
            c3 = (u - 2 * w) / 0.75; c1 = w + c3 / 2; c2 = e - c1 - c3; }
        NEAR(v[3], 0.75 * c1 + 0.5625 * c2 + 0.421875 * c3, 1e-9, noise * 1e11, "cubic:cubic" + tag, "piecewise cubic");
        double s0 = c1 / h, s1 = (c1 + 2 * c2 + 3 * c3) / h, sscale = 0; sscale = (std::fabs(c1) + std::fabs(c2) + std::fabs(c3)) / h;
        if (k > 0) CHK(std::fabs(s0 - prevslope) <= 1e-8 * (sscale + std::fabs(prevslope)) + 300 * noise / h + prevnz, "cubic:slope-continuity" + tag, cat("slope jumps from ", prevslope, " to ", s0, " at node ", k, " nodes ", vec(x), " values ", vec(y)));
        prevslope = s1; prevnz = 300 * noise / h;
        if (n == 2) NEAR(q[2], 0.5 * (y[0] + y[1]), 1e-12, noise * 1e11, "cubic:two-points" + tag, "two points are interpolated linearly");
        if (i || d) { double last = y[k]; for (int j = 1; j <= 16; ++j) { double p = x[k] + h * j / 16.0, fv = f(p); double lo = std::min(y[k], y[k + 1]), hi = std::max(y[k], y[k + 1]); CHK(fv >= lo - noise && fv <= hi + noise, "cubic:between" + tag, cat("f(", p, ")=", fv, " outside [", lo, ",", hi, "]")); CHK(i ? fv >= last - noise : fv <= last + noise, "cubic:monotone" + tag, cat("f(", p, ")=", fv, " after ", last, " nodes ", vec(x), " values ", vec(y))); last = fv; ev("monotone_points"); } }
        ev("cubic_intervals");
    }
}
static void cubic(Rng& r, long kcase)
{
    int n = r.i(2, 12); VD x = inc(r, n), y(n); int mode = r.i(0, 5); double ys = r.p(0.5) ? 1.0 : r.logu(1e-10, 1e6), t = r.u(-2, 2), pflat = r.p(0.4) ? 0.35 : 0.0; bool steep = r.p(0.4);
    for (int i = 0; i < n; ++i) { if (mode == 0) y[i] = ys * r.u(-5, 5); else if (mode == 5 && r.p(0.2)) y[i] = ys * r.u(-2, 2); else { y[i] = ys * t; if (!r.p(pflat)) t += (steep ? r.logu(1e-4, 10) : r.u(0.05, 1)) * (mode % 2 ? 1 : -1); } }
    if (r.p(0.05)) for (auto& v : y) v = 2.5; // constant
    std::map<double, double> m; for (int i = 0; i < n; ++i) m[x[i]] = y[i];
    { double c0 = ys * r.u(-2, 2), c1 = ys * r.u(-3, 3); VD yl(n); for (int i = 0; i < n; ++i) yl[i] = c0 + c1 * (x[i] - x[0]); MonotCubicInterpolator l(x, yl); for (int q = 0; q < 10; ++q) { double p = x[0] + r.u() * (x.back() - x[0]); double h = x.back() - x[0]; for (int i = 0; i + 1 < n; ++i) h = std::min(h, x[i + 1] - x[i]); NEAR(l(p), c0 + c1 * (p - x[0]), 1e-9 + 1e-14 * amax(x) / h, amax(yl), "cubic:line", cat("points on a line: x=", p, " nodes ", vec(x))); } ev("cubic_lines"); }
    MonotCubicInterpolator f(x, y); flags(f, m, ""); shape(f, m, r, ""); nontrivial(hcomb(hcomb(hstr("cubic"), mode * 100 + n), hdbl(y[0] + x[1])));
    { std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; r.shuffle(o); MonotCubicInterpolator g; for (int i : o) { if (r.p(0.2)) g.addPair(x[i], 123.0); g.addPair(x[i], y[i]); } flags(g, m, ":added"); for (int q = 0; q < 20; ++q) { double p = x[0] + r.u(-0.1, 1.1) * (x.back() - x[0]); CHK(f(p) == g(p), "cubic:add-order", cat("f(", p, ") depends on the order points were added: ", f(p), " vs ", g(p))); }
      bool t1 = false; try { g.addPair(NAN, 1); } catch (const char*) { t1 = true; } bool t2 = false; try { g(INFINITY); } catch (const char*) { t2 = true; } CHK(t1 && t2, "cubic:nan", "nan/inf accepted"); flags(g, m, ":after-refused"); }
    { auto mx = f.getMissingX(); double best = -1; VD mids; for (int i = 0; i + 1 < n; ++i) best = std::max(best, std::fabs(y[i + 1] - y[i])); bool ok = mx.second == best; bool okx = false; for (int i = 0; i + 1 < n; ++i) if (std::fabs(y[i + 1] - y[i]) == best && close(mx.first, 0.5 * (x[i] + x[i + 1]), 1e-14, 0)) okx = true; CHK(ok && okx, "cubic:missing", cat("missing x ", mx.first, " jump ", mx.second, " best jump ", best)); }
    { double s = r.p(0.5) ? r.logu(1e-3, 1e3) : -r.logu(1e-3, 1e3); MonotCubicInterpolator g(f); g.scaleData(s); std::map<double, double> ms; for (auto& kv : m) ms[kv.first] = kv.second * s; flags(g, ms, ":scaled"); shape(g, ms, r, ":scaled"); for (int q = 0; q < 10; ++q) { double p = x[0] + r.u() * (x.back() - x[0]); NEAR(g(p), s * f(p), 1e-9, std::fabs(s) * amax(y), "cubic:scaled", cat("x=", p, " factor ", s)); } flags(f, m, ":unscaled"); }
    bool mono = f.isMonotone();
    { MonotCubicInterpolator g(f); g.shrinkFlatAreas(); std::map<double, double> ms = m; if (mono && n >= 2) { for (auto it = ms.begin();;) { auto nx = it; ++nx; if (nx == ms.end()) break; if (std::fabs(it->second - nx->second) < 1e-14) ms.erase(nx); else it = nx; } } if (ms.size() >= 2) { CHK(g.getSize() == (int)ms.size(), "cubic:shrink", cat("size ", g.getSize(), " expected ", ms.size())); flags(g, ms, ":shrunk"); shape(g, ms, r, ":shrunk"); if (mono) CHK(g.isStrictlyMonotone(), "cubic:shrink", "not strictly monotone after shrinking"); ev("shrunk"); } }
    if (n >= 3) { MonotCubicInterpolator g(f); g.chopFlatEndpoints(); VD xs, yv; int lo = 0, hi = n - 1; while (lo < n - 1 && std::fabs(y[lo] - y[lo + 1]) < 1e-14) ++lo; while (hi > lo + 1 && std::fabs(y[hi] - y[hi - 1]) < 1e-14) --hi; if (lo < n - 1) { std::map<double, double> ms; for (int i = lo; i <= hi; ++i) ms[x[i]] = y[i]; if (ms.size() >= 2) { flags(g, ms, ":chopped"); shape(g, ms, r, ":chopped"); if (lo > 0 || hi < n - 1) ev("chopped"); } } }
    if (mono) { UniformTableLinear<double> t; int ns = r.i(2, 60); buildUniformMonotoneTable(x, y, ns, t); double a = x[0], b = x.back(); double last = t(a); bool incr = y.back() >= y[0]; double nz = 1e-11 * amax(y); for (int i = 0; i < ns; ++i) { double w = double(i) / (ns - 1), p = (1 - w) * a + w * b; double slope = 0; for (int q = 0; q + 1 < n; ++q) slope = std::max(slope, 3 * std::fabs((y[q + 1] - y[q]) / (x[q + 1] - x[q]))); double tol = nz + slope * 1e-13 * amax(x); CHK(std::fabs(t(p) - f(p)) <= tol, "unimono:sample", cat("sample ", i, ": ", t(p), " vs ", f(p))); CHK(incr ? t(p) >= last - tol : t(p) <= last + tol, "unimono:monotone", cat("sample ", i)); last = t(p); } CHK(t.domain().first == a && t.domain().second == b, "unimono:domain", "domain"); ev("uniform_monotone_tables"); }
    // file input: extra columns, commas, comments, blank and non-conforming lines
    if (kcase % 3 == 0) {
        int xc = r.i(1, 3), fc = r.i(1, 3); while (fc == xc) fc = r.i(1, 3); int nc = std::max(std::max(xc, fc), r.i(1, 4)); std::string s;
        auto num = [&](double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return std::string(b); };
        for (int i = 0; i < n; ++i) { if (r.p(0.15)) s += "# comment 1 2 3 4\n"; if (r.p(0.1)) s += "\n"; if (r.p(0.1)) s += "header text\n"; if (r.p(0.1)) s += num(r.u(-1, 1)) + (r.p(0.5) ? "\n" : " text\n");
            if (r.p(0.2)) s += "  "; for (int c = 1; c <= nc; ++c) { s += num(c == xc ? x[i] : c == fc ? y[i] : r.u(-9, 9)); s += c == nc ? "" : r.p(0.3) ? ", " : "\t"; } if (r.p(0.1) && nc >= std::max(xc, fc)) s += " tail"; if (i + 1 < n || r.p(0.7)) s += "\n"; }
        // a line with a single number conforms when both columns are among the first... never: two distinct columns are needed
        std::string fn = cat("p31.", getpid(), ".txt"); spit(fn, s); MonotCubicInterpolator g; bool ok = g.read(fn, xc, fc); CHK(ok, "cubic:file", "file refused"); if (ok) { std::map<double, double> got; VD gx = g.get_xVector(), gf = g.get_fVector(); for (size_t i = 0; i < gx.size(); ++i) got[gx[i]] = gf[i]; CHK(got == m, "cubic:file", cat("read ", vec(gx), " ", vec(gf), " expected ", vec(x), " ", vec(y), " columns ", xc, ",", fc, " text: ", s)); }
        if (ok) { VD gx = g.get_xVector(), gf = g.get_fVector(); auto eq = [&](const MonotCubicInterpolator& o, const char* how) { CHK(o.get_xVector() == gx && o.get_fVector() == gf, "cubic:file-constructor", how); }; { MonotCubicInterpolator o(fn, xc, fc); eq(o, "name and columns"); } { MonotCubicInterpolator o(fn.c_str(), xc, fc); eq(o, "characters and columns"); } if (xc == 1 && fc == 2) { MonotCubicInterpolator o(fn); eq(o, "name"); MonotCubicInterpolator o2(fn.c_str()); eq(o2, "characters"); MonotCubicInterpolator o3; CHK(o3.read(fn), "cubic:file", "file refused"); eq(o3, "read"); ev("default_columns"); } ev("file_constructors"); }
        unlink(fn.c_str()); { bool t2 = false; try { MonotCubicInterpolator q(fn.c_str(), xc, fc); } catch (const char*) { t2 = true; } CHK(t2, "cubic:file-missing", "missing file accepted by constructor with columns"); } MonotCubicInterpolator e; CHK(!e.read(fn, 1, 2), "cubic:file-missing", "missing file accepted"); bool th = false; try { MonotCubicInterpolator q(fn); } catch (const char*) { th = true; } CHK(th, "cubic:file-missing", "missing file accepted by constructor"); ev("table_files");
    }
    bool th = false; try { MonotCubicInterpolator q(x, VD(n + 1, 0.0)); } catch (const char*) { th = true; } CHK(th, "cubic:sizes", "unequal vectors accepted");
}
int main(int c, char** v)
{
    return run(c, v, "p31", [](long k, Rng& r) { try { switch (k % 4) { case 0: nonuniform(r); ev("nonuniform_tables"); break; case 1: uniform(r); ev("uniform_tables"); break; default: cubic(r, k / 4); ev("cubic_tables"); } } catch (const char* s) { violate("unexpected-exception", s); } });
}
