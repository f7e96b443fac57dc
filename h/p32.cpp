// P32: scalar root finders under an evaluation-recording functor.
#include "mon.hpp"
#include <opm/core/utility/RootFinders.hpp>
#include <iostream>
using namespace mon;
using namespace Opm;

struct Rec { std::function<double(double)> fn; mutable std::vector<std::pair<double, double>> log; double operator()(double x) const { double v = fn(x); log.push_back(std::make_pair(x, v)); return v; } };

// kind: 0 linear,1 cubic,2 exp,3 flat power,4 piecewise linear,5 step-like atan,6 fractional-flow residual,7 shifted log, 8 oscillating, 9 continuous with long flat part
static std::function<double(double)> make(Rng& r, double a, double b, int& kind, bool& tame)
{
    kind = r.i(0, 9); double root = a + (b - a) * (r.p(0.15) ? r.logu(1e-9, 1e-2) : r.p(0.15) ? 1 - r.logu(1e-9, 1e-2) : r.u(0.01, 0.99)); double s = (r.p(0.5) ? 1 : -1) * (r.p(0.5) ? 1.0 : r.logu(1e-3, 1e4)); double L = b - a;
    tame = true;
    switch (kind) {
    case 0: return [=](double x) { return s * (x - root) / L; };
    case 1: return [=](double x) { double t = (x - root) / L; return s * (t * t * t + 0.3 * t); };
    case 2: { double k = r.u(0.5, 15); return [=](double x) { return s * (std::exp(k * (x - root) / L) - 1); }; }
    case 3: { tame = false; int p = 2 * r.i(1, 4) + 1; return [=](double x) { return s * std::pow((x - root) / L, p); }; }
    case 4: { double m1 = r.logu(0.01, 100), m2 = r.logu(0.01, 100); return [=](double x) { double t = (x - root) / L; return s * (t < 0 ? m1 * t : m2 * t); }; }
    case 5: { tame = false; double k = r.logu(1, 1e4); return [=](double x) { return s * std::atan(k * (x - root) / L); }; }
    case 6: { double M = r.logu(0.1, 20), dt = r.logu(1e-3, 1e3), q = r.u(0, 1); double s0 = r.u(); // y - s0 + dt*(f(y) - q) on the unit interval, mapped
        return [=](double x) { double y = (x - a) / L; double f = y * y / (y * y + M * (1 - y) * (1 - y)); return y - s0 + dt * (f - q); }; }
    case 7: return [=](double x) { return s * std::log1p((x - root) / L * ((x < root) ? 0.9 : 3.0)); };
    case 8: { tame = false; double w = r.u(3, 40); return [=](double x) { double t = (x - root) / L; return s * (t + 0.3 * std::sin(w * t)); }; }
    default: { tame = false; double fl = r.u(0.01, 0.4); return [=](double x) { double t = (x - root) / L; return s * (t > 0 ? t : t > -fl ? 1e-3 * t : t + fl * 0.999); }; }
    }
}

template <class P> double go(bool guess, const Rec& f, double g, double a, double b, int mi, double tol, int& it) { return guess ? RegulaFalsi<P>::solve(f, g, a, b, mi, tol, it) : RegulaFalsi<P>::solve(f, a, b, mi, tol, it); }

static void solve(Rng& r)
{
    double a, b; int rk = r.i(0, 3); if (rk == 0) { a = 0; b = 1; } else if (rk == 1) { a = r.u(-10, 10); b = a + r.logu(1e-3, 100); } else if (rk == 2) { a = r.u(1e5, 4e7); b = a + r.logu(1, 1e7); } else { a = -r.logu(1e-6, 1e6); b = r.logu(1e-6, 1e6); }
    int kind; bool tame; Rec f; f.fn = make(r, a, b, kind, tame); bool swap = r.p(0.2); double A = swap ? b : a, Bq = swap ? a : b;
    int mode = r.i(0, 9); // some cases without a sign change
    if (mode == 0) { auto g = f.fn; double off = std::max(std::fabs(g(a)), std::fabs(g(b))) * r.u(2, 4) + 1; f.fn = [=](double x) { return g(x) + off; }; }
    bool guess = r.p(0.5); double gv = r.p(0.15) ? A : r.p(0.15) ? Bq : a + r.u() * (b - a); if (mode == 0) gv = a + r.u() * (b - a);
    double tol = r.p(0.2) ? 0.0 : r.logu(1e-14, 1e-3); int mi = r.p(0.2) ? r.i(0, 6) : r.p(0.5) ? 60 : 200; int pol = r.i(0, 2);
    double fa = f.fn(a), fb = f.fn(b); bool sign = fa * fb < 0 || fa == 0 || fb == 0; if (guess && f.fn(gv) * fa < 0) sign = true; if (guess && f.fn(gv) * fb < 0) sign = true;
    if (!sign && mode != 0) ev("natural_no_bracket");
    f.log.clear(); int it = -12345; bool threw = false; double x = NAN; std::streambuf* old = std::cerr.rdbuf(0);
    try { x = pol == 0 ? go<ThrowOnError>(guess, f, gv, A, Bq, mi, tol, it) : pol == 1 ? go<WarnAndContinueOnError>(guess, f, gv, A, Bq, mi, tol, it) : go<ContinueOnError>(guess, f, gv, A, Bq, mi, tol, it); } catch (const std::exception&) { threw = true; }
    std::cerr.rdbuf(old); std::cerr.clear();
    std::string d = cat("kind ", kind, " [", A, ",", Bq, "] f ", fa, ",", fb, guess ? " guess " : " noguess ", gv, " tol ", tol, " maxit ", mi, " policy ", pol, " -> ", threw ? "threw" : "x=", x, " it ", it, " evals ", f.log.size());
    const double eps = 2.220446049250313e-16, mx = std::max(std::fabs(a), std::fabs(b)), slack = 16 * eps * mx;
    for (auto& e : f.log) CHK(e.first >= a - slack && e.first <= b + slack, "outside-bracket", cat(d, " evaluated at ", e.first));
    ev("evaluations", (long)f.log.size());
    int head = guess ? 1 : 0; // evaluations before the iterations: the end points (and the guess)
    int ne = (int)f.log.size();
    if (!threw) CHK(x >= a - slack && x <= b + slack, "result-outside", d);
    // success criterion, judged from the recorded evaluations only
    double fscale = 0; for (int i = 0; i < std::min(ne, 3); ++i) fscale = std::max(fscale, std::fabs(f.log[i].second));
    double epsF = tol + 2 * eps * std::max(fscale, 1.0), epsX = 2e-9 * (tol + eps * std::max(mx, 1.0)) + 4 * eps * mx;
    bool good = false;
    if (!threw) {
        if (std::fabs(f.fn(x)) <= epsF) good = true;
        double lo = -1e300, hi = 1e300; int sl = 0, sh = 0; for (auto& e : f.log) { if (e.first <= x && e.first > lo) { lo = e.first; sl = e.second > 0 ? 1 : -1; } if (e.first >= x && e.first < hi) { hi = e.first; sh = e.second > 0 ? 1 : -1; } }
        if (hi - lo <= epsX && sl * sh < 0) good = true;
    }
    (void)head;
    if (!sign) {
        ev("unbracketed"); if (pol == 0) CHK(threw || good, "unbracketed-not-reported", d);
        else { CHK(!threw, "continue-threw", d); if (!threw && !good) { CHK(x == A || x == Bq, "unbracketed-result", d); if (!guess) CHK(std::fabs(f.fn(x)) <= std::min(std::fabs(fa), std::fabs(fb)) * (1 + 1e-12), "unbracketed-result", d); } }
        CHK(it == 0, "iteration-count", d); return;
    }
    ev("bracketed"); nontrivial(hcomb(hcomb(hdbl(fa), hdbl(fb)), ne + 1000 * kind));
    CHK(it >= 0 && it <= mi, "iteration-limit", d); // reported count never exceeds the limit
    // number of steps made, from the log: evaluations other than those at the ends and the guess
    { int pre = 0; std::vector<double> pts; if (guess) pts.push_back(gv); if (!guess || A != gv) pts.push_back(A); if (!guess || Bq != gv) pts.push_back(Bq); for (size_t i = 0; i < pts.size() && pre < ne; ++i) { if (f.log[pre].first == pts[i]) ++pre; else break; } int steps = ne - pre; CHK(it == steps || (steps == it + 1 && it == mi), "iteration-count", cat(d, " steps seen ", steps)); ev("iterations", steps > 0 ? steps : 0); }
    if (threw) CHK(pol == 0 && it >= mi, "premature-failure", d);
    else if (!good) { CHK(pol != 0 && it >= mi, "not-a-root", cat(d, " f(x)=", f.fn(x)));
        // continuing after too many iterations: inside an interval still holding a sign change
        double lo = a, hi = b; for (auto& e : f.log) { if (e.first <= x) lo = std::max(lo, e.first); if (e.first >= x) hi = std::min(hi, e.first); } }
    else ev("roots_found");
    if (tame && mi >= 100 && rk <= 1 && tol >= 1e5 * eps * std::max(1.0, mx / (b - a)) * std::max(1.0, fscale)) CHK(good && it <= 80, "slow", d);
}
static void bracket(Rng& r)
{
    double x0 = r.u(-5, 5), root = x0 + (r.p(0.5) ? 1 : -1) * r.logu(1e-4, 1e3), s = r.p(0.5) ? 1 : -1; int kind = r.i(0, 2); double dx = (r.p(0.5) ? 1 : -1) * r.logu(1e-3, 10); bool none = r.p(0.1);
    Rec f; f.fn = [=](double x) { double t = x - root; if (none) return 1.0 + t * t; return s * (kind == 0 ? t : kind == 1 ? t * t * t : std::atan(t)); }; if (r.p(0.05)) { root = x0; f.fn = [=](double x) { return s * (x - x0); }; }
    double a = NAN, b = NAN; bool threw = false; try { bracketZero(f, x0, dx, a, b); } catch (const std::exception&) { threw = true; }
    std::string d = cat("x0 ", x0, " dx ", dx, " root ", root, " kind ", kind, " -> [", a, ",", b, "]");
    if (none && root != x0) { CHK(threw, "bracket-not-reported", d); ev("unbracketable"); return; }
    if (!CHK(!threw, "bracket-threw", d)) return;
    CHK(a <= b, "bracket-order", d); CHK(f.fn(a) * f.fn(b) <= 0, "bracket-sign", d); CHK(f.log.size() <= 101, "bracket-work", d); ev("brackets");
}
int main(int c, char** v) { return run(c, v, "p32", [](long k, Rng& r) { for (int q = 0; q < 20; ++q) solve(r); for (int q = 0; q < 3; ++q) bracket(r); }); }
