// P08: schedules unfold into the right epochs and time steps; the timer visits every step once with the right elapsed time and date.
#include "config.h"
#include "deck.hpp"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace mon; using namespace dk;
// calendar arithmetic of our own: days since 1 March 0000
static long daynum(int y, int m, int d) { long a = m <= 2 ? y - 1 : y, mm = m <= 2 ? m + 9 : m - 3; return a * 365 + a / 4 - a / 100 + a / 400 + (mm * 153 + 2) / 5 + d - 1; }
static int mdays(int y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return n[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)); }
static void civil(long n, int& y, int& m, int& d) { y = (int)(n / 366); while (daynum(y + 1, 1, 1) <= n) ++y; m = 1; while (m < 12 && daynum(y, m + 1, 1) <= n) ++m; d = (int)(n - daynum(y, m, 1)) + 1; }
static std::string datestr(double start, double sec, int off) { long s = (long)sec + off, d = s >= 0 ? s / 86400 : -((-s + 86399) / 86400); long rem = s - d * 86400; int y, m, dd; civil((long)start + d, y, m, dd); char b[64]; static const char* mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(b, sizeof b, "%04d-%s-%02d %02ld:%02ld:%02ld", y, mn[m - 1], dd, rem / 3600, rem / 60 % 60, rem % 60); return b; }
static Tok tk(char k, double d, const std::string& s, int g, bool q = false) { Tok t; t.k = k; t.d = d; t.s = s; t.grp = g; t.dim = '1'; t.quote = q; return t; }
struct Ref { std::vector<std::map<std::string, KW> > ep; std::vector<std::vector<double> > steps; double elapsed = 0; };
// the timer on one list of steps (seconds), from wherever it is
static void timer(Opm::SimulatorTimer& t, const dvec& st, int from, double startday, bool dates, Rng& r, const std::string& ctx, std::vector<int>* visits = 0, int upto = -1)
{
    int n = (int)st.size(); if (upto < 0) upto = n; double el = 0, total = 0; for (double x : st) total += x; for (int i = 0; i < from; ++i) el += st[i];
    CHK(t.numSteps() == n, "timer-steps", cat(t.numSteps(), " expected ", n, ctx));
    for (int i = from; ; ++i) {
        ev("timer_steps"); if (!CHK(t.currentStepNum() == i, "timer-stepnum", cat(t.currentStepNum(), " expected ", i, ctx))) return;
        CHK(close(t.currentTime(), el, 1e-12, total * 1e-3), "timer-elapsed", cat("step ", i, " ", t.currentTime(), " expected ", el, ctx));
        if (dates) { std::ostringstream o; o << t.currentDateTime(); std::string s = o.str().substr(0, 20); double e = el; CHK(s == datestr(startday, e, 0) || s == datestr(startday, e, 1) || s == datestr(startday, e, -1), "timer-date", cat("elapsed ", e, " date ", s, " expected ", datestr(startday, e, 0), ctx)); ev("timer_dates"); }
        if (!CHK(t.done() == (i == n), "timer-done", cat("step ", i, " of ", n, ctx))) return; if (i >= upto || i >= n) break;
        CHK(t.currentStepLength() == st[i], "timer-length", cat("step ", i, " ", t.currentStepLength(), " expected ", st[i], ctx)); if (visits) ++(*visits)[i]; if (r.p(0.05)) { std::ostringstream o; t.report(o); CHK(o.str().find(cat("number ", i, " ")) != std::string::npos, "timer-report", o.str()); } ++t; el += st[i];
    }
}
static void schedule(Rng& r)
{
    static const char* SCHED[] = {"WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "GCONINJE", "GCONPROD", "WGRUPCON", "WPOLYMER"}; static const char* STAT[] = {"PVTW", "DENSITY", "SWOF", "EQUIL", "TITLE", "SPECGRID", "ROCK", "PVDO"};
    std::vector<KW> ks; Ref R; R.ep.push_back(std::map<std::string, KW>()); dvec steps; bool conv = r.p(0.7), field = r.p(0.3), ts = false; Units U = field ? field ? dk::field() : metric() : metric(); (void)U; int sy = 1983, sm = 1, sd = 1; double el = 0;
    if (field) ks.push_back(flag("FIELD"));
    { int n = r.i(0, 3); std::set<std::string> u; for (int i = 0; i < n; ++i) { std::string nm = STAT[r.i(0, 7)]; if (u.insert(nm).second) { ks.push_back(special(r, nm)); R.ep[0][nm] = ks.back(); } } if (r.p(0.4)) ks.push_back(array_d("PORO", runs(r, 5, false), '1')); }
    if (r.p(0.8)) { sy = r.p(0.2) ? (r.p(0.5) ? 1999 : 1899) + r.i(0, 2) : r.i(1850, 2150); sm = r.p(0.3) ? 2 : r.i(1, 12); sd = r.p(0.3) ? mdays(sy, sm) : r.i(1, mdays(sy, sm)); B b("START", 'S'); b.in(sd).grp(); b.raw(sm == 7 && r.p(0.5) ? "JUL" : MONTHS[sm - 1]); b.row.push_back(vd(sm)); b.in(sy).end(); ks.push_back(b.k); R.ep[0]["START"] = b.k; ev("starts"); }
    double start = daynum(sy, sm, sd); int nev = r.i(0, 12); bool wholedays = r.p(0.5), leaps = false; bool mode = false; // mode: reading time steps
    for (int e = 0; e < nev; ++e) {
        int w = r.i(0, 9);
        if (w < 4) { dvec v = runs(r, r.i(1, 6), false); for (auto& x : v) { x = wholedays ? std::floor(x) + 1 : x; if (x > 20000) x = 20000; } KW k = array_d("TSTEP", v, 'T'); ks.push_back(k); for (double x : v) { steps.push_back(x); el += x; } mode = ts = true; ev("tsteps"); }
        else if (w < 6) { KW k; k.name = "DATES"; k.shape = 'R'; int m = r.i(1, 4); long day = (long)std::floor(start + el) + 1; for (int i = 0; i < m; ++i) { if (i || r.p(0.9)) day += r.p(0.5) ? r.i(1, 40) : r.p(0.8) ? r.i(0, 1200) + 1 : r.i(1, 20000); int y, mo, d; civil(day, y, mo, d); if (r.p(0.4)) { mo = r.p(0.5) ? 2 : mo; d = mdays(y, mo); if (daynum(y, mo, d) >= day) day = daynum(y, mo, d); civil(day, y, mo, d); } if (y > 8000) break; if (mo == 2 && d == 29) leaps = true; double since = day - start; steps.push_back(since - el); el = since; Rec c; c.push_back(tk('i', d, "", 1000)); c.push_back(tk('s', 0, mo == 7 && r.p(0.5) ? "JUL" : MONTHS[mo - 1], 1001, true)); c.push_back(tk('i', y, "", 1002)); k.recs.push_back(c); } if (k.recs.empty()) continue; ks.push_back(k); mode = ts = true; ev("dates"); }
        else if (w < 9) { std::string nm = SCHED[r.i(0, 9)]; KW k = special(r, nm); if (mode) { mode = false; R.steps.push_back(steps); R.ep.push_back(R.ep.back()); } std::map<std::string, KW>& E = R.ep.back(); if (E.count(nm)) { E[nm].exp.insert(E[nm].exp.end(), k.exp.begin(), k.exp.end()); ev("appended"); } else E[nm] = k; ks.push_back(k); }
        else { if (r.p(0.5)) ks.push_back(array_d("PORO", runs(r, 3, false), '1')); } // arrays belong to no epoch
        if (el > 1.5e6) break;
    }
    R.steps.push_back(steps); if (leaps) ev("leap_days"); size_t ne = R.ep.size();
    std::vector<KW> o; bool bad = false; for (auto& k : ks) if (norepeat(k.name)) bad = true; for (auto k : ks) { if (bad && norepeat(k.name)) for (auto& rec : k.recs) { int g = 0; for (auto& t : rec) if (t.k != '*') t.grp = 1000 + g++; } o.push_back(k); }
    Opm::EclipseGridParser p; Layout L = r.p(0.5) ? plain() : wild(r); Files F; std::string text; { CoutCatch q; bool used = r.p(0.3); if (used) { std::string tail = r.p(0.5) ? "" : "WELOPEN\n OLD OPEN /\n/\n"; std::istringstream is("METRIC\nSTART\n 1 JAN 1990 /\nTSTEP\n 1 2 /\nWELOPEN\n OLD SHUT /\n/\nTSTEP\n 5 /\n" + tail); p.read(is, true); ev("used_parsers"); } text = render(r, L, o, &F); spit("CASE.DATA", text); std::string inc; for (int i = 0; i < F.n; ++i) inc += cat("[part", i, "]\n") + slurp(cat("part", i, ".inc")) + slurp(cat("part", i, ".INC")); 
        try { if (L.include == 0 && (used || r.p(0.4))) { std::istringstream is(text); p.read(is, conv); } else p = Opm::EclipseGridParser("CASE.DATA", conv); } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), " ", q.e.str(), "\n", text, inc)); return; } for (int i = 0; i < F.n; ++i) { unlink(cat("part", i, ".inc").c_str()); unlink(cat("part", i, ".INC").c_str()); } text += inc; }
    std::string ctx = "\ndeck:\n" + text; ev("schedules"); nontrivial(hstr(text)); if (!CHK(p.numberOfEpochs() == (int)ne, "epoch-count", cat(p.numberOfEpochs(), " expected ", ne, ctx))) return; ev("epochs", (long)ne); if (ne > 1) { ev("multi_epoch"); sample(text); }
    double day = conv ? 86400.0 : 1.0; std::vector<int> visits(R.steps.back().size(), 0); Opm::SimulatorTimer run; int at = 0; std::vector<int> order; for (size_t i = 0; i < ne; ++i) order.push_back((int)i); if (r.p(0.3)) r.shuffle(order); bool inorder = std::is_sorted(order.begin(), order.end());
    for (int e : order) {
        p.setCurrentEpoch(e); for (auto& q : R.ep[e]) { if (!CHK(p.hasField(q.first), "epoch-missing:" + q.first, cat("epoch ", e, ctx))) continue; Rows got; try { CoutCatch c; got = rows(p, q.first); } catch (const std::exception& x) { CHK(false, "epoch-unavailable:" + q.first, x.what() + ctx); continue; } compare(q.second, got, conv ? &U : 0, cat("epoch", e == 0 ? "0" : "N"), cat("epoch ", e, ctx)); ev("epoch_keywords"); }
        { auto v = p.fieldNames(); std::set<std::string> names(v.begin(), v.end()); for (auto& q : R.ep[e]) CHK(names.count(q.first), "epoch-field-not-listed", cat(q.first, " in epoch ", e, ctx)); for (const char* s : SCHED) if (!R.ep[e].count(s)) CHK(!names.count(s), "epoch-extra-field", cat(s, " in epoch ", e, ctx)); }
        for (const char* s : SCHED) if (!R.ep[e].count(s)) CHK(!p.hasField(s), "epoch-foresight", cat(s, " in epoch ", e, ctx)); if (!ts) { CHK(!p.hasField("TSTEP"), "tstep-without-time", ctx); continue; }
        const dvec& want = R.steps[e]; if (want.empty()) { CHK(!p.hasField("TSTEP"), "tstep-early", ctx); continue; } if (!CHK(p.hasField("TSTEP"), "tstep-missing", cat("epoch ", e, ctx))) continue; const dvec got = p.getTSTEP().tstep_; if (!CHK(got.size() == want.size(), "tstep-count", cat("epoch ", e, " got ", vec(got), " expected ", vec(want), ctx))) continue; bool ok = true; for (size_t i = 0; i < got.size() && ok; ++i) { ok = CHK(close(got[i], want[i] * day, 1e-12, el * day * 1e-3), "tstep-value", cat("epoch ", e, " got ", vec(got), " expected ", vec(want), " times ", day, ctx)); ev("steps"); }
        int gy = p.getStartDate().year(), gm = p.getStartDate().month(), gd = p.getStartDate().day(); CHK(gy == sy && gm == sm && gd == sd, "start-date", cat(gy, "-", gm, "-", gd, ctx));
        if (conv) { Opm::SimulatorTimer t; bool used = r.p(0.4); if (used) { Opm::parameter::ParameterGroup g; g.insertParameter("num_psteps", cat(r.i(1, 5))); t.init(g); ++t; ev("timers_reinitialised"); } t.init(p); if (used) t.setCurrentStepNum(0); double tot = 0; for (double x : got) tot += x; CHK(close(t.totalTime(), tot, 1e-13, 0), "timer-total", ctx); timer(t, got, 0, start, true, r, ctx);
            // as the simulators drive it: the timer goes on where the epoch before ended
            if (inorder) { run.init(p); run.setCurrentStepNum(at); run.setTotalTime(el * day); CHK(run.totalTime() == el * day, "timer-set-total", ctx); timer(run, got, at, start, true, r, ctx, &visits); at = run.currentStepNum(); ev("epoch_runs"); }
            int k = r.i(0, (int)got.size()), u = r.i(k, (int)got.size()); t.setCurrentStepNum(k); timer(t, got, k, start, true, r, ctx, 0, u); for (int b : {-1 - r.i(0, 5), (int)got.size() + 1 + r.i(0, 5)}) { int keep = t.currentStepNum(); bool thrown = false; CoutCatch q; try { t.setCurrentStepNum(b); } catch (const std::exception&) { thrown = true; } CHK(thrown, "timer-invalid-step", cat(b)); CHK(t.currentStepNum() == keep, "timer-refusal-changed-step", cat(b)); } }
    }
    if (conv && inorder && ts) for (size_t i = 0; i < visits.size(); ++i) CHK(visits[i] == 1, "step-visits", cat("step ", i, " visited ", visits[i], " times", ctx));
    { bool thrown = false; CoutCatch q; try { p.setCurrentEpoch(r.p(0.5) ? (int)ne : -1); } catch (const std::exception&) { thrown = true; } CHK(thrown, "invalid-epoch", ""); }
}
static void params(Rng& r)
{
    Opm::parameter::ParameterGroup g; int n = 1; double d = 1; if (r.p(0.8)) { n = r.i(0, 60); g.insertParameter("num_psteps", cat(n)); } if (r.p(0.8)) { d = r.p(0.5) ? r.i(1, 400) : r.logu(1e-6, 1e4); char b[40]; snprintf(b, sizeof b, "%.17g", d); g.insertParameter("stepsize_days", b); } CoutCatch q; Opm::SimulatorTimer t; t.init(g); ev("param_timers"); nontrivial(hdbl(d) ^ n); CHK(close(t.totalTime(), n * d * 86400, 1e-13, 0), "param-total", cat(n, " ", d, " ", t.totalTime())); timer(t, dvec(n, d * 86400), 0, daynum(2012, 1, 1), false, r, " from parameters"); if (r.p(0.4)) { Opm::parameter::ParameterGroup h; int m = r.i(0, 20); double e = r.i(1, 50); h.insertParameter("num_psteps", cat(m)); h.insertParameter("stepsize_days", cat(e)); t.setCurrentStepNum(0); t.init(h); CHK(t.numSteps() == m && close(t.totalTime(), m * e * 86400, 1e-13, 0), "param-again", cat(m, " ", e, " ", t.totalTime())); timer(t, dvec(m, e * 86400), 0, daynum(2012, 1, 1), false, r, " from other parameters"); }
}
static void one(long k, Rng& r) { if (k % 10 == 0) params(r); else schedule(r); }
int main(int argc, char** argv) { return mon::run(argc, argv, "P08", one); }
