// P41: simulations driven by a deck: schedule, wells, controls and limits of every epoch, rates from the wells' own data, volume balances.
#include "config.h"
#include "sim.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
using namespace sm; using namespace Opm;

struct Lim { bool shut, resvmode; double resv, bhp; }; // resv < 0: none; SI
struct DW { std::string name; bool inj; int i, j, k1, k2; bool expl; std::vector<double> cf; bool anchor, grouped, byopen; std::vector<Lim> ep; };
struct Deck { int n[3]; std::vector<double> d[3], poro, p, sw; std::vector<int> act; bool cp, field, comp, rock, grav, stiff; double cr, pref; std::vector<DW> w; double scale, group, mu[2]; bool worst; int gkind, maxit; std::vector<std::vector<double>> steps; std::string text; };
static double val(const std::string& s) { return std::strtod(s.c_str(), 0); }
static std::string put(Deck& k, double si, double unit, double* back) { (void)k; char b[40]; snprintf(b, sizeof b, "%.9g", si / unit); *back = val(b) * unit; return b; }

static bool make_deck(Rng& r, Deck& k)
{
    k.comp = r.p(0.4); k.field = r.p(0.3); k.cp = r.p(0.5); k.grav = r.p(0.3); k.rock = r.p(k.comp ? 0.6 : 0.25); k.stiff = !k.comp || (k.rock && r.p(0.4)); dk::Units U = k.field ? dk::field() : dk::metric(); double vol = k.field ? U.lr : 1, day = 86400;
    int nc = 1; for (int a = 0; a < 3; ++a) { k.n[a] = r.i(a == 2 ? 1 : 2, a == 2 ? 3 : 5); nc *= k.n[a]; double lo = a == 2 ? 2 : 20; for (int q = 0; q < k.n[a]; ++q) { double back; put(k, lo * r.u(0.5, 3), U.len, &back); k.d[a].push_back(back); } }
    auto G = [&](double x) { char b[40]; snprintf(b, sizeof b, "%.12g", x); return std::string(b); };
    k.act.assign(nc, 1); if (k.cp && r.p(0.5)) for (auto& x : k.act) x = !r.p(0.15);
    { // what is left must hang together
        UF u(nc); int first = -1, n = 0; auto id = [&](int i, int j, int l) { return (l * k.n[1] + j) * k.n[0] + i; };
        for (int l = 0; l < k.n[2]; ++l) for (int j = 0; j < k.n[1]; ++j) for (int i = 0; i < k.n[0]; ++i) { int c = id(i, j, l); if (!k.act[c]) continue; if (first < 0) first = c; ++n; if (i && k.act[id(i - 1, j, l)]) u.join(c, id(i - 1, j, l)); if (j && k.act[id(i, j - 1, l)]) u.join(c, id(i, j - 1, l)); if (l && k.act[id(i, j, l - 1)]) u.join(c, id(i, j, l - 1)); }
        if (n < 4) return false; for (int c = 0; c < nc; ++c) if (k.act[c] && u.find(c) != u.find(first)) return false;
    }
    std::ostringstream o; o << "RUNSPEC\nDIMENS\n " << k.n[0] << " " << k.n[1] << " " << k.n[2] << " /\nWATER\nOIL\n" << (k.field ? "FIELD\n" : r.p(0.5) ? "METRIC\n" : "") << "START\n 1 'JAN' 2000 /\nGRID\nSPECGRID\n " << k.n[0] << " " << k.n[1] << " " << k.n[2] << " 1 F /\n"; if (!k.grav) o << "NOGRAV\n";
    double top = 1000 / U.len; static const char* dn[] = {"DXV", "DYV", "DZV"};
    if (!k.cp) for (int a = 0; a < 3; ++a) { o << dn[a] << "\n"; for (double x : k.d[a]) o << " " << G(x / U.len); o << " /\n"; }
    else {
        std::vector<double> X[3]; for (int a = 0; a < 3; ++a) { X[a].push_back(a == 2 ? top : 0); for (double x : k.d[a]) X[a].push_back(X[a].back() + x / U.len); }
        o << "COORD\n"; for (double y : X[1]) for (double x : X[0]) o << G(x) << " " << G(y) << " " << G(X[2][0]) << " " << G(x) << " " << G(y) << " " << G(X[2].back()) << "\n"; o << "/\nZCORN\n";
        for (int l = 0; l < k.n[2]; ++l) for (int s = 0; s < 2; ++s) o << 4 * k.n[0] * k.n[1] << "*" << G(X[2][l + s]) << "\n"; o << "/\n"; bool any = false; for (int x : k.act) any = any || !x; if (any || r.p(0.2)) { o << "ACTNUM\n"; for (int x : k.act) o << " " << x; o << " /\n"; }
    }
    double md = U.perm, kk = r.logu(20, 500) * 9.869232667160130e-16; k.poro.resize(nc); o << "PORO\n"; for (auto& x : k.poro) { std::string s = put(k, r.u(0.08, 0.35), 1, &x); o << " " << s; } o << " /\n"; static const char* pn[] = {"PERMX", "PERMY", "PERMZ"}; for (int a = 0; a < 3; ++a) { o << pn[a] << "\n"; double b; for (int c = 0; c < nc; ++c) o << " " << put(k, kk * (a == 2 ? 0.2 : 1) * r.logu(0.3, 3), md, &b); o << " /\n"; }
    double swc = r.u(0, 0.2), sor = r.u(0, 0.2); bool regs = r.p(0.4); o << "PROPS\nSWOF\n"; for (int g = 0; g <= regs; ++g) { int m = r.i(3, 8); for (int q = 0; q < m; ++q) { double t = q / (m - 1.0), e1 = g ? 3 : 1.5, e2 = g ? 1.2 : 2; o << " " << G(swc + (1 - swc - sor) * t) << " " << G((g ? 0.4 : 0.8) * std::pow(t, e1)) << " " << G(std::pow(1 - t, e2)) << " 0\n"; } o << "/\n"; }
    double pb = 2e7, c1 = k.comp && !k.stiff ? r.logu(1e-6, 1e-4) / 1e5 : 0, c2 = k.comp && !k.stiff ? r.logu(1e-6, 1e-3) / 1e5 : 0, muw = r.u(0.3, 1.5) * 1e-3, muo = r.u(0.3, 10) * 1e-3; k.mu[0] = muw; k.mu[1] = muo; double Bw = r.p(0.5) ? 1 : r.u(1, 1.1), Bo = r.p(0.4) ? 1 : r.u(1, 1.4);
    o << "PVTW\n " << G(pb / U.pre) << " " << G(Bw) << " " << G(c1 * U.pre) << " " << G(muw / U.vis) << " 0 /\nPVCDO\n " << G(pb / U.pre) << " " << G(Bo) << " " << G(c2 * U.pre) << " " << G(muo / U.vis) << " 0 /\nDENSITY\n " << G(r.u(700, 900) / U.den) << " " << G(r.u(1000, 1100) / U.den) << " " << G(1 / U.den) << " /\n";
    if (k.rock) { std::string a = put(k, pb, U.pre, &k.pref), b = put(k, r.logu(1e-6, 1e-4) / 1e5, 1 / U.pre, &k.cr); o << "ROCK\n " << a << " " << b << " /\n"; }
    if (regs) { ev("cases_with_two_saturation_regions"); o << "REGIONS\nSATNUM\n"; for (int c = 0; c < nc; ++c) o << " " << r.i(1, 2); o << " /\n"; } o << "SOLUTION\nPRESSURE\n"; k.p.resize(nc); k.sw.resize(nc); for (auto& x : k.p) { std::string s = put(k, pb * r.u(0.99, 1.01), U.pre, &x); o << " " << s; } o << " /\nSWAT\n"; for (auto& x : k.sw) { std::string s = put(k, std::min(1 - sor, std::max(swc, swc + (1 - swc - sor) * r.u())), 1, &x); o << " " << s; } o << " /\nSCHEDULE\n";
    // wells
    int nw = r.i(2, 4); bool groups = r.p(0.5); double dp = 5e6, scale = kk * dp / 1e-3 * 10 * r.logu(0.3, 3), pv = 0; k.scale = scale; for (int l = 0, c = 0; l < k.n[2]; ++l) for (int j = 0; j < k.n[1]; ++j) for (int i = 0; i < k.n[0]; ++i, ++c) if (k.act[c]) pv += k.poro[c] * k.d[0][i] * k.d[1][j] * k.d[2][l];
    for (int w = 0; w < nw; ++w) { DW x; x.inj = w == 0 || (w > 1 && r.p(0.3)); x.name = cat(x.inj ? "I" : "P", w); x.anchor = w == 1; x.byopen = false; x.grouped = groups && !x.anchor; int tries = 0; do { x.i = r.i(0, k.n[0] - 1); x.j = r.i(0, k.n[1] - 1); x.k1 = r.i(0, k.n[2] - 1); x.k2 = r.i(x.k1, k.n[2] - 1); bool ok = true; for (int l = x.k1; l <= x.k2; ++l) ok = ok && k.act[(l * k.n[1] + x.j) * k.n[0] + x.i]; for (auto& y : k.w) if (y.i == x.i && y.j == x.j) ok = false; if (ok) break; } while (++tries < 200); if (tries >= 200) return false; x.expl = r.p(0.6); k.w.push_back(x); }
    o << (groups ? "GRUPTREE\n 'G1' 'FIELD' /\n 'G2' 'FIELD' /\n/\n" : "") << "WELSPECS\n"; for (auto& w : k.w) o << " '" << w.name << "' '" << (groups && w.anchor ? "G2" : "G1") << "' " << w.i + 1 << " " << w.j + 1 << " " << G(top + 1 / U.len) << " '" << (w.inj ? "WATER" : "OIL") << "' /\n"; o << "/\nCOMPDAT\n";
    for (auto& w : k.w) { if (w.expl && r.p(0.5)) { for (int l = w.k1; l <= w.k2; ++l) { double b; std::string s = put(k, scale / dp * 1e-3 * r.logu(0.3, 3), U.vis * vol / day / U.pre, &b); w.cf.push_back(b); o << " '" << w.name << "' " << w.i + 1 << " " << w.j + 1 << " " << l + 1 << " " << l + 1 << " 'OPEN' 1* " << s << " /\n"; } } else if (w.expl) { double b; std::string s = put(k, scale / dp * 1e-3 * r.logu(0.3, 3), U.vis * vol / day / U.pre, &b); for (int l = w.k1; l <= w.k2; ++l) w.cf.push_back(b); o << " '" << w.name << "' " << w.i + 1 << " " << w.j + 1 << " " << w.k1 + 1 << " " << w.k2 + 1 << " OPEN 1* " << s << " /\n"; } else o << " '" << w.name << "' " << w.i + 1 << " " << w.j + 1 << " " << w.k1 + 1 << " " << w.k2 + 1 << " OPEN 2* " << G(0.2 / U.len) << " /\n"; } o << "/\n";
    k.maxit = r.p(0.25) ? r.i(0, 3) : 20; k.group = -1; k.worst = r.p(0.5); k.gkind = k.worst && r.p(0.6) ? r.i(1, 3) : 0;
    if (groups) { std::string gl = put(k, scale * r.logu(0.005, 2), vol / day, &k.group); o << "GCONPROD\n 'G1' 'NONE' "; if (!k.gkind) o << "4* " << (k.worst ? "'WELL'" : "'RATE'") << " 6* " << gl; else o << (k.gkind == 1 ? gl + " 3*" : k.gkind == 2 ? "1* " + gl + " 2*" : "3* " + gl) << " 'WELL'"; o << " /\n/\n"; }
    int ne = r.i(1, 3); double T = std::min(pv / scale * r.logu(0.005, 0.2), 3000.0 * day);
    for (int e = 0; e < ne; ++e) {
        std::ostringstream wi, wp; bool first = e == 0; 
        for (auto& w : k.w) {
            if (!first && (w.byopen || r.p(0.35))) { w.ep.push_back(w.ep.back()); continue; } // unchanged: not repeated
            Lim x; x.shut = !w.anchor && r.p(0.2); bool resv = !w.anchor && r.p(0.75); x.resvmode = resv && r.p(0.75); x.resv = -1; std::string rs = "1*", bs; if (resv) rs = put(k, scale * r.logu(0.01, 2), vol / day, &x.resv); bs = put(k, w.inj ? pb + dp * r.logu(0.05, 2) : pb - dp * r.u(0.1, 1.5), U.pre, &x.bhp); w.ep.push_back(x);
            std::ostringstream& q = w.inj ? wi : wp; q << " '" << w.name << "' " << (w.inj ? "'WATER' " : "") << (x.shut ? "'SHUT'" : r.p(0.5) ? "'OPEN'" : "OPEN") << " " << (x.resvmode ? "'RESV'" : "'BHP'") << (w.inj ? " 1* " : r.p(0.3) ? cat(" ", G(scale * day / vol * 1e4), " ", G(scale * day / vol * 2e4), " 2* ") : r.p(0.5) ? " 4* " : " 1* 1* 2* ") << rs << " " << bs << " /\n";
        }
        if (!wi.str().empty()) o << "WCONINJE\n" << wi.str() << "/\n"; if (!wp.str().empty()) o << "WCONPROD\n" << wp.str() << "/\n"; if (wi.str().empty() && wp.str().empty() && !first) { o << "WCONPROD\n"; DW& w = k.w[1]; const Lim& x = w.ep.back(); double b; Lim y = x; std::string bs = put(k, x.bhp, U.pre, &b); y.bhp = b; w.ep.back() = y; o << " '" << w.name << "' OPEN BHP 4* 1* " << bs << " /\n/\n"; }
        std::ostringstream wo; for (auto& w : k.w) if (!w.anchor && r.p(0.15)) { w.byopen = true; bool shut = w.ep.back().shut; if (r.p(0.8)) shut = !shut; w.ep.back().shut = shut; wo << " '" << w.name << "' " << (shut ? "'SHUT'" : "'OPEN'") << " /\n"; } if (!wo.str().empty()) o << "WELOPEN\n" << wo.str() << "/\n";
        std::vector<double> st; int n = r.p(0.6) ? 1 : r.i(2, 3); o << "TSTEP\n"; for (int q = 0; q < n; ++q) { double b; o << " " << put(k, T * r.u(0.3, 1.5), day, &b); st.push_back(b); } o << " /\n"; k.steps.push_back(st);
    }
    o << "END\n"; k.text = o.str(); return true;
}

static void one(long, Rng& r)
{
    Deck k; while (!(k = Deck(), make_deck(r, k))) ; std::string ds = cat(k.comp ? "compressible" : "incompressible", k.field ? " field" : " metric", k.cp ? " cornerpoint " : " blocks ", k.n[0], "x", k.n[1], "x", k.n[2], k.rock ? " rock" : "", k.grav ? " gravity" : "", " wells ", k.w.size(), " epochs ", k.steps.size()); Quiet quiet;
    boost::shared_ptr<EclipseGridParser> deck; boost::shared_ptr<GridManager> gm; parameter::ParameterGroup par; boost::shared_ptr<IncompPropertiesFromDeck> ip; boost::shared_ptr<BlackoilPropertiesFromDeck> bp; boost::shared_ptr<RockCompressibility> rock; TwophaseState ti; BlackoilState tb; WellState ws; double gv[3] = {0, 0, k.grav ? unit::gravity : 0.0}; dk::CoutCatch q0;
    par.insertParameter("output", "false"); par.insertParameter("check_well_controls", "true"); par.insertParameter("max_well_control_iterations", cat(k.maxit)); par.insertParameter("nl_maxiter", "200"); par.insertParameter("nl_pressure_maxiter", "40"); par.insertParameter("nl_pressure_change_tolerance", "1e-2"); par.disableOutput();
    try { std::istringstream in(k.text); deck.reset(new EclipseGridParser()); deck->read(in, true); gm.reset(new GridManager(*deck)); const UnstructuredGrid& g = *gm->c_grid(); rock.reset(new RockCompressibility(*deck)); if (k.comp) { bp.reset(new BlackoilPropertiesFromDeck(*deck, g, par)); initStateFromDeck(g, *bp, *deck, gv[2], tb); initBlackoilSurfvol(g, *bp, tb); } else { ip.reset(new IncompPropertiesFromDeck(*deck, g)); initStateFromDeck(g, *ip, *deck, gv[2], ti); } }
    catch (const std::exception& e) { CHK(false, "setup-refused", cat(ds, " ", e.what(), q0.e.str(), "\n", k.text)); return; }
    const UnstructuredGrid& g = *gm->c_grid(); int nc = g.number_of_cells, nw = k.w.size(); std::vector<int> cellof(k.n[0] * k.n[1] * k.n[2], -1); int na = 0; for (size_t c = 0; c < cellof.size(); ++c) if (k.act[c]) cellof[c] = na++; if (!CHK(na == nc, "cells", cat(ds, " ", nc, " cells expected ", na))) return;
    dvec pv0(nc), p0(nc), s0(2 * nc); for (size_t l = 0, c = 0; l < (size_t)k.n[2]; ++l) for (int j = 0; j < k.n[1]; ++j) for (int i = 0; i < k.n[0]; ++i, ++c) if (k.act[c]) { int a = cellof[c]; pv0[a] = k.poro[c] * k.d[0][i] * k.d[1][j] * k.d[2][l]; p0[a] = k.p[c]; s0[2 * a] = k.sw[c]; s0[2 * a + 1] = 1 - k.sw[c]; }
    dvec& P = k.comp ? tb.pressure() : ti.pressure(); dvec& S = k.comp ? tb.saturation() : ti.saturation(); dvec& F = k.comp ? tb.faceflux() : ti.faceflux();
    for (int c = 0; c < nc; ++c) { if (!NEAR(P[c], p0[c], 1e-12, 0, "initial-pressure", ds)) return; if (!NEAR(S[2 * c], s0[2 * c], 1e-12, 1, "initial-saturation", ds)) return; }
    if (!CHK(deck->numberOfEpochs() == (int)k.steps.size(), "epochs", cat(ds, " ", deck->numberOfEpochs()))) return; CHK(rock->isActive() == k.rock, "rock", ds);
    dvec src(nc, 0.0); LinearSolverUmfpack ls; int step = 0; double total = 0, past = 0; for (auto& e : k.steps) for (double x : e) total += x; SimulatorTimer t; deck->setCurrentEpoch(deck->numberOfEpochs() - 1); t.init(*deck); double tt = t.totalTime(); NEAR(tt, total, 1e-12, 0, "total-time", ds);
    nontrivial(hstr(k.text)); if (const char* dump = getenv("P41_DUMP")) spit(dump, k.text);
    for (size_t e = 0; e < k.steps.size(); ++e) {
        deck->setCurrentEpoch(e); t.init(*deck); t.setCurrentStepNum(step); t.setTotalTime(tt); NEAR(t.currentTime(), past, 1e-12, total, "epoch-start", ds); std::string d = cat(ds, " epoch ", e); bool lone = true; for (auto& w : k.w) if (!w.ep[e].shut && (w.ep[e].resv >= 0 || (w.grouped && !w.inj))) lone = false;
        boost::shared_ptr<WellsManager> wm; try { wm.reset(new WellsManager(*deck, g, k.comp ? bp->permeability() : ip->permeability())); } catch (const std::exception& ex) { CHK(false, "wells-refused", cat(d, " ", ex.what(), "\n", k.text)); return; }
        const Wells* W = wm->c_wells(); if (!CHK(W && W->number_of_wells == nw, "well-count", d)) return; if (e == 0) { if (k.comp) ws.init(W, tb); else ws.init(W, ti); }
        for (int w = 0; w < nw; ++w) { const DW& x = k.w[w]; std::string wdn = cat(d, " well ", x.name); if (!CHK(x.name == W->name[w] && (W->type[w] == INJECTOR) == x.inj, "well-identity", wdn)) return; int n = W->well_connpos[w + 1] - W->well_connpos[w]; if (!CHK(n == x.k2 - x.k1 + 1, "well-connections", cat(wdn, " has ", n))) return; for (int l = x.k1; l <= x.k2; ++l) { int at = W->well_connpos[w] + l - x.k1; CHK(W->well_cells[at] == cellof[(l * k.n[1] + x.j) * k.n[0] + x.i], "well-cell", wdn); if (x.expl) NEAR(W->WI[at], x.cf[l - x.k1], 1e-9, 0, "well-factor", wdn); } }
        dvec S1 = S, P1 = P; TwophaseState ti1 = ti; BlackoilState tb1 = tb; WellState ws1 = ws; bool threw = false; std::string text, err; { dk::CoutCatch q; try { if (k.comp) { SimulatorCompressibleTwophase s(par, g, *bp, rock->isActive() ? rock.get() : 0, *wm, src, 0, ls, k.grav ? gv : 0); s.run(t, tb, ws); } else { SimulatorIncompTwophase s(par, g, *ip, rock->isActive() ? rock.get() : 0, *wm, src, 0, ls, k.grav ? gv : 0); s.run(t, ti, ws); } } catch (const std::exception& ex) { threw = true; err = ex.what(); } text = q.o.str(); err += q.e.str(); }
        if (const char* dump = getenv("P41_DUMP")) spit(cat(dump, ".", e), text + err);
        int again = 0; for (size_t at = 0; (at = text.find("solving again", at)) != std::string::npos; ++at) ++again; if (again) ev("control_switches", again);
        { // no more tries per step than asked for
            std::vector<int> tries; for (size_t at = 0; at < text.size();) { size_t a = text.find("Simulation step number", at), b = text.find("Checking well conditions.", at); if (a == std::string::npos && b == std::string::npos) break; if (a < b) { tries.push_back(0); at = a + 5; } else { if (tries.empty()) tries.push_back(0); ++tries.back(); at = b + 5; } }
            for (size_t q = 0; q < tries.size(); ++q) CHK(tries[q] <= k.maxit + 1, "too-many-tries", cat(d, " step ", q, " tries ", tries[q], " asked for ", k.maxit)); if (threw && err.find("Could not satisfy well conditions") != std::string::npos) { CHK(!tries.empty() && tries.back() == k.maxit + 1, "gave-up-early", cat(d, " after ", tries.empty() ? 0 : tries.back(), " tries, asked for ", k.maxit)); ev("gave_up_after_all_tries"); }
        }
        dvec Slast = S1; bool lastok = k.steps[e].size() == 1;
        if (k.group >= 0 && k.gkind && !lastok && !threw) { // the state from which the last step is made: all steps but the last, once more
            std::ostringstream o; o << "RUNSPEC\nSTART\n 1 'JAN' 2000 /\nSCHEDULE\nTSTEP\n"; for (size_t q = 0; q + 1 < k.steps[e].size(); ++q) { char b[40]; snprintf(b, sizeof b, "%.17g", k.steps[e][q] / 86400); o << " " << b; } o << " /\nEND\n"; std::istringstream in(o.str()); EclipseGridParser d2; d2.read(in, true); boost::shared_ptr<WellsManager> wm2(new WellsManager(*deck, g, k.comp ? bp->permeability() : ip->permeability())); SimulatorTimer t2; t2.init(d2); dk::CoutCatch q;
            try { if (k.comp) { SimulatorCompressibleTwophase s(par, g, *bp, rock->isActive() ? rock.get() : 0, *wm2, src, 0, ls, k.grav ? gv : 0); s.run(t2, tb1, ws1); Slast = tb1.saturation(); } else { SimulatorIncompTwophase s(par, g, *ip, rock->isActive() ? rock.get() : 0, *wm2, src, 0, ls, k.grav ? gv : 0); s.run(t2, ti1, ws1); Slast = ti1.saturation(); } lastok = true; } catch (const std::exception&) { }
        }
        auto groupmake = [&](const dvec& q, bool& sure) { // what the group makes of the quantity its limit is for; phases in proportion to their mobility at the start of the step
            double sum = 0; if (k.gkind && !lastok) sure = false; for (int w = 0; w < nw; ++w) { const DW& x = k.w[w]; if (!x.grouped || x.inj || x.ep[e].shut) continue; for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) { int c = W->well_cells[a]; double fr = 1; if (k.gkind == 1 || k.gkind == 2) { if (q[a] > 0) sure = false; double kr[2]; if (k.comp) bp->relperm(1, &Slast[2 * c], &c, kr, 0); else ip->relperm(1, &Slast[2 * c], &c, kr, 0); double a0 = kr[0] / k.mu[0], a1 = kr[1] / k.mu[1]; fr = (k.gkind == 1 ? a1 : a0) / (a0 + a1); } sum += fr * q[a]; } } return sum; };
        if (k.group >= 0 && k.worst && k.steps[e].size() == 1 && again) { // wells closed for their group: the limit was indeed exceeded before
            int gm2 = 0; for (size_t at = 0; (at = text.find("target not met for group", at)) != std::string::npos; ++at) ++gm2; size_t fa = text.find("Checking well conditions."), fb = text.find("solving again", fa), fg = text.find("target not met for group", fa);
            if (gm2 && fg < fb) { boost::shared_ptr<WellsManager> wm2(new WellsManager(*deck, g, k.comp ? bp->permeability() : ip->permeability())); parameter::ParameterGroup p2 = par; p2.insertParameter("check_well_controls", "false"); SimulatorTimer t2; t2.init(*deck); t2.setCurrentStepNum(step); t2.setTotalTime(tt); bool ok = true; dk::CoutCatch q; try { if (k.comp) { SimulatorCompressibleTwophase s(p2, g, *bp, rock->isActive() ? rock.get() : 0, *wm2, src, 0, ls, k.grav ? gv : 0); s.run(t2, tb1, ws1); } else { SimulatorIncompTwophase s(p2, g, *ip, rock->isActive() ? rock.get() : 0, *wm2, src, 0, ls, k.grav ? gv : 0); s.run(t2, ti1, ws1); } } catch (const std::exception&) { ok = false; }
                bool sure = ok; double made = ok ? groupmake(ws1.perfRates(), sure) : 0; if (sure) { CHK(std::fabs(made) >= k.group * (1 - 1e-6), "group-false-alarm", cat(d, " the group makes ", -made, " of kind ", k.gkind, " limit ", k.group)); ev("group_actions_justified"); } }
        }
        if (threw) { ev("gave_up"); CHK(!lone || again, "run-failed", cat(d, " ", err.substr(0, 300), "\n", text.substr(text.size() > 800 ? text.size() - 800 : 0))); return; }
        CHK(!(lone && again), "switched-without-limits", d); ev("epochs_run"); step += k.steps[e].size(); for (double x : k.steps[e]) past += x; CHK(t.done() && t.currentStepNum() == step, "steps-made", cat(d, " at ", t.currentStepNum(), " expected ", step)); NEAR(t.currentTime(), past, 1e-12, 0, "time-reached", d);
        { size_t hdr = 0; for (size_t at = 0; (at = text.find("Simulation step number", at)) != std::string::npos; ++at) ++hdr; CHK(hdr == k.steps[e].size(), "steps-printed", cat(d, " ", hdr)); }
        // wells
        double net = 0, gross = 1e-4 * k.scale; const dvec& q = ws.perfRates(); const dvec& bhp = ws.bhp(); dvec cellq(nc, 0.0); 
        for (int w = 0; w < nw; ++w) for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) { net += q[a]; gross += std::fabs(q[a]); cellq[W->well_cells[a]] += q[a]; }
        std::vector<char> off(nw, 0); double gsum = 0; int gn = 0; bool gbhp = false, gact = text.find("target not met for group") != std::string::npos;
        for (int w = 0; w < nw; ++w) {
            const DW& x = k.w[w]; const Lim& L = x.ep[e]; double Q = 0; for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) Q += q[a]; std::string wdn = cat(d, " well ", x.name, " rate ", Q, " limit ", L.resv, " bhp ", bhp[w], " limit ", L.bhp, L.resvmode ? " RESV" : " BHP");
            if (L.shut) { bool zero = true; for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) zero = zero && q[a] == 0; CHK(zero, "shut-well-flows", wdn); ev("shut_wells"); continue; }
            if (k.group >= 0 && x.grouped && !x.inj) gn++;
            bool closed = gact && k.worst && x.grouped && !x.inj && Q == 0; if (closed) { ev("wells_shut_by_group"); off[w] = 1; continue; }
            double qt = 1e-5 * std::max(L.resv, 1e-3 * gross), bt = 1e-6 * L.bhp; CHK(x.inj ? bhp[w] <= L.bhp + bt : bhp[w] >= L.bhp - bt, "bhp-limit", wdn); if (L.resv >= 0) CHK(std::fabs(Q) <= L.resv + qt, "rate-limit", wdn); bool atb = std::fabs(bhp[w] - L.bhp) <= bt, atq = L.resv >= 0 && std::fabs(Q - (x.inj ? 1 : -1) * L.resv) <= qt; if (gact && !k.worst && x.grouped && !x.inj && atb) gbhp = true; if (gact && !k.worst && x.grouped && !x.inj && !atb && !atq) { ev("wells_on_group_share"); continue; } CHK(atb || atq, "no-control-met", wdn); ev(atb ? "wells_at_bhp" : "wells_at_rate"); if (L.resv >= 0 && L.resvmode != atq) ev("wells_on_their_limit");
        }
        bool gsure = true; if (gn) gsum = groupmake(q, gsure);
        if (gn && (gbhp || !gsure)) ev("group_limits_unjudged"); else if (gn) { if (k.gkind) ev("group_phase_limits"); CHK(-gsum <= k.group * (1 + 1e-5) + 1e-8 * gross, "group-limit", cat(d, " group makes ", -gsum, " limit ", k.group)); ev("group_limits"); CHK(gact || -gsum <= k.group, "group-silent", d); }
        for (int c = 0; c < nc; ++c) if (!CHK(std::isfinite(P[c]) && S[2 * c] >= -1e-6 && S[2 * c] <= 1 + 1e-6 && std::fabs(S[2 * c] + S[2 * c + 1] - 1) < 1e-6, "state", cat(d, " cell ", c, " pressure ", P[c], " saturations ", S[2 * c], " ", S[2 * c + 1]))) return;
        if (k.rock && k.stiff && k.steps[e].size() == 1) { // the pores take up what the wells bring in
            double v0 = 0, v1 = 0, tot = 0, dt = k.steps[e][0]; for (int c = 0; c < nc; ++c) { v0 += pv0[c] * (rock->poroMult(P1[c]) - 1); v1 += pv0[c] * (rock->poroMult(P[c]) - 1); tot += pv0[c]; } double flow = 0; for (int c = 0; c < nc; ++c) flow += std::fabs(cellq[c]);
            CHK(std::fabs(v1 - v0 - net * dt) <= 1e-6 * (std::fabs(v0) + std::fabs(v1)) + 1e-7 * flow * dt + 1e-12 * tot, "pore-volume-balance", cat(d, again ? " switched" : "", ": pores grew by ", v1 - v0, " wells brought ", net * dt, " of pore volume ", tot, " flow ", flow * dt)); ev(k.comp ? (again ? "pore_balances_switched_comp" : "pore_balances_comp") : again ? "pore_balances_switched" : "pore_balances");
        }
        if (k.comp) continue;
        if (!k.rock) {
            CHK(std::fabs(net) <= 1e-7 * gross, "net-rate", cat(d, " net ", net, " gross ", gross)); dvec div(nc, 0.0); double fm = gross; for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0) div[a] += F[f]; if (b >= 0) div[b] -= F[f]; fm = std::max(fm, std::fabs(F[f])); } for (int c = 0; c < nc; ++c) NEAR(div[c], cellq[c], 1e-7, fm, "cell-balance", cat(d, " cell ", c)); ev("cell_balances", nc);
        }
        if (k.steps[e].size() == 1) {
            // rates follow from the wells' own data and the mobilities at the start of the step
            if (!k.grav) for (int w = 0; w < nw; ++w) { if (k.w[w].ep[e].shut || !k.w[w].expl || off[w]) continue; for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) { int c = W->well_cells[a]; double kr[2]; ip->relperm(1, &S1[2 * c], &c, kr, 0); double lam = kr[0] / ip->viscosity()[0] + kr[1] / ip->viscosity()[1], wi = k.w[w].cf[a - W->well_connpos[w]]; NEAR(q[a], wi * lam * (bhp[w] - P[c]), 1e-7, wi * lam * 1e7, "connection-rate", cat(d, " well ", k.w[w].name)); ev("connection_rates"); } }
            double dt = k.steps[e][0]; if (!k.rock && !k.grav) { double in = 0, w0 = 0, w1 = 0, tot = 0; for (int c = 0; c < nc; ++c) { w0 += pv0[c] * S1[2 * c]; w1 += pv0[c] * S[2 * c]; tot += pv0[c]; if (cellq[c] > 0) in += cellq[c]; else { double kr[2]; ip->relperm(1, &S[2 * c], &c, kr, 0); double a = kr[0] / ip->viscosity()[0], b = kr[1] / ip->viscosity()[1]; in += cellq[c] * a / (a + b); } } bool back = false; for (int w = 0; w < nw; ++w) for (int a = W->well_connpos[w]; a < W->well_connpos[w + 1]; ++a) back = back || (q[a] > 0) != k.w[w].inj; if (!back) { NEAR(w1 - w0, in * dt, 1e-6, tot * 1e-1, "water-balance", cat(d, " dt ", dt)); ev("water_balances"); } }
        }
    }
}
int main(int c, char** v) { return run(c, v, "p41", [](long k, Rng& r) { one(k, r); }, 60); }
