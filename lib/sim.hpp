// Complete two-phase simulations: random cases, instrumented runs (whole or one step at a time), printed reports.
#pragma once
#include "blackoil.hpp"
#include "deck.hpp"
#include <opm/core/simulator/SimulatorIncompTwophase.hpp>
#include <opm/core/simulator/SimulatorCompressibleTwophase.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/simulator/initState.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
namespace sm {
using namespace mon; using namespace gl;
typedef std::vector<double> dvec; typedef std::map<std::string, std::string> Params;
inline std::string g17(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };

struct Case {
    bool comp = false; GridPtr g; std::string kind, drive; MockIncomp m; MockBlackoil bo; bool rock = false; double cr = 0, pref = 0; WellsPtr W; BcPtr bc; dvec src, steps; double gvec[3] = {0, 0, 0}; bool grav = false; Params par; int sub = 1; bool seg = false, reorder = true, layered = false; dvec s0, p0; double pv = 0, tol = 1e-9; bool recombine = false;
    const Wells* wells() const { return W.w; }
    const MockIncomp& rk() const { return comp ? bo.rock : m; }
    dvec porevol(const dvec& p) const { dvec v(g->number_of_cells); for (int c = 0; c < g->number_of_cells; ++c) { double x = rock ? cr * (p[c] - pref) : 0; v[c] = g->cell_volumes[c] * rk().poro[c] * (1 + x + 0.5 * x * x); } return v; }
    double visc(int ph, double p) const { return comp ? bo.mu(ph, p) : m.mu[ph]; }
    double fw(int c, double s, double p) const { double a = rk().kr(c, 0, s) / visc(0, p), b = rk().kr(c, 1, 1 - s) / visc(1, p); return a / (a + b); }
};

inline Case make(Rng& r, bool comp, int maxn)
{
    Case c; c.comp = comp; int d = 3;
    for (;;) { // connected grids only
        int w = r.i(0, 9);
        if (w < 6) { int nx = r.i(1, maxn), ny = r.i(1, maxn), nz = r.i(1, maxn); dvec x = coords(r, nx, 1, 20), y = coords(r, ny, 1, 20), z = coords(r, nz, 0.5, 5); c.g = GridPtr(create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], 0)); c.kind = cat("box ", nx, "x", ny, "x", nz); c.layered = true; }
        else if (w < 8) { c.g = random_grid(r, maxn, &c.kind, !comp); c.layered = false; }
        else { int nx = r.i(1, maxn), ny = r.i(1, maxn), nz = r.i(1, maxn); CP p = random_cp(r, nx, ny, nz, r.p(0.5), false); c.g = from_cp(p); c.kind = cat("cornerpoint ", nx, "x", ny, "x", nz); c.layered = false; if (!c.g.g) continue; }
        UF u(c.g->number_of_cells); join_faces(*c.g, u); bool one = true; for (int i = 1; i < c.g->number_of_cells; ++i) one = one && u.find(i) == u.find(0); if (one && c.g->number_of_cells >= 2) break;
    }
    const UnstructuredGrid& g = *c.g; d = g.dimensions; int nc = g.number_of_cells;
    double spread = r.p(0.3) ? 0 : r.u(0, 2), pb = r.u(1e7, 3e7), dp = r.logu(2e5, 4e6); bool residual = r.p(0.3);
    if (comp) { c.bo = random_blackoil(r, g, 2, true, spread, false, pb, 1e8, r.p(0.25) ? 0 : 1); if (r.p(0.5)) for (auto& x : c.bo.c) x *= 0.1; } else c.m = random_mock(r, g, 2, true, spread, false, residual);
    MockIncomp& m = comp ? c.bo.rock : c.m; if (!comp && residual) {}
    c.rock = r.p(comp ? 0.6 : 0.4); c.cr = c.rock ? r.logu(1e-6, 2e-3) / 1e5 : 0; c.pref = pb + r.u(-1, 1) * dp;
    if (c.rock) { c.par["rock_compressibility"] = g17(c.cr * 1e5); c.par["rock_compressibility_pref"] = g17(c.pref / 1e5); c.cr = std::strtod(c.par["rock_compressibility"].c_str(), 0) / 1e5; c.pref = std::strtod(c.par["rock_compressibility_pref"].c_str(), 0) * 1e5; }
    c.grav = r.p(0.5); if (c.grav) c.gvec[d - 1] = 9.80665;
    c.s0 = random_sat(r, m); c.p0.resize(nc); bool hydro = c.grav && r.p(0.5); for (int i = 0; i < nc; ++i) c.p0[i] = pb + (hydro ? 9.8 * 1000 * g.cell_centroids[d * i + d - 1] : r.p(0.5) ? 0 : r.u(-0.1, 0.1) * dp);
    dvec v0 = c.porevol(c.p0); for (double x : v0) c.pv += x;
    // a flow scale from typical transmissibilities
    dvec h = half_trans(g, m.perm); double hm = 0; int hn = 0; for (double x : h) if (x > 0) { hm += std::log(x); ++hn; } hm = hn ? std::exp(hm / hn) : 1e-12; double q = hm * dp / 1e-3 * r.u(0.05, 0.5), frac = r.p(0.3) ? r.logu(0.002, 0.05) : r.u(0.02, 0.4); double dt = frac * c.pv / q;
    if (c.grav && c.rock) {}
    double wi = hm * r.logu(0.3, 5); int drive = comp ? (r.p(0.1) ? 3 : 0) : r.pick(std::vector<int>{0, 0, 0, 1, 2, 2, 3, 4}); c.src.assign(nc, 0.0);
    bool incomprock = !c.rock && (!comp || c.bo.incompressible());
    if (drive == 0 || drive == 4) { // wells (4: with pressure boundary too)
        c.drive = "wells"; int ni = r.i(1, 2), npr = r.i(1, 2); if (!incomprock && r.p(0.15)) { if (r.p(0.5)) ni = 0; else npr = 0; } int nw = ni + npr, np = 2; std::vector<int> cells = random_perm(r, nc); size_t at = 0; struct WD { WellType t; std::vector<int> cc; }; std::vector<WD> ws;
        for (int w = 0; w < nw && at < cells.size(); ++w) { WD x; x.t = w < ni ? INJECTOR : PRODUCER; int k = r.p(0.6) ? 1 : r.i(1, 4); for (int j = 0; j < k && at + (nw - w) <= cells.size(); ++j) x.cc.push_back(cells[at++]); if (!x.cc.empty()) ws.push_back(x); }
        int nperf = 0; for (auto& x : ws) nperf += x.cc.size(); c.W = WellsPtr(create_wells(np, ws.size(), nperf)); bool haveinj = false, haveprod = false; for (auto& x : ws) (x.t == INJECTOR ? haveinj : haveprod) = true; if (!haveinj || !haveprod) c.drive = "one-sided_wells";
        double comp_frac[2] = {1, 0}; for (size_t w = 0; w < ws.size(); ++w) { dvec WI; for (size_t j = 0; j < ws[w].cc.size(); ++j) WI.push_back(wi * r.logu(0.3, 3)); add_well(ws[w].t, pb / 9.8e3, ws[w].cc.size(), comp_frac, &ws[w].cc[0], &WI[0], cat("W", w).c_str(), c.W.w); }
        bool onesided = !haveinj || !haveprod; int nprod = 0; for (auto& x : ws) nprod += x.t == PRODUCER; int ninj = ws.size() - nprod; bool allrate = r.p(0.25); double total = 0; int lastp = -1;
        for (size_t w = 0; w < ws.size(); ++w) {
            bool inj = ws[w].t == INJECTOR, bhp = !allrate && r.p(inj ? 0.3 : 0.7); if (onesided) bhp = r.p(0.3); double ref = pb + (hydro ? 9.8e3 * g.cell_centroids[d * ws[w].cc[0] + d - 1] : 0); dvec distr(2, 1.0); double rate = q / (inj ? ninj : nprod); if (onesided) rate *= 0.2;
            if (inj && comp) distr[1] = 0;
            if (bhp) append_well_controls(BHP, ref + (inj ? 1 : -1) * dp * r.u(0.2, 1) * (onesided ? 0.3 : 1), 0, w, c.W.w);
            else { double t = inj ? rate : -rate; if (r.p(0.05)) t = 0; total += t; append_well_controls(RESERVOIR_RATE, t, &distr[0], w, c.W.w); if (!inj) lastp = w; }
            set_current_control(w, 0, c.W.w);
        }
        bool anybhp = false; for (size_t w = 0; w < ws.size(); ++w) anybhp = anybhp || c.W->ctrls[w]->type[0] == BHP;
        if (!anybhp && incomprock) { if (lastp >= 0 && r.p(0.5)) { c.W->ctrls[lastp]->target[0] -= total; if (c.W->ctrls[lastp]->target[0] > 0) { int w = lastp; clear_well_controls(w, c.W.w); append_well_controls(BHP, pb - dp * 0.5, 0, w, c.W.w); set_current_control(w, 0, c.W.w); } } else { int w = ws.size() - 1; clear_well_controls(w, c.W.w); append_well_controls(BHP, pb + (w < ni ? 1 : -1) * dp * 0.5, 0, w, c.W.w); set_current_control(w, 0, c.W.w); } }
    }
    if (drive == 1) { c.drive = "sources"; int n = r.i(1, 3); double t = 0; for (int k = 0; k < n; ++k) { int i = r.i(0, nc - 1); double v = r.u(0.2, 1) * q / n; c.src[i] += v; t += v; } int m2 = r.i(1, 3); for (int k = 0; k < m2; ++k) c.src[r.i(0, nc - 1)] -= t / m2; double s = 0; for (double x : c.src) s += x; c.src[r.i(0, nc - 1)] -= s; }
    if (drive == 2 || drive == 4) { c.drive += "boundary"; c.bc = BcPtr(flow_conditions_construct(0)); std::vector<int> bf = boundary_faces(g); r.shuffle(bf); int n = std::min<int>(bf.size(), r.i(2, 8)), sure = r.p(0.5) ? 0 : r.i(0, n - 1); for (int k = 0; k < n; ++k) { bool fl = k != sure && r.p(sure ? 0.6 : 0.25); double ref = pb + (hydro ? 9.8e3 * g.face_centroids[d * bf[k] + d - 1] : 0); flow_conditions_append(fl ? BC_FLUX_TOTVOL : BC_PRESSURE, bf[k], fl ? r.u(-0.5, 0.5) * q / n : ref + (k % 2 ? -1 : 1) * dp * r.u(0, 0.5), c.bc.b); } if (r.p(0.3)) { double v = r.u(-0.3, 0.3) * q; c.src[r.i(0, nc - 1)] += v; } }
    if (drive == 3) { c.drive = "closed"; c.grav = true; c.gvec[d - 1] = 9.80665; if (!comp && r.p(0.3)) {} double drho = std::max(20.0, std::fabs(m.rho[0] - m.rho[1])), Lz = 1; dt = r.logu(0.01, 1) * c.pv / (hm * drho * 9.8 * Lz / 1e-3); }
    // splitting options
    c.sub = r.p(0.65) ? 1 : r.i(2, 4); if (c.sub != 1 || r.p(0.3)) c.par["num_transport_substeps"] = cat(c.sub);
    c.seg = c.grav && c.layered && r.p(0.4); if (c.seg || r.p(0.2)) c.par["use_segregation_split"] = c.seg ? "true" : "false";
    if (c.seg && c.rock && !comp) { std::fill(m.smin_.begin(), m.smin_.end(), 0.0); std::fill(m.smax_.begin(), m.smax_.end(), 1.0); } // the segregation step confines saturations to their range, expansion of the pore space may leave it
    c.reorder = comp || c.rock || c.seg || !r.p(0.2); if (!comp && (!c.reorder || r.p(0.2))) c.par["use_reorder"] = c.reorder ? "true" : "false";
    c.tol = r.pick(dvec{1e-9, 1e-9, 1e-10, 1e-12}); if (c.tol != 1e-9) c.par["nl_tolerance"] = g17(c.tol); c.par["nl_maxiter"] = "200";
    c.par["nl_pressure_maxiter"] = "40"; c.par["nl_pressure_change_tolerance"] = "1e-2"; c.par["nl_pressure_residual_tolerance"] = "0";
    if (r.p(0.25)) { c.par["check_well_controls"] = "true"; }
    int n = r.i(1, 5); for (int k = 0; k < n; ++k) c.steps.push_back(std::floor(1e6 * dt / 86400 * r.u(0.3, 1.7) * (r.p(0.1) ? 0.01 : 1) + 1) / 1e6 * 86400); // printed with six decimals
    return c;
}
inline std::string describe(const Case& c)
{
    std::ostringstream o; o << (c.comp ? "compressible " : "incompressible ") << c.kind << ", " << c.drive << (c.grav ? ", gravity" : "") << (c.rock ? cat(", rock compressibility ", c.cr * 1e5, "/bar") : "") << (c.comp && c.bo.incompressible() ? ", incompressible fluids" : "") << ", steps"; for (double s : c.steps) o << " " << s / 86400; o << ", parameters"; for (auto& p : c.par) o << " " << p.first << "=" << p.second; return o.str();
}

struct Snap { dvec p, s, fp, ff, z, bhp, pr, pp; std::vector<double> all() const { dvec v; for (const dvec* x : {&p, &s, &fp, &ff, &z, &bhp, &pr, &pp}) v.insert(v.end(), x->begin(), x->end()); return v; } };
inline bool same(const Snap& a, const Snap& b, std::string& why)
{
    const dvec* x[8] = {&a.p, &a.s, &a.fp, &a.ff, &a.z, &a.bhp, &a.pr, &a.pp}; const dvec* y[8] = {&b.p, &b.s, &b.fp, &b.ff, &b.z, &b.bhp, &b.pr, &b.pp}; static const char* n[8] = {"pressure", "saturation", "face pressure", "face flux", "surface volume", "bhp", "perforation rate", "perforation pressure"};
    for (int k = 0; k < 8; ++k) { if (x[k]->size() != y[k]->size()) { why = cat(n[k], " sizes ", x[k]->size(), " ", y[k]->size()); return false; } for (size_t i = 0; i < x[k]->size(); ++i) if (!((*x[k])[i] == (*y[k])[i])) { why = cat(n[k], " ", i, ": ", g17((*x[k])[i]), " and ", g17((*y[k])[i])); return false; } }
    return true;
}

// Everything a run owns; the wells manager keeps its own copy of the wells.
struct Runner {
    const Case& c; Opm::parameter::ParameterGroup par; boost::shared_ptr<Opm::RockCompressibility> rock; boost::shared_ptr<Opm::WellsManager> wm; Opm::LinearSolverUmfpack ls; boost::shared_ptr<Opm::SimulatorIncompTwophase> si; boost::shared_ptr<Opm::SimulatorCompressibleTwophase> sc;
    Opm::TwophaseState ti; Opm::BlackoilState tb; Opm::WellState ws; std::string text; Opm::SimulatorReport rep;
    Runner(const Case& cc, const Params& extra) : c(cc)
    {
        for (auto& x : c.par) if (!extra.count(x.first)) par.insertParameter(x.first, x.second); for (auto& x : extra) par.insertParameter(x.first, x.second);
        dk::CoutCatch q; if (c.rock || c.par.count("num_transport_substeps")) rock.reset(new Opm::RockCompressibility(par)); // an inactive object is as good as none
        wm.reset(c.W.w ? new Opm::WellsManager(c.W.w) : new Opm::WellsManager()); build(); init();
    }
    void build()
    {
        dk::CoutCatch q; const UnstructuredGrid& g = *c.g; const double* gr = c.grav ? c.gvec : 0;
        if (c.comp) sc.reset(new Opm::SimulatorCompressibleTwophase(par, g, c.bo, rock.get(), *wm, c.src, c.bc.b, ls, gr)); else si.reset(new Opm::SimulatorIncompTwophase(par, g, c.m, rock.get(), *wm, c.src, c.bc.b, ls, gr));
    }
    void init()
    {
        const UnstructuredGrid& g = *c.g;
        if (c.comp) { tb.init(g, 2); tb.pressure() = c.p0; tb.saturation() = c.s0; Opm::initBlackoilSurfvol(g, c.bo, tb); ws.init(c.wells(), tb); } else { ti.init(g, 2); ti.pressure() = c.p0; ti.saturation() = c.s0; ws.init(c.wells(), ti); }
    }
    Snap state() { Snap s; s.bhp = ws.bhp(); s.pr = ws.perfRates(); s.pp = ws.perfPress(); if (c.comp) { s.p = tb.pressure(); s.s = tb.saturation(); s.fp = tb.facepressure(); s.ff = tb.faceflux(); s.z = tb.surfacevol(); } else { s.p = ti.pressure(); s.s = ti.saturation(); s.fp = ti.facepressure(); s.ff = ti.faceflux(); } return s; }
    void restore(const Snap& s) { ws.bhp() = s.bhp; ws.perfRates() = s.pr; ws.perfPress() = s.pp; if (c.comp) { tb.pressure() = s.p; tb.saturation() = s.s; tb.surfacevol() = s.z; } else { ti.pressure() = s.p; ti.saturation() = s.s; } }
    void run(const dvec& steps, int from) // the timer is positioned at step `from'
    {
        Opm::SimulatorTimer t; timer(t, steps, from); dk::CoutCatch q; rep = c.comp ? sc->run(t, tb, ws) : si->run(t, ti, ws); text = q.o.str();
    }
    static void timer(Opm::SimulatorTimer& t, const dvec& steps, int from)
    {
        std::string d = "START\n 1 'JAN' 2000 /\n\nTSTEP\n"; for (double s : steps) d += " " + g17(s / 86400); d += " /\n"; spit("timer.data", d); dk::CoutCatch q; Opm::EclipseGridParser p("timer.data"); p.setCurrentEpoch(0); t.init(p); t.setCurrentStepNum(from);
    }
};

// The numbers following a label, for every occurrence.
inline std::vector<dvec> printed(const std::string& text, const std::string& label)
{
    std::vector<dvec> v; for (size_t at = 0; (at = text.find(label, at)) != std::string::npos;) { at += label.size(); std::istringstream in(text.substr(at, text.find('\n', at) - at)); dvec x; std::string w; while (in >> w) x.push_back(std::strtod(w.c_str(), 0)); v.push_back(x); } return v;
}
} // namespace sm
