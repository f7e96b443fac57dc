// P38: every derived quantity against its defining sum over the same inputs.
#include "config.h"
#include "mon.hpp"
#include "blackoil.hpp"
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/Units.hpp>
#include <iostream>
#include <sstream>
using namespace mon; using namespace gl; using namespace Opm;
typedef std::vector<double> VD; typedef std::vector<int> VI;
static void quiet() { std::cout.setstate(std::ios::failbit); }
static VD junk(Rng& r) { VD v(r.i(0, 12)); for (auto& x : v) x = r.u(-9, 9); return v; } // outputs may come in with any previous contents
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static double tot(const VD& v) { double s = 0; for (double x : v) s += std::fabs(x); return s; }

struct WellSet { WellsPtr W; VD perfrate, bhp, perfpress; std::vector<bool> shut; };
static WellSet make_wells(Rng& r, const UnstructuredGrid& g, int np, bool single_rate)
{
    WellSet s; int nw = r.i(0, 5), nc = g.number_of_cells; s.W = WellsPtr(create_wells(np, nw, 4 * nw)); 
    for (int w = 0; w < nw; ++w) {
        int n = single_rate ? 1 : r.p(0.1) ? 0 : r.i(1, 4); if (!n) ev("wells_without_perforations"); VI cells(n); for (auto& c : cells) c = r.i(0, nc - 1); if (w && n && s.W->well_connpos[w] && r.p(0.3)) cells[0] = s.W->well_cells[0];
        VD wi(n, 1.0), cf(np); double t = 0; for (auto& x : cf) { x = r.p(0.3) ? 0 : r.u(); t += x; } if (t == 0) { cf[0] = 1; t = 1; } for (auto& x : cf) x /= t; if (np == 2) cf[1] = 1 - cf[0];
        double dref = r.u(-50, 50); add_well(r.p(0.5) ? INJECTOR : PRODUCER, dref, n, &cf[0], cells.data(), wi.data(), "w", s.W.w);
        VD distr(np, 1.0); int nctl = r.i(1, 3); for (int q = 0; q < nctl; ++q) { int ty = single_rate ? 2 : r.i(0, 2); double target = ty == 0 ? r.logu(1, 1e7) : r.u(-5, 5); append_well_controls(ty == 0 ? BHP : ty == 1 ? SURFACE_RATE : RESERVOIR_RATE, target, &distr[0], w, s.W.w); }
        set_current_control(w, r.i(0, nctl - 1), s.W.w); bool sh = r.p(0.15); if (sh) s.W->ctrls[w]->current = ~s.W->ctrls[w]->current; s.shut.push_back(sh);
    }
    for (int j = 0; j < (nw ? s.W->well_connpos[nw] : 0); ++j) { s.perfrate.push_back(r.p(0.15) ? 0 : r.u(-3, 3)); s.perfpress.push_back(r.u(0.5, 1.5)); } for (int w = 0; w < nw; ++w) s.bhp.push_back(r.logu(1e5, 1e7));
    return s;
}

static void storage(Rng& r)
{
    int n = r.i(0, 40); VD sw(n), both = junk(r), back = junk(r); for (auto& x : sw) x = r.p(0.2) ? (double)r.i(0, 1) : r.u(-0.1, 1.1); toBothSat(sw, both); CHK((int)both.size() == 2 * n, "both-size", cat(both.size())); for (int i = 0; i < n && 2 * i + 1 < (int)both.size(); ++i) { CHK(both[2 * i] == sw[i], "both-first", cat(i)); NEAR(both[2 * i + 1], 1 - sw[i], 1e-15, 1, "both-second", cat(i)); }
    toWaterSat(both, back); CHK(back == sw, "roundtrip", cat(vec(sw), " ", vec(back))); ev("roundtrips");
    int np = r.i(1, 3), nc = r.i(1, 30); VD pv(nc), s(nc * np); double ps = r.p(0.5) ? 1 : r.logu(1e-9, 1e9); for (auto& x : pv) x = ps * r.logu(1e-3, 1e3); for (auto& x : s) x = r.u(); VD a(np, 3.3), b(np, 4.4), want(np, 0.0); double T = 0; for (int c = 0; c < nc; ++c) { T += pv[c]; for (int p = 0; p < np; ++p) want[p] += pv[c] * s[np * c + p]; }
    { std::unique_ptr<double[]> o(new double[np]); computeSaturatedVol(pv, s, o.get()); for (int p = 0; p < np; ++p) NEAR(o[p], want[p], 1e-12, 0, "saturated-volume", cat("phase ", p, " of ", np)); computeAverageSat(pv, s, o.get()); for (int p = 0; p < np; ++p) NEAR(o[p], want[p] / T, 1e-12, 0, "average-saturation", cat("phase ", p, " of ", np)); }
    if (nc > 1 && np > 1) { VD bad(s.begin(), s.end() - 1); CHK(throws([&] { computeSaturatedVol(pv, bad, &a[0]); }), "mismatch-accepted", "computeSaturatedVol"); CHK(throws([&] { computeAverageSat(pv, bad, &a[0]); }), "mismatch-accepted", "computeAverageSat"); ev("mismatches"); }
    // A z = A s, Fortran order
    int n2 = r.i(1, 12); VD A(n2 * np * np), sat(n2 * np); for (auto& x : A) x = r.u(-1, 2); for (auto& x : sat) x = r.u(); std::unique_ptr<double[]> z(new double[n2 * np]); computeSurfacevol(n2, np, &A[0], &sat[0], z.get()); for (int i = 0; i < n2; ++i) for (int row = 0; row < np; ++row) { double e = 0; for (int col = 0; col < np; ++col) e += A[(size_t)i * np * np + row + col * np] * sat[i * np + col]; NEAR(z[i * np + row], e, 1e-12, 3, "surface-volume", cat("point ", i, " component ", row)); }
    Watercut wc; int m = r.i(0, 5); std::string exp; std::ostringstream os, want_os; for (int i = 0; i < m; ++i) { double t = r.u(0, 1e8), f = r.u(), pr = r.u(0, 1e5); wc.push(t, f, pr); want_os << t / unit::day << "   " << f << "   " << pr << '\n'; } wc.write(os); std::istringstream i1(os.str()), i2(want_os.str()); double x, y; int cnt = 0; while (i2 >> y) { if (!CHK(bool(i1 >> x), "watercut-missing", os.str())) break; NEAR(x, y, 1e-5, 0, "watercut", os.str()); ++cnt; } CHK(!(i1 >> x), "watercut-extra", os.str()); std::string txt = os.str(); CHK(std::count(txt.begin(), txt.end(), '\n') == m, "watercut-lines", os.str()); ev("watercut_rows", m);
}

static void incomp(Rng& r, const UnstructuredGrid& g, const std::string& kind)
{
    int nc = g.number_of_cells, nf = g.number_of_faces, d = g.dimensions, np = r.i(1, 3); if (np != 2 && r.p(0.5)) np = 2; MockIncomp m = random_mock(r, g, np, r.p(0.5), 2, false, np == 2 && r.p(0.5)); VD s = random_sat(r, m); if (np == 1) std::fill(s.begin(), s.end(), 1.0); std::string D = cat(kind, " phases ", np);
    // pore volumes
    VD pv = junk(r); computePorevolume(g, m.porosity(), pv); CHK((int)pv.size() == nc, "porevolume-size", D); for (int c = 0; c < nc && c < (int)pv.size(); ++c) NEAR(pv[c], m.poro[c] * g.cell_volumes[c], 1e-14, 0, "porevolume", cat(D, " cell ", c));
    parameter::ParameterGroup prm; double pref = r.u(50, 300), cr = r.p(0.2) ? 0 : r.logu(1e-6, 1e-3); prm.insertParameter("rock_compressibility_pref", cat(pref)); prm.insertParameter("rock_compressibility", cat(cr)); RockCompressibility rc(prm); CHK(rc.isActive() == (cr != 0), "rock-active", cat(cr)); VD press(nc); for (auto& x : press) x = r.u(10, 900) * 1e5;
    VD pv2 = junk(r), por = junk(r); computePorevolume(g, m.porosity(), rc, press, pv2); computePorosity(g, m.porosity(), rc, press, por); CHK((int)pv2.size() == nc && (int)por.size() == nc, "porosity-size", D);
    for (int c = 0; c < nc && c < (int)std::min(pv2.size(), por.size()); ++c) { double x = cr / 1e5 * (press[c] - pref * 1e5), mult = 1 + x + 0.5 * x * x; NEAR(por[c], m.poro[c] * mult, 1e-11, 0, "porosity", cat(D, " cell ", c)); NEAR(pv2[c], m.poro[c] * mult * g.cell_volumes[c], 1e-11, 0, "rock-porevolume", cat(D, " cell ", c)); NEAR(rc.rockComp(press[c]), cr / 1e5, 1e-12, 0, "rock-compressibility", D); } ev("pore_volumes", nc);
    // mobilities over any list of cells
    VI cells; int n = r.p(0.4) ? nc : r.i(1, 2 * nc); for (int i = 0; i < n; ++i) cells.push_back(n == nc ? i : r.i(0, nc - 1)); VD sc; for (int c : cells) for (int p = 0; p < np; ++p) sc.push_back(s[np * c + p]);
    VD tm = junk(r), tm2 = junk(r), om = junk(r), pm = junk(r), ff = junk(r); computeTotalMobility(m, cells, sc, tm); computeTotalMobilityOmega(m, cells, sc, tm2, om); computePhaseMobilities(m, cells, sc, pm); computeFractionalFlow(m, cells, sc, ff);
    if (CHK((int)tm.size() == n && (int)tm2.size() == n && (int)om.size() == n && (int)pm.size() == n * np && (int)ff.size() == n * np, "mobility-size", D)) for (int i = 0; i < n; ++i) { int c = cells[i]; double t = m.totmob(c, &sc[np * i]); NEAR(tm[i], t, 1e-12, 0, "total-mobility", cat(D, " point ", i)); NEAR(tm2[i], t, 1e-12, 0, "total-mobility-omega", cat(D, " point ", i)); NEAR(om[i], m.omega(c, &sc[np * i]), 1e-11, 0, "omega", cat(D, " point ", i)); for (int p = 0; p < np; ++p) { double l = m.mob(c, p, sc[np * i + p]); NEAR(pm[np * i + p], l, 1e-12, 0, "phase-mobility", cat(D, " point ", i, " phase ", p)); NEAR(ff[np * i + p], l / t, 1e-11, 0, "fractional-flow", cat(D, " point ", i, " phase ", p)); } } ev("mobilities", n);
    // injection and production
    VD src(nc); for (auto& x : src) x = r.p(0.4) ? 0 : r.u(-1, 1); double dt = r.logu(1e-2, 1e6); std::unique_ptr<double[]> inj(new double[np]), prod(new double[np]); computeInjectedProduced(m, s, src, dt, inj.get(), prod.get()); VD wi(np, 0.0), wp(np, 0.0); for (int c = 0; c < nc; ++c) { if (src[c] > 0) wi[0] += src[c] * dt; else if (src[c] < 0) for (int p = 0; p < np; ++p) wp[p] -= src[c] * dt * m.mob(c, p, s[np * c + p]) / m.totmob(c, &s[np * c]); } for (int p = 0; p < np; ++p) { NEAR(inj[p], wi[p], 1e-11, 0, "injected", cat(D, " phase ", p)); NEAR(prod[p], wp[p], 1e-11, 0, "produced", cat(D, " phase ", p)); } ev("injected_produced");
    if (np > 1 && nc > 1) { VD bad(s.begin(), s.end() - 1); CHK(throws([&] { computeInjectedProduced(m, bad, src, dt, inj.get(), prod.get()); }), "mismatch-accepted", "computeInjectedProduced"); }
    // cell velocity: exact for the fluxes of a constant velocity on planar-faced cells only; in general the defining sum
    VD flux(nf); for (auto& x : flux) x = r.p(0.1) ? 0 : r.u(-1, 1); VD vel = junk(r); estimateCellVelocity(g, flux, vel); if (CHK((int)vel.size() == nc * d, "velocity-size", D)) for (int c = 0; c < nc; ++c) for (int q = 0; q < d; ++q) { double e = 0, sc2 = 0; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; double o = g.face_cells[2 * f] == c ? 1 : -1, t = o * flux[f] * (g.face_centroids[d * f + q] - g.cell_centroids[d * c + q]) / g.cell_volumes[c]; e += t; sc2 += std::fabs(t); } NEAR(vel[d * c + q], e, 1e-9, sc2, "velocity", cat(D, " cell ", c)); } ev("velocities", nc);
    // wells
    WellSet ws = make_wells(r, g, np, false); int nw = ws.W->number_of_wells, npf = nw ? ws.W->well_connpos[nw] : 0; bool two = np == 2, use = r.p(0.8); double frac = r.pick(VD{0, 1, 0.3}); VD ts = junk(r);
    if (!two && use) { CHK(throws([&] { computeTransportSource(g, src, flux, frac, ws.W.w, ws.perfrate, ts); }), "three-phase-accepted", D); ev("refused"); }
    else {
        computeTransportSource(g, src, flux, frac, use ? ws.W.w : 0, ws.perfrate, ts); VD want(nc, 0.0), sc2(nc, 0.0); auto add = [&](int c, double v) { want[c] += v; sc2[c] += std::fabs(v); };
        for (int c = 0; c < nc; ++c) add(c, src[c] > 0 ? frac * src[c] : src[c]); for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) continue; double in = a < 0 ? flux[f] : -flux[f]; add(a < 0 ? b : a, in > 0 ? frac * in : in); ev("boundary_sources"); }
        if (use) for (int w = 0; w < nw; ++w) for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { double q = ws.perfrate[j]; if (q > 0) q = ws.W->type[w] == INJECTOR ? q * ws.W->comp_frac[2 * w] : 0; add(ws.W->well_cells[j], q); ev("perforation_sources"); }
        if (CHK((int)ts.size() == nc, "source-size", D)) for (int c = 0; c < nc; ++c) NEAR(ts[c], want[c], 1e-11, sc2[c], "transport-source", cat(D, " cell ", c));
    }
    if (nw) {
        VD rates = junk(r), ph = junk(r), fr(nc * np); for (auto& x : fr) x = r.u(); computeFlowRatePerWell(*ws.W.w, ws.perfrate, rates); computePhaseFlowRatesPerWell(*ws.W.w, ws.perfrate, fr, ph); if (CHK((int)rates.size() == nw && (int)ph.size() == nw * np, "well-rate-size", D)) for (int w = 0; w < nw; ++w) { double e = 0, sa = 0; VD pe(np, 0.0); for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { e += ws.perfrate[j]; sa += std::fabs(ws.perfrate[j]); for (int p = 0; p < np; ++p) pe[p] += ws.perfrate[j] * fr[np * ws.W->well_cells[j] + p]; } NEAR(rates[w], e, 1e-12, sa, "well-rate", cat(D, " well ", w)); for (int p = 0; p < np; ++p) NEAR(ph[np * w + p], pe[p], 1e-12, sa, "well-phase-rate", cat(D, " well ", w, " phase ", p)); } ev("well_rates", nw);
        // hydrostatic offsets: saturation-weighted density times depth difference
        for (int per_cell = 0; per_cell < 2; ++per_cell) { VD sat(per_cell ? s : VD(npf * np)); if (!per_cell) for (auto& x : sat) x = r.u(); if (!per_cell && npf && r.p(0.3)) for (int p = 0; p < np; ++p) sat[p] = 0; double grav = r.u(-10, 10); VD wdp = junk(r); computeWDP(*ws.W.w, g, sat, m.density(), grav, per_cell, wdp); if (CHK((int)wdp.size() == npf, "wdp-size", D)) for (int w = 0; w < nw; ++w) for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { int c = ws.W->well_cells[j]; const double* q = per_cell ? &sat[np * c] : &sat[np * j]; double t = 0, rho = 0; for (int p = 0; p < np; ++p) { t += q[p]; rho += q[p] * m.rho[p]; } rho /= t == 0 ? 1 : t; NEAR(wdp[j], rho * grav * (g.cell_centroids[d * c + d - 1] - ws.W->depth_ref[w]), 1e-11, 1e-3 * std::fabs(rho * grav), "wdp", cat(D, " perforation ", j)); } ev("well_columns", npf); }
        // report: time in days, pressure in bar, rates per day, water fraction of the total
        WellReport rep; int rows = r.i(1, 3); std::vector<VD> want; for (int q = 0; q < rows; ++q) { double time = r.u(0, 1e8); for (auto& x : ws.perfrate) x = r.u(-1, 1) * 1e-3; if (r.p(0.2)) std::fill(ws.perfrate.begin(), ws.perfrate.end(), 0.0); rep.push(m, *ws.W.w, s, time, ws.bhp, ws.perfrate); VD row(1, time / 86400); for (int w = 0; w < nw; ++w) { double t = 0, wt = 0, sa = 0; for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { double x = ws.perfrate[j] * 86400; int c = ws.W->well_cells[j]; t += x; sa += std::fabs(x); wt += x * (x > 0 ? ws.W->comp_frac[np * w] : m.mob(c, 0, s[np * c]) / m.totmob(c, &s[np * c])); } row.push_back(ws.bhp[w] / 1e5); bool tiny = std::fabs(t) < 1e-4 * sa; row.push_back(tiny ? NAN : t); row.push_back(tiny ? NAN : t == 0 ? 0 : wt / t); } want.push_back(row); }
        std::ostringstream os; os.precision(12); rep.write(os); std::istringstream is(os.str()); std::string line; int q = 0; while (std::getline(is, line)) { if (!CHK(q < rows, "report-lines", os.str())) break; std::istringstream ls(line); double x; size_t k = 0; while (ls >> x) { if (!CHK(k < want[q].size(), "report-columns", line)) break; if (want[q][k] == want[q][k]) NEAR(x, want[q][k], 1e-8, 1e-9, "report", cat(D, " row ", q, " column ", k, ": ", line)); ++k; } CHK(k == want[q].size(), "report-columns", line); ++q; } CHK(q == rows, "report-lines", os.str()); ev("report_rows", rows);
    }
    uint64_t h = hcomb(np, nw); for (double x : ts) h = hcomb(h, hdbl(x)); for (double x : ff) h = hcomb(h, hdbl(x)); nontrivial(h);
    // rate-controlled single-perforation wells as sources
    if (r.p(0.5)) {
        WellSet w1 = make_wells(r, g, 2, true); int n1 = w1.W->number_of_wells; VD so = junk(r); std::string bad; int bw = n1 ? r.i(0, n1 - 1) : 0, how = r.i(0, 9); WellControls* k = n1 ? w1.W->ctrls[bw] : 0; if (n1 && !w1.shut[bw] && how == 0) { k->type[k->current] = r.p(0.5) ? BHP : SURFACE_RATE; bad = "type"; } if (n1 && !w1.shut[bw] && how == 1) { k->distr[2 * k->current + r.i(0, 1)] = 0.5; bad = "distr"; }
        if (!bad.empty()) { CHK(throws([&] { wellsToSrc(*w1.W.w, nc, so); }), "unsuitable-accepted", bad); ev("refused"); }
        else { wellsToSrc(*w1.W.w, nc, so); VD want(nc, 0.0), sa(nc, 0.0); for (int w = 0; w < n1; ++w) if (!w1.shut[w]) { WellControls* q = w1.W->ctrls[w]; double v = q->target[q->current] * (w1.W->type[w] == INJECTOR ? w1.W->comp_frac[2 * w] : 1); want[w1.W->well_cells[w]] += v; sa[w1.W->well_cells[w]] += std::fabs(v); ev("well_sources"); } if (CHK((int)so.size() == nc, "wells-source-size", cat(so.size()))) for (int c = 0; c < nc; ++c) NEAR(so[c], want[c], 1e-12, sa[c], "wells-source", cat("cell ", c)); }
    }
    // states
    TwophaseState st; st.init(g, np); int sp = np; { BlackoilState bs; int bp = r.i(1, 4); bs.init(g, bp); CHK((int)bs.saturation().size() == nc * bp && (int)bs.pressure().size() == nc && (int)bs.faceflux().size() == nf && bs.numPhases() == bp, "state-size", D); for (int c = 0; c < nc; ++c) for (int p = 0; p < bp; ++p) CHK(bs.saturation()[bp * c + p] == (p == std::min(1, bp - 1) ? 1 : 0), "state-default", cat("black-oil cell ", c, " phases ", bp)); if (bp == 1) ev("single_phase_states"); } for (int c = 0; c < nc; ++c) for (int p = 0; p < sp; ++p) CHK(st.saturation()[sp * c + p] == (p == std::min(1, sp - 1) ? 1 : 0), "state-default", cat("cell ", c)); CHK((int)st.pressure().size() == nc && (int)st.faceflux().size() == nf && (int)st.facepressure().size() == nf && st.numPhases() == sp, "state-size", D);
    if (two) { VI sub; for (int c = 0; c < nc; ++c) if (r.p(0.6)) sub.push_back(c); if (sub.empty()) sub.push_back(0); bool mx = r.p(0.5); st.saturation() = s; st.setFirstSat(sub, m, mx ? TwophaseState::MaxSat : TwophaseState::MinSat); std::set<int> in(sub.begin(), sub.end()); for (int c = 0; c < nc; ++c) { double e = in.count(c) ? (mx ? m.smax_[2 * c] : m.smin_[2 * c]) : s[2 * c]; NEAR(st.saturation()[2 * c], e, 1e-15, 0, "first-saturation", cat("cell ", c)); NEAR(st.saturation()[2 * c + 1], in.count(c) ? 1 - e : s[2 * c + 1], 1e-14, 1, "second-saturation", cat("cell ", c)); } ev("state_cells", nc); }
    for (int c = 0; c < nc; ++c) st.pressure()[c] = r.u(1, 2); WellState wst; wst.init(ws.W.w, st); if (CHK((int)wst.bhp().size() == nw && (int)wst.perfRates().size() == npf && (int)wst.perfPress().size() == npf, "wellstate-size", D)) for (int w = 0; w < nw; ++w) { WellControls* k = ws.W->ctrls[w]; bool b = k->current >= 0 && k->type[k->current] == BHP; bool none = ws.W->well_connpos[w] == ws.W->well_connpos[w + 1]; if (none && !b) { CHK(std::isfinite(wst.bhp()[w]), "wellstate-bhp", D); continue; } CHK(wst.bhp()[w] == (b ? k->target[k->current] : st.pressure()[ws.W->well_cells[ws.W->well_connpos[w]]]), "wellstate-bhp", cat(D, " well ", w)); ev("well_states"); } for (double x : wst.perfRates()) CHK(x == 0, "wellstate-rates", D); WellState none; none.init((const Wells*)0, st); CHK(none.bhp().empty() && none.perfRates().empty(), "wellstate-null", D);
}

// Fluid whose properties differ between cells and with the composition given
struct CellFluid : public MockBlackoil {
    VD f; double F(int c, const double* z, double s) const { double x = 1; for (int k = 0; k < np; ++k) x += s * (k + 1) * z[k]; return f[c] * x; }
    void viscosity(const int n, const double* p, const double* z, const int* cells, double* m, double* dm) const { MockBlackoil::viscosity(n, p, z, cells, m, dm); for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) m[np * i + q] *= F(cells[i], z + np * i, 0.1 * (q + 1)); }
    void matrix(const int n, const double* p, const double* z, const int* cells, double* A, double* dA) const { MockBlackoil::matrix(n, p, z, cells, A, dA); for (int i = 0; i < n; ++i) for (int q = 0; q < np * np; ++q) A[np * np * i + q] *= F(cells[i], z + np * i, 0.2); }
    double vis(int c, int q, double p, const double* z) const { return mu(q, p) * F(c, z, 0.1 * (q + 1)); }
    void mat(int c, double p, const double* z, double* A) const { amat(p, A, 0); for (int q = 0; q < np * np; ++q) A[q] *= F(c, z, 0.2); }
};

static void blackoil(Rng& r, const UnstructuredGrid& g, const std::string& kind)
{
    int nc = g.number_of_cells, np = r.p(0.6) ? 2 : 3; CellFluid m; static_cast<MockBlackoil&>(m) = random_blackoil(r, g, np, r.p(0.5), 1, false, 1.0, 1.0, r.i(0, 2)); for (int c = 0; c < nc; ++c) m.f.push_back(r.p(0.2) ? 1 : r.u(0.5, 2)); VD s = random_sat(r, m.rock), p(nc), z(nc * np); for (auto& x : p) x = r.u(0.5, 1.5); for (auto& x : z) x = r.u(); std::string D = cat(kind, " phases ", np);
    VI cells(nc); for (int c = 0; c < nc; ++c) cells[c] = c; VD pp(p), zz(z), sc(s); bool sub = r.p(0.4); if (sub) { cells.clear(); int n = r.i(1, 2 * nc); pp.clear(); zz.clear(); sc.clear(); for (int i = 0; i < n; ++i) { int c = r.i(0, nc - 1); cells.push_back(c); pp.push_back(p[c]); for (int q = 0; q < np; ++q) { zz.push_back(z[np * c + q]); sc.push_back(s[np * c + q]); } } ev("cell_subsets"); } int n = (int)cells.size();
    VD tm = junk(r), pm = junk(r), ff = junk(r); computeTotalMobility(m, cells, pp, zz, sc, tm); computePhaseMobilities(m, cells, pp, zz, sc, pm); computeFractionalFlow(m, cells, pp, zz, sc, ff); auto mob = [&](int c, int q, double P, const double* Z, double S) { return m.rock.kr(c, q, S) / m.vis(c, q, P, Z); };
    if (CHK((int)tm.size() == n && (int)pm.size() == n * np && (int)ff.size() == n * np, "bo-size", D)) for (int i = 0; i < n; ++i) { double t = 0; for (int q = 0; q < np; ++q) t += mob(cells[i], q, pp[i], &zz[np * i], sc[np * i + q]); NEAR(tm[i], t, 1e-12, 0, "bo-total-mobility", cat(D, " point ", i)); for (int q = 0; q < np; ++q) { double l = mob(cells[i], q, pp[i], &zz[np * i], sc[np * i + q]); NEAR(pm[np * i + q], l, 1e-12, 0, "bo-phase-mobility", cat(D, " point ", i)); NEAR(ff[np * i + q], l / t, 1e-11, 0, "bo-fractional-flow", cat(D, " point ", i)); } } ev("bo_mobilities", n);
    BlackoilState st; st.init(g, np); st.pressure() = p; st.saturation() = s; st.surfacevol() = z; VD src(nc); for (auto& x : src) x = r.p(0.4) ? 0 : r.u(-1, 1); double dt = r.logu(1e-2, 1e6); std::unique_ptr<double[]> inj(new double[np]), prod(new double[np]); computeInjectedProduced(m, st, src, dt, inj.get(), prod.get());
    VD wi(np, 0.0), wp(np, 0.0), sa(np, 0.0), A(np * np); for (int c = 0; c < nc; ++c) { if (src[c] > 0) wi[0] += src[c] * dt; else if (src[c] < 0) { double t = 0; for (int q = 0; q < np; ++q) t += mob(c, q, p[c], &z[np * c], s[np * c + q]); m.mat(c, p[c], &z[np * c], &A[0]); for (int q = 0; q < np; ++q) for (int k = 0; k < np; ++k) { double v = -src[c] * dt * mob(c, q, p[c], &z[np * c], s[np * c + q]) / t * A[k + np * q]; wp[k] += v; sa[k] += std::fabs(v); } } } for (int q = 0; q < np; ++q) { NEAR(inj[q], wi[q], 1e-11, 0, "bo-injected", cat(D, " phase ", q)); NEAR(prod[q], wp[q], 1e-11, sa[q], "bo-produced", cat(D, " component ", q)); } ev("bo_injected_produced");
    CHK(throws([&] { VD shortsrc(src.begin(), src.end() - 1); if (shortsrc.empty()) throw 1; computeInjectedProduced(m, st, shortsrc, dt, inj.get(), prod.get()); }), "mismatch-accepted", "black-oil computeInjectedProduced");
    WellSet ws = make_wells(r, g, np, false); int nw = ws.W->number_of_wells; WellState wst; wst.init(ws.W.w, st); wst.perfRates() = ws.perfrate; wst.perfPress() = ws.perfpress; VD ts = junk(r); bool use = r.p(0.85);
    if (np != 2 && use) { CHK(throws([&] { computeTransportSource(m, ws.W.w, wst, ts); }), "three-phase-accepted", D); ev("refused"); }
    else { computeTransportSource(m, use ? ws.W.w : 0, wst, ts); VD want(nc, 0.0), sb(nc, 0.0); if (use) for (int w = 0; w < nw; ++w) for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { double q = ws.perfrate[j]; if (q > 0) { m.mat(ws.W->well_cells[j], ws.perfpress[j], ws.W->comp_frac + 2 * w, &A[0]); q = ws.W->type[w] == INJECTOR ? q * ws.W->comp_frac[2 * w] * A[0] : 0; } want[ws.W->well_cells[j]] += q; sb[ws.W->well_cells[j]] += std::fabs(q); ev("bo_perforation_sources"); } if (CHK((int)ts.size() == nc, "bo-source-size", D)) for (int c = 0; c < nc; ++c) NEAR(ts[c], want[c], 1e-11, sb[c], "bo-transport-source", cat(D, " cell ", c)); }
    if (nw) { WellReport rep; double time = r.u(0, 1e8); rep.push(m, *ws.W.w, p, z, s, time, ws.bhp, ws.perfrate); std::ostringstream os; os.precision(12); rep.write(os); std::istringstream is(os.str()); double x = 0; is >> x; NEAR(x, time / 86400, 1e-9, 0, "bo-report-time", os.str()); for (int w = 0; w < nw; ++w) { double t = 0, wt = 0, sb = 0; for (int j = ws.W->well_connpos[w]; j < ws.W->well_connpos[w + 1]; ++j) { double q = ws.perfrate[j] * 86400; int c = ws.W->well_cells[j]; double tmb = 0; for (int k = 0; k < np; ++k) tmb += mob(c, k, p[c], &z[np * c], s[np * c + k]); t += q; sb += std::fabs(q); wt += q * (q > 0 ? ws.W->comp_frac[np * w] : mob(c, 0, p[c], &z[np * c], s[np * c]) / tmb); } double a, b, f; if (!CHK(bool(is >> a >> b >> f), "bo-report-columns", os.str())) break; NEAR(a, ws.bhp[w] / 1e5, 1e-9, 0, "bo-report-bhp", os.str()); NEAR(b, t, 1e-9, sb, "bo-report-rate", os.str()); if (std::fabs(t) > 1e-4 * sb) NEAR(f, wt / t, 1e-7, 1e-9, "bo-report-water", os.str()); } ev("bo_report_rows"); }
    uint64_t h = 9; for (double v : ts) h = hcomb(h, hdbl(v)); for (double v : ff) h = hcomb(h, hdbl(v)); nontrivial(h);
}

static void one(long, Rng& r)
{
    quiet(); { Rng q(r.next()); storage(q); } { Rng q(r.next()); storage(q); }
    Rng q(r.next()); std::string kind; GridPtr g = any_grid(q, 4, 4, &kind); Rng a(q.next()), b(q.next()); incomp(a, *g, kind); blackoil(b, *g, kind); sample(kind);
}
int main(int argc, char** argv) { return mon::run(argc, argv, "p38", one, 60); }
