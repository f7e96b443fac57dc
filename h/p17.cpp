// P17: incompressible two-point pressure solver against an independent evaluation of Darcy fluxes, balances and controls.
#include "config.h"
#include "flow.hpp"
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <iostream>
using namespace gl;
using namespace Opm;

struct Case {
    GridPtr g; std::string kind; MockIncomp m; bool si; std::vector<double> grav; bool use_grav; WellsPtr W; BcPtr bc; std::vector<double> src; std::vector<double> h; bool rock; double cr, pref; bool neumann; int np; double pscale, dt;
};

static double relp(Rng& r, bool si) { return si ? r.u(1e7, 4e7) : r.p(0.12) ? 0.0 : r.u(-5, 5); }

static void build_controls(Rng& r, Case& c, int w)
{
    int np = c.np; clear_well_controls(w, c.W.w); int nctl = r.i(1, 3);
    for (int k = 0; k < nctl; ++k) { std::vector<double> di(np, 1.0); bool b = r.p(0.5); if (!b && r.p(0.0)) di[0] = 0; append_well_controls(b ? BHP : RESERVOIR_RATE, b ? relp(r, c.si) : 0.0, b ? 0 : &di[0], w, c.W.w); }
    set_current_control(w, r.i(0, nctl - 1), c.W.w); if (r.p(0.15)) set_current_control(w, ~c.W->ctrls[w]->current, c.W.w);
}
static bool shut(const Case& c, int w) { return c.W->ctrls[w]->current < 0; }
static bool is_bhp(const Case& c, int w) { WellControls* q = c.W->ctrls[w]; return q->type[q->current] == BHP; }

// Choose rates, sources and boundary data so that the problem is well posed; may add pressure conditions.
static void make_wellposed(Rng& r, Case& c)
{
    const UnstructuredGrid& g = *c.g; int nc = g.number_of_cells; double qscale = 0; for (double x : c.h) qscale = std::max(qscale, x); qscale *= c.pscale / (c.si ? 1e-3 : 1.0) * 0.1; if (c.rock) for (int i = 0; i < nc; ++i) qscale = std::min(qscale, 0.003 * g.cell_volumes[i] * c.m.poro[i] / c.dt); // moderate compression, so that the nonlinear problem has a solution
    UF u(nc); join_faces(g, u);
    if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) if (!shut(c, w) && !is_bhp(c, w)) for (int k = c.W->well_connpos[w] + 1; k < c.W->well_connpos[w + 1]; ++k) u.join(c.W->well_cells[c.W->well_connpos[w]], c.W->well_cells[k]);
    std::vector<char> ref(nc, 0), anyc(nc, 0); for (int i = 0; i < nc; ++i) anyc[u.find(i)] = 1;
    std::set<int> used;
    if (c.bc.b) for (size_t i = 0; i < c.bc->nbc; ++i) for (size_t j = c.bc->cond_pos[i]; j < c.bc->cond_pos[i + 1]; ++j) { used.insert(c.bc->face[j]); if (c.bc->type[i] == BC_PRESSURE) ref[u.find(bcell(g, c.bc->face[j]))] = 1; }
    if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) if (!shut(c, w) && is_bhp(c, w)) for (int k = c.W->well_connpos[w]; k < c.W->well_connpos[w + 1]; ++k) ref[u.find(c.W->well_cells[k])] = 1;
    int ncomp = 0, nref = 0; for (int i = 0; i < nc; ++i) if (anyc[i]) { ++ncomp; nref += ref[i]; }
    if (!c.rock && !(ncomp == 1 && nref == 0 && nc > 1)) { // reference every component
        std::vector<int> bf = boundary_faces(g); r.shuffle(bf);
        for (int f : bf) { int k = u.find(bcell(g, f)); if (!ref[k] && !used.count(f)) { if (!c.bc.b) c.bc = BcPtr(flow_conditions_construct(0)); flow_conditions_append(BC_PRESSURE, f, relp(r, c.si), c.bc.b); ref[k] = 1; used.insert(f); } }
        for (int i = 0; i < nc; ++i) if (anyc[i] && !ref[i]) { // all outer faces of the component already have flux conditions: turn one into a pressure
            for (size_t q = 0; q < c.bc->nbc; ++q) if (c.bc->type[q] == BC_FLUX_TOTVOL && u.find(bcell(g, c.bc->face[c.bc->cond_pos[q]])) == i) { c.bc->type[q] = BC_PRESSURE; c.bc->value[q] = relp(r, c.si); ref[i] = 1; break; } }
        c.neumann = false;
    } else c.neumann = !c.rock;
    double total = 0; // compatible data for a closed system
    if (c.bc.b) for (size_t i = 0; i < c.bc->nbc; ++i) if (c.bc->type[i] == BC_FLUX_TOTVOL) { c.bc->value[i] = r.u(-1, 1) * qscale; total += c.bc->value[i]; }
    bool nosrc = r.p(0.4); c.src.clear(); int nsrc = 0; if (!nosrc) { c.src.assign(nc, 0.0); for (auto& x : c.src) if (r.p(0.3)) { x = r.u(-1, 1) * qscale; total += x; ++nsrc; } }
    int lastw = -1; if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) { WellControls* q = c.W->ctrls[w]; for (int k = 0; k < q->num; ++k) if (q->type[k] == RESERVOIR_RATE) q->target[k] = r.p(0.1) ? 0.0 : r.u(-1, 1) * qscale; if (!shut(c, w) && !is_bhp(c, w)) { total += q->target[q->current]; lastw = w; } }
    if (c.neumann && total != 0) {
        if (lastw >= 0 && r.p(0.5)) { WellControls* q = c.W->ctrls[lastw]; q->target[q->current] -= total; }
        else if (!c.src.empty()) c.src[r.i(0, nc - 1)] -= total;
        else if (lastw >= 0) { WellControls* q = c.W->ctrls[lastw]; q->target[q->current] -= total; }
        else { c.src.assign(nc, 0.0); c.src[r.i(0, nc - 1)] -= total; }
    }
}

static void monitor(Rng& r, Case& c, const TwophaseState& st, const WellState& ws, const std::vector<double>& p0, double dt, double restol, const std::string& pre, const std::string& det)
{
    (void)r; const UnstructuredGrid& g = *c.g; int d = g.dimensions, nc = g.number_of_cells, nf = g.number_of_faces, np = c.np; const double* s = &st.saturation()[0]; const std::vector<double>& p = st.pressure(); const std::vector<double>& fl = st.faceflux();
    for (int i = 0; i < nc; ++i) if (!CHK(std::isfinite(p[i]), pre + ":finite", cat(det, " pressure of cell ", i, " = ", p[i]))) return;
    for (int f = 0; f < nf; ++f) if (!CHK(std::isfinite(fl[f]), pre + ":finite", cat(det, " flux of face ", f, " = ", fl[f]))) return;
    std::vector<double> lam(nc), om(nc), T(nf, 0), gf(nf, 0), mag(nc, 0), out(nc, 0), gmag(nf, 0);
    for (int i = 0; i < nc; ++i) { lam[i] = c.m.totmob(i, s + np * i); om[i] = c.m.omega(i, s + np * i); }
    for (int i = 0; i < nc; ++i) for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) {
        int f = g.cell_faces[k]; T[f] += 1 / (lam[i] * c.h[k]); double sg = g.face_cells[2 * f] == i ? 1 : -1;
        if (c.use_grav && g.face_cells[2 * f] >= 0 && g.face_cells[2 * f + 1] >= 0) for (int q = 0; q < d; ++q) { double t = om[i] * c.grav[q] * (g.face_centroids[d * f + q] - g.cell_centroids[d * i + q]); gf[f] += sg * t; gmag[f] += std::fabs(om[i] * c.grav[q]) * (std::fabs(g.face_centroids[d * f + q]) + std::fabs(g.cell_centroids[d * i + q])); }
    }
    for (auto& t : T) t = 1 / t;
    std::vector<double> expf(nf, 0), fs(nf, 0); std::vector<int> bt(nf, 0); std::vector<double> bv(nf, 0);
    if (c.bc.b) for (size_t i = 0; i < c.bc->nbc; ++i) for (size_t j = c.bc->cond_pos[i]; j < c.bc->cond_pos[i + 1]; ++j) { bt[c.bc->face[j]] = c.bc->type[i] == BC_PRESSURE ? 1 : 2; bv[c.bc->face[j]] = c.bc->value[i]; }
    for (int f = 0; f < nf; ++f) {
        int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; bool bad = false;
        if (a >= 0 && b >= 0) { expf[f] = T[f] * (p[a] - p[b] + gf[f]); fs[f] = T[f] * (std::fabs(p[a]) + std::fabs(p[b]) + gmag[f]); ev("interior_faces"); }
        else if (bt[f] == 1) { int i = bcell(g, f); double sg = a >= 0 ? 1 : -1; expf[f] = sg * T[f] * (p[i] - bv[f]); fs[f] = T[f] * (std::fabs(p[i]) + std::fabs(bv[f])); ev("pressure_faces"); }
        else if (bt[f] == 2) { expf[f] = (a >= 0 ? -1 : 1) * bv[f]; fs[f] = 0; ev("flux_faces"); bad = !CHK(fl[f] == expf[f], pre + ":flux-bc", cat(det, " face ", f, " flux ", fl[f], " prescribed ", expf[f])); }
        else { bad = !CHK(fl[f] == 0, pre + ":noflow-face", cat(det, " outer face ", f, " has flux ", fl[f])); }
        if (!bad && !NEAR(fl[f], expf[f], 1e-11, fs[f], pre + (bt[f] == 1 ? ":pressure-bc" : ":darcy"), cat(det, " flux of face ", f, " (", a, ",", b, ")"))) return;
    }
    for (int f = 0; f < nf; ++f) for (int q = 0; q < 2; ++q) { int i = g.face_cells[2 * f + q]; if (i >= 0) { out[i] += (q ? -1 : 1) * fl[f]; mag[i] += std::max(fs[f], std::fabs(fl[f])); } }
    if (!c.src.empty()) for (int i = 0; i < nc; ++i) { out[i] -= c.src[i]; mag[i] += std::fabs(c.src[i]); if (c.src[i] != 0) ev("sources"); }
    if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) {
        WellControls* q = c.W->ctrls[w]; double sum = 0, wm = 0; bool sh = shut(c, w);
        if (!sh && q->type[q->current] == BHP) { NEAR(ws.bhp()[w], q->target[q->current], 1e-10, c.pscale, pre + ":bhp", cat(det, " bhp of well ", w)); ev("bhp_wells"); }
        for (int k = c.W->well_connpos[w]; k < c.W->well_connpos[w + 1]; ++k) {
            int i = c.W->well_cells[k]; double rate = ws.perfRates()[k];
            if (sh) { CHK(rate == 0, pre + ":shut", cat(det, " shut well ", w, " perforation ", k, " rate ", rate)); continue; }
            double rh = 0; for (int z = 0; z < np; ++z) rh += s[np * i + z] * c.m.rho[z];
            double gz = c.use_grav ? c.grav[d - 1] : 0, wdp = rh * gz * (g.cell_centroids[d * i + d - 1] - c.W->depth_ref[w]), t = lam[i] * c.W->WI[k]; double sc = t * (std::fabs(ws.bhp()[w]) + std::fabs(p[i]) + rh * std::fabs(gz) * (std::fabs(g.cell_centroids[d * i + d - 1]) + std::fabs(c.W->depth_ref[w])));
            NEAR(rate, t * (ws.bhp()[w] + wdp - p[i]), 1e-11, sc, pre + ":perf-rate", cat(det, " well ", w, " perforation ", k)); ev("perforations");
            sum += rate; wm += sc; out[i] -= rate; mag[i] += sc;
        }
        if (sh) ev("shut_wells");
        else if (q->type[q->current] == RESERVOIR_RATE) { CHK(std::fabs(sum - q->target[q->current]) <= 1e-9 * wm + 1.001 * restol, pre + ":rate-target", cat(det, " total rate of well ", w, " is ", sum, " target ", q->target[q->current])); ev("rate_wells"); }
    }
    double tot = 0; if (c.neumann) { for (double x : mag) tot += x; for (double x : c.src) tot += std::fabs(x); for (double x : bv) tot += std::fabs(x); if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) if (!shut(c, w)) tot += std::fabs(c.W->ctrls[w]->target[c.W->ctrls[w]->current]); } // rounding of the compatible data of a closed system
    for (int i = 0; i < nc; ++i) {
        double acc = 0, rt = 0;
        if (c.rock) { double pv = g.cell_volumes[i] * c.m.poro[i], x = c.cr * (p[i] - c.pref), x0 = c.cr * (p0[i] - c.pref); acc = pv * ((1 + x + 0.5 * x * x) - (1 + x0 + 0.5 * x0 * x0)) / dt; mag[i] += 1e-5 * pv / dt; rt = restol; ev("rock_cells"); }
        CHK(std::fabs(out[i] + acc) <= 1e-9 * mag[i] + 1e-12 * tot + rt * 1.001, pre + ":balance", cat(det, " cell ", i, " net outflow minus sources ", out[i], " plus accumulation ", acc, " magnitude ", mag[i], " tolerance ", rt));
        ev("cells_balanced");
    }
}

// a linear solver whose answers are spoiled from some call on
struct BadLs : public LinearSolverInterface {
    LinearSolverUmfpack u; mutable int calls; int from; bool nan; BadLs() : calls(0), from(0), nan(true) {}
    using LinearSolverInterface::solve;
    virtual LinearSolverReport solve(const int n, const int nnz, const int* ia, const int* ja, const double* sa, const double* b, double* x) const { LinearSolverReport rep = u.solve(n, nnz, ia, ja, sa, b, x); if (calls++ >= from) { if (nan) x[calls % n] = std::numeric_limits<double>::quiet_NaN(); else for (int i = 0; i < n; ++i) x[i] *= 0.03; } return rep; }
    virtual void setTolerance(const double) {} virtual double getTolerance() const { return 0; }
};
// The transmissibilities themselves, into arrays that hold something else beforehand.
static bool direct_trans(Rng& r, Case& c)
{
    UnstructuredGrid& g = *c.g.g; int nf = g.number_of_faces; size_t nh = c.h.size(); double M = 0; for (double x : c.h) M = std::max(M, x); double junk = r.p(0.3) ? 0.0 : r.u(-1e3, 1e3); std::vector<double> h(nh + 1, junk), t(nf + 1, junk), e(nf + 1, junk), mob(g.number_of_cells), t0(nf, 0.0), e0(nf, 0.0); for (auto& x : mob) x = r.logu(1e-2, 1e2);
    tpfa_htrans_compute(&g, &c.m.perm[0], &h[0]); tpfa_trans_compute(&g, &c.h[0], &t[0]); tpfa_eff_trans_compute(&g, &mob[0], &c.h[0], &e[0]);
    for (size_t i = 0; i < nh; ++i) if (!CHK(std::fabs(h[i] - c.h[i]) <= 1e-10 * M, "half-transmissibility", cat("half face ", i, " ", h[i], " not ", c.h[i]))) return false;
    for (int q = 0; q < g.number_of_cells; ++q) for (int k = g.cell_facepos[q]; k < g.cell_facepos[q + 1]; ++k) { t0[g.cell_faces[k]] += 1 / c.h[k]; e0[g.cell_faces[k]] += 1 / (c.h[k] * mob[q]); }
    for (int f = 0; f < nf; ++f) { if (!CHK(std::fabs(t[f] * t0[f] - 1) <= 1e-12 && std::fabs(e[f] * e0[f] - 1) <= 1e-12, "transmissibility", cat("face ", f, " ", t[f], " not ", 1 / t0[f], ", with mobilities ", e[f], " not ", 1 / e0[f]))) return false; ev("transmissibilities"); }
    return CHK(h[nh] == junk && t[nf] == junk && e[nf] == junk, "transmissibility-overrun", "");
}

static void case_fn(long k, Rng& r)
{
    for (int rep = 0; rep < 2; ++rep) {
        Case c; std::string kind; int tries = 0;
        do { c.g = any_grid(r, k % 7 == 0 ? 6 : 4, 6, &kind); c.np = r.p(0.1) ? 1 : r.p(0.8) ? 2 : 3; c.si = r.p(0.4); c.m = random_mock(r, *c.g, c.np, c.si, r.pick(std::vector<double>{0, 2, 4}), r.p(0.4)); c.h = half_trans(*c.g, c.m.perm); } while (min_half(c.h) < 1e-9 && ++tries < 30);
        if (min_half(c.h) < 1e-9) continue; if (k % 4 == 0 && !direct_trans(r, c)) return;
        const UnstructuredGrid& g = *c.g; int d = g.dimensions, nc = g.number_of_cells; c.pscale = c.si ? 1e7 : 5;
        c.use_grav = r.p(0.6); c.grav.assign(d, 0.0); if (c.use_grav) { c.grav[d - 1] = c.si ? 9.80665 : r.u(0.2, 3); if (r.p(0.2)) c.grav[0] = r.u(-1, 1); if (r.p(0.1)) c.grav[d - 1] *= -1; }
        c.rock = r.p(0.25); { double G = 0, rm = 0; for (double x : c.grav) G += std::fabs(x); for (double x : c.m.rho) rm = std::max(rm, x); c.cr = r.u(0.1, 1) * 0.04 / (c.pscale + rm * G * (scales(g).L + 10)); } c.pref = c.si ? 1e7 * r.u(0.9, 1.1) : r.u(-1, 1);
        // wells: some perforate a cell twice
        int nw = r.p(0.35) ? 0 : r.i(1, 3);
        if (nw || r.p(0.2)) {
            std::vector<std::vector<int>> pc(nw); int np_ = 0; for (auto& v : pc) { std::vector<int> q = random_perm(r, nc); q.resize(std::min(nc, r.i(1, 4))); if (r.p(0.15)) q.push_back(q[r.i(0, q.size() - 1)]); if (r.p(0.06)) q.clear(); v = q; np_ += q.size(); }
            c.W = WellsPtr(create_wells(c.np, nw, np_)); double hm = 0; for (double x : c.h) hm = std::max(hm, x);
            for (int w = 0; w < nw; ++w) { std::vector<double> wi, cf(c.np, 0.0); cf[0] = 1; for (size_t q = 0; q < pc[w].size(); ++q) wi.push_back(hm * r.logu(1e-3, 10)); double dref = (pc[w].empty() ? 0 : g.cell_centroids[d * pc[w][0] + d - 1]) + (r.p(0.5) ? 0 : r.u(-10, 10)); add_well(r.p(0.5) ? INJECTOR : PRODUCER, dref, pc[w].size(), &cf[0], pc[w].data(), wi.data(), cat("W", w).c_str(), c.W.w); build_controls(r, c, w); if (pc[w].empty()) { ev("wells_without_perforations"); if (!shut(c, w)) set_current_control(w, ~c.W->ctrls[w]->current, c.W.w); } }
        }
        if (r.p(0.6)) {
            c.bc = BcPtr(flow_conditions_construct(0)); std::vector<int> bf = boundary_faces(g); r.shuffle(bf); int n = r.i(0, std::min<int>(bf.size(), 12)); int mode = r.i(0, 2); size_t q = 0;
            for (int z = 0; z < n && q < bf.size(); ++z) { bool pr = mode == 0 || (mode == 2 && r.p(0.5)); if (pr && r.p(0.3) && q + 3 < bf.size()) { int m = r.i(1, 3); flow_conditions_append_multi(BC_PRESSURE, m, &bf[q], relp(r, c.si), c.bc.b); q += m; } else flow_conditions_append(pr ? BC_PRESSURE : BC_FLUX_TOTVOL, bf[q++], pr ? relp(r, c.si) : 0.0, c.bc.b); }
        }
        c.dt = c.si ? r.logu(1e3, 1e7) : r.logu(0.01, 10); c.kind = kind; make_wellposed(r, c);
        std::string det = cat(kind, " np ", c.np, c.si ? " SI" : "", c.use_grav ? " grav" : "", c.rock ? " rock" : "", c.neumann ? " closed" : "", " wells ", nw, " bcs ", c.bc.b ? c.bc->nbc : 0);
        LinearSolverUmfpack ls; parameter::ParameterGroup pg; pg.insertParameter("rock_compressibility_pref", cat(c.pref / 1e5)); pg.insertParameter("rock_compressibility", cat(c.cr * 1e5)); pg.disableOutput(); RockCompressibility rc(pg);
        if (c.np == 1) ev("single_phase"); TwophaseState st; st.init(g, c.np); WellState ws; st.saturation() = random_sat(r, c.m); std::vector<double> p0(nc); for (auto& x : p0) x = relp(r, c.si); st.pressure() = p0; ws.init(c.W.w, st);
        double dt = c.dt, restol = 0;
        { double hm = 0, lm = 0, pv = 0; for (double x : c.h) hm = std::max(hm, x); for (int i = 0; i < nc; ++i) { lm = std::max(lm, c.m.totmob(i, &st.saturation()[c.np * i])); pv = std::max(pv, g.cell_volumes[i]); } restol = 1e-9 * (hm * lm * c.pscale * 10 + 1e-3 * pv / dt); if (!c.rock) restol = 0; }
        IncompTpfa* solver = c.rock || r.p(0.2) ? new IncompTpfa(g, c.m, c.rock ? &rc : 0, ls, restol, 0.0, 60, c.use_grav ? &c.grav[0] : 0, c.W.w, c.src, c.bc.b) : new IncompTpfa(g, c.m, ls, c.use_grav ? &c.grav[0] : 0, c.W.w, c.src, c.bc.b);
        int nsol = r.i(1, 3);
        for (int it = 0; it < nsol; ++it) {
            std::string dd = cat(det, " solve ", it, " dt ", dt);
            p0 = st.pressure(); std::vector<double> sat0 = st.saturation(); bool ok = true;
            try { solver->solve(dt, st, ws); } catch (const std::exception& e) { ok = false; CHK(false, c.rock ? "rock-solve-failed" : "solve-failed", dd); }
            if (!ok) break;
            ev("solves"); if (c.rock) ev("rock_solves"); if (c.neumann) ev("closed_solves"); if (c.use_grav) ev("gravity_solves");
            CHK(sat0 == st.saturation(), "saturation-changed", dd);
            monitor(r, c, st, ws, p0, dt, restol, c.rock ? "rock" : "incomp", dd);
            uint64_t h = hstr(kind); for (double x : st.pressure()) h = hcomb(h, hdbl(x)); nontrivial(h);
            // change what may change between solves: saturations and selected controls (keeping the problem well posed)
            if (it + 1 < nsol) { st.saturation() = random_sat(r, c.m); if (c.rock || !c.neumann) { if (c.W.w) for (int w = 0; w < nw; ++w) { WellControls* q = c.W->ctrls[w]; if (shut(c, w) || (c.rock && r.p(0.5))) { if (r.p(0.5) && c.rock && c.W->well_connpos[w + 1] > c.W->well_connpos[w]) q->current = ~q->current; } else if (is_bhp(c, w)) q->target[q->current] = relp(r, c.si); else q->target[q->current] *= r.u(-1, 2); } if (c.rock) dt *= r.u(0.5, 2); } }
        }
        delete solver;
        // an iteration that does not get there is reported: what is accepted satisfies the equations
        if (c.rock && r.p(0.5)) {
            int mode = r.i(0, 2); BadLs bl; bl.from = mode == 0 ? 1000 : mode == 1 ? r.i(0, 1) : 0; bl.nan = mode != 2; int mi = mode == 0 ? r.i(1, 2) : r.i(3, 12); std::string dd = cat(det, " hard mode ", mode, " maxit ", mi, " dt ", dt); IncompTpfa so(g, c.m, &rc, bl, restol, 0.0, mi, c.use_grav ? &c.grav[0] : 0, c.W.w, c.src, c.bc.b);
            double big = r.p(0.3) ? 1e200 : 1; if (mode != 0) big = 1; for (auto& x : st.pressure()) x = relp(r, c.si) * big; ws.init(c.W.w, st); p0 = st.pressure(); bool threw = false; try { so.solve(dt, st, ws); } catch (const std::exception&) { threw = true; } ev(threw ? "hard_refused" : "hard_accepted"); if (!threw) { if (big > 1) { for (double x : st.pressure()) if (!CHK(std::isfinite(x), "hard:finite", cat(dd, " accepted pressure ", x))) break; } else monitor(r, c, st, ws, p0, dt, restol, "hard", dd); }
            for (auto& x : st.pressure()) x = relp(r, c.si); for (auto& x : st.faceflux()) x = 0; ws.init(c.W.w, st); for (auto& x : ws.perfRates()) x = 0; for (auto& x : ws.bhp()) x = 0;
        }
        int wperf = -1; for (int w = 0; w < nw; ++w) if (c.W->well_connpos[w + 1] > c.W->well_connpos[w] && (wperf < 0 || r.p(0.5))) wperf = w;
        if (c.W.w && wperf >= 0 && r.p(0.3)) { // rate controls it cannot honour are refused
            std::vector<double> di(c.np, 1.0); bool surf = r.p(0.5); if (!surf) di[r.i(0, c.np - 1)] = 0; int w = wperf; append_well_controls(surf ? SURFACE_RATE : RESERVOIR_RATE, 0.1, &di[0], w, c.W.w); set_current_control(w, c.W->ctrls[w]->num - 1, c.W.w);
            IncompTpfa so(g, c.m, ls, c.use_grav ? &c.grav[0] : 0, c.W.w, c.src, c.bc.b); bool threw = false; try { so.solve(1.0, st, ws); } catch (const std::exception&) { threw = true; } CHK(threw, "unsupported-control-accepted", det); ev("refused_controls");
        }
        // hydrostatic equilibrium: closed box, uniform fluid
        if (c.use_grav && nc > 1) {
            UF u(nc); join_faces(g, u); int nco = 0; for (int i = 0; i < nc; ++i) nco += u.find(i) == i;
            MockIncomp m2 = c.m; for (auto& x : m2.reg) x = 0; std::fill(m2.smin_.begin(), m2.smin_.end(), 0.0);
            std::vector<double> none; BcPtr b2; if (nco > 1) { b2 = BcPtr(flow_conditions_construct(0)); std::set<int> done; for (int f : boundary_faces(g)) { int q = u.find(bcell(g, f)); if (done.insert(q).second) flow_conditions_append(BC_PRESSURE, f, relp(r, c.si), b2.b); } }
            IncompTpfa so(g, m2, ls, &c.grav[0], 0, none, b2.b); TwophaseState s2; s2.init(g, c.np); s2.saturation() = random_sat(r, m2, 0); WellState w2;
            for (int i = 0; i < nc; ++i) for (int q = 0; q < c.np; ++q) s2.saturation()[c.np * i + q] = s2.saturation()[q];
            so.solve(1.0, s2, w2); double om = m2.omega(0, &s2.saturation()[0]);
            for (int f = 0; f < g.number_of_faces; ++f) {
                double T = 0; double sc = 0; for (int q = 0; q < 2; ++q) { int i = g.face_cells[2 * f + q]; if (i < 0) continue; for (int z = g.cell_facepos[i]; z < g.cell_facepos[i + 1]; ++z) if (g.cell_faces[z] == f) T += 1 / (m2.totmob(i, &s2.saturation()[0]) * c.h[z]); sc += std::fabs(s2.pressure()[i]); for (int z = 0; z < d; ++z) sc += std::fabs(om * c.grav[z] * g.cell_centroids[d * i + z]); }
                // flux through a face at rest: rounding in the pressures of its own cells, plus the largest possible imbalance pushed through it
                double tot = 0; for (int i = 0; i < nc; ++i) tot = std::max(tot, std::fabs(s2.pressure()[i])); double Tm = 0; for (size_t z = 0; z < c.h.size(); ++z) Tm = std::max(Tm, c.h[z]); Tm *= m2.totmob(0, &s2.saturation()[0]);
                double L = 0; for (int z = 0; z < d; ++z) L += std::fabs(om * c.grav[z]) * scales(g).L;
                CHK(std::fabs(s2.faceflux()[f]) <= 1e-10 * Tm * (tot + sc + L), "hydrostatic-flux", cat(det, " face ", f, " flux ", s2.faceflux()[f], " T ", 1 / T, " Tmax ", Tm, " p ", tot)); ev("hydrostatic_faces");
            }
        }
        // closed problems: fluxes do not depend on the pressure level, i.e. on which cell is numbered first
        if (c.neumann && !c.W.w && min_half(c.h) > 1e-3) {
            std::vector<int> perm = random_perm(r, nc); GridPtr g2 = renumber(g, perm); MockIncomp m2 = c.m; std::vector<double> src2(c.src.size());
            for (int i = 0; i < nc; ++i) { int j = perm[i]; m2.poro[j] = c.m.poro[i]; m2.reg[j] = c.m.reg[i]; for (int q = 0; q < d * d; ++q) m2.perm[j * d * d + q] = c.m.perm[i * d * d + q]; if (!c.src.empty()) src2[j] = c.src[i]; }
            TwophaseState a, b; WellState wa, wb; a.init(g, c.np); b.init(*g2, c.np); a.saturation() = random_sat(r, c.m, 2); for (int i = 0; i < nc; ++i) for (int q = 0; q < c.np; ++q) b.saturation()[c.np * perm[i] + q] = a.saturation()[c.np * i + q];
            double lo = 1e300, hi = 0; for (int i = 0; i < nc; ++i) { double l = c.m.totmob(i, &a.saturation()[c.np * i]); lo = std::min(lo, l); hi = std::max(hi, l); }
            if (lo > 1e-3 * hi) {
                IncompTpfa A(g, c.m, ls, c.use_grav ? &c.grav[0] : 0, 0, c.src, c.bc.b), B(*g2, m2, ls, c.use_grav ? &c.grav[0] : 0, 0, src2, c.bc.b); A.solve(1, a, wa); B.solve(1, b, wb);
                double mx = 0, pm = 0, hm = 0; for (double x : a.faceflux()) mx = std::max(mx, std::fabs(x)); for (int i = 0; i < nc; ++i) pm = std::max(pm, std::max(std::fabs(a.pressure()[i]), std::fabs(b.pressure()[i]))); for (double x : c.h) hm = std::max(hm, x);
                for (int f = 0; f < g.number_of_faces; ++f) if (!CHK(std::fabs(a.faceflux()[f] - b.faceflux()[f]) <= 1e-7 * mx + 1e-10 * hm * hi * pm, "level-independence", cat(det, " face ", f, " flux ", a.faceflux()[f], " with other cell numbering ", b.faceflux()[f]))) break;
                ev("renumbered_comparisons");
            }
        }
    }
}
int main(int argc, char** argv) { return run(argc, argv, "p17", case_fn); }
