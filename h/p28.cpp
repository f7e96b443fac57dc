// P28: complete two-phase simulations: volume balances of every step, reports, reproducibility, restarts, independence of output.
#include "config.h"
#include "sim.hpp"
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
using namespace sm; using namespace Opm;

struct Flow { dvec src; double in = 0, out[2] = {0, 0}, thru = 0; bool sides_ok = true; };
// Net volume injected into each cell per time (water reservoir volume, or water surface volume for compressible runs); negative: reservoir volume produced
static Flow flow_of(const Case& c, const Snap& s)
{
    const UnstructuredGrid& g = *c.g; Flow f; f.src.assign(g.number_of_cells, 0.0);
    if (!c.comp) { f.src = c.src; for (int k = 0; k < g.number_of_faces; ++k) { int a = g.face_cells[2 * k], b = g.face_cells[2 * k + 1]; if (a >= 0 && b < 0) f.src[a] -= s.ff[k]; else if (b >= 0 && a < 0) f.src[b] += s.ff[k]; } }
    if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) for (int k = c.W->well_connpos[w]; k < c.W->well_connpos[w + 1]; ++k) {
        double q = s.pr[k]; int cell = c.W->well_cells[k]; if (q > 0 && c.W->type[w] == PRODUCER) { f.sides_ok = false; continue; } if (q < 0 && c.W->type[w] == INJECTOR && c.comp) ev("injector_backflow");
        if (c.comp && q > 0) { double A[4]; c.bo.amat(s.pp[k], A, 0); q *= A[0]; } f.src[cell] += q; }
    for (double x : f.src) f.thru += std::fabs(x); return f;
}
struct Report { dvec sat, inj, prod, tinj, tprod, bal, bal2; };
static bool reports(const Case& c, const std::string& text, size_t n, std::vector<Report>& R)
{
    static const char* li[7] = {"    Saturated volumes:", "    Injected volumes:", "    Produced volumes:", "    Total inj volumes:", "    Total prod volumes:", "    In-place + prod - inj:", "    Init - now - pr + inj:"};
    static const char* lc[7] = {"", "    Injected surface volumes:", "    Produced surface volumes:", "    Total inj surface volumes:", "    Total prod surface volumes:", "    Initial - inplace + inj - prod:", "    Relative mass error:"};
    R.assign(n, Report()); for (int k = 0; k < 7; ++k) { const char* l = c.comp ? lc[k] : li[k]; if (!*l) continue; std::vector<dvec> v = printed(text, l); if (!CHK(v.size() == n, "reports", cat(describe(c), ": line '", l, "' printed ", v.size(), " times in ", n, " steps"))) return false; for (size_t i = 0; i < n; ++i) { if (!CHK(v[i].size() == 2, "reports", cat(describe(c), ": line '", l, "' has ", v[i].size(), " numbers"))) return false; dvec* d[7] = {&R[i].sat, &R[i].inj, &R[i].prod, &R[i].tinj, &R[i].tprod, &R[i].bal, &R[i].bal2}; *d[k] = v[i]; } }
    return true;
}
static double sumv(const dvec& v) { double t = 0; for (double x : v) t += x; return t; }
static const double RP = 1e-4; // printed with five significant digits

// The transport of the step made again by the solver itself, from the recorded states: equal substeps, pore volumes changing evenly from the old to the new ones, segregation after each substep
static bool replay(const Case& c, const Snap& a, const Snap& b, double dt, const Flow& f, const Report& R, double unit, const std::string& d)
{
    const UnstructuredGrid& g = *c.g; int nc = g.number_of_cells; dvec v0 = c.porevol(a.p), v1 = c.porevol(b.p); double step = dt / c.sub, PV = sumv(v0), inj = 0, prod[2] = {0, 0}; dvec s = a.s, z = a.z; bool mobile = true;
    TwophaseState st; boost::shared_ptr<TransportSolverTwophaseReorder> ti; boost::shared_ptr<TransportSolverCompressibleTwophaseReorder> tc; std::vector<std::vector<int> > cols; { Quiet q; dk::CoutCatch cq;
        if (c.comp) { tc.reset(new TransportSolverCompressibleTwophaseReorder(g, c.bo, c.tol, 200)); if (c.seg) { tc->initGravity(c.gvec); extractColumn(g, cols); } }
        else { ti.reset(new TransportSolverTwophaseReorder(g, c.m, c.seg ? c.gvec : 0, c.tol, 200)); st.init(g, 2); st.pressure() = b.p; st.faceflux() = b.ff; st.saturation() = a.s; }
        for (int n = 0; n < c.sub; ++n) {
            dvec w0(nc), w1(nc); for (int i = 0; i < nc; ++i) { w0[i] = v0[i] + (v1[i] - v0[i]) * n / c.sub; w1[i] = n + 1 == c.sub ? v1[i] : v0[i] + (v1[i] - v0[i]) * (n + 1) / c.sub; }
            if (c.comp) tc->solve(&b.ff[0], &b.p[0], &w0[0], &w1[0], &f.src[0], step, s, z); else { ti->solve(&w0[0], &f.src[0], step, st); s = st.saturation(); }
            for (int i = 0; i < nc; ++i) { double q = f.src[i] * step; if (q > 0) inj += q; else if (q < 0) { double w = c.fw(i, s[2 * i], b.p[i]); if (!(w >= 0)) { mobile = false; continue; } double A[4] = {1, 0, 0, 1}; if (c.comp) c.bo.amat(b.p[i], A, 0); prod[0] -= q * w * A[0]; prod[1] -= q * (1 - w) * A[3]; } }
            if (c.seg) { if (c.comp) tc->solveGravity(cols, step, s, z); else { ti->solveGravity(&w1[0], step, st); s = st.saturation(); } }
        } }
    double worst = 0; int wc = 0; for (int i = 0; i < nc; ++i) { double x = std::fabs(s[2 * i] - b.s[2 * i]); if (!(x <= worst)) { worst = x; wc = i; } }
    if (!CHK(worst <= 1e-6, "transport-replay", cat(d, " cell ", wc, " water saturation ", g17(b.s[2 * wc]), ", ", g17(s[2 * wc]), " when the step is made again from its recorded start and flow"))) return false;
    ev(c.sub > 1 ? "transport_replays_substeps" : "transport_replays"); if (!mobile) return true;
    double zs[2] = {1, 1}; if (c.comp) { zs[0] = c.bo.b[0]; zs[1] = c.bo.b[1]; }
    for (int p = 0; p < 2; ++p) if (!CHK(std::fabs(R.prod[p] * unit - prod[p]) <= RP * prod[p] + 1e-5 * (prod[0] + prod[1]) + 1e-9 * PV * zs[p], "replayed-production", cat(d, " phase ", p, " produced ", prod[p] / unit, " in the repeated step, reported ", R.prod[p]))) return false;
    if (!CHK(std::fabs(R.inj[0] * unit - inj) <= RP * inj + 1e-9 * PV * zs[0], "replayed-injection", cat(d, " injected ", inj / unit, " reported ", R.inj[0]))) return false; ev("replayed_reports"); return true;
}

static bool judge_step(const Case& c, const Snap& a, const Snap& b, double dt, const Report& R, double pvinit, bool conv, double& Cmax, const std::string& d)
{
    const UnstructuredGrid& g = *c.g; int nc = g.number_of_cells; const MockIncomp& m = c.rk(); dvec v0 = c.porevol(a.p), v1 = c.porevol(b.p); double PV = sumv(v0);
    // the pressure level of a step without any pressure condition is that of the previous one; the wells move along
    bool wellp = false; if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) wellp = wellp || (c.W->ctrls[w]->current >= 0 && c.W->ctrls[w]->type[c.W->ctrls[w]->current] == BHP); bool bcp = false; if (c.bc.b) for (size_t i = 0; i < c.bc->nbc; ++i) bcp = bcp || c.bc->type[i] == BC_PRESSURE;
    if (!wellp && !bcp && !c.rock && (!c.comp || c.bo.incompressible())) {
        double x0 = 0, x1 = 0, V = 0, sc = 0; for (int i = 0; i < nc; ++i) { x0 += g.cell_volumes[i] * a.p[i]; x1 += g.cell_volumes[i] * b.p[i]; V += g.cell_volumes[i]; sc = std::max(sc, std::max(std::fabs(a.p[i]), std::fabs(b.p[i]))); }
        if (!CHK(std::fabs(x1 - x0) <= 1e-10 * V * sc, "pressure-level", cat(d, " average pressure ", g17(x0 / V), " -> ", g17(x1 / V)))) return false; ev("pressure_levels_kept"); if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) if (c.W->ctrls[w]->current < 0) { ev("pressure_levels_kept_with_shut_wells"); break; }
    }
    if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) if (c.W->ctrls[w]->current < 0) for (int k = c.W->well_connpos[w]; k < c.W->well_connpos[w + 1]; ++k) { if (!CHK(b.pr[k] == 0, "shut-well", cat(d, " perforation ", k, " of a shut well has rate ", g17(b.pr[k])))) return false; ev("shut_perforations"); }
    // a well injects or produces what its drawdown gives
    if (c.W.w && !c.grav && !c.comp) for (int w = 0; w < c.W->number_of_wells; ++w) if (c.W->ctrls[w]->current >= 0) for (int k = c.W->well_connpos[w]; k < c.W->well_connpos[w + 1]; ++k) {
        int i = c.W->well_cells[k]; double mob = m.kr(i, 0, a.s[2 * i]) / c.visc(0, 0) + m.kr(i, 1, 1 - a.s[2 * i]) / c.visc(1, 0), dd = b.bhp[w] - b.p[i], want = c.W->WI[k] * mob * dd, ps = std::max(std::fabs(b.bhp[w]), std::fabs(b.p[i]));
        if (!CHK(std::fabs(b.pr[k] - want) <= 1e-6 * std::fabs(want) + 1e-8 * c.W->WI[k] * mob * ps, "drawdown", cat(d, " perforation ", k, " rate ", g17(b.pr[k]), " expected ", g17(want), " from bhp ", g17(b.bhp[w]), " cell pressure ", g17(b.p[i])))) return false; ev("drawdowns"); }
    // flow through the faces follows from the recorded pressures, the mobilities at the start of the step and the conditions
    if (!c.comp) {
        int dm = g.dimensions, nf = g.number_of_faces; dvec h = gl::half_trans(g, c.m.perm), T(nf, 0), gf(nf, 0), gm(nf, 0); std::vector<int> bt(nf, 0); dvec bv(nf, 0);
        for (int i = 0; i < nc; ++i) { double lam = c.m.totmob(i, &a.s[2 * i]), om = c.m.omega(i, &a.s[2 * i]); for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) { int f = g.cell_faces[k]; T[f] += 1 / (lam * h[k]); if (c.grav && g.face_cells[2 * f] >= 0 && g.face_cells[2 * f + 1] >= 0) for (int q = 0; q < dm; ++q) { gf[f] += (g.face_cells[2 * f] == i ? 1 : -1) * om * c.gvec[q] * (g.face_centroids[dm * f + q] - g.cell_centroids[dm * i + q]); gm[f] += std::fabs(om * c.gvec[q]) * (std::fabs(g.face_centroids[dm * f + q]) + std::fabs(g.cell_centroids[dm * i + q])); } } }
        if (c.bc.b) for (size_t i = 0; i < c.bc->nbc; ++i) for (size_t j = c.bc->cond_pos[i]; j < c.bc->cond_pos[i + 1]; ++j) { bt[c.bc->face[j]] = c.bc->type[i] == BC_PRESSURE ? 1 : 2; bv[c.bc->face[j]] = c.bc->value[i]; }
        for (int f = 0; f < nf; ++f) { int x = g.face_cells[2 * f], y = g.face_cells[2 * f + 1]; double want = 0, sc = 0, t = 1 / T[f];
            if (x >= 0 && y >= 0) { want = t * (b.p[x] - b.p[y] + gf[f]); sc = t * (std::fabs(b.p[x]) + std::fabs(b.p[y]) + gm[f]); } else if (bt[f] == 1) { int i = gl::bcell(g, f); want = (x >= 0 ? 1 : -1) * t * (b.p[i] - bv[f]); sc = t * (std::fabs(b.p[i]) + std::fabs(bv[f])); } else if (bt[f] == 2) want = (x >= 0 ? -1 : 1) * bv[f];
            if (!CHK(std::fabs(b.ff[f] - want) <= 1e-9 * std::fabs(want) + 1e-10 * sc, "darcy", cat(d, " face ", f, " (", x, ",", y, ") flow ", g17(b.ff[f]), " expected ", g17(want), bt[f] ? " (face with a condition)" : ""))) return false; }
        ev("face_flows", nf);
    }
    // physical saturations
    bool fixed = !c.rock && !c.comp; double worst = 0; int wc = -1;
    for (int i = 0; i < nc; ++i) { double w = b.s[2 * i], lo = fixed ? std::min(m.smin_[2 * i], a.s[2 * i]) : 0, hi = fixed ? std::max(m.smax_[2 * i], a.s[2 * i]) : 1; double x = std::max(lo - w, w - hi); if (!(x <= worst)) { worst = x; wc = i; } if (!CHK(std::fabs(b.s[2 * i] + b.s[2 * i + 1] - 1) < 1e-12, "saturation-sum", cat(d, " cell ", i, " saturations ", w, " ", b.s[2 * i + 1]))) return false; }
    if (!CHK(worst <= 1e-6, "saturation-range", cat(d, " cell ", wc, " water saturation ", g17(wc < 0 ? 0 : b.s[2 * wc]), " was ", wc < 0 ? 0 : a.s[2 * wc]))) return false; ev("cells_in_range", nc);
    Flow f = flow_of(c, b); if (!f.sides_ok) { ev("producer_inflow_no_verdict"); return true; } // the simulator announces that it ignores this inflow
    if (c.reorder && !replay(c, a, b, dt, f, R, c.comp ? 1.0 : pvinit, d)) return false;
    double in = 0, out[2] = {0, 0}, totout = 0; bool stuck = false;
    for (int i = 0; i < nc; ++i) { double q = f.src[i] * dt; if (q > 0) in += q; else if (q < 0) { double w = c.fw(i, b.s[2 * i], b.p[i]); totout -= q; if (!(w >= 0)) { stuck = true; continue; } double A[4] = {1, 0, 0, 1}; if (c.comp) c.bo.amat(b.p[i], A, 0); out[0] -= q * w * A[0]; out[1] -= q * (1 - w) * A[3]; } }
    if (stuck) { ev("immobile_producing_cell_no_verdict"); return true; }
    double I0[2] = {0, 0}, I1[2] = {0, 0}; const dvec& x0 = c.comp ? a.z : a.s; const dvec& x1 = c.comp ? b.z : b.s; for (int i = 0; i < nc; ++i) for (int p = 0; p < 2; ++p) { I0[p] += v0[i] * x0[2 * i + p]; I1[p] += v1[i] * x1[2 * i + p]; }
    double unit = c.comp ? 1.0 : pvinit; bool accurate = c.sub == 1 && !c.seg && c.reorder; double zs[2] = {1, 1}; if (c.comp) { zs[0] = c.bo.b[0]; zs[1] = c.bo.b[1]; }
    if (!c.comp) for (int p = 0; p < 2; ++p) if (!CHK(std::fabs(R.sat[p] * unit - I1[p]) <= RP * std::fabs(I1[p]) + 1e-9 * PV, "reported-in-place", cat(d, " phase ", p, " in place ", I1[p] / unit, " reported ", R.sat[p]))) return false;
    double inj[2] = {in, 0}, prod[2] = {out[0], out[1]};
    if (accurate) { ev("accurate_steps"); for (int p = 0; p < 2; ++p) { if (!CHK(std::fabs(R.inj[p] * unit - inj[p]) <= RP * inj[p] + 1e-9 * PV * zs[p], "reported-injection", cat(d, " phase ", p, " injected ", inj[p] / unit, " reported ", R.inj[p]))) return false; if (!CHK(std::fabs(R.prod[p] * unit - prod[p]) <= RP * prod[p] + 1e-9 * PV * zs[p], "reported-production", cat(d, " phase ", p, " produced ", prod[p] / unit, " reported ", R.prod[p]))) return false; } }
    else { // amounts of the substeps are only known from the report
        for (int p = 0; p < 2; ++p) { if (!CHK(std::fabs(R.inj[p] * unit - inj[p]) <= RP * inj[p] + 1e-9 * PV * zs[p], "reported-injection", cat(d, " phase ", p, " injected ", inj[p] / unit, " reported ", R.inj[p]))) return false; prod[p] = R.prod[p] * unit; }
        if (!c.comp && !CHK(std::fabs(prod[0] + prod[1] - totout) <= 2 * RP * totout + 1e-9 * PV, "reported-production", cat(d, " produced ", totout / unit, " reported ", R.prod[0], " + ", R.prod[1]))) return false;
    }
    if (!c.reorder && !conv) { ev("implicit_not_converged_no_verdict"); return true; } // announced by the simulator
    if (!c.reorder && totout > 0) { ev("implicit_with_production_no_verdict"); return true; } // may refine its steps internally: the amounts produced are then approximations
    // more water than pore space in a substep or a nearly full cell: the compressible transport problem has no solution
    if (c.comp && !(c.bo.incompressible() && !c.rock)) { double mp = 0; for (int i = 0; i < nc; ++i) mp = std::max(mp, std::fabs(b.p[i] - a.p[i])); double room = 3 * (c.bo.c[0] + c.bo.c[1] + c.cr) * mp; for (int i = 0; i < nc; ++i) if (b.s[2 * i] > 1 - 1e-9 || (c.sub > 1 && std::max(a.s[2 * i], b.s[2 * i]) > 1 - 1e-9 - room)) { ev("overfull_no_verdict"); return true; } }
    for (int p = 0; p < 2; ++p) {
        double err = I1[p] - I0[p] - inj[p] + prod[p]; double tol = (1e-7 * PV + 1e-7 * (in + totout)) * zs[p] + (c.seg ? 1e-5 * c.sub * PV * zs[p] : 0) + (accurate ? 0 : RP * (prod[p])); if (!c.reorder) tol += 1e-5 * PV; if (c.comp && c.seg) tol += c.bo.c[p] * (*std::max_element(b.p.begin(), b.p.end()) - *std::min_element(b.p.begin(), b.p.end())) * PV * zs[p]; // segregation exchanges equal reservoir volumes
        if (c.comp && p == 1 && !c.bo.incompressible()) { // the oil volume follows from the water volume and the pressure solution, which uses other mobilities: first-order splitting error
            double mp = 0, intern = 0; for (int i = 0; i < nc; ++i) mp = std::max(mp, std::fabs(b.p[i] - a.p[i])); for (double x : b.ff) intern += std::fabs(x) * dt; double C = (c.bo.c[0] + c.bo.c[1] + c.cr) * mp; Cmax = std::max(Cmax, C); C = Cmax; /* volume errors of earlier steps are made up for later */ tol += (1e-6 + 3 * C + 5 * C * (in + totout + intern) / PV) * PV * zs[p]; if (C < 1e-3) ev("tight_oil_balances"); }
        if (!CHK(std::fabs(err) <= tol, cat(p ? "oil" : "water", "-balance", accurate ? "" : "-substeps"), cat(d, ": ", p ? "oil" : "water", " in place ", g17(I0[p]), " -> ", g17(I1[p]), " injected ", g17(inj[p]), " produced ", g17(prod[p]), " imbalance ", err, " = ", err / PV, " of the pore volume; tolerance ", tol))) return false;
        ev("balances");
    }
    if (c.rock) ev("rock_compression_steps"); if (c.seg) ev("segregation_steps"); if (c.sub > 1) ev("substep_steps"); if (totout > 0) ev("producing_steps");
    return true;
}

int main(int argc, char** argv)
{
    return run(argc, argv, "p28", [](long k, Rng& r) {
        bool comp = k % 2; Case c = make(r, comp, 4); std::string d = describe(c); bool ratew = c.W.w != 0; if (c.W.w) for (int w = 0; w < c.W->number_of_wells; ++w) ratew = ratew && c.W->ctrls[w]->type[c.W->ctrls[w]->current] != BHP;
        if (c.W.w && r.p(ratew ? 0.5 : 0.15)) { // a shut well takes no part
            int nc = c.g->number_of_cells, np = std::min(nc, r.i(0, 3)), w = c.W->number_of_wells; std::vector<int> cc = random_perm(r, nc); cc.resize(np + 1); dvec wi(np + 1, r.logu(1e-13, 1e-11)); double cf[2] = {1, 0}, dis[2] = {1, 1}; bool inj = r.p(0.5); add_well(inj ? INJECTOR : PRODUCER, 0, np, cf, &cc[0], &wi[0], "IDLE", c.W.w); if (r.p(0.7)) append_well_controls(BHP, r.u(0.5, 2) * 1e7, 0, w, c.W.w); if (c.W->ctrls[w]->num == 0 || r.p(0.3)) append_well_controls(RESERVOIR_RATE, inj ? 1e-3 : -1e-3, dis, w, c.W.w); set_current_control(w, ~r.i(0, c.W->ctrls[w]->num - 1), c.W.w); d += cat(", shut well with ", np, " perforations"); ev("cases_with_shut_wells"); } size_t n = c.steps.size(); nontrivial(hstr(d)); ev(comp ? "compressible_cases" : "incompressible_cases"); ev("drive_" + c.drive); if (c.grav) ev("gravity_cases");
        Params off; off["output"] = "false"; Snap full; std::string text; bool ran = true;
        try { Quiet q; Runner R(c, off); R.run(c.steps, 0); full = R.state(); text = R.text; } catch (const std::exception& e) { ran = false; }
        if (!ran) { ev("refused_runs"); bool again = true; try { Quiet q; Runner R(c, off); R.run(c.steps, 0); } catch (const std::exception&) { again = false; } CHK(!again, "refusal-reproducible", d); return; }
        for (double x : full.all()) if (!CHK(std::isfinite(x) || std::fabs(x) == 1e-100, "finite", d)) return;
        std::vector<Report> R; if (!reports(c, text, n, R)) return; ev("runs"); ev("steps", n);
        // cumulative reports
        double ti[2] = {0, 0}, tp[2] = {0, 0}; for (size_t i = 0; i < n; ++i) for (int p = 0; p < 2; ++p) { ti[p] += R[i].inj[p]; tp[p] += R[i].prod[p]; if (!CHK(std::fabs(R[i].tinj[p] - ti[p]) <= RP * ti[p] && std::fabs(R[i].tprod[p] - tp[p]) <= RP * tp[p], "cumulative", cat(d, " step ", i, " phase ", p, " injected ", R[i].tinj[p], " sum ", ti[p], " produced ", R[i].tprod[p], " sum ", tp[p]))) return; ev("cumulative_reports"); }
        std::string why;
        // again, with other output settings
        { Params o; int how = r.i(0, 3); if (how == 0) o = off; else { o["output"] = "true"; o["output_dir"] = "out"; o["output_vtk"] = how == 1 && c.g->dimensions == 3 ? "true" : "false"; if (r.p(0.5)) o["output_interval"] = cat(r.i(1, 3)); } Quiet q; Runner X(c, o); X.run(c.steps, 0); Snap s = X.state(); if (!CHK(same(full, s, why), how ? "output-influence" : "reproducible", cat(d, ": ", why))) return; ev(how ? "runs_with_output" : "repeated_runs"); if (how) (void)!system("rm -rf out"); }
        // one step at a time, from saved states
        std::vector<Snap> S; bool fresh = r.p(0.5); { Quiet q; Runner X(c, off); S.push_back(X.state()); bool ok = true; double Cmax = 0; boost::shared_ptr<Runner> Y;
            for (size_t i = 0; i < n && ok; ++i) {
                dvec pre(c.steps.begin(), c.steps.begin() + i + 1); Runner* Z = &X;
                if (fresh) { Y.reset(new Runner(c, off)); if (i) Y->restore(S.back()); Z = Y.get(); } else if (r.p(0.3)) Z->build(); // a new simulator on the same objects
                Z->run(pre, i); S.push_back(Z->state()); std::vector<Report> one; if (!reports(c, Z->text, 1, one)) return; if (i == 0) { double pvi = sumv(c.porevol(c.p0)); for (int p = 0; p < 2 && !c.comp; ++p) CHK(std::fabs(one[0].inj[p] - R[0].inj[p]) <= RP * R[0].inj[p], "restart-report", d); (void)pvi; }
                ok = judge_step(c, S[i], S[i + 1], c.steps[i], one[0], sumv(c.porevol(S[i].p)), Z->text.find("Process converged:       0") == std::string::npos, Cmax, cat(d, ", step ", i));
            }
            if (!ok) return;
        }
        if (!CHK(same(full, S.back(), why), "restart", cat(d, fresh ? ", new objects each step: " : ", step by step: ", why))) return; ev(fresh ? "restarts_from_saved_state" : "restarts_same_objects", n);
        // the balances printed after each step of the whole run
        { dvec v0 = c.porevol(S[0].p); double PV0 = sumv(v0); for (size_t i = 0; i < n; ++i) { dvec v1 = c.porevol(S[i + 1].p); for (int p = 0; p < 2; ++p) {
            double I0 = 0, I1 = 0; const dvec& x0 = c.comp ? S[0].z : S[0].s; const dvec& x1 = c.comp ? S[i + 1].z : S[i + 1].s; for (size_t q = 0; q < v0.size(); ++q) { I0 += v0[q] * x0[2 * q + p]; I1 += v1[q] * x1[2 * q + p]; } const Report& Q = R[i]; std::string w = cat(d, " step ", i, " phase ", p);
            if (!c.comp) { I0 /= PV0; I1 /= PV0; } double tol = RP * (Q.tinj[p] + Q.tprod[p]) + 1e-9 * (I0 + I1), net = I1 + Q.tprod[p] - Q.tinj[p], bal = I0 - net; double want[2] = {c.comp ? bal : net, c.comp ? bal / (I0 + Q.tinj[p]) : bal}, tw[2] = {tol + RP * std::fabs(want[0]), (c.comp ? tol / (I0 + Q.tinj[p]) : tol) + RP * std::fabs(want[1])};
            if (!CHK(!(std::fabs(Q.bal[p] - want[0]) > tw[0]) && std::isfinite(Q.bal[p]), "printed-balance", cat(w, " printed ", Q.bal[p], " expected ", g17(want[0]), " within ", tw[0]))) return;
            if (!c.comp || I0 + Q.tinj[p] > 1e-9 * PV0) if (!CHK(!(std::fabs(Q.bal2[p] - want[1]) > tw[1]) && std::isfinite(Q.bal2[p]), c.comp ? "printed-relative-error" : "printed-error", cat(w, " printed ", Q.bal2[p], " expected ", g17(want[1]), " within ", tw[1]))) return; ev("printed_balances"); } } }
        // restart in the middle from the saved state
        if (n >= 2) { size_t at = r.i(1, n - 1); Quiet q; Runner X(c, off); X.restore(S[at]); X.run(c.steps, at); Snap s = X.state(); if (!CHK(same(full, s, why), "restart", cat(d, ", restarted at step ", at, ": ", why))) return; std::vector<Report> rest; if (!reports(c, X.text, n - at, rest)) return; if (c.comp) for (size_t i = at; i < n; ++i) for (int p = 0; p < 2; ++p) CHK(rest[i - at].inj[p] == R[i].inj[p] && rest[i - at].prod[p] == R[i].prod[p], "restart-report", cat(d, " step ", i)); ev("restarts"); }
        sample(d);
    });
}
