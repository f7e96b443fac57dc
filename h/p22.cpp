// P22: implicit two-phase transport by reordering: every cell of every step judged by its own discrete balance.
#include "config.h"
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
using namespace mon; using namespace gl;

struct Case { MockIncomp m; std::vector<double> q, src, pv; double dt, tol; int maxit; };

static double ff(const MockIncomp& m, int c, double s) { double a = m.mob(c, 0, s), b = m.mob(c, 1, 1 - s); return a / (a + b); }

// Flux families. The source of a cell is its net outflow, so every field is divergence-consistent.
static std::vector<double> flux_for(Rng& r, const UnstructuredGrid& g, std::string& kind, double mag)
{
    int nf = g.number_of_faces, nc = g.number_of_cells, d = g.dimensions; std::vector<double> q(nf, 0.0); int w = r.i(0, 7);
    auto potential = [&](const std::vector<double>& p) { for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) q[f] = p[a] - p[b]; } };
    if (w == 0) { kind = "random"; for (auto& x : q) x = r.u(-1, 1); }
    else if (w <= 2) { kind = "potential"; std::vector<double> p(nc); for (auto& x : p) x = r.u(); potential(p); }
    else if (w == 3) { kind = "sparse"; double pr = r.u(0.05, 0.6); for (auto& x : q) if (r.p(pr)) x = r.u(-1, 1); }
    else if (w == 4) { kind = "uniform"; V3 u = mk(r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1)); for (int f = 0; f < nf; ++f) q[f] = dot(u, pt(g.face_normals + d * f, d)); }
    else if (w == 5) { kind = "rotation"; V3 c = pt(g.cell_centroids + d * r.i(0, nc - 1), d); for (int f = 0; f < nf; ++f) { V3 x = sub(pt(g.face_centroids + d * f, d), c), n = pt(g.face_normals + d * f, d); q[f] = -x[1] * n[0] + x[0] * n[1]; } }
    else if (w == 6) { kind = "few-loops"; std::vector<double> p(nc); for (auto& x : p) x = r.u(); potential(p); for (auto& x : q) if (r.p(0.08)) x = -x; }
    else { // harmonic-like: one source, one sink, smoothed potential (few cells with sources)
        kind = "injector-producer"; std::vector<double> p(nc, 0.0); int a = r.i(0, nc - 1), b = r.i(0, nc - 1); for (int it = 0; it < 400; ++it) for (int c = 0; c < nc; ++c) { double s = 0; int n = 0; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; int o = g.face_cells[2 * f] == c ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (o >= 0) { s += p[o]; ++n; } } if (n) p[c] = (s + (c == a) - (c == b)) / n; } potential(p);
    }
    double mx = 0; for (double x : q) mx = std::max(mx, std::fabs(x)); if (mx == 0) mx = 1;
    for (int f = 0; f < nf; ++f) { q[f] *= mag / mx; if (q[f] == 0 && r.p(0.5)) q[f] = -0.0; if (g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) q[f] = r.p(0.5) ? 0.0 : r.u(-mag, mag); } // outer faces must not matter
    return q;
}
static std::vector<double> sources(const UnstructuredGrid& g, const std::vector<double>& q)
{
    std::vector<double> s(g.number_of_cells, 0.0);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { s[a] += q[f]; s[b] -= q[f]; } }
    return s;
}
static Opm::TwophaseState make_state(const UnstructuredGrid& g, const std::vector<double>& s, const std::vector<double>& q) { Opm::TwophaseState x; x.init(g, 2); x.saturation() = s; x.faceflux() = q; return x; }

struct Judge { std::vector<double> r; bool ok; };
// Evaluate the balance of each cell with the returned saturations; also an interval verdict. Returns the residual times pore volume.
static Judge judge(const UnstructuredGrid& g, const Case& c, const std::vector<double>& s0, const std::vector<double>& s, const std::vector<int>& iters, const std::vector<int>& comp, const std::string& d)
{
    Judge J; J.r.assign(g.number_of_cells, 0.0); J.ok = true; int nc = g.number_of_cells; std::vector<int> csize(nc, 0); for (int x : comp) ++csize[x];
    for (int i = 0; i < nc; ++i) {
        ev("cells"); double w = s[2 * i];
        if (!CHK(s[2 * i + 1] == 1 - w, "sat-sum", cat(d, " cell ", i, " ", w, " ", s[2 * i + 1]))) return J.ok = false, J;
        double lo = c.m.smin_[2 * i], hi = c.m.smax_[2 * i], dtpv = c.dt / c.pv[i], in = 0, inlo = 0, inhi = 0, out = 0, mag = 0;
        auto add_src = [&](double q) { if (q > 0) { in += q; inlo += q; inhi += q; } else out -= q; mag += std::fabs(q); };
        add_src(c.src[i]); bool loop = csize[comp[i]] > 1;
        for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) {
            int f = g.cell_faces[k], o = g.face_cells[2 * f] == i ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (o < 0) continue;
            double q = g.face_cells[2 * f] == i ? c.q[f] : -c.q[f]; mag += std::fabs(q);
            if (q > 0) out += q; else if (q < 0) { double e = comp[o] == comp[i] ? 3e-7 : 0, so = s[2 * o]; in += -q * ff(c.m, o, so); inlo += -q * ff(c.m, o, so - e); inhi += -q * ff(c.m, o, so + e); ev("inflow_connections"); }
        }
        J.r[i] = c.pv[i] * (w - s0[2 * i]) + c.dt * (out * ff(c.m, i, w) - in);
        bool capped = iters[i] >= c.maxit && !loop; if (capped || (loop && iters[i] >= c.maxit)) { ev("iteration_limit_cells"); continue; }
        double noise = 1e-13 * (1 + dtpv * mag), dl = 2 * c.tol + 1e-14 * (1 + dtpv * mag);
        if (!CHK(w >= lo - dl && w <= hi + dl, "bounds", cat(d, " cell ", i, " s ", w, " range ", lo, " ", hi, " s0 ", s0[2 * i], " tol ", c.tol))) return J.ok = false, J;
        // The exact root given (slightly varied) upstream values lies within dl of s: increasing residual changes sign across it.
        auto res = [&](double t, double inflow) { return t - s0[2 * i] + dtpv * (out * ff(c.m, i, t) - inflow); };
        bool above = res(w + dl, inlo) >= -noise, below = res(w - dl, inhi) <= noise;
        if (!CHK(above && below, "balance", cat(d, " cell ", i, " s0 ", s0[2 * i], " s ", w, " residual ", res(w, in), " dt/pv ", dtpv, " in ", in, " out ", out, " source ", c.src[i], " tol ", c.tol, loop ? " loop" : ""))) return J.ok = false, J;
        if (loop) ev("loop_cells"); if (c.src[i] > 0) ev("injection_cells"); if (c.src[i] < 0) ev("production_cells"); if (std::fabs(w - s0[2 * i]) > 1e-3) ev("changed_cells");
        if (mag == 0) { ev("still_cells"); CHK(std::fabs(w - s0[2 * i]) <= dl, "still", cat(d, " cell ", i, " without flow changed ", s0[2 * i], " -> ", w)); }
    }
    return J;
}
// groups of mutually reachable cells along interior fluxes (two searches)
static std::vector<int> groups(const UnstructuredGrid& g, const std::vector<double>& q)
{
    int n = g.number_of_cells; std::vector<std::vector<int>> up(n), dn(n);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0 || q[f] == 0) continue; if (q[f] < 0) std::swap(a, b); dn[a].push_back(b); up[b].push_back(a); }
    std::vector<int> order, sn(n, 0), id(n, -1);
    for (int s = 0; s < n; ++s) if (!sn[s]) { std::vector<std::pair<int, size_t>> st(1, std::make_pair(s, (size_t)0)); sn[s] = 1; while (!st.empty()) { int v = st.back().first; if (st.back().second < dn[v].size()) { int w = dn[v][st.back().second++]; if (!sn[w]) { sn[w] = 1; st.push_back(std::make_pair(w, (size_t)0)); } } else { order.push_back(v); st.pop_back(); } } }
    int k = 0; for (int i = n; i-- > 0;) if (id[order[i]] < 0) { std::vector<int> st(1, order[i]); id[order[i]] = k; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : up[v]) if (id[w] < 0) { id[w] = k; st.push_back(w); } } ++k; }
    return id;
}
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };

static void one(long, Rng& r)
{
    std::string kind, fk; GridPtr g = any_grid(r, r.p(0.1) ? 9 : 5, 3, &kind); int nc = g->number_of_cells; bool si = r.p(0.5);
    if (r.p(0.05)) { g = GridPtr(create_grid_cart2d(1, 1, 1.0, 1.0)); nc = 1; kind = "one cell"; }
    Case c; c.m = random_mock(r, *g, 2, si, 2, false, r.p(0.5)); c.pv.resize(nc); for (int i = 0; i < nc; ++i) c.pv[i] = c.m.poro[i] * g->cell_volumes[i];
    double minpv = *std::min_element(c.pv.begin(), c.pv.end()), medpv; { std::vector<double> t = c.pv; std::nth_element(t.begin(), t.begin() + nc / 2, t.end()); medpv = t[nc / 2]; }
    c.q = flux_for(r, *g, fk, si ? r.logu(1e-7, 1e-3) : 1.0); c.src = sources(*g, c.q);
    double qm = 0; for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0) qm = std::max(qm, std::fabs(c.q[f])); if (qm == 0) qm = 1;
    double cfl = r.logu(1e-3, 300); c.dt = cfl * medpv / qm; double cmax = c.dt * qm / minpv; c.tol = std::max(r.pick(std::vector<double>{1e-5, 1e-7, 1e-9, 1e-10, 1e-12}), 1e-13 * cmax); if (c.tol > 1e-4) { c.tol = 1e-5; c.dt *= 1e-5 / (1e-13 * cmax); } c.maxit = 300;
    std::vector<double> s0 = random_sat(r, c.m); std::string d = cat(kind, " flux ", fk, " cells ", nc, " cfl ", cfl, " tol ", c.tol, si ? " SI" : ""); std::vector<int> id = groups(*g, c.q);

    Opm::TransportSolverTwophaseReorder tr(*g, c.m, 0, c.tol, c.maxit); Opm::TwophaseState st = make_state(*g, s0, c.q); std::vector<double> qkeep = c.q, srckeep = c.src, pvkeep = c.pv;
    std::vector<double> s1; std::vector<int> it; int steps = r.i(1, 3); std::vector<double> cur = s0; ev("flux_" + fk.substr(0, fk.find(' ')));
    // how much of a change upstream can come out of a cell: where this is small, sweeping over a loop converges quickly
    double theta = 1e300; if (c.tol <= 1e-9) { theta = 0; for (int i = 0; i < nc; ++i) { double out = 0, L = 0; for (int kk = g->cell_facepos[i]; kk < g->cell_facepos[i + 1]; ++kk) { int f = g->cell_faces[kk], o = g->face_cells[2 * f] == i ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; if (o >= 0) out += std::max(0.0, g->face_cells[2 * f] == i ? c.q[f] : -c.q[f]); } if (out == 0) continue; double a = ff(c.m, i, 0); for (int q = 1; q <= 60; ++q) { double b = ff(c.m, i, q / 60.0); L = std::max(L, std::fabs(b - a) * 60); a = b; } theta = std::max(theta, 1.5 * L * out * c.dt / c.pv[i]); } }
    for (int k = 0; k < steps; ++k) {
        try { Quiet z; tr.solve(&c.pv[0], &c.src[0], c.dt, st); } catch (const std::exception&) { ev("not_converged"); if (!CHK(*std::max_element(id.begin(), id.end()) + 1 < nc, "refused", cat(d, " a problem without loops was refused"))) return; CHK(theta > 0.3, "easy-loop-refused", cat(d, " largest change per sweep ", theta)); return; }
        if (theta <= 0.3 && *std::max_element(id.begin(), id.end()) + 1 < nc) ev("easy_loops_solved");
        ev("solves"); s1 = st.saturation(); it = tr.getReorderIterations();
        if (!CHK((int)s1.size() == 2 * nc && (int)it.size() == nc && st.faceflux() == qkeep && c.src == srckeep && c.pv == pvkeep, "inputs", d)) return;
        Judge J = judge(*g, c, cur, s1, it, id, cat(d, " step ", k)); if (!J.ok) return;
        // global balance in stored water
        double before = 0, after = 0, inj = 0, prod = 0, tol = 0; for (int i = 0; i < nc; ++i) { before += c.pv[i] * cur[2 * i]; after += c.pv[i] * s1[2 * i]; if (c.src[i] > 0) inj += c.dt * c.src[i]; else prod -= c.dt * c.src[i] * ff(c.m, i, s1[2 * i]); tol += std::fabs(J.r[i]); }
        CHK(std::fabs(after - before - inj + prod) <= tol + 1e-10 * (before + after + inj + prod), "total-water", cat(d, " change ", after - before, " injected ", inj, " produced ", prod, " tolerance ", tol));
        if (k == 0) {
            // same solver (after other work) and fresh solver give identical results
            Opm::TwophaseState a = make_state(*g, s0, c.q); bool again = r.p(0.5);
            if (again) { Opm::TransportSolverTwophaseReorder t2(*g, c.m, 0, c.tol, c.maxit); std::string k2; std::vector<double> q2 = flux_for(r, *g, k2, qm), s2 = sources(*g, q2); Opm::TwophaseState b = make_state(*g, random_sat(r, c.m), q2); try { Quiet z; t2.solve(&c.pv[0], &s2[0], c.dt * r.u(0.1, 1), b); } catch (const std::exception&) {} bool ok = true; try { Quiet z; t2.solve(&c.pv[0], &c.src[0], c.dt, a); } catch (const std::exception&) { ok = false; } if (CHK(ok, "history", cat(d, " used solver fails where a fresh one succeeds"))) { CHK(a.saturation() == s1, "history", cat(d, " a used solver gives another result")); CHK(t2.getReorderIterations() == it, "iteration-report", cat(d, " iteration counts of an earlier step remain")); ev("repeated"); } }
            else { bool ok = true; try { Quiet z; Opm::TransportSolverTwophaseReorder t2(*g, c.m, 0, c.tol, c.maxit); t2.solve(&c.pv[0], &c.src[0], c.dt, a); } catch (const std::exception&) { ok = false; } CHK(ok && a.saturation() == s1, "repeat", cat(d, " identical call gives another result")); ev("repeated"); }
            // another numbering: L1 contraction bounds the difference by the measured residuals
            if (r.p(0.6)) {
                std::vector<int> perm = random_perm(r, nc); GridPtr h = renumber(*g, perm); std::vector<int> inv(nc); // perm[new] = old or old->new is found out by volumes of a marker
                Case c2 = c; // faces keep their numbers in renumber(); cells move
                std::vector<int> map(nc, -1); bool ok = true; for (int f = 0; f < g->number_of_faces; ++f) for (int q = 0; q < 2; ++q) { int a0 = g->face_cells[2 * f + q], b0 = h->face_cells[2 * f + q]; if (a0 >= 0) { if (map[a0] >= 0 && map[a0] != b0) ok = false; map[a0] = b0; } }
                for (int x : map) if (x < 0) ok = false; if (!ok) { violate("harness", "renumbering map"); return; }
                c2.m.smin_.assign(2 * nc, 0); c2.m.smax_.assign(2 * nc, 0); std::vector<double> t0(2 * nc);
                for (int i = 0; i < nc; ++i) { int j = map[i]; c2.pv[j] = c.pv[i]; c2.src[j] = c.src[i]; c2.m.reg[j] = c.m.reg[i]; for (int p = 0; p < 2; ++p) { c2.m.smin_[2 * j + p] = c.m.smin_[2 * i + p]; c2.m.smax_[2 * j + p] = c.m.smax_[2 * i + p]; t0[2 * j + p] = s0[2 * i + p]; } }
                Opm::TwophaseState b = make_state(*h, t0, c.q); bool done = true; try { Quiet z; Opm::TransportSolverTwophaseReorder t2(*h, c2.m, 0, c.tol, c.maxit); t2.solve(&c2.pv[0], &c2.src[0], c.dt, b); std::vector<int> it2 = t2.getReorderIterations(); std::vector<int> id2(nc); for (int i = 0; i < nc; ++i) id2[map[i]] = id[i]; Judge J2 = judge(*h, c2, t0, b.saturation(), it2, id2, cat(d, " renumbered")); if (!J2.ok) return; double diff = 0, bound = 0; for (int i = 0; i < nc; ++i) { diff += c.pv[i] * std::fabs(b.saturation()[2 * map[i]] - s1[2 * i]); bound += std::fabs(J.r[i]) + std::fabs(J2.r[map[i]]) + 1e-13 * (c.pv[i] + c.dt * std::fabs(c.src[i])); for (int kk = g->cell_facepos[i]; kk < g->cell_facepos[i + 1]; ++kk) { int f = g->cell_faces[kk]; if (g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0) bound += 1e-13 * c.dt * std::fabs(c.q[f]); } } CHK(diff <= bound, "numbering", cat(d, " pore-volume weighted difference ", diff, " bound ", bound)); ev("renumbered_comparisons"); } catch (const std::exception&) { done = false; }
                if (!done) ev("renumbered_not_converged");
            }
        }
        cur = s1; if (k + 1 < steps && r.p(0.5)) { c.dt *= r.u(0.3, 1); }
    }
    uint64_t h = 7; for (double x : s1) h = hcomb(h, hdbl(x)); nontrivial(h); sample(cat(d, " s ", vec(s1, 8)));
}
int main(int argc, char** argv) { return run(argc, argv, "p22", one); }
