// P25: compressible two-phase transport by reordering: surface-volume balances of every cell of every step.
#include "config.h"
#define FLOW_NO_WELLS
#include "blackoil.hpp"
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
using namespace mon; using namespace gl;
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };

struct Problem { MockBlackoil m; std::vector<double> sx; /* exact saturations of matching problems */ std::vector<double> p, pv0, pv, q, src, A; double dt, tol; int maxit; bool matching; };
static double ff(const Problem& P, int c, double s) { double a = P.m.rock.kr(c, 0, s) / P.m.mu(0, P.p[c]), b = P.m.rock.kr(c, 1, 1 - s) / P.m.mu(1, P.p[c]); return a / (a + b); }

static std::vector<int> groups(const UnstructuredGrid& g, const std::vector<double>& q)
{
    int n = g.number_of_cells; std::vector<std::vector<int>> up(n), dn(n);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0 || q[f] == 0) continue; if (q[f] < 0) std::swap(a, b); dn[a].push_back(b); up[b].push_back(a); }
    std::vector<int> order, sn(n, 0), id(n, -1);
    for (int s = 0; s < n; ++s) if (!sn[s]) { std::vector<std::pair<int, size_t>> st(1, std::make_pair(s, (size_t)0)); sn[s] = 1; while (!st.empty()) { int v = st.back().first; if (st.back().second < dn[v].size()) { int w = dn[v][st.back().second++]; if (!sn[w]) { sn[w] = 1; st.push_back(std::make_pair(w, (size_t)0)); } } else { order.push_back(v); st.pop_back(); } } }
    int k = 0; for (int i = n; i-- > 0;) if (id[order[i]] < 0) { std::vector<int> st(1, order[i]); id[order[i]] = k; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : up[v]) if (id[w] < 0) { id[w] = k; st.push_back(w); } } ++k; }
    return id;
}
// Water (and, for matching fluxes, oil) surface volume of each cell. r: water residual as reservoir volume.
static bool judge(const UnstructuredGrid& g, const Problem& P, const std::vector<double>& z0, const std::vector<double>& s, const std::vector<double>& z, const std::vector<int>& comp, const std::string& d, std::vector<double>* R = 0)
{
    int nc = g.number_of_cells; std::vector<int> csize(nc, 0); for (int x : comp) ++csize[x]; if (R) R->assign(nc, 0.0);
    for (int i = 0; i < nc; ++i) {
        ev("cells"); double w = s[2 * i], Aw = P.A[4 * i], Ao = P.A[4 * i + 3];
        if (!CHK(s[2 * i + 1] == 1 - w, "sat-sum", cat(d, " cell ", i, " ", w, " ", s[2 * i + 1]))) return false;
        if (!NEAR(z[2 * i], Aw * w, 1e-13, Aw, "surface-volume", cat(d, " water of cell ", i)) || !NEAR(z[2 * i + 1], Ao * (1 - w), 1e-13, Ao, "surface-volume", cat(d, " oil of cell ", i))) return false;
        double in = 0, inlo = 0, inhi = 0, oin = 0, dev = 0, out = 0, mag = 0, q = P.src[i], dtpv = P.dt / P.pv0[i]; // in: water surface volume per time
        if (q > 0) { in += q; inlo += q; inhi += q; mag += q / Aw; } else { out -= q; mag -= q; }
        for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) {
            int f = g.cell_faces[k], o = g.face_cells[2 * f] == i ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (o < 0) continue;
            double v = g.face_cells[2 * f] == i ? P.q[f] : -P.q[f]; mag += std::fabs(v) * (1 + P.A[4 * o] / Aw);
            if (v > 0) out += v; else if (v < 0) { double e = comp[o] == comp[i] ? 3e-7 : 0, bo = P.A[4 * o]; in -= bo * v * ff(P, o, s[2 * o]); inlo -= bo * v * ff(P, o, s[2 * o] - e); inhi -= bo * v * ff(P, o, s[2 * o] + e); oin -= P.A[4 * o + 3] * v * (1 - ff(P, o, s[2 * o])); if (P.matching) dev -= v * 2 * std::fabs(ff(P, o, s[2 * o]) - ff(P, o, P.sx[o])); ev("inflow_connections"); }
        }
        double noise = 1e-13 * (1 + dtpv * mag), dl = 2 * P.tol + 1e-14 * (1 + dtpv * mag);
        auto res = [&](double t, double inflow) { return P.pv[i] / P.pv0[i] * t - z0[2 * i] / Aw + dtpv * (out * ff(P, i, t) - inflow / Aw); };
        if (R) (*R)[i] = std::fabs(res(w, in)) * P.pv0[i];
        if (!P.matching && (res(1, inlo) < 10 * P.tol || res(0, inhi) > 10 * P.tol)) { ev("overfull_cells"); if (csize[comp[i]] > 1) return true; continue; } // more water than pore space: no solution exists
        if (!CHK(w >= -dl && w <= 1 + dl, "bounds", cat(d, " cell ", i, " s ", w))) return false;
        bool above = res(std::min(1.0, w + dl), inlo) >= -noise || w + dl > 1, below = res(std::max(0.0, w - dl), inhi) <= noise || w - dl < 0;
        double slope = P.pv[i] / P.pv0[i]; if (slope < 1) { above = above || res(w + dl / slope, inlo) >= -noise; below = below || res(w - dl / slope, inhi) <= noise; }
        if (!CHK(above && below, "water-balance", cat(d, " cell ", i, " z0 ", z0[2 * i], " s ", w, " residual ", res(w, in), " dt/pv ", dtpv, " source ", q, " tol ", P.tol, csize[comp[i]] > 1 ? " loop" : ""))) return false;
        if (csize[comp[i]] > 1) ev("loop_cells"); if (q > 0) ev("injection_cells"); if (q < 0) ev("production_cells"); if (P.pv[i] != P.pv0[i]) ev("pore_volume_changes");
        if (P.matching) { // oil: same balance; the water tolerance carries over
            double bal = P.pv[i] * z[2 * i + 1] - P.pv0[i] * z0[2 * i + 1] + P.dt * (Ao * out * (1 - ff(P, i, w)) - oin);
            double t = Ao / Aw * P.pv0[i] * std::fabs(res(w, in)) * Aw + 1e-9 * Ao * (P.pv[i] + P.dt * mag) + Ao * P.pv0[i] * noise + P.dt * dev * Ao;
            if (!CHK(std::fabs(bal) <= t, "oil-balance", cat(d, " cell ", i, " imbalance ", bal, " tolerance ", t))) return false; ev("oil_balances");
        }
    }
    return true;
}
static std::vector<double> amats(const MockBlackoil& m, const std::vector<double>& p) { std::vector<double> A(4 * p.size()); for (size_t i = 0; i < p.size(); ++i) m.amat(p[i], &A[4 * i], 0); return A; }

// Build a flux field along a random acyclic order that matches the fluid expansion: with implicitly treated phases, both surface volumes balance exactly.
static bool match(Rng& r, const UnstructuredGrid& g, Problem& P, const std::vector<double>& z0, double rate)
{
    int nc = g.number_of_cells; std::vector<int> ord = random_perm(r, nc), pos(nc); if (r.p(0.5)) { std::vector<double> key(nc); V3 u = mk(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); for (int c = 0; c < nc; ++c) key[c] = dot(u, pt(g.cell_centroids + g.dimensions * c, g.dimensions)); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return key[a] < key[b]; }); }
    for (int i = 0; i < nc; ++i) pos[ord[i]] = i; P.q.assign(g.number_of_faces, 0.0); P.src.assign(nc, 0.0); std::vector<double>& s = P.sx; s.assign(nc, 0.0);
    for (int n = 0; n < nc; ++n) {
        int i = ord[n]; double Aw = P.A[4 * i], Ao = P.A[4 * i + 3], win = 0, oin = 0; std::vector<int> outf;
        for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) { int f = g.cell_faces[k], o = g.face_cells[2 * f] == i ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (o < 0) continue; double v = g.face_cells[2 * f] == i ? P.q[f] : -P.q[f]; if (pos[o] < n) { if (v < 0) { win -= v * P.A[4 * o] * ff(P, o, s[o]); oin -= v * P.A[4 * o + 3] * (1 - ff(P, o, s[o])); } } else outf.push_back(f); }
        auto need = [&]() { return ((P.pv0[i] * z0[2 * i] + P.dt * win) / Aw + (P.pv0[i] * z0[2 * i + 1] + P.dt * oin) / Ao - P.pv[i]) / P.dt; };
        if (n == 0 || r.p(0.15)) { double q = rate * r.u(0.1, 1) * Aw; P.src[i] += q; win += q; }
        double out = need(); if (out < 0) { double q = (-out + rate * r.u(0.01, 0.2)) * Aw; if (r.p(0.7)) { if (P.src[i] < 0) return false; P.src[i] += q; win += q; out = need(); } else return false; }
        double left = out; if (P.src[i] == 0 && (outf.empty() || r.p(0.15))) { double q = outf.empty() ? out : out * r.u(); P.src[i] = -q; left -= q; }
        if (left > 0 && outf.empty()) { if (P.src[i] > 0) return false; }
        std::vector<double> wgt; double sum = 0; for (size_t k = 0; k < outf.size(); ++k) { wgt.push_back(r.p(0.3) && k + 1 < outf.size() ? 0 : r.u(0.05, 1)); sum += wgt.back(); }
        if (outf.empty() && left > 1e-14 * rate) return false;
        for (size_t k = 0; k < outf.size(); ++k) { double v = left * wgt[k] / sum; P.q[outf[k]] = g.face_cells[2 * outf[k]] == i ? v : -v; }
        // water saturation by bisection of the increasing residual
        double lo = 0, hi = 1; for (int it = 0; it < 200 && hi > lo; ++it) { double t = 0.5 * (lo + hi); if (t == lo || t == hi) break; double rr = P.pv[i] * t * Aw - P.pv0[i] * z0[2 * i] + P.dt * (Aw * out * ff(P, i, t) - win); if (rr > 0) hi = t; else lo = t; } s[i] = 0.5 * (lo + hi);
    }
    for (int f = 0; f < g.number_of_faces; ++f) if ((g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) && r.p(0.3)) P.q[f] = r.u(-rate, rate);
    return true;
}
static void one(long, Rng& r)
{
    std::string kind; GridPtr g = any_grid(r, r.p(0.1) ? 8 : 5, 3, &kind); int nc = g->number_of_cells; bool si = r.p(0.5);
    if (r.p(0.05)) { g = GridPtr(create_grid_cart2d(1, 1, 1.0, 1.0)); nc = 1; kind = "one cell"; }
    Problem P; double pref = si ? 2e7 : 10, psc = si ? 5e6 : 1; int fk = r.i(0, 2); if (fk == 2) fk = 1; P.m = random_blackoil(r, *g, 2, si, 2, false, pref, psc, fk); if (r.p(0.4)) { MockIncomp t = random_mock(r, *g, 2, si, 2, false, true); P.m.rock.smin_ = t.smin_; P.m.rock.smax_ = t.smax_; }
    P.p.resize(nc); std::vector<double> p0(nc); bool flatp = fk == 0 && r.p(0.5); for (int i = 0; i < nc; ++i) { p0[i] = pref + (flatp ? 0 : psc * r.u(-0.5, 0.5)); P.p[i] = flatp ? p0[i] : r.p(0.3) ? p0[i] : p0[i] + psc * r.u(-0.2, 0.2); }
    P.pv.resize(nc); P.pv0.resize(nc); bool rock = r.p(0.5); for (int i = 0; i < nc; ++i) { P.pv0[i] = P.m.rock.poro[i] * g->cell_volumes[i]; P.pv[i] = rock ? P.pv0[i] * r.u(0.9, 1.1) : P.pv0[i]; }
    P.A = amats(P.m, P.p); std::vector<double> A0 = amats(P.m, p0), s0 = random_sat(r, P.m.rock), z0(2 * nc); for (int i = 0; i < nc; ++i) { z0[2 * i] = A0[4 * i] * s0[2 * i]; z0[2 * i + 1] = A0[4 * i + 3] * s0[2 * i + 1]; }
    std::vector<double> t = P.pv0; std::nth_element(t.begin(), t.begin() + nc / 2, t.end()); double med = t[nc / 2], minpv = *std::min_element(P.pv0.begin(), P.pv0.end()), rate = si ? r.logu(1e-7, 1e-3) : 1, cfl = r.logu(r.p(0.3) ? 1e-3 : 0.05, 50);
    P.dt = cfl * med / rate; P.maxit = 300; P.matching = false; P.src.assign(nc, 0.0);
    for (int a = 0; a < 3 && !P.matching; ++a) if (r.p(0.7)) P.matching = match(r, *g, P, z0, rate);
    if (!P.matching) {
        P.q.assign(g->number_of_faces, 0.0); P.src.assign(nc, 0.0); std::vector<double> ph(nc); for (auto& x : ph) x = r.u(); bool rnd = r.p(0.3); double lo = r.u(0, 0.1);
        for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) { P.q[f] = r.u(-rate, rate); continue; } double v = rnd ? r.u(-1, 1) : ph[a] - ph[b]; if (r.p(lo)) v = -v; P.q[f] = rate * v; P.src[a] += P.q[f]; P.src[b] -= P.q[f]; }
        for (int i = 0; i < nc; ++i) if (P.src[i] > 0) P.src[i] *= P.A[4 * i]; // surface volume
    }
    double fmx = 0; for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0) fmx = std::max(fmx, std::fabs(P.q[f])); for (int i = 0; i < nc; ++i) fmx = std::max(fmx, std::fabs(P.src[i]));
    P.tol = std::max(r.pick(std::vector<double>{1e-6, 1e-8, 1e-9, 1e-10, 1e-12}), 1e-13 * P.dt * fmx / minpv); if (P.tol > 1e-5) { ev("skipped"); return; }
    std::string d = cat(kind, " cells ", nc, fk ? " compressible" : " incompressible", rock ? " rock" : "", P.matching ? " matching" : " general", " cfl ", cfl, " tol ", P.tol); std::vector<int> id = groups(*g, P.q);
    Opm::TransportSolverCompressibleTwophaseReorder tr(*g, P.m, P.tol, P.maxit); std::vector<double> s = s0, z = z0, qk = P.q, sk = P.src, pk = P.p; bool used = r.p(0.5);
    if (used) { // give the object a history
        std::vector<double> s2 = random_sat(r, P.m.rock), z2 = z0, p2 = p0, q2 = P.q, src2(nc, 0.0); for (auto& x : q2) x = -x * r.u(); for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { src2[a] += q2[f]; src2[b] -= q2[f]; } } try { Quiet q; tr.solve(&q2[0], &p2[0], &P.pv[0], &P.pv0[0], &src2[0], P.dt, s2, z2); } catch (const std::exception&) {} ev("used_objects");
    }
    // how much of a change upstream can come out of a cell: where this is small, sweeping over a loop converges quickly
    double theta = 1e300; if (P.tol <= 1e-9) { theta = 0; for (int i = 0; i < nc; ++i) { double out = 0, L = 0; for (int kk = g->cell_facepos[i]; kk < g->cell_facepos[i + 1]; ++kk) { int f = g->cell_faces[kk], o = g->face_cells[2 * f] == i ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; if (o >= 0) out += std::max(0.0, g->face_cells[2 * f] == i ? P.q[f] : -P.q[f]); } if (out == 0) continue; double a = ff(P, i, 0); for (int q = 1; q <= 60; ++q) { double b = ff(P, i, q / 60.0); L = std::max(L, std::fabs(b - a) * 60); a = b; } theta = std::max(theta, 2 * L * out * P.dt / std::min(P.pv0[i], P.pv[i])); } }
    bool ok = true; try { Quiet q; tr.solve(&P.q[0], &P.p[0], &P.pv0[0], &P.pv[0], &P.src[0], P.dt, s, z); } catch (const std::exception&) { ok = false; }
    if (!ok) { ev("not_converged"); CHK(*std::max_element(id.begin(), id.end()) + 1 < nc, "refused", cat(d, " a problem without loops was refused")); CHK(theta > 0.3, "easy-loop-refused", cat(d, " largest change per sweep ", theta)); return; }
    if (theta <= 0.3 && *std::max_element(id.begin(), id.end()) + 1 < nc) ev("easy_loops_solved");
    ev("solves"); if (P.matching) ev("matching_solves");
    if (!CHK((int)s.size() == 2 * nc && (int)z.size() == 2 * nc && P.q == qk && P.src == sk && P.p == pk, "inputs", d)) return;
    std::vector<double> R; if (!judge(*g, P, z0, s, z, id, d, &R)) return;
    { // identical call on a fresh object
        Opm::TransportSolverCompressibleTwophaseReorder t2(*g, P.m, P.tol, P.maxit); std::vector<double> sb = s0, zb = z0; bool k = true; try { Quiet q; t2.solve(&P.q[0], &P.p[0], &P.pv0[0], &P.pv[0], &P.src[0], P.dt, sb, zb); } catch (const std::exception&) { k = false; } CHK(k && sb == s && zb == z, "repeat", cat(d, used ? " used and fresh object differ" : " two fresh objects differ")); ev("repeated");
    }
    if (P.matching) { std::vector<double> outflow(nc, 0.0); for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0) outflow[P.q[f] > 0 ? a : b] += std::fabs(P.q[f]); } double tot = 0, tt = 0; for (int ph = 0; ph < 2; ++ph) { tot = 0; tt = 0; for (int i = 0; i < nc; ++i) { double a = P.A[4 * i + 3 * ph]; tot += P.pv[i] * z[2 * i + ph] - P.pv0[i] * z0[2 * i + ph]; tt += 4 * a * R[i] + 1e-9 * a * P.pv[i] + 4 * a * P.dt * std::fabs(ff(P, i, s[2 * i]) - ff(P, i, P.sx[i])) * std::max(0.0, outflow[i]); if (P.src[i] > 0 && ph == 0) { tot -= P.dt * P.src[i]; tt += 1e-9 * P.dt * P.src[i]; } if (P.src[i] < 0) { double f = ff(P, i, s[2 * i]); tot -= P.dt * P.src[i] * a * (ph ? 1 - f : f); tt -= 1e-9 * P.dt * P.src[i] * a; } } for (double x : P.q) tt += 1e-9 * P.dt * std::fabs(x); CHK(std::fabs(tot) <= tt, "total", cat(d, " phase ", ph, " total imbalance ", tot, " tolerance ", tt)); } }
    // pressure-independent: the incompressible solver on the same problem
    if (fk == 0 && !rock) {
        std::vector<double> src(P.src), q = P.q; for (int i = 0; i < nc; ++i) if (src[i] > 0) src[i] /= P.A[4 * i];
        Opm::TransportSolverTwophaseReorder t3(*g, P.m.rock, 0, P.tol, P.maxit); Opm::TwophaseState st; st.init(*g, 2); st.saturation() = s0; st.faceflux() = q; bool k = true; try { Quiet z; t3.solve(&P.pv[0], &src[0], P.dt, st); } catch (const std::exception&) { k = false; }
        double div = 0; { std::vector<double> net(nc, 0.0); for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { net[a] += q[f]; net[b] -= q[f]; } } for (int i = 0; i < nc; ++i) div = std::max(div, std::fabs(net[i] - src[i])); }
        if (k && div <= 1e-12 * fmx) { // both satisfy the same balance up to measured residuals (L1 contraction)
            double diff = 0, bound = 0; for (int i = 0; i < nc; ++i) { diff += P.pv[i] * std::fabs(s[2 * i] - st.saturation()[2 * i]); double w = st.saturation()[2 * i], in = 0, out = 0; if (src[i] > 0) in += src[i]; else out -= src[i]; for (int kk = g->cell_facepos[i]; kk < g->cell_facepos[i + 1]; ++kk) { int f = g->cell_faces[kk], o = g->face_cells[2 * f] == i ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; if (o < 0) continue; double v = g->face_cells[2 * f] == i ? q[f] : -q[f]; if (v > 0) out += v; else in -= v * ff(P, o, st.saturation()[2 * o]); } bound += R[i] + std::fabs(P.pv[i] * (w - s0[2 * i]) + P.dt * (out * ff(P, i, w) - in)) + 1e-11 * (P.pv[i] + P.dt * (in + out)); }
            CHK(diff <= bound, "incompressible", cat(d, " weighted difference to the incompressible solver ", diff, " bound ", bound)); ev("incompressible_comparisons");
        }
    }
    if (r.p(0.02)) { MockBlackoil mm = P.m; mm.rs = 0.3; Opm::TransportSolverCompressibleTwophaseReorder t4(*g, mm, P.tol, P.maxit); std::vector<double> sb = s0, zb = z0; bool thrown = false; try { Quiet q; t4.solve(&P.q[0], &P.p[0], &P.pv0[0], &P.pv[0], &P.src[0], P.dt, sb, zb); } catch (const std::exception&) { thrown = true; } CHK(thrown && sb == s0 && zb == z0, "miscible", cat(d, " miscible fluid not refused cleanly")); ev("miscible_refused"); }
    uint64_t h = 7; for (double x : s) h = hcomb(h, hdbl(x)); nontrivial(h); sample(cat(d, " s ", vec(s, 8)));
}
int main(int argc, char** argv) { return run(argc, argv, "p25", one); }
