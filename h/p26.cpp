// P26: first-order and multidimensional-upwind time of flight, and tracers.
#include "config.h"
#define FLOW_NO_WELLS
#include <sstream>
#include <iostream>
#include "tof.hpp"
#include <opm/core/tof/TofReorder.hpp>
using namespace mon; using namespace gl;
typedef std::vector<double> dvec;
static void one(long, Rng& r)
{
    std::string kind; GridPtr g = any_grid(r, r.p(0.1) ? 8 : 4, 4, &kind); const UnstructuredGrid& G = *g; int nc = G.number_of_cells; Field F = steady_field(r, G, true); dvec pv(nc); double pm = r.logu(1e-2, 1e4); for (auto& x : pv) x = pm * r.logu(0.05, 1); if (r.p(0.1)) for (auto& x : pv) if (r.p(0.2)) x = 0; std::string d = cat(kind, " cells ", nc, " field ", F.kind);
    double smax = *std::max_element(F.src.begin(), F.src.end()), cum = 0; for (double x : F.src) cum += x; if (std::fabs(cum) > 0.5e-2 * smax) { ev("unbalanced_skipped"); return; }
    dvec v0 = F.v, s0 = F.src, p0 = pv, tof, tof2, trc; Opm::TofReorder solver(G); std::string out; bool thrown = false; std::vector<int> heads; for (int c = 0; c < nc; ++c) if (F.src[c] > 0) heads.push_back(c); int nt = heads.size();
    { CoutCatch cc; try { if (r.p(0.3)) { Field O = steady_field(r, G, false); dvec t, u; double c2 = 0, m2 = *std::max_element(O.src.begin(), O.src.end()); for (double x : O.src) c2 += x; if (std::fabs(c2) <= 0.5e-2 * m2) { if (r.p(0.5)) solver.solveTof(&O.v[0], &pv[0], &O.src[0], t); else solver.solveTofTracer(&O.v[0], &pv[0], &O.src[0], t, u); ev("used_objects"); } } tof.assign(r.i(0, 2 * nc), 3.5); trc.assign(r.i(0, 5), 7.0); if (r.p(0.5)) { solver.solveTof(&F.v[0], &pv[0], &F.src[0], tof); solver.solveTofTracer(&F.v[0], &pv[0], &F.src[0], tof2, trc); } else { solver.solveTofTracer(&F.v[0], &pv[0], &F.src[0], tof2, trc); solver.solveTof(&F.v[0], &pv[0], &F.src[0], tof); } } catch (const std::exception&) { thrown = true; } out = cc.o.str(); }
    if (!CHK(!thrown, "refused", d)) return; ev("solves"); if (!CHK(v0 == F.v && s0 == F.src && p0 == pv, "inputs", d)) return; if (!CHK((int)tof.size() == nc && (int)trc.size() == nc * nt, "sizes", cat(d, " tracers ", nt, " array ", trc.size()))) return; for (int c = 0; c < nc; ++c) if (!CHK(hdbl(tof[c]) == hdbl(tof2[c]), "tof-with-tracer", cat(d, " cell ", c, " ", tof[c], " ", tof2[c]))) return;
    if (F.acyclic) { ev("acyclic_fields"); CHK(out.find("Pretending") == std::string::npos, "loop-report", d); }
    std::vector<int> ord = flow_order(G, F.v); std::vector<char> good(nc, 0), fed(nc, 0); dvec err(nc, 0.0); double total = 0, pvs = 0; bool all = F.acyclic;
    // which cells only carry fluid from sources (no boundary inflow upstream); loops excluded
    for (int c : ord) {
        double in = 0, up = 0, out2 = std::max(0.0, -F.src[c]), fluxin = std::max(0.0, F.src[c]); bool pure = true, any = F.src[c] > 0, first = F.src[c] > 0, interior = false; double lowest = F.src[c] > 0 ? 0 : 1e300, e = 0; dvec tu(nt, 0.0);
        for (int k = G.cell_facepos[c]; k < G.cell_facepos[c + 1]; ++k) { int f = G.cell_faces[k]; double q = out_of(G, c, f, F.v); int o = G.face_cells[2 * f] == c ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; if (q > 0) out2 += q; else if (q < 0) { fluxin -= q; any = true; if (o < 0) { pure = false; lowest = 0; } else { interior = true; up -= q * tof[o]; lowest = std::min(lowest, tof[o]); if (!fed[o]) pure = false; e -= q * err[o]; for (int t = 0; t < nt; ++t) tu[t] -= q * trc[o * nt + t]; } } } (void)in; (void)first;
        if (out2 == 0) { ev("stagnant_cells"); all = false; for (int t = 0; t < nt; ++t) if (!CHK(trc[c * nt + t] >= 0 && trc[c * nt + t] <= 1, "tracer-stagnant", cat(d, " cell ", c, " tracer ", trc[c * nt + t]))) return; continue; }
        ev("cells"); if (!NEAR(tof[c] * out2, pv[c] + up, 1e-12, pv[c] + up + 1e-300, "balance", cat(d, " cell ", c, " tof ", tof[c]))) return;
        double mism = std::fabs(fluxin - out2) / out2; if (!CHK(tof[c] >= 0 && (lowest == 1e300 || tof[c] >= lowest * (1 - mism - 1e-10)), "monotone", cat(d, " cell ", c, " tof ", tof[c], " lowest upstream ", lowest))) return; ev("inflow_tofs");
        fed[c] = pure && any; err[c] = (e + std::fabs(fluxin - out2)) / out2 + 1e-13; double sum = 0; double slack = 1e-12 + err[c];
        for (int t = 0; t < nt; ++t) { double x = trc[c * nt + t]; sum += x; if (!CHK(x >= -slack && x <= 1 + slack, "tracer-range", cat(d, " cell ", c, " tracer ", t, " value ", x))) return; if (F.src[c] <= 0 && !NEAR(x * out2, tu[t], 1e-12, out2, "tracer-balance", cat(d, " cell ", c, " tracer ", t))) return; }
        if (F.src[c] > 0) { int me = std::lower_bound(heads.begin(), heads.end(), c) - heads.begin(); if (!interior) { ev("own_sources"); for (int t = 0; t < nt; ++t) if (!CHK(trc[c * nt + t] == (t == me ? 1.0 : 0.0), "tracer-source", cat(d, " cell ", c, " tracer ", t, " value ", trc[c * nt + t]))) return; } else { ev("reached_sources"); if (!CHK(trc[c * nt + me] > 0, "tracer-source", cat(d, " cell ", c, " own tracer ", trc[c * nt + me]))) return; } }
        if (fed[c]) { ev("fed_cells"); if (err[c] < 0.01 && !CHK(std::fabs(sum - 1) <= slack, "tracer-sum", cat(d, " cell ", c, " sum ", sum, " slack ", slack))) return; } else if (!CHK(sum <= 1 + slack, "tracer-sum", cat(d, " cell ", c, " sum ", sum))) return;
        pvs += pv[c]; total += std::max(0.0, -F.src[c]) * tof[c]; for (int k = G.cell_facepos[c]; k < G.cell_facepos[c + 1]; ++k) { int f = G.cell_faces[k]; double q = out_of(G, c, f, F.v); if (q > 0 && (G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0)) total += q * tof[c]; }
    }
    if (all) { ev("total_balances"); if (!NEAR(total, pvs, 1e-9, pvs, "total", d)) return; }
    { // scaling: twice the flow halves the times exactly; zero-flux faces may carry either zero
        dvec v2 = F.v, s2 = F.src, t2, u2; for (auto& x : v2) x *= 4; for (auto& x : s2) x *= 4; { CoutCatch cc; Opm::TofReorder s(G); s.solveTofTracer(&v2[0], &pv[0], &s2[0], t2, u2); } for (int c = 0; c < nc; ++c) if (F.gsize[F.group[c]] == 1 && !CHK(hdbl(t2[c] * 4) == hdbl(tof[c]) || !(std::fabs(tof[c]) < 1e300), "scaling", cat(d, " cell ", c))) return; CHK(u2.size() == trc.size() && (u2.empty() || !std::memcmp(&u2[0], &trc[0], 8 * u2.size())), "scaling-tracer", d); }
    if (F.acyclic) { // multidimensional upwinding
        dvec t; bool ok = true, tt = false; { CoutCatch cc; Quiet q; Opm::TofReorder s(G, true); try { if (r.p(0.3)) { dvec w = F.v; for (auto& x : w) x = -x; dvec z = F.src; for (auto& x : z) x = -x; double sm = *std::max_element(z.begin(), z.end()); if (std::fabs(cum) <= 0.5e-2 * sm) s.solveTof(&w[0], &pv[0], &z[0], t); } s.solveTof(&F.v[0], &pv[0], &F.src[0], t); } catch (const std::exception&) { ok = false; } try { dvec a, b; s.solveTofTracer(&F.v[0], &pv[0], &F.src[0], a, b); } catch (const std::exception&) { tt = true; } } CHK(tt, "multidim-tracer", "tracers with multidimensional upwinding not refused");
        bool simple = kind.find("cornerpoint") == std::string::npos && kind.find("3d") == std::string::npos; if (!ok) { ev("multidim_refused"); CHK(!simple && kind.find("tensor") == std::string::npos && kind.find("cart") == std::string::npos, "multidim-refused", d); }
        else { dvec ft(G.number_of_faces, 0.0); ev("multidim_solves"); std::vector<std::set<int>> fn(G.number_of_faces); for (int f = 0; f < G.number_of_faces; ++f) fn[f].insert(G.face_nodes + G.face_nodepos[f], G.face_nodes + G.face_nodepos[f + 1]);
            for (int c : ord) { double lhs = std::max(0.0, -F.src[c]) * t[c], rhs = pv[c], o2 = std::max(0.0, -F.src[c]), low = 1e300, fin = std::max(0.0, F.src[c]); for (int k = G.cell_facepos[c]; k < G.cell_facepos[c + 1]; ++k) { int f = G.cell_faces[k]; double q = out_of(G, c, f, F.v); if (q < 0) { rhs -= q * ft[f]; low = std::min(low, ft[f]); fin -= q; } }
                for (int k = G.cell_facepos[c]; k < G.cell_facepos[c + 1]; ++k) { int f = G.cell_faces[k]; double q = out_of(G, c, f, F.v); if (q <= 0) continue; o2 += q; double a = 0, b = 0; int n = 0; for (int l = G.cell_facepos[c]; l < G.cell_facepos[c + 1]; ++l) { int e = G.cell_faces[l]; if (e == f) continue; int com = 0; for (int x : fn[f]) com += fn[e].count(x); if (com == 0) continue; ++n; double i = -out_of(G, c, e, F.v) / q, w = i > 0 ? 1 - 1 / (1 + i) : 0; a += w * ft[e]; b += 1 - w; } ft[f] = a / n + b / n * t[c]; lhs += q * ft[f]; }
                if (o2 == 0) continue; ev("multidim_cells"); if (!CHK(t[c] >= 0 && t[c] < 1e300, "multidim-positive", cat(d, " cell ", c, " tof ", t[c]))) return; if (!NEAR(lhs, rhs, 1e-10, rhs + lhs, "multidim-balance", cat(d, " cell ", c, " tof ", t[c]))) return; } }
    }
    uint64_t h = hstr(kind); for (double x : F.v) h = hcomb(h, hdbl(x)); nontrivial(h); sample(d);
}
int main(int c, char** v) { return run(c, v, "p26", one); }
