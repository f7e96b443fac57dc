// Flux fields, sources and upstream groups for the transport monitors.
#pragma once
#include "flow.hpp"
namespace gl {
using namespace mon;
// Flux families. The source of a cell is its net outflow, so every field is divergence-consistent.
inline std::vector<double> flux_for(Rng& r, const UnstructuredGrid& g, std::string& kind, double mag)
{
    int nf = g.number_of_faces, nc = g.number_of_cells, d = g.dimensions; std::vector<double> q(nf, 0.0); int w = r.i(0, 7);
    auto potential = [&](const std::vector<double>& p) { for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) q[f] = p[a] - p[b]; } };
    if (w == 0) { kind = "random"; for (auto& x : q) x = r.u(-1, 1); }
    else if (w <= 2) { kind = "potential"; std::vector<double> p(nc); for (auto& x : p) x = r.u(); potential(p); }
    else if (w == 3) { kind = "sparse"; double pr = r.u(0.05, 0.6); for (auto& x : q) if (r.p(pr)) x = r.u(-1, 1); }
    else if (w == 4) { kind = "uniform"; V3 u = mk(r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1)); for (int f = 0; f < nf; ++f) q[f] = dot(u, pt(g.face_normals + d * f, d)); }
    else if (w == 5) { kind = "rotation"; V3 c = pt(g.cell_centroids + d * r.i(0, nc - 1), d); for (int f = 0; f < nf; ++f) { V3 x = sub(pt(g.face_centroids + d * f, d), c), n = pt(g.face_normals + d * f, d); q[f] = -x[1] * n[0] + x[0] * n[1]; } }
    else if (w == 6) { kind = "few-loops"; std::vector<double> p(nc); for (auto& x : p) x = r.u(); potential(p); for (auto& x : q) if (r.p(0.08)) x = -x; }
    else { // harmonic-like: one source, one sink, smoothed potential (few cells with sources)
        kind = "injector-producer"; std::vector<double> p(nc, 0.0); int a = r.i(0, nc - 1), b = r.i(0, nc - 1); for (int it = 0; it < 400; ++it) for (int c = 0; c < nc; ++c) { double s = 0; int n = 0; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; int o = g.face_cells[2 * f] == c ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (o >= 0) { s += p[o]; ++n; } } if (n) p[c] = (s + (c == a) - (c == b)) / n; } potential(p);
    }
    double mx = 0; for (double x : q) mx = std::max(mx, std::fabs(x)); if (mx == 0) mx = 1;
    for (int f = 0; f < nf; ++f) { q[f] *= mag / mx; if (q[f] == 0 && r.p(0.5)) q[f] = -0.0; if (g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) q[f] = r.p(0.5) ? 0.0 : r.u(-mag, mag); } // outer faces must not matter
    return q;
}
inline std::vector<double> sources(const UnstructuredGrid& g, const std::vector<double>& q)
{
    std::vector<double> s(g.number_of_cells, 0.0);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { s[a] += q[f]; s[b] -= q[f]; } }
    return s;
}
// groups of mutually reachable cells along interior fluxes (two searches)
inline std::vector<int> groups(const UnstructuredGrid& g, const std::vector<double>& q)
{
    int n = g.number_of_cells; std::vector<std::vector<int>> up(n), dn(n);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0 || q[f] == 0) continue; if (q[f] < 0) std::swap(a, b); dn[a].push_back(b); up[b].push_back(a); }
    std::vector<int> order, sn(n, 0), id(n, -1);
    for (int s = 0; s < n; ++s) if (!sn[s]) { std::vector<std::pair<int, size_t>> st(1, std::make_pair(s, (size_t)0)); sn[s] = 1; while (!st.empty()) { int v = st.back().first; if (st.back().second < dn[v].size()) { int w = dn[v][st.back().second++]; if (!sn[w]) { sn[w] = 1; st.push_back(std::make_pair(w, (size_t)0)); } } else { order.push_back(v); st.pop_back(); } } }
    int k = 0; for (int i = n; i-- > 0;) if (id[order[i]] < 0) { std::vector<int> st(1, order[i]); id[order[i]] = k; while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : up[v]) if (id[w] < 0) { id[w] = k; st.push_back(w); } } ++k; }
    return id;
}
// silences stderr and stdout chatter
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };


// Water flux over one connection from a to b with phase-wise upwinding: the consistent choice of upstream cells, found by trial.
// v: total flux a->b, g: gravity/capillary drive (water moves with it), m[2*side+phase] mobilities. up: chosen cells (0/1) for water and oil.
inline double spu_flux(double v, double g, const double* m, int* up = 0)
{
    double best = 0, bestbad = 1e300;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        double w = m[2 * a], o = m[2 * b + 1], t = w + o, dw = v + o * g, dn = v - w * g; // drives of water and of the other phase
        if (t <= 0) continue; // both phases immobile where they would come from: no pair of drives is consistent with that
        double bad = std::max(0.0, (a == 0 ? -1 : 1) * dw) + std::max(0.0, (b == 0 ? -1 : 1) * dn);
        if (bad < bestbad) { bestbad = bad; best = t > 0 ? w / t * dw : 0; if (up) { up[0] = a; up[1] = b; } }
    }
    return best;
}
} // namespace gl
