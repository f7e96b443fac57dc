// Steady flux fields with sources and boundary flow for the time-of-flight monitors.
#pragma once
#include "transport.hpp"
namespace gl {
struct Field { std::string kind; std::vector<double> v, src; std::vector<int> group, gsize; bool acyclic; };
inline double out_of(const UnstructuredGrid& g, int c, int f, const std::vector<double>& v) { return g.face_cells[2 * f] == c ? v[f] : -v[f]; }
// Sources are the net outflow of each cell (exact zeros where that is rounding noise), boundary inflow and outflow balance.
inline Field steady_field(Rng& r, const UnstructuredGrid& g, bool loops)
{
    Field F; int nf = g.number_of_faces, nc = g.number_of_cells, d = g.dimensions; F.v.assign(nf, 0.0); F.src.assign(nc, 0.0); int w = loops ? r.i(0, 7) : r.i(0, 5); std::vector<int> bf = boundary_faces(g);
    std::vector<double> p(nc); for (auto& x : p) x = r.u();
    auto potential = [&]() { for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) F.v[f] = (p[a] - p[b]) * (0.2 + r.u()); } };
    if (w == 0) { F.kind = "random potential"; if (r.p(0.4)) { F.kind = "plateaus"; for (auto& x : p) x = r.i(0, 3); } potential(); }
    else if (w <= 3) { // solved with few sources, optionally with flow through the boundary
        F.kind = "solved"; std::vector<double> b(nc, 0.0), T(nf, 0.0); for (int f = 0; f < nf; ++f) if (g.face_cells[2 * f] >= 0 && g.face_cells[2 * f + 1] >= 0) T[f] = r.logu(0.1, 10);
        if (w == 3 && !bf.empty()) { F.kind = "solved open"; double in = 0, out = 0; for (int f : bf) if (r.p(0.4)) { double q = r.u(-1, 1); F.v[f] = g.face_cells[2 * f] >= 0 ? q : -q; (q > 0 ? out : in) += std::fabs(q); } if (in > 0 && out > 0) { for (int f : bf) { double q = out_of(g, bcell(g, f), f, F.v); if (q > 0) F.v[f] *= in / out; } } else for (int f : bf) F.v[f] = 0; for (int f : bf) b[bcell(g, f)] -= out_of(g, bcell(g, f), f, F.v); }
        int n = r.i(w == 3 ? 0 : 1, 3); for (int q = 0; q < n; ++q) { int a = r.i(0, nc - 1), e = r.i(0, nc - 1); if (a == e) continue; double x = r.logu(0.1, 3); b[a] += x; b[e] -= x; F.src[a] += x; F.src[e] -= x; }
        std::vector<double> x(nc, 0.0), R = b, P = b, A(nc); double rr = 0; for (double t : R) rr += t * t; double r0 = rr;
        for (int it = 0; it < 6 * nc + 50 && rr > 1e-28 * r0 && rr < 1e4 * r0; ++it) { std::fill(A.begin(), A.end(), 0.0); for (int f = 0; f < nf; ++f) if (T[f] > 0) { int a = g.face_cells[2 * f], e = g.face_cells[2 * f + 1]; double q = T[f] * (P[a] - P[e]); A[a] += q; A[e] -= q; } double pa = 0; for (int c = 0; c < nc; ++c) pa += P[c] * A[c]; if (!(pa > 1e-14 * rr)) break; double al = rr / pa, r2 = 0; for (int c = 0; c < nc; ++c) { x[c] += al * P[c]; R[c] -= al * A[c]; r2 += R[c] * R[c]; } double be = r2 / rr; rr = r2; for (int c = 0; c < nc; ++c) P[c] = R[c] + be * P[c]; }
        for (int f = 0; f < nf; ++f) if (T[f] > 0) F.v[f] = T[f] * (x[g.face_cells[2 * f]] - x[g.face_cells[2 * f + 1]]);
        double mx = 0; for (double q : F.v) mx = std::max(mx, std::fabs(q)); for (auto& q : F.v) if (std::fabs(q) < 1e-9 * mx) q = 0;
    }
    else if (w == 4) { F.kind = "uniform"; V3 u = mk(r.u(-1, 1), r.p(0.4) ? 0 : r.u(-1, 1), d < 3 || r.p(0.4) ? 0 : r.u(-1, 1)); for (int f = 0; f < nf; ++f) F.v[f] = dot(u, pt(g.face_normals + d * f, d)); double mx = 0; for (double q : F.v) mx = std::max(mx, std::fabs(q)); for (auto& q : F.v) if (std::fabs(q) < 1e-12 * mx) q = 0; }
    else if (w == 5) { F.kind = "random open"; potential(); double in = 0, out = 0; for (int f : bf) { F.v[f] = r.p(0.5) ? 0 : r.u(-0.3, 0.3); double q = out_of(g, bcell(g, f), f, F.v); (q > 0 ? out : in) += std::fabs(q); } if (in > 0 && out > 0) { for (int f : bf) { double q = out_of(g, bcell(g, f), f, F.v); if (q > 0) F.v[f] *= in / out; } } else for (int f : bf) F.v[f] = 0; }
    else { F.kind = "with loops"; potential(); for (auto& x : F.v) if (r.p(0.1)) x = -x; }
    double mag = r.p(0.3) ? 1e-5 : 1; for (auto& x : F.v) x *= mag;
    for (int c = 0; c < nc; ++c) { double net = 0, thr = 0; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { double q = out_of(g, c, g.cell_faces[k], F.v); net += q; thr += std::fabs(q); } double s = F.src[c] * mag; F.src[c] = std::fabs(net - s) < 1e-7 * thr ? s : net; if (thr == 0) F.src[c] = 0; }
    for (auto& x : F.v) if (x == 0 && r.p(0.3)) x = -0.0;
    F.group = groups(g, F.v); F.gsize.assign(nc, 0); for (int x : F.group) ++F.gsize[x]; F.acyclic = true; for (int c = 0; c < nc; ++c) if (F.gsize[F.group[c]] > 1) F.acyclic = false;
    return F;
}
struct CoutCatch { std::ostringstream o; std::streambuf* b; CoutCatch() { b = std::cout.rdbuf(o.rdbuf()); } ~CoutCatch() { std::cout.rdbuf(b); } };
// cells in flow direction (valid for the acyclic part)
inline std::vector<int> flow_order(const UnstructuredGrid& g, const std::vector<double>& v) { int n = g.number_of_cells; std::vector<std::vector<int>> dn(n); std::vector<int> in(n, 0), q, o; for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0 || v[f] == 0) continue; if (v[f] < 0) std::swap(a, b); dn[a].push_back(b); ++in[b]; } for (int c = 0; c < n; ++c) if (!in[c]) q.push_back(c); for (size_t i = 0; i < q.size(); ++i) for (int b : dn[q[i]]) if (!--in[b]) q.push_back(b); return q; }
} // namespace gl
