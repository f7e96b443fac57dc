// Mock fluid, wells and boundary conditions for the flow-solver monitors. The mock is the specification of the fluid;
// the monitors evaluate it directly, the library through its interface.
#pragma once
#include "polygrid.hpp"
#ifndef FLOW_NO_WELLS
#include <opm/core/wells.h>
#endif
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#ifndef FLOW_NO_WELLS
#include <opm/core/simulator/WellState.hpp>
#endif

namespace gl {

struct MockIncomp : public Opm::IncompPropertiesInterface {
    int d, nc, np; std::vector<double> poro, perm, mu, rho; // perm: column-major SPD tensors
    std::vector<std::vector<double>> expo; std::vector<int> reg; // Corey exponents per region and phase
    std::vector<double> smin_, smax_; double krmax;
    int numDimensions() const { return d; }
    int numCells() const { return nc; }
    const double* porosity() const { return &poro[0]; }
    const double* permeability() const { return &perm[0]; }
    int numPhases() const { return np; }
    const double* viscosity() const { return &mu[0]; }
    const double* density() const { return &rho[0]; }
    const double* surfaceDensity() const { return &rho[0]; }
    double kr(int c, int p, double s) const { double lo = smin_[np * c + p], hi = smax_[np * c + p]; double t = (s - lo) / (hi - lo); if (t <= 0) return 0; if (t >= 1) return 1; return std::pow(t, expo[reg[c]][p]); }
    double dkr(int c, int p, double s) const { double lo = smin_[np * c + p], hi = smax_[np * c + p]; double t = (s - lo) / (hi - lo); if (t < 0 || t > 1) return 0; double e = expo[reg[c]][p]; return e * std::pow(t, e - 1) / (hi - lo); }
    void relperm(const int n, const double* s, const int* cells, double* kro, double* dk) const
    { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) { kro[np * i + p] = kr(cells[i], p, s[np * i + p]); if (dk) for (int q = 0; q < np; ++q) dk[np * np * i + np * q + p] = q == p ? dkr(cells[i], p, s[np * i + p]) : 0; } }
    void capPress(const int n, const double*, const int*, double* pc, double* dpc) const { for (int i = 0; i < n * np; ++i) pc[i] = 0; if (dpc) for (int i = 0; i < n * np * np; ++i) dpc[i] = 0; }
    void satRange(const int n, const int* cells, double* lo, double* hi) const { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) { lo[np * i + p] = smin_[np * cells[i] + p]; hi[np * i + p] = smax_[np * cells[i] + p]; } }
    double mob(int c, int p, double s) const { return kr(c, p, s) / mu[p]; }
    double totmob(int c, const double* s) const { double t = 0; for (int p = 0; p < np; ++p) t += mob(c, p, s[p]); return t; }
    double omega(int c, const double* s) const { double t = 0; for (int p = 0; p < np; ++p) t += mob(c, p, s[p]) * rho[p]; return t / totmob(c, s); }
};

// si: realistic SI magnitudes, otherwise O(1) numbers. spread: permeability contrast (orders of magnitude)
inline MockIncomp random_mock(Rng& r, const UnstructuredGrid& g, int np, bool si, double spread, bool tensor, bool residual = false)
{
    MockIncomp m; m.d = g.dimensions; m.nc = g.number_of_cells; m.np = np; int d = m.d; bool homog = r.p(0.15);
    double base = si ? r.logu(1e-15, 1e-12) : r.logu(0.1, 10); m.perm.assign((size_t)m.nc * d * d, 0); m.poro.resize(m.nc);
    std::vector<double> K0(d * d);
    for (int c = 0; c < m.nc; ++c) {
        if (c == 0 || !homog) {
            std::fill(K0.begin(), K0.end(), 0.0); double k = base * std::pow(10, r.u(-spread / 2, spread / 2)); bool iso = r.p(0.3);
            if (tensor) { double B[3][3]; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) B[i][j] = (i == j) + r.u(-0.4, 0.4); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { double s = 0; for (int q = 0; q < d; ++q) s += B[i][q] * B[j][q]; K0[i + d * j] = k * s; } }
            else for (int i = 0; i < d; ++i) K0[i + d * i] = iso ? k : k * r.logu(0.05, 20);
        }
        std::copy(K0.begin(), K0.end(), m.perm.begin() + (size_t)c * d * d); m.poro[c] = homog ? 0.25 : r.u(0.05, 0.5);
    }
    int nr = r.i(1, 3); for (int q = 0; q < nr; ++q) { std::vector<double> e(np); for (auto& x : e) x = r.pick(std::vector<double>{1, 2, 2, 3, 1.5}); m.expo.push_back(e); }
    m.reg.resize(m.nc); for (auto& x : m.reg) x = r.i(0, nr - 1);
    for (int p = 0; p < np; ++p) { m.mu.push_back(si ? r.logu(2e-4, 1e-2) : r.logu(0.2, 5)); m.rho.push_back(si ? r.u(600, 1100) : r.u(0.5, 2)); }
    if (r.p(0.2)) m.rho.assign(np, m.rho[0]); if (np > 1 && r.p(0.2)) m.rho[1] = m.rho[0] * 1.2; // second phase may be the heavier one
    m.smin_.assign((size_t)m.nc * np, 0); m.smax_.assign((size_t)m.nc * np, 1);
    if (residual) for (int c = 0; c < m.nc; ++c) { double a = r.p(0.3) ? 0 : r.u(0, 0.25), b = r.p(0.3) ? 0 : r.u(0, 0.25); m.smin_[np * c] = a; m.smax_[np * c] = 1 - b; m.smin_[np * c + 1] = b; m.smax_[np * c + 1] = 1 - a; }
    return m;
}

inline std::vector<double> random_sat(Rng& r, const MockIncomp& m, int mode = -1)
{
    std::vector<double> s((size_t)m.nc * m.np); double u0 = r.u(); if (mode < 0) mode = r.i(0, 3);
    for (int c = 0; c < m.nc; ++c) {
        double u = mode == 0 ? u0 : mode == 1 ? (r.p(0.5) ? 0.0 : 1.0) : mode == 2 ? r.u() : r.p(0.3) ? 0.0 : r.p(0.3) ? 1.0 : r.u();
        if (m.np == 1) s[c] = 1;
        else if (m.np == 2) { double lo = m.smin_[2 * c], hi = m.smax_[2 * c]; double v = u == 0.0 ? lo : u == 1.0 ? hi : lo + u * (hi - lo); s[2 * c] = v; s[2 * c + 1] = 1 - v; }
        else { double t = 0; for (int p = 0; p < m.np; ++p) { double v = p == 0 ? u : r.u(0.01, 1); s[m.np * c + p] = v; t += v; } for (int p = 0; p < m.np; ++p) s[m.np * c + p] /= t; }
    }
    return s;
}

// One-sided transmissibility |n.K.d|/|d|^2 per half face
inline std::vector<double> half_trans(const UnstructuredGrid& g, const std::vector<double>& perm)
{
    int d = g.dimensions; std::vector<double> h(g.cell_facepos[g.number_of_cells]);
    for (int c = 0; c < g.number_of_cells; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) {
        int f = g.cell_faces[k]; double a = 0, b = 0; double x[3]; for (int q = 0; q < d; ++q) x[q] = g.face_centroids[d * f + q] - g.cell_centroids[d * c + q];
        for (int i = 0; i < d; ++i) { b += x[i] * x[i]; for (int j = 0; j < d; ++j) a += x[i] * perm[(size_t)c * d * d + i + d * j] * g.face_normals[d * f + j]; }
        h[k] = std::fabs(a) / b;
    }
    return h;
}
inline double min_half(const std::vector<double>& h) { double m = 1e300, M = 0; for (double x : h) { m = std::min(m, x); M = std::max(M, x); } return m / M; }

#ifndef FLOW_NO_WELLS
struct WellsPtr { Wells* w; explicit WellsPtr(Wells* p = 0) : w(p) {} ~WellsPtr() { if (w) destroy_wells(w); } WellsPtr(WellsPtr&& o) : w(o.w) { o.w = 0; } WellsPtr& operator=(WellsPtr&& o) { if (w) destroy_wells(w); w = o.w; o.w = 0; return *this; } WellsPtr(const WellsPtr&) = delete; Wells* operator->() const { return w; } };
#endif
struct BcPtr { FlowBoundaryConditions* b; explicit BcPtr(FlowBoundaryConditions* p = 0) : b(p) {} ~BcPtr() { if (b) flow_conditions_destroy(b); } BcPtr(BcPtr&& o) : b(o.b) { o.b = 0; } BcPtr& operator=(BcPtr&& o) { if (b) flow_conditions_destroy(b); b = o.b; o.b = 0; return *this; } BcPtr(const BcPtr&) = delete; FlowBoundaryConditions* operator->() const { return b; } };

struct UF { std::vector<int> p; explicit UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int find(int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; } void join(int a, int b) { p[find(a)] = find(b); } };
inline void join_faces(const UnstructuredGrid& g, UF& u) { for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) u.join(a, b); } }
inline std::vector<int> boundary_faces(const UnstructuredGrid& g) { std::vector<int> b; for (int f = 0; f < g.number_of_faces; ++f) if (g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) b.push_back(f); return b; }
inline int bcell(const UnstructuredGrid& g, int f) { return g.face_cells[2 * f] >= 0 ? g.face_cells[2 * f] : g.face_cells[2 * f + 1]; }

// A solver-suitable grid of any kind, possibly with shuffled cells and reversed faces.
inline GridPtr any_grid(Rng& r, int maxn, int maxcuts, std::string* kind)
{
    GridPtr g; int w = r.i(0, 9);
    if (w < 3) { int dim = r.i(2, 3); g = arrangement_grid(r, dim, r.i(0, maxcuts), 0.03); *kind = cat("polyhedral ", dim, "d ", g->number_of_cells); }
    else g = random_grid(r, maxn, kind);
    if (r.p(0.3)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); *kind += " renumbered"; }
    if (r.p(0.25)) { g = refaced(*g, r, r.p(0.6)); *kind += " refaced"; }
    return g;
}
} // namespace gl
