// P24: explicit/implicit single-point-upwind, Newton and column solvers: discrete balances, Jacobians, reports and mutual agreement.
#include "config.h"
#define FLOW_NO_WELLS
#include "transport.hpp"
#include <sstream>
#include <iostream>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
#include <opm/core/transport/minimal/spu_implicit.h>
}
using namespace mon; using namespace gl;
typedef std::vector<double> dvec;
static UnstructuredGrid* G(const GridPtr& g) { return const_cast<UnstructuredGrid*>(&*g); }

struct CoutCatch { std::ostringstream o; std::streambuf* b; CoutCatch() { b = std::cout.rdbuf(o.rdbuf()); } ~CoutCatch() { std::cout.rdbuf(b); } };

struct MockPc : MockIncomp { // capillary pressure falling with water saturation
    double a = 0; explicit MockPc(const MockIncomp& m) : MockIncomp(m) {}
    double pcw(int c, double s) const { double t = (1 - s); return a * (1 + reg[c]) * t * t; }
    void capPress(const int n, const double* s, const int* cells, double* pc, double* dpc) const { for (int i = 0; i < n; ++i) { pc[2 * i] = pcw(cells[i], s[2 * i]); pc[2 * i + 1] = 0; if (dpc) { double* d = dpc + 4 * i; d[0] = -2 * a * (1 + reg[cells[i]]) * (1 - s[2 * i]); d[1] = d[2] = d[3] = 0; } } }
};

// dense solve with partial pivoting; handles unsorted rows with repeated columns
static void dense(int n, int* ia, int* ja, double* sa, double* b, double* x)
{
    std::vector<dvec> A(n, dvec(n + 1, 0.0)); for (int i = 0; i < n; ++i) { for (int k = ia[i]; k < ia[i + 1]; ++k) A[i][ja[k]] += sa[k]; A[i][n] = b[i]; }
    for (int c = 0; c < n; ++c) { int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(A[i][c]) > std::fabs(A[p][c])) p = i; std::swap(A[p], A[c]); if (A[c][c] == 0) continue; for (int i = c + 1; i < n; ++i) if (A[i][c] != 0) { double f = A[i][c] / A[c][c]; for (int k = c; k <= n; ++k) A[i][k] -= f * A[c][k]; } }
    for (int i = n; i-- > 0;) { double t = A[i][n]; for (int k = i + 1; k < n; ++k) t -= A[i][k] * x[k]; x[i] = A[i][i] == 0 ? 0 : t / A[i][i]; }
}
// Gauss-Seidel for larger systems (column diagonally dominant matrices)
static void sweep(int n, int* ia, int* ja, double* sa, double* b, double* x)
{
    if (n <= 80) { dense(n, ia, ja, sa, b, x); return; }
    std::fill(x, x + n, 0.0); double bn = 0; for (int i = 0; i < n; ++i) bn = std::max(bn, std::fabs(b[i]));
    for (int it = 0; it < 2000; ++it) { double ch = 0; for (int q = 0; q < n; ++q) { int i = it % 2 ? n - 1 - q : q; double t = b[i], d = 0; for (int k = ia[i]; k < ia[i + 1]; ++k) if (ja[k] == i) d += sa[k]; else t -= sa[k] * x[ja[k]]; t /= d; ch = std::max(ch, std::fabs(t - x[i])); x[i] = t; } if (ch <= 1e-14 * bn) break; }
}
struct Table { int n; double h, x0; dvec t; double at(int p, double x) const { double u = (x - x0) / h; const double* q = &t[p * n]; if (u <= 0) return q[0]; if (u >= n - 1) return q[n - 1]; int i = std::min((int)u, n - 2); return q[i] + (u - i) * (q[i + 1] - q[i]); } bool near_node(double x, double e) const { double u = (x - x0) / h; return std::fabs(u - std::floor(u + 0.5)) * h < e; } double lip() const { double L = 0; for (int p = 0; p < 2; ++p) for (int i = 0; i + 1 < n; ++i) L = std::max(L, std::fabs(t[p * n + i + 1] - t[p * n + i]) / h); return L; } };
static Table random_table(Rng& r)
{
    Table T; T.n = r.p(0.1) ? 2 : r.i(3, 40); T.x0 = r.p(0.7) ? 0 : r.u(-0.3, 0.2); double x1 = r.p(0.7) ? 1 : r.u(0.8, 1.3); T.h = (x1 - T.x0) / (T.n - 1); T.t.resize(2 * T.n); double a = r.logu(0.2, 5), b = r.logu(0.2, 5), e = r.pick(dvec{1, 2, 3}), f = r.pick(dvec{1, 2, 3}), res = r.p(0.3) ? r.u(0, 0.3) : 0;
    for (int i = 0; i < T.n; ++i) { double x = double(i) / (T.n - 1), w = std::max(0.0, (x - res) / (1 - res)), o = std::max(0.0, (1 - res - x) / (1 - res)); T.t[i] = a * std::pow(w, e); T.t[T.n + i] = b * std::pow(o, f); if (T.t[i] + T.t[T.n + i] <= 0) T.t[i] = a * 0.1; } return T;
}
// spread of f(0..1) slope times 1: Lipschitz constants of the water flux with respect to each saturation, by sampling mobilities
static double cell_rate(const UnstructuredGrid& g, const dvec& v, const dvec& src, int c) { double q = std::max(0.0, -src[c]); for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; if (g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) continue; double x = g.face_cells[2 * f] == c ? v[f] : -v[f]; if (x > 0) q += x; } return q; }

// residual of cell balances with unit scaling: pv (s-s0) + dt (sum of water outflow - inflow sources)
template <class Mob> static dvec residual(const UnstructuredGrid& g, const dvec& pv, const dvec& s0, const dvec& s, const dvec& v, const dvec& gr, const dvec& src, double dt, Mob mob, dvec* mag = 0, std::vector<char>* kink = 0)
{
    int nc = g.number_of_cells; dvec R(nc), m(2 * nc); if (mag) mag->assign(nc, 0.0); if (kink) kink->assign(nc, 0);
    for (int c = 0; c < nc; ++c) { m[2 * c] = mob(c, 0, s[c]); m[2 * c + 1] = mob(c, 1, s[c]); }
    for (int c = 0; c < nc; ++c) { R[c] = pv[c] * (s[c] - s0[c]); double q = src[c]; R[c] -= dt * (q > 0 ? q : q * m[2 * c] / (m[2 * c] + m[2 * c + 1])); if (mag) (*mag)[c] += pv[c] + dt * std::fabs(q); }
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; double mm[4] = {m[2 * a], m[2 * a + 1], m[2 * b], m[2 * b + 1]}; double F = spu_flux(v[f], gr[f], mm); R[a] += dt * F; R[b] -= dt * F; double sc = dt * (std::fabs(v[f]) + (mm[0] + mm[1] + mm[2] + mm[3]) * std::fabs(gr[f])); if (mag) { (*mag)[a] += sc; (*mag)[b] += sc; }
        if (kink) { bool nearz = std::fabs(v[f]) + std::fabs(gr[f]) > 0; double sw = 1e300; for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) sw = std::min(sw, std::min(std::fabs(v[f] + mm[2 * x + 1] * gr[f]), std::fabs(v[f] - mm[2 * y] * gr[f]))); if (nearz && dt * sw < 1e-3 * sc) (*kink)[a] = (*kink)[b] = 1; } }
    return R;
}
static dvec gravity_like(Rng& r, const UnstructuredGrid& g, double mag) { dvec q(g.number_of_faces, 0.0); int w = r.i(0, 3); int d = g.dimensions; for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (w == 0) q[f] = 0; else if (w == 1) q[f] = r.u(-mag, mag); else if (a >= 0 && b >= 0) { double z = g.cell_centroids[d * a + d - 1] - g.cell_centroids[d * b + d - 1]; q[f] = z > 1e-9 ? mag : z < -1e-9 ? -mag : 0; if (w == 3) q[f] = -q[f]; } } return q; }
static dvec some_sat(Rng& r, int nc, double lo = 0, double hi = 1) { dvec s(nc); int w = r.i(0, 3); double u = r.u(lo, hi); for (auto& x : s) x = w == 0 ? u : w == 1 ? (r.p(0.5) ? lo : hi) : r.p(0.2) ? lo : r.p(0.2) ? hi : r.u(lo, hi); return s; }

static void minimal(Rng& r)
{
    std::string kind, fk; GridPtr g = any_grid(r, r.p(0.08) ? 9 : 4, 3, &kind); if (r.p(0.04)) { int n = r.i(7, 9); g = GridPtr(create_grid_cart3d(n, n, n)); kind = cat("cube ", n); }
    int nc = g->number_of_cells, nf = g->number_of_faces; Table T = random_table(r); dvec v = flux_for(r, *g, fk, 1.0); if (r.p(0.15)) std::fill(v.begin(), v.end(), 0.0); if (r.p(0.2)) for (auto& x : v) if (r.p(0.3)) x = r.p(0.5) ? 0.0 : -0.0; dvec src = sources(*g, v), gr = gravity_like(r, *g, r.logu(0.05, 20)), pv(nc, 1.0), s0 = some_sat(r, nc), zero(nf, 0.0);
    auto mobt = [&](int, int p, double s) { return T.at(p, s); }; bool nograv = true; for (double x : gr) if (x != 0) nograv = false; if (!nograv) { ev("gravity_problems"); }
    double top = 0; for (int c = 0; c < nc; ++c) top = std::max(top, cell_rate(*g, v, src, c)); double dt = r.logu(1e-3, 5) / std::max(top, 1e-3); std::string d = cat(kind, " flux ", fk, nograv ? "" : " gravity", " dt ", dt, " table ", T.n);
    { // explicit step: equals the definition; oil and water swap roles under mirrored faces
        dvec mob(2 * nc), s(nc, -7.0), a0 = s0, b0 = v, c0 = gr, d0 = src; for (int c = 0; c < nc; ++c) for (int p = 0; p < 2; ++p) mob[2 * c + p] = T.at(p, s0[c]); dvec m0 = mob;
        spu_explicit(G(g), &s0[0], &s[0], &mob[0], &v[0], &gr[0], &src[0], dt); ev("explicit_steps"); if (!CHK(s0 == a0 && v == b0 && gr == c0 && src == d0 && mob == m0, "inputs", d)) return;
        dvec mag, R = residual(*g, pv, s0, s0, v, gr, src, dt, mobt, &mag); double tot = 0, scale = 0;
        for (int c = 0; c < nc; ++c) { ev("explicit_cells"); if (!NEAR(s[c], s0[c] - R[c], 1e-12, mag[c], "explicit", cat(d, " cell ", c, " s0 ", s0[c]))) return; double f = mob[2 * c] / (mob[2 * c] + mob[2 * c + 1]); tot += s[c] - s0[c] - dt * (src[c] > 0 ? src[c] : src[c] * f); scale += mag[c]; }
        CHK(std::fabs(tot) <= 1e-12 * scale, "explicit-total", cat(d, " total imbalance ", tot));
        if (nograv) { double L = 0; for (int i = 0; i < 4000; ++i) { double x = i / 4000.0, y = (i + 1) / 4000.0; double fx = T.at(0, x) / (T.at(0, x) + T.at(1, x)), fy = T.at(0, y) / (T.at(0, y) + T.at(1, y)); L = std::max(L, (fy - fx) * 4000); } double dtb = 0.9 / (1.2 * L * std::max(top, 1e-12)); dvec t(nc); spu_explicit(G(g), &s0[0], &t[0], &mob[0], &v[0], &gr[0], &src[0], std::min(dt, dtb)); double lo = *std::min_element(s0.begin(), s0.end()); for (int c = 0; c < nc; ++c) if (!CHK(t[c] >= lo - 1e-10 && (t[c] <= 1 + 1e-10 || T.at(1, 1) > 0), "explicit-bounds", cat(d, " cell ", c, " s ", t[c], " below smallest initial value ", lo))) return; ev("explicit_bounds"); }
    }
    { // assembly of the implicit system
        dvec s = some_sat(r, nc); for (auto& x : s) while (T.near_node(x, 2e-5) || x < 1e-3 || x > 1 - 1e-3) x = r.u(0.01, 0.99);
        dvec mob(2 * nc), dmob(2 * nc), b(nc, -3.0), work(6, 0.0); for (int c = 0; c < nc; ++c) for (int p = 0; p < 2; ++p) { mob[2 * c + p] = T.at(p, s[c]); dmob[2 * c + p] = (T.at(p, s[c] + 1e-6) - T.at(p, s[c] - 1e-6)) / 2e-6; }
        int cap = nc + g->cell_facepos[nc] + 1; std::vector<int> ia(nc + 1, -1), ja(cap, -1); dvec sa(cap, 0.0); sparse_t S; S.m = S.n = nc; S.ia = &ia[0]; S.ja = &ja[0]; S.sa = &sa[0];
        spu_implicit_assemble(G(g), &s0[0], &s[0], &mob[0], &dmob[0], &v[0], &gr[0], &src[0], dt, &S, &b[0], (char*)&work[0]); ev("assemblies");
        dvec mag; std::vector<char> kink; dvec R = residual(*g, pv, s0, s, v, gr, src, dt, mobt, &mag, &kink); for (int c = 0; c < nc; ++c) if (!NEAR(b[c], R[c], 1e-12, mag[c], "residual", cat(d, " cell ", c))) return;
        std::vector<std::map<int, double>> J(nc); for (int i = 0; i < nc; ++i) { if (!CHK(ia[i] >= 0 && ia[i] <= ia[i + 1] && ia[i + 1] <= cap, "structure", cat(d, " row ", i))) return; for (int k = ia[i]; k < ia[i + 1]; ++k) { if (!CHK(ja[k] >= 0 && ja[k] < nc, "structure", cat(d, " row ", i, " column ", ja[k]))) return; J[i][ja[k]] += sa[k]; } }
        int trials = std::min(nc, 12); for (int q = 0; q < trials; ++q) { int j = nc <= 12 ? q : r.i(0, nc - 1); double h = 1e-6; dvec sp = s, sm = s; sp[j] += h; sm[j] -= h; dvec Rp = residual(*g, pv, s0, sp, v, gr, src, dt, mobt), Rm = residual(*g, pv, s0, sm, v, gr, src, dt, mobt);
            for (int i = 0; i < nc; ++i) { double num = (Rp[i] - Rm[i]) / (2 * h), got = J[i].count(j) ? J[i][j] : 0; if (kink[i] || kink[j]) { ev("kinks_skipped"); continue; } if (num == 0 && got == 0) continue; ev("jacobian_entries"); if (!NEAR(got, num, 1e-5, mag[i] * (1 + T.lip()), "jacobian", cat(d, " row ", i, " column ", j))) return; } }
    }
    if (nc <= 80 || (r.p(0.3) && nc <= 800)) { // complete implicit step
        dvec s = r.p(0.5) ? s0 : some_sat(r, nc), t = T.t; int ntab = T.n; double nrm; { Quiet z; nrm = spu_implicit(G(g), &s0[0], &s[0], T.h, T.x0, ntab, &t[0], &v[0], &gr[0], &src[0], dt, sweep); } ev("implicit_steps");
        bool easy = nograv && T.at(0, 0) == 0 && T.at(1, 1) == 0; if (easy) { double L = 0; for (int i = 0; i < 4000; ++i) { double x = i / 4000.0, y = (i + 1) / 4000.0; double fx = T.at(0, x) / (T.at(0, x) + T.at(1, x)), fy = T.at(0, y) / (T.at(0, y) + T.at(1, y)); L = std::max(L, std::fabs(fy - fx) * 4000); } easy = 2 * 1.2 * L * dt * top <= 0.045; } // Newton's method is a contraction by a factor of ten when the step is small
        if (!CHK(t == T.t, "inputs", d)) return; for (int c = 0; c < nc; ++c) if (!CHK(s[c] >= 0 && s[c] <= 1, "implicit-bounds", cat(d, " cell ", c, " s ", s[c]))) return;
        if (nrm <= 1e-9) { ev("implicit_converged"); dvec mag, R = residual(*g, pv, s0, s, v, gr, src, dt, mobt, &mag); double l1 = 0, lim = 0; for (int c = 0; c < nc; ++c) { l1 += std::fabs(R[c]); lim = std::max(lim, mag[c]); } double bound = 1e-9 * nc * (3 + 3 * lim * (1 + T.lip() / std::max(1e-9, *std::min_element(T.t.begin(), T.t.begin() + 1) + T.t[T.n]))) * 50; CHK(l1 <= bound, "implicit-residual", cat(d, " reported norm ", nrm, " but balances are off by ", l1, " bound ", bound));
        } else {
            ev("implicit_not_converged"); CHK(!easy, "easy-implicit-step", cat(d, " reported norm ", nrm)); }
        if (easy) ev("easy_implicit_steps");
    }
    uint64_t h = 3; for (double x : s0) h = hcomb(h, hdbl(x)); h = hcomb(h, hdbl(dt)); nontrivial(h); sample(d);
}

typedef Opm::SinglePointUpwindTwoPhase<Opm::SimpleFluid2pWrappingProps> Model;
typedef Opm::ImplicitTransportDefault::NewtonVectorCollection<dvec> NVec;
typedef Opm::ImplicitTransportDefault::JacobianSystem<struct CSRMatrix, NVec> JSys;

static void newton(Rng& r)
{
    std::string kind, fk; GridPtr g(0); bool col = r.p(0.35); do { g = col ? random_grid(r, 5, &kind, false) : any_grid(r, r.p(0.1) ? 7 : 4, 3, &kind); } while (g->number_of_cells > 400 || (col && g->dimensions != 3));
    int nc = g->number_of_cells, nf = g->number_of_faces, d = g->dimensions; bool si = r.p(0.3); MockPc m(random_mock(r, *g, 2, si, 1.5, false, r.p(0.5))); bool grav = r.p(0.6), pc = r.p(0.3); dvec h = half_trans(*g, m.perm); if (min_half(h) < 1e-8) { ev("degenerate_skipped"); return; }
    dvec pv(nc); for (int c = 0; c < nc; ++c) pv[c] = m.poro[c] * g->cell_volumes[c] * (si ? 1e3 : 1); double mag = si ? 1e-3 : 1; dvec v = flux_for(r, *g, fk, mag); if (r.p(0.25)) std::fill(v.begin(), v.end(), 0.0); dvec src = sources(*g, v);
    double gv[3] = {0, 0, 0}; gv[d - 1] = si ? 9.80665 : r.logu(0.05, 5); if (r.p(0.2)) for (auto& x : gv) x = r.u(-1, 1) * (si ? 9.8 : 1); if (r.p(0.15)) for (auto& x : gv) x = -x;
    if (pc) m.a = si ? 1e4 : r.logu(0.02, 1);
    dvec T(nf, 0.0), gr(nf, 0.0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) T[g->cell_faces[k]] += 1 / h[k]; for (auto& x : T) x = 1 / x;
    if (grav) for (int f = 0; f < nf; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; double z = 0; for (int q = 0; q < d; ++q) z += gv[q] * (g->cell_centroids[d * b + q] - g->cell_centroids[d * a + q]); gr[f] = T[f] * z * (m.rho[0] - m.rho[1]); }
    dvec sat = random_sat(r, m), s0(nc); for (int c = 0; c < nc; ++c) s0[c] = sat[2 * c]; if (r.p(0.2) && grav) for (int c = 0; c < nc; ++c) { bool up = g->cell_centroids[d * c + d - 1] < g->cell_centroids[d * r.i(0, nc - 1) + d - 1]; s0[c] = (up == (m.rho[0] > m.rho[1])) ? m.smin_[2 * c] : m.smax_[2 * c]; sat[2 * c] = s0[c]; sat[2 * c + 1] = 1 - s0[c]; ev("segregated_cells"); }
    auto mob = [&](int c, int p, double s) { double x = std::min(std::max(s, m.smin_[2 * c]), m.smax_[2 * c]); return m.mob(c, p, p ? 1 - x : x); };
    auto drive = [&](const dvec& s) { dvec q = gr; for (int f = 0; f < nf; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; if (pc) q[f] += T[f] * (m.pcw(b, std::min(std::max(s[b], m.smin_[2 * b]), m.smax_[2 * b])) - m.pcw(a, std::min(std::max(s[a], m.smin_[2 * a]), m.smax_[2 * a]))); } return q; };
    double rate = 0; dvec dr = drive(s0); for (int f = 0; f < nf; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; rate = std::max(rate, (std::fabs(v[f]) + (std::fabs(gr[f]) + (pc ? T[f] * m.a : 0)) / std::min(m.mu[0], m.mu[1])) / std::min(pv[a], pv[b])); } double cfl = r.logu(0.01, 20), dt = cfl / std::max(rate, 1e-12); if (rate == 0) dt = 1;
    std::string dsc = cat(kind, " cells ", nc, " flux ", fk, grav ? " gravity" : "", pc ? " pc" : "", " cfl ", cfl, si ? " SI" : ""); const double* gp = grav ? gv : 0; if (grav) ev("gravity_problems"); if (pc) ev("capillary_problems");
    Opm::TwophaseState st; st.init(*g, 2); st.saturation() = sat; st.faceflux() = v; TransportSource* ts = create_transport_source(0, 2); double one2[2] = {1, 0}, nil[2] = {0, 0}; for (int c = 0; c < nc; ++c) if (src[c] != 0) append_transport_source(c, 2, 0, src[c], src[c] > 0 ? one2 : nil, nil, ts);
    { // assembly at an arbitrary state
        Opm::SimpleFluid2pWrappingProps fl(m); Model mod(fl, *g, pv, gp, true); mod.initGravityTrans(*g, h); Opm::ImplicitAssembly<Model> as(mod); JSys sys; as.createSystem(*g, sys); mod.initStep(st, *g, sys); dvec s(nc); bool inside = true;
        for (int c = 0; c < nc; ++c) { double lo = m.smin_[2 * c], hi = m.smax_[2 * c]; s[c] = r.u(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo)); if (r.p(0.02)) { s[c] = r.p(0.5) ? lo - 0.01 : hi + 0.01; inside = false; } sys.vector().writableSolution()[c] = s[c] - s0[c]; }
        bool ok; { CoutCatch cc; ok = mod.initIteration(st, *g, sys); } CHK(ok == inside, "range-report", cat(dsc, " reported ", ok)); csrmatrix_zero(&sys.writableMatrix()); std::fill(sys.vector().writableResidual().begin(), sys.vector().writableResidual().end(), 0.0); as.assemble(st, *g, ts, dt, sys); ev("newton_assemblies");
        dvec mg; std::vector<char> kink; dvec dd = drive(s), R = residual(*g, pv, s0, s, v, dd, src, dt, mob, &mg, &kink); bool bad = false; for (int c = 0; c < nc && !bad; ++c) bad = !NEAR(sys.vector().residual()[c], R[c], 1e-11, mg[c], "newton-residual", cat(dsc, " cell ", c));
        const CSRMatrix& A = sys.matrix(); for (int q = 0; q < std::min(nc, 8) && !bad && inside; ++q) { int j = nc <= 8 ? q : r.i(0, nc - 1); double e = 1e-6; dvec sp = s, sm = s; sp[j] += e; sm[j] -= e; dvec Rp = residual(*g, pv, s0, sp, v, drive(sp), src, dt, mob), Rm = residual(*g, pv, s0, sm, v, drive(sm), src, dt, mob); for (int i = 0; i < nc && !bad; ++i) { double num = (Rp[i] - Rm[i]) / (2 * e), got = 0; for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) if (A.ja[k] == j) got += A.sa[k]; if (kink[i] || kink[j]) { ev("kinks_skipped"); continue; } if (num == 0 && got == 0) continue; ev("newton_jacobian_entries"); bad = !NEAR(got, num, 2e-5, 20 * mg[i], "newton-jacobian", cat(dsc, " row ", i, " column ", j)); } }
        if (bad) { destroy_transport_source(ts); return; }
    }
    { // complete step through the class
        Opm::parameter::ParameterGroup prm; bool old = r.p(0.5); prm.insertParameter("guess_old_solution", old ? "true" : "false"); int mi = r.p(0.2) ? r.i(1, 4) : 30; prm.insertParameter("max_it", std::to_string(mi)); prm.insertParameter("max_it_ls", std::to_string(r.i(3, 12))); prm.disableOutput();
        std::string rep; bool thrown = false; Opm::TwophaseState x = st, y = st; { CoutCatch cc; try { Opm::TransportSolverTwophaseImplicit tr(*g, m, pv, gp, h, prm); if (r.p(0.4)) { Opm::TwophaseState o = st; o.saturation() = random_sat(r, m); tr.solve(&pv[0], &src[0], dt * 0.5, o); cc.o.str(""); ev("used_objects"); } tr.solve(&pv[0], &src[0], dt, x); rep = cc.o.str(); if (r.p(0.3)) { dvec p2 = pv; p2[0] *= 1.01; bool t = false; Opm::TwophaseState o = st; try { Quiet z; tr.solve(&p2[0], &src[0], dt, o); } catch (const std::exception&) { t = true; } if (!t || o.saturation() != sat) violate("changed-pv", cat(dsc, " changed pore volume accepted")); ev("changed_pv_refused"); } Opm::TransportSolverTwophaseImplicit tr2(*g, m, pv, gp, h, prm); tr2.solve(&pv[0], &src[0], dt, y); } catch (const std::exception&) { thrown = true; } }
        CHK(!thrown, "refused", dsc); if (thrown) { destroy_transport_source(ts); return; } ev("newton_steps"); bool easy = mi == 30 && !grav && !pc && cfl < 0.1; if (easy) ev("easy_newton_steps");
        CHK(x.saturation() == y.saturation(), "repeat", cat(dsc, " repeated step differs")); size_t p = rep.find("Final residual norm:"), p2 = rep.find("Convergence flag:"), p3 = rep.find("linear solves:"); double nrm = p == std::string::npos ? -1 : std::atof(rep.c_str() + p + 20); int flag = p2 == std::string::npos ? -9 : std::atoi(rep.c_str() + p2 + 17), nit = p3 == std::string::npos ? -1 : std::atoi(rep.c_str() + p3 + 14);
        if (!CHK(flag != -9 && nit >= 1 && nit <= mi, "report", cat(dsc, " report ", rep))) { destroy_transport_source(ts); return; }
        dvec s(nc); bool ok = true, clamped = false; for (int c = 0; c < nc && ok; ++c) { s[c] = x.saturation()[2 * c]; ok = CHK(x.saturation()[2 * c + 1] == 1 - s[c] && s[c] >= m.smin_[2 * c] && s[c] <= m.smax_[2 * c], "newton-bounds", cat(dsc, " cell ", c, " s ", s[c])); if (s[c] == m.smin_[2 * c] || s[c] == m.smax_[2 * c]) clamped = true; }
        if (ok && flag > 0) {
            ev("newton_converged"); if (clamped) ev("clamped_steps"); dvec mg, dd = drive(s), R = residual(*g, pv, s0, s, v, dd, src, dt, mob, &mg); double mx = 0, tol = 0; for (int c = 0; c < nc; ++c) { mx = std::max(mx, std::fabs(R[c])); tol = std::max(tol, 1e-11 * mg[c] + 1.01e-5 * pv[c] * (s[c] == m.smin_[2 * c] || s[c] == m.smax_[2 * c])); }
            CHK(std::fabs(mx - nrm) <= tol + 1e-5 * nrm, "reported-norm", cat(dsc, " reported residual norm ", nrm, " actual ", mx, " tolerance ", tol, " flag ", flag)); if (flag == 1) CHK(nrm < 1e-6, "flag", cat(dsc, " flag 1 with norm ", nrm));
            // total water
            double tot = 0, lim = 0; for (int c = 0; c < nc; ++c) { double a = mob(c, 0, s[c]), b = mob(c, 1, s[c]); tot += pv[c] * (s[c] - s0[c]) - dt * (src[c] > 0 ? src[c] : src[c] * a / (a + b)); lim += nrm + 1e-11 * mg[c] + 1.01e-5 * pv[c] * (s[c] == m.smin_[2 * c] || s[c] == m.smax_[2 * c]); } CHK(std::fabs(tot) <= lim, "newton-total", cat(dsc, " total imbalance ", tot, " limit ", lim));
            if (!grav && !pc && flag == 1) { // the reordering solver solves the same equations
                Opm::TwophaseState z = st; bool k = true; try { Quiet q; Opm::TransportSolverTwophaseReorder tr(*g, m, 0, 1e-10, 500); tr.solve(&pv[0], &src[0], dt, z); } catch (const std::exception&) { k = false; }
                if (k) { dvec t(nc); for (int c = 0; c < nc; ++c) t[c] = z.saturation()[2 * c]; dvec R2 = residual(*g, pv, s0, t, v, dd, src, dt, mob); double diff = 0, bound = 0; for (int c = 0; c < nc; ++c) { diff += pv[c] * std::fabs(s[c] - t[c]); bound += std::fabs(R[c]) + std::fabs(R2[c]) + 1e-11 * mg[c]; } CHK(diff <= bound, "agreement", cat(dsc, " difference to reordering solver ", diff, " bound ", bound)); ev("solver_agreements"); } }
        } else { ev("newton_not_converged"); if (flag <= 0) { CHK(nrm >= 0.999e-6, "flag", cat(dsc, " flag ", flag, " with norm ", nrm)); if (mi == 30) { CHK(!easy, "easy-step", cat(dsc, " flag ", flag, " norm ", nrm)); } } }
    }
    if (col && grav) { // column solver for segregation only
        std::vector<std::vector<int>> cols; Opm::extractColumn(*g, cols); Opm::SimpleFluid2pWrappingProps fl(m); double tol = r.pick(dvec{1e-6, 1e-8, 1e-10}); dvec s2 = sat; bool done = true; dvec before = sat; double dts = dt;
        { CoutCatch cc; try { Quiet z; Model mod(fl, *g, pv, gp, r.p(0.5)); mod.initGravityTrans(*g, h); Opm::GravityColumnSolver<Model> gs(mod, *g, tol, 50); gs.solve(cols, dts, s2); } catch (const std::exception&) { done = false; } }
        if (!done) ev("columns_not_converged");
        else { ev("column_solves"); dvec zero(nf, 0.0), s(nc), gl2(nf, 0.0); for (int c = 0; c < nc; ++c) s[c] = s2[2 * c]; dvec dd = drive(s); for (auto& c : cols) for (size_t i = 0; i + 1 < c.size(); ++i) for (int k = g->cell_facepos[c[i]]; k < g->cell_facepos[c[i] + 1]; ++k) { int f = g->cell_faces[k]; if (g->face_cells[2 * f] == c[i + 1] || g->face_cells[2 * f + 1] == c[i + 1]) gl2[f] = dd[f]; }
            dvec nos(nc, 0.0), mg, R = residual(*g, pv, s0, s, zero, gl2, nos, dts, mob, &mg); bool ok = true;
            for (int c = 0; c < nc && ok; ++c) { ok = CHK(s[c] >= m.smin_[2 * c] && s[c] <= m.smax_[2 * c] && s2[2 * c + 1] == 1 - s[c], "column-bounds", cat(dsc, " cell ", c, " s ", s[c])); if (s[c] == m.smin_[2 * c] || s[c] == m.smax_[2 * c]) { ev("column_clamped"); continue; } }
            for (auto& cl : cols) { bool clamp = false; double mgx = 0, l1 = 0, tot = 0, pvs = 0; for (int c : cl) { if (s[c] == m.smin_[2 * c] || s[c] == m.smax_[2 * c]) clamp = true; mgx = std::max(mgx, mg[c]); l1 += std::fabs(R[c]); tot += pv[c] * (s[c] - s0[c]); pvs += pv[c]; } ev("newton_columns"); if (clamp) continue; ev("unclamped_columns"); if (ok) ok = CHK(l1 <= cl.size() * (tol * 60 + 1e-11) * mgx, "column-balance", cat(dsc, " column of ", cl.size(), " imbalance ", l1, " tol ", tol, " scale ", mgx)) && CHK(std::fabs(tot) <= cl.size() * (tol * 60 + 1e-11) * mgx, "column-volume", cat(dsc, " column gained ", tot)); } }
    }
    destroy_transport_source(ts); uint64_t hh = 5; for (double x : sat) hh = hcomb(hh, hdbl(x)); hh = hcomb(hh, hdbl(dt)); nontrivial(hh); sample(dsc);
}
// explicit and implicit steps approach each other as the step is refined: difference bounded by the movement per step (L1 contraction)
static void refine(Rng& r)
{
    std::string kind, fk; GridPtr g = any_grid(r, 3, 2, &kind); int nc = g->number_of_cells; if (nc > 60) return; MockIncomp m = random_mock(r, *g, 2, false, 1, false); dvec v = flux_for(r, *g, fk, 1.0), src = sources(*g, v), pv(nc, 1.0), zf(g->number_of_faces, 0.0), sat = random_sat(r, m), s0(nc); for (int c = 0; c < nc; ++c) s0[c] = sat[2 * c];
    double top = 0; for (int c = 0; c < nc; ++c) top = std::max(top, cell_rate(*g, v, src, c)); if (top == 0) return; double L = 0; for (int q = 0; q < nc; ++q) for (int i = 0; i < 400; ++i) { double x = i / 400.0, y = (i + 1) / 400.0; auto f = [&](double s) { double a = m.mob(q, 0, s), b = m.mob(q, 1, 1 - s); return a / (a + b); }; L = std::max(L, (f(y) - f(x)) * 400); } L *= 1.1;
    double T = r.u(0.2, 1) / top; std::string d = cat(kind, " cells ", nc, " flux ", fk);
    for (int pass = 0; pass < 2; ++pass) {
        int N = (int)std::ceil(T * top * L * (pass ? 8 : 2)) + 1; double dt = T / N; dvec e = s0, mob(2 * nc), t(nc); Opm::TwophaseState st; st.init(*g, 2); st.saturation() = sat; st.faceflux() = v; Opm::TransportSolverTwophaseReorder tr(*g, m, 0, 1e-11, 500); double moved = 0, resid = 0; bool ok = true;
        auto mobf = [&](int c, int p, double s) { return m.mob(c, p, p ? 1 - s : s); };
        for (int n = 0; n < N && ok; ++n) { for (int c = 0; c < nc; ++c) for (int p = 0; p < 2; ++p) mob[2 * c + p] = mobf(c, p, e[c]); spu_explicit(G(g), &e[0], &t[0], &mob[0], &v[0], &zf[0], &src[0], dt); e.swap(t); dvec a(nc), b(nc); for (int c = 0; c < nc; ++c) a[c] = st.saturation()[2 * c]; try { Quiet z; CoutCatch cc; tr.solve(&pv[0], &src[0], dt, st); } catch (const std::exception&) { ok = false; break; } for (int c = 0; c < nc; ++c) { b[c] = st.saturation()[2 * c]; moved += std::fabs(b[c] - a[c]); } dvec R = residual(*g, pv, a, b, v, zf, src, dt, mobf); for (double x : R) resid += std::fabs(x); }
        if (!ok) { ev("refine_skipped"); return; } double diff = 0; for (int c = 0; c < nc; ++c) diff += std::fabs(e[c] - st.saturation()[2 * c]); double bound = 2 * dt * top * L * moved + resid + 1e-9 * nc; CHK(diff <= bound, "refinement", cat(d, " steps ", N, " difference ", diff, " bound ", bound)); ev("refinements");
    }
}
static void one(long, Rng& r) { int w = r.i(0, 9); if (w < 5) minimal(r); else if (w < 9) newton(r); else refine(r); }
int main(int argc, char** argv) { return run(argc, argv, "p24", one); }
