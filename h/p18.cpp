// P18: mimetic inner products, hybridised pressure systems and their back substitution.
#include "config.h"
#define FLOW_NO_WELLS
#include "flow.hpp"
extern "C" {
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/mimetic.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/linalg/sparse_sys.h>
}
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
using namespace gl;

struct LWells { std::vector<int> pos, cells; std::vector<double> WI, wdp, target, zfrac; std::vector<well_type> type; std::vector<well_control> ctrl; well_t W; well_control_t C; int n() const { return (int)pos.size() - 1; }
    void bind() { W.number_of_wells = n(); W.well_connpos = &pos[0]; W.well_cells = &cells[0]; zfrac.assign(3 * n(), 0); C.type = &type[0]; C.ctrl = &ctrl[0]; C.target = &target[0]; C.zfrac = &zfrac[0]; } };

static bool solve(fsh_data* h)
{
    Opm::LinearSolverUmfpack ls; Opm::LinearSolverInterface::LinearSolverReport rep = ls.solve(h->A, h->b, h->x); return rep.converged;
}
static double scaled_min_pivot(int n, const double* B) // Cholesky of the symmetrically scaled matrix
{
    std::vector<double> L(n * n); double mn = 1e300; for (int i = 0; i < n; ++i) if (!(B[i * (n + 1)] > 0)) return -1;
    for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) { double s = B[i + j * n] / std::sqrt(B[i * (n + 1)] * B[j * (n + 1)]); for (int k = 0; k < j; ++k) s -= L[i * n + k] * L[j * n + k]; if (i == j) { mn = std::min(mn, s); if (s <= 0) return s; L[i * n + i] = std::sqrt(s); } else L[i * n + j] = s / L[j * n + j]; }
    return mn;
}

static void check_inner(const UnstructuredGrid& g, const MockIncomp& m, const std::vector<double>& Binv, std::vector<char>& planar, bool tame, const std::string& det)
{
    int d = g.dimensions; size_t p2 = 0; planar.assign(g.number_of_cells, 1);
    for (int c = 0; c < g.number_of_cells; ++c) {
        int p1 = g.cell_facepos[c], n = g.cell_facepos[c + 1] - p1; const double* B = &Binv[p2]; const double* K = &m.perm[(size_t)c * d * d]; double vol = g.cell_volumes[c];
        std::vector<double> N(n * d), C(n * d); for (int i = 0; i < n; ++i) { int f = g.cell_faces[p1 + i]; double s = g.face_cells[2 * f] == c ? 1 : -1; for (int k = 0; k < d; ++k) { N[i + k * n] = s * g.face_normals[d * f + k]; C[i + k * n] = g.face_centroids[d * f + k] - g.cell_centroids[d * c + k]; } }
        double M[9], dev = 0; for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { double t = 0; for (int i = 0; i < n; ++i) t += N[i + a * n] * C[i + b * n]; M[a + d * b] = t / vol; dev = std::max(dev, std::fabs(t / vol - (a == b))); }
        planar[c] = dev < 1e-8; double bmax = 0; for (int i = 0; i < n * n; ++i) { if (!CHK(std::isfinite(B[i]), "mim:finite", cat(det, " cell ", c))) return; bmax = std::max(bmax, std::fabs(B[i])); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) NEAR(B[i + j * n], B[j + i * n], 1e-10, bmax, "mim:symmetric", cat(det, " cell ", c, " entry ", i, ",", j));
        for (int b = 0; b < d; ++b) { double cs = 0; for (int i = 0; i < n; ++i) cs += std::fabs(C[i + b * n]); for (int i = 0; i < n; ++i) { double got = 0, want = 0; for (int j = 0; j < n; ++j) got += B[i + j * n] * C[j + b * n]; for (int e = 0; e < d; ++e) for (int q = 0; q < d; ++q) want += N[i + e * n] * K[e + d * q] * M[q + d * b]; NEAR(got, want, 1e-9, bmax * cs, "mim:linear-exact", cat(det, " cell ", c, " face ", i, " direction ", b)); } }
        if (planar[c]) { double mp = scaled_min_pivot(n, B); CHK(mp > (tame ? 1e-9 : -1e-11), "mim:positive-definite", cat(det, " cell ", c, " smallest scaled pivot ", mp)); mon::ev("inner_products"); }
        p2 += (size_t)n * n;
    }
}

struct Prob { std::vector<double> src, gp, Binv; BcPtr bc; LWells* w; std::vector<double> V, Bv, P; bool compr, closed; double tot0 = 0; };

// all equations of the original (unreduced) system, evaluated from the returned pressures and fluxes
static void check_solution(const UnstructuredGrid& g, const Prob& q, fsh_data* h, const std::vector<double>& cp, const std::vector<double>& ff, const std::vector<double>& wp, const std::vector<double>& wf, const std::string& det)
{
    int nc = g.number_of_cells, nf = g.number_of_faces; const double* pi = h->x; std::string pre = q.compr ? "cfsh" : "ifsh"; double shift0 = 0;
    for (int f = 0; f < nf; ++f) if (!CHK(std::isfinite(pi[f]), pre + ":finite", cat(det, " face pressure ", f))) return;
    for (int c = 0; c < nc; ++c) if (!CHK(std::isfinite(cp[c]), pre + ":finite", cat(det, " cell pressure ", c))) return;
    (void)shift0; std::vector<int> bct(nf, 0); std::vector<double> bcv(nf, 0); // 1 pressure 2 flux
    if (q.bc.b) for (size_t i = 0; i < q.bc.b->nbc; ++i) for (size_t j = q.bc.b->cond_pos[i]; j < q.bc.b->cond_pos[i + 1]; ++j) { bct[q.bc.b->face[j]] = q.bc.b->type[i] == BC_PRESSURE ? 1 : 2; bcv[q.bc.b->face[j]] = q.bc.b->value[i]; }
    double tot = q.tot0; if (q.closed) { for (double x : q.src) tot += std::fabs(x); if (q.w) for (int k = 0; k < q.w->n(); ++k) tot += std::fabs(q.w->target[k]); for (double x : bcv) tot += std::fabs(x); }
    int nh = g.cell_facepos[nc]; std::vector<double> v(nh), sc(nh); size_t p2 = 0; double gsc = 0;
    for (int c = 0; c < nc; ++c) { int p1 = g.cell_facepos[c], n = g.cell_facepos[c + 1] - p1; for (int i = 0; i < n; ++i) { double t = 0, s = 0; for (int j = 0; j < n; ++j) { double b = q.Binv[p2 + i + (size_t)j * n]; t += b * (q.gp[p1 + j] + cp[c] - pi[g.cell_faces[p1 + j]]); s += std::fabs(b) * (std::fabs(q.gp[p1 + j]) + std::fabs(cp[c]) + std::fabs(pi[g.cell_faces[p1 + j]])); } v[p1 + i] = t; sc[p1 + i] = s; gsc = std::max(gsc, s); } p2 += (size_t)n * n; }
    if (q.closed) tot += gsc; std::vector<double> sumv(nf, 0), ssc(nf, 0), avg(nf, 0); for (int c = 0; c < nc; ++c) for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { int f = g.cell_faces[i]; sumv[f] += v[i]; ssc[f] = std::max(ssc[f], sc[i]); avg[f] += (g.face_cells[2 * f] == c ? 1 : -1) * v[i]; }
    const double rt = 1e-9; int nb = 0;
    for (int f = 0; f < nf; ++f) {
        bool outer = g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0; avg[f] /= outer ? 1 : 2; double s = ssc[f] + tot;
        NEAR(ff[f], avg[f], rt, s, pre + ":face-flux", cat(det, " face ", f, " flux vs mean of its two sides"));
        if (!outer) NEAR(sumv[f], 0.0, rt, s, pre + ":flux-continuity", cat(det, " face ", f));
        else if (bct[f] == 1) { NEAR(pi[f], bcv[f], 1e-10, 0.0, pre + ":bc-pressure", cat(det, " face ", f)); mon::ev("pressure_faces"); ++nb; }
        else { NEAR(sumv[f], bct[f] == 2 ? bcv[f] : 0.0, rt, s, pre + ":bc-flux", cat(det, " face ", f, " outward flux")); mon::ev(bct[f] == 2 ? "flux_faces" : "noflow_faces"); }
    }
    std::vector<double> win(nc, 0), wsc(nc, 0);
    if (q.w) for (int k = 0; k < q.w->n(); ++k) {
        double t = 0, s = 0; for (int j = q.w->pos[k]; j < q.w->pos[k + 1]; ++j) { int c = q.w->cells[j]; double e = q.w->WI[j] * (wp[k] - cp[c] - q.w->wdp[j]), es = q.w->WI[j] * (std::fabs(wp[k]) + std::fabs(cp[c]) + std::fabs(q.w->wdp[j])); NEAR(wf[j], e, rt, es, pre + ":perforation-rate", cat(det, " well ", k, " perforation ", j)); win[c] += wf[j]; wsc[c] += es; t += wf[j]; s += es; mon::ev("perforations"); }
        NEAR(wp[k], pi[nf + k], 0, 0, pre + ":well-pressure", cat(det, " well ", k));
        if (q.w->ctrl[k] == BHP) { NEAR(wp[k], q.w->target[k], 1e-10, 0, pre + ":bhp", cat(det, " well ", k)); mon::ev("bhp_wells"); } else { NEAR(t, q.w->target[k], rt, s + tot, pre + ":rate", cat(det, " well ", k)); mon::ev("rate_wells"); }
    }
    p2 = 0; for (int c = 0; c < nc; ++c) {
        int p1 = g.cell_facepos[c], n = g.cell_facepos[c + 1] - p1; double b = 0, s = std::fabs(q.src[c]) + wsc[c] + tot, bf = 0; for (int i = p1; i < p1 + n; ++i) { b += (1 - (q.compr ? q.V[i] : 0)) * v[i]; s += (1 + (q.compr ? std::fabs(q.V[i]) : 0)) * sc[i]; int f = g.cell_faces[i]; bf += (g.face_cells[2 * f] == c ? 1 : -1) * ff[f]; }
        if (q.compr) { b -= q.P[c] * cp[c]; s += std::fabs(q.P[c] * cp[c]); }
        NEAR(b, q.src[c] + win[c], rt, s, pre + ":cell-balance", cat(det, " cell ", c, " outflow vs source + wells"));
        if (!q.compr) NEAR(bf, q.src[c] + win[c], rt, s, pre + ":fine-flux-balance", cat(det, " cell ", c)); mon::ev("cells_balanced"); p2 += (size_t)n * n;
    }
    mon::ev(q.compr ? "compr_solves" : "incomp_solves"); if (q.closed) mon::ev("closed_solves"); (void)nb; (void)gsc;
}

static void local_schur(Rng& r)
{
    int nc = r.i(1, 4); std::vector<int> pos(1, 0); int mx = 0; for (int c = 0; c < nc; ++c) { int n = r.i(1, 8); mx = std::max(mx, n); pos.push_back(pos.back() + n); } int nh = pos.back();
    std::vector<double> B, C2(nh), V(nh), BV(nh), P(nc), g(nh), src(nc); for (auto& x : C2) x = r.u(0.2, 1.8); for (auto& x : V) x = r.u(-0.4, 0.4); for (auto& x : P) x = -r.u(0, 3); for (auto& x : g) x = r.u(-2, 2); for (auto& x : src) x = r.u(-2, 2);
    for (int c = 0; c < nc; ++c) { int n = pos[c + 1] - pos[c]; std::vector<double> A(n * n); for (auto& x : A) x = r.u(-1, 1); size_t o = B.size(); B.resize(o + n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = (i == j) * 0.3; for (int k = 0; k < n; ++k) s += A[i + k * n] * A[j + k * n]; B[o + i + j * n] = s; } for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += B[o + i + j * n] * V[pos[c] + j]; BV[pos[c] + i] = s; } }
    int mode = r.i(0, 2); // symmetric, unsymmetric (C-V), general
    hybsys* sys = mode == 0 ? hybsys_allocate_symm(mx, nc, nh) : hybsys_allocate_unsymm(mx, nc, nh); hybsys_init(mx, sys);
    if (mode == 0) hybsys_schur_comp_symm(nc, &pos[0], &B[0], sys); else if (mode == 1) hybsys_schur_comp_unsymm(nc, &pos[0], &B[0], &BV[0], &P[0], sys); else hybsys_schur_comp_gen(nc, &pos[0], &B[0], &C2[0], &P[0], sys);
    int p2 = 0; for (int c = 0; c < nc; ++c) {
        int p1 = pos[c], n = pos[c + 1] - p1; const double* b = &B[p2]; std::vector<double> w(n); for (int i = 0; i < n; ++i) w[i] = mode == 0 ? 1 : mode == 1 ? 1 - V[p1 + i] : C2[p1 + i];
        std::vector<double> F1(n, 0), F2(n, 0); double L = mode ? -P[c] : 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { F1[i] += b[i + j * n]; F2[i] += w[j] * b[j + i * n]; } for (double x : F2) L += x;
        double q = src[c]; for (int i = 0; i < n; ++i) q -= F2[i] * g[p1 + i]; double bm = 0; for (int i = 0; i < n * n; ++i) bm = std::max(bm, std::fabs(b[i])); double sc = n * bm; double amp = 1 + n * sc / std::fabs(L);
        if (std::fabs(L) < 1e-3 * sc) { p2 += n * n; continue; }
        if (mode == 0) hybsys_cellcontrib_symm(c, n, p1, p2, &g[0], &src[0], &B[0], sys); else hybsys_cellcontrib_unsymm(c, n, p1, p2, &g[0], &src[0], &B[0], sys);
        NEAR(sys->L[c], L, 1e-11, sc, "schur:L", cat("mode ", mode, " cell ", c)); NEAR(sys->q[c], q, 1e-11, sc * n, "schur:q", cat("mode ", mode, " cell ", c));
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) NEAR(sys->S[i + j * n], b[i + j * n] - F1[i] * F2[j] / L, 1e-11, sc * amp, "schur:S", cat("mode ", mode, " cell ", c, " entry ", i, ",", j)); double rr = F1[i] * q / L; for (int j = 0; j < n; ++j) rr += b[i + j * n] * g[p1 + j]; NEAR(sys->r[i], rr, 1e-11, sc * amp * n, "schur:r", cat("mode ", mode, " cell ", c, " row ", i)); }
        mon::ev(mode == 0 ? "schur_symm" : mode == 1 ? "schur_unsymm" : "schur_general"); p2 += n * n;
    }
    hybsys_free(sys);
}

int main(int argc, char** argv)
{
    return mon::run(argc, argv, "p18", [](long, Rng& r) {
        local_schur(r);
        std::string kind; GridPtr g = any_grid(r, 6, 5, &kind); int d = g->dimensions, nc = g->number_of_cells, nf = g->number_of_faces, nh = g->cell_facepos[nc]; bool si = r.p(0.3), tensor = r.p(0.5); double spread = r.pick(std::vector<double>{0, 1, 3});
        MockIncomp m = random_mock(r, *g, 2, si, spread, tensor); if (nh == 0) return;
        std::string det = cat(kind, si ? " SI" : "", tensor ? " tensor" : "");
        std::vector<double> Bin0; { size_t s = 0; int mx = 0; for (int c = 0; c < nc; ++c) { int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; s += (size_t)n * n; mx = std::max(mx, n); } Bin0.assign(s, std::nan(""));
            mim_ip_simple_all(nc, d, mx, g->cell_facepos, g->cell_faces, g->face_cells, g->face_centroids, g->face_normals, g->face_areas, g->cell_centroids, g->cell_volumes, &m.perm[0], &Bin0[0]); }
        bool tame = kind.find("polyhedral") == 0 || kind.find("cart") != std::string::npos; std::vector<char> planar; tame = tame && false; check_inner(*g, m, Bin0, planar, tame, det);
        { // well-shaped boxes and sheared blocks must give clearly definite inner products
            int dd = r.i(2, 3); GridPtr b(dd == 2 ? create_grid_cart2d(1, 2, r.u(0.5, 2), r.u(0.5, 2)) : create_grid_hexa3d(2, 1, 1, r.u(0.5, 2), r.u(0.5, 2), r.u(0.5, 2))); MockIncomp q = random_mock(r, *b, 2, false, 0, r.p(0.5)); std::vector<double> B(4 * dd * dd * b->number_of_cells); std::vector<char> pl;
            mim_ip_simple_all(b->number_of_cells, dd, 2 * dd, b->cell_facepos, b->cell_faces, b->face_cells, b->face_centroids, b->face_normals, b->face_areas, b->cell_centroids, b->cell_volumes, &q.perm[0], &B[0]); check_inner(*b, q, B, pl, true, "box"); }
        double kref = 0; for (double x : Bin0) kref = std::max(kref, std::fabs(x));
        // static helpers
        double grav[3] = {0, 0, 0}; if (r.p(0.6)) { grav[d - 1] = si ? 9.81 : r.u(0.2, 2); if (r.p(0.3)) for (int k = 0; k < d; ++k) grav[k] = r.u(-1, 1) * (si ? 9.81 : 1); if (r.p(0.1)) { grav[r.i(0, d - 1)] = r.u(-1, 1) * (si ? 9.81 : 1); grav[r.i(0, d - 1)] = 0; } }
        std::vector<double> s = random_sat(r, m), tm(nc), om(nc), gp0(nh), gp(nh), Binv(Bin0.size()); for (int c = 0; c < nc; ++c) { tm[c] = std::max(m.totmob(c, &s[2 * c]), 1e-3 / m.mu[0]); om[c] = r.u(0.5, 1.5) * m.rho[0]; }
        mim_ip_compute_gpress(nc, d, grav, g->cell_facepos, g->cell_faces, g->face_centroids, g->cell_centroids, &gp0[0]); mim_ip_mobility_update(nc, g->cell_facepos, &tm[0], &Bin0[0], &Binv[0]); mim_ip_density_update(nc, g->cell_facepos, &om[0], &gp0[0], &gp[0]);
        { size_t p2 = 0; for (int c = 0; c < nc; ++c) { int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { int f = g->cell_faces[i]; double e = 0, es = 0; for (int k = 0; k < d; ++k) { e += grav[k] * (g->face_centroids[d * f + k] - g->cell_centroids[d * c + k]); es += std::fabs(grav[k]) * (std::fabs(g->face_centroids[d * f + k]) + std::fabs(g->cell_centroids[d * c + k])); } NEAR(gp0[i], e, 1e-13, es, "mim:gpress", cat(det, " cell ", c, " half-face ", i)); NEAR(gp[i], om[c] * gp0[i], 1e-14, 0, "mim:density", cat(det, " cell ", c)); } for (int i = 0; i < n * n; ++i) NEAR(Binv[p2 + i], tm[c] * Bin0[p2 + i], 1e-14, 0, "mim:mobility", cat(det, " cell ", c)); p2 += (size_t)n * n; } }

        UF u(nc); join_faces(*g, u); std::vector<int> bf = boundary_faces(*g); double P0 = si ? 1e7 : 1.0; int nsolve = r.i(1, 3); bool compr = r.p(0.3);
        LWells lw; bool wells = !compr && r.p(0.6);
        if (wells) { int nw = r.i(1, 4); lw.pos.assign(1, 0); for (int w = 0; w < nw; ++w) { std::set<int> cs; int np = r.i(1, 4); for (int k = 0; k < np; ++k) cs.insert(r.p(0.4) ? r.i(0, std::min(nc - 1, 1)) : r.i(0, nc - 1)); std::vector<int> v(cs.begin(), cs.end()); r.shuffle(v); lw.cells.insert(lw.cells.end(), v.begin(), v.end()); lw.pos.push_back((int)lw.cells.size()); lw.type.push_back(r.p(0.5) ? INJECTOR : PRODUCER); lw.ctrl.push_back(BHP); lw.target.push_back(0); } lw.WI.resize(lw.cells.size()); lw.wdp.resize(lw.cells.size()); lw.bind(); }
        fsh_data* h = compr ? cfsh_construct(g.g, 0) : ifsh_construct(g.g, wells ? &lw.W : 0); if (!CHK(h != 0, "construct", det)) return;
        { int mx = 0; size_t s2 = 0; for (int c = 0; c < nc; ++c) { int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; mx = std::max(mx, n); s2 += (size_t)n * n; } CHK(h->max_ngconn == mx && h->sum_ngconn2 == s2, "fsh:counts", det); CHK((int)h->A->m == nf + (wells ? lw.n() : 0), "fsh:size", det); }
        uint64_t hash = mon::hstr(kind);
        for (int it = 0; it < nsolve; ++it) {
            Prob q; q.compr = compr; q.Binv = Binv; q.gp = gp; q.w = wells ? &lw : 0; q.src.assign(nc, 0); double Q = kref * P0 * 0.05 / (si ? m.mu[0] : 1.0);
            if (wells) { for (auto& x : lw.WI) x = kref * (si ? 1 / m.mu[0] : 1) * r.logu(0.02, 5); for (auto& x : lw.wdp) x = r.p(0.3) ? 0.0 : r.u(-0.1, 0.1) * P0; for (int w = 0; w < lw.n(); ++w) { lw.ctrl[w] = r.p(0.5) ? BHP : RATE; lw.target[w] = lw.ctrl[w] == BHP ? P0 * r.u(0.5, 2) : r.p(0.1) ? 0.0 : Q * r.u(-1, 1); } }
            bool usebc = r.p(0.75); double pp = r.p(0.4) ? 0.0 : r.u(); q.bc = usebc ? BcPtr(flow_conditions_construct(r.i(0, 5))) : BcPtr(); std::set<int> used;
            if (usebc && r.p(0.3)) { std::vector<int> o = bf; r.shuffle(o); int n = r.i(1, std::min<int>(o.size(), 40)); o.resize(n); used.insert(o.begin(), o.end()); flow_conditions_append_multi(BC_PRESSURE, n, &o[0], P0 * r.u(0.5, 2), q.bc.b); if (n > 6) ev("large_pressure_groups"); } // one condition on many faces
            if (usebc) for (int f : bf) { if (r.p(0.4) || used.count(f)) continue; used.insert(f); if (r.p(pp)) flow_conditions_append(BC_PRESSURE, f, r.p(0.12) ? 0.0 : P0 * r.u(0.5, 2), q.bc.b); else flow_conditions_append(BC_FLUX_TOTVOL, f, r.p(0.2) ? 0.0 : Q * r.u(-1, 1), q.bc.b); }
            if (r.p(0.6)) for (auto& x : q.src) if (r.p(0.4)) x = Q * r.u(-1, 1);
            // reference pressure in every connected part (rate wells connect their cells)
            UF uu = u; if (wells) for (int w = 0; w < lw.n(); ++w) if (lw.ctrl[w] == RATE) for (int k = lw.pos[w] + 1; k < lw.pos[w + 1]; ++k) uu.join(lw.cells[lw.pos[w]], lw.cells[k]);
            std::vector<char> ref(nc, 0); int ncomp = 0, nref = 0; for (int c = 0; c < nc; ++c) ncomp += uu.find(c) == c; std::set<int> refs;
            if (q.bc.b) for (size_t i = 0; i < q.bc->nbc; ++i) if (q.bc->type[i] == BC_PRESSURE) refs.insert(uu.find(bcell(*g, q.bc->face[i])));
            if (wells) for (int w = 0; w < lw.n(); ++w) if (lw.ctrl[w] == BHP) for (int k = lw.pos[w]; k < lw.pos[w + 1]; ++k) refs.insert(uu.find(lw.cells[k])); nref = (int)refs.size();
            if (compr) { q.V.resize(nh); q.Bv.assign(nh, 0); q.P.resize(nc); bool zv = r.p(0.2); for (auto& x : q.V) x = zv ? 0.0 : r.u(-0.1, 0.1); bool zp = r.p(0.2); size_t p2 = 0; for (int c = 0; c < nc; ++c) { int p1 = g->cell_facepos[c], n = g->cell_facepos[c + 1] - p1; double tr = 0; for (int i = 0; i < n; ++i) { tr += std::fabs(Binv[p2 + i * (n + 1)]); for (int j = 0; j < n; ++j) q.Bv[p1 + i] += Binv[p2 + i + (size_t)j * n] * q.V[p1 + j]; } q.P[c] = zp ? 0.0 : -tr * r.logu(1e-3, 3); p2 += (size_t)n * n; } if (zp && !zv) { std::fill(q.V.begin(), q.V.end(), 0.0); std::fill(q.Bv.begin(), q.Bv.end(), 0.0); } if (!zp) { nref = ncomp; mon::ev("accumulation"); } }
            q.closed = false; { double bm = 0; for (double x : Binv) bm = std::max(bm, std::fabs(x)); q.tot0 = 1e-3 * bm * P0; }
            if (nref < ncomp && !(compr && nref == ncomp)) {
                if (ncomp == 1 && nref == 0 && (r.p(0.6) || bf.empty())) { // closed: compatible data
                    q.closed = true; for (double x : q.src) q.tot0 += std::fabs(x); double tot = 0; for (double x : q.src) tot += x; if (wells) for (int w = 0; w < lw.n(); ++w) tot += lw.target[w]; if (q.bc.b) for (size_t i = 0; i < q.bc->nbc; ++i) tot -= q.bc->value[i]; q.src[r.i(0, nc - 1)] -= tot; }
                else { if (!q.bc.b) q.bc = BcPtr(flow_conditions_construct(0)); std::vector<int> o = bf; r.shuffle(o); for (int f : o) { int k = uu.find(bcell(*g, f)); if (!refs.count(k) && !used.count(f)) { flow_conditions_append(BC_PRESSURE, f, P0 * r.u(0.5, 2), q.bc.b); refs.insert(k); used.insert(f); } }
                    if (q.bc.b) for (size_t i = 0; i < q.bc->nbc; ++i) { int k = uu.find(bcell(*g, q.bc->face[i])); if (!refs.count(k)) { q.bc->type[i] = BC_PRESSURE; q.bc->value[i] = P0; refs.insert(k); } } }
            }
            csrmatrix_zero(h->A); vector_zero(h->A->m, h->b); for (size_t i = 0; i < h->A->m; ++i) h->x[i] = std::nan("");
            if (compr) cfsh_assemble(q.bc.b, &q.src[0], &Binv[0], &q.Bv[0], &q.P[0], &gp[0], 0, 0, 0, 0, h); else ifsh_assemble(q.bc.b, &q.src[0], &Binv[0], &gp[0], wells ? &lw.C : 0, wells ? &lw.WI[0] : 0, wells ? &lw.wdp[0] : 0, h);
            if (!compr) { const CSRMatrix* A = h->A; double mx = 0; for (int k = 0; k < A->ia[A->m]; ++k) mx = std::max(mx, std::fabs(A->sa[k])); for (int i = 0; i < (int)A->m; ++i) for (int k = A->ia[i]; k < A->ia[i + 1]; ++k) { int j = A->ja[k]; double t = 0; for (int l = A->ia[j]; l < A->ia[j + 1]; ++l) if (A->ja[l] == i) t += A->sa[l]; NEAR(A->sa[k], t, 1e-10, mx, "ifsh:symmetric-system", cat(det, " entry ", i, ",", j)); } }
            std::string dt = cat(det, " solve ", it, wells ? cat(" wells ", lw.n()) : "", q.closed ? " closed" : ""); if (!CHK(solve(h), "solve", dt)) break;
            std::vector<double> cp(nc, std::nan("")), ff(nf, std::nan("")), wp(wells ? lw.n() : 0, std::nan("")), wf(wells ? lw.cells.size() : 0, std::nan(""));
            fsh_press_flux(g.g, &Binv[0], &gp[0], h, &cp[0], &ff[0], wells ? &wp[0] : 0, wells ? &wf[0] : 0); check_solution(*g, q, h, cp, ff, wp, wf, dt); for (double x : cp) hash = mon::hcomb(hash, mon::hdbl(x));
        }
        fsh_destroy(h);
        // linear pressure in a homogeneous medium is reproduced exactly
        bool allplanar = true; for (char x : planar) allplanar = allplanar && x;
        if (allplanar) {
            MockIncomp one = random_mock(r, *g, 2, false, 0, true); for (int c = 1; c < nc; ++c) std::copy(one.perm.begin(), one.perm.begin() + d * d, one.perm.begin() + (size_t)c * d * d); const double* K = &one.perm[0]; int mx = 0; for (int c = 0; c < nc; ++c) mx = std::max(mx, g->cell_facepos[c + 1] - g->cell_facepos[c]);
            std::vector<double> B(Bin0.size()); mim_ip_simple_all(nc, d, mx, g->cell_facepos, g->cell_faces, g->face_cells, g->face_centroids, g->face_normals, g->face_areas, g->cell_centroids, g->cell_volumes, &one.perm[0], &B[0]);
            double a[3], lo[3], hi[3], L = 0; for (int k = 0; k < d; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (int i = 0; i < g->number_of_nodes; ++i) { lo[k] = std::min(lo[k], g->node_coordinates[d * i + k]); hi[k] = std::max(hi[k], g->node_coordinates[d * i + k]); } L = std::max(L, hi[k] - lo[k]); a[k] = r.u(-1, 1); }
            auto pr = [&](const double* x) { double t = 1; for (int k = 0; k < d; ++k) t += a[k] * (x[k] - lo[k]) / L; return t; };
            double rho = r.p(0.5) ? r.u(0, 2) : 0.0; std::vector<double> gq(nh); for (int i = 0, c = 0; c < nc; ++c) for (; i < g->cell_facepos[c + 1]; ++i) gq[i] = rho * gp0[i]; double vel[3]; for (int k = 0; k < d; ++k) { vel[k] = 0; for (int l = 0; l < d; ++l) vel[k] -= K[k + d * l] * (a[l] / L - rho * grav[l]); }
            BcPtr bc(flow_conditions_construct(0)); bool anyp = false; std::vector<double> zero(nc, 0); UF uu = u; std::set<int> refs;
            for (int f : bf) { int k = uu.find(bcell(*g, f)); if (!refs.count(k) || r.p(0.6)) { refs.insert(k); flow_conditions_append(BC_PRESSURE, f, pr(g->face_centroids + d * f), bc.b); anyp = true; } else { double q = 0; for (int l = 0; l < d; ++l) q += vel[l] * g->face_normals[d * f + l]; if (g->face_cells[2 * f] < 0) q = -q; flow_conditions_append(BC_FLUX_TOTVOL, f, q, bc.b); } }
            fsh_data* e = ifsh_construct(g.g, 0); csrmatrix_zero(e->A); vector_zero(e->A->m, e->b); ifsh_assemble(bc.b, &zero[0], &B[0], &gq[0], 0, 0, 0, e); (void)anyp;
            if (CHK(solve(e), "solve", det)) {
                std::vector<double> cp(nc), ff(nf); fsh_press_flux(g.g, &B[0], &gq[0], e, &cp[0], &ff[0], 0, 0); double am = 0, bmx = 0; for (int f = 0; f < nf; ++f) am = std::max(am, g->face_areas[f]); for (double x : B) bmx = std::max(bmx, std::fabs(x)); double vm = 0; for (int k = 0; k < d; ++k) vm = std::max(vm, std::fabs(vel[k]));
                for (int c = 0; c < nc; ++c) NEAR(cp[c], pr(g->cell_centroids + d * c), 1e-7, 1, "linear:cell-pressure", cat(det, " cell ", c)); for (int f = 0; f < nf; ++f) { NEAR(e->x[f], pr(g->face_centroids + d * f), 1e-7, 1, "linear:face-pressure", cat(det, " face ", f)); double q = 0; for (int l = 0; l < d; ++l) q += vel[l] * g->face_normals[d * f + l]; NEAR(ff[f], q, 1e-7, std::max(vm * am, 1e-3 * bmx), "linear:flux", cat(det, " face ", f)); } mon::ev("linear_solves");
            }
            fsh_destroy(e);
        }
        mon::nontrivial(hash); mon::sample(det);
    });
}
