// P19: compressible two-point pressure solver against an independent evaluation of volume balances, upwinding, controls and Jacobians.
#include "config.h"
#include "blackoil.hpp"
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <iostream>
using namespace gl;
using namespace Opm;
typedef std::vector<double> V;

static bool solve3(int n, const double* A, double* x) // A column-major, n<=3, x in/out
{
    long double M[3][4]; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) M[i][j] = A[i + n * j]; M[i][n] = x[i]; }
    for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (fabsl(M[i][k]) > fabsl(M[p][k])) p = i; if (M[p][k] == 0) return false; for (int j = 0; j <= n; ++j) std::swap(M[k][j], M[p][j]); for (int i = k + 1; i < n; ++i) { long double f = M[i][k] / M[k][k]; for (int j = k; j <= n; ++j) M[i][j] -= f * M[k][j]; } }
    for (int k = n - 1; k >= 0; --k) { long double s = M[k][n]; for (int j = k + 1; j < n; ++j) s -= M[k][j] * x[j]; x[k] = (double)(s / M[k][k]); }
    return true;
}
static double get(const CSRMatrix* J, int i, int j) { for (int k = J->ia[i]; k < J->ia[i + 1]; ++k) if (J->ja[k] == j) return J->sa[k]; return 0; }

static Wells* random_wells(Rng& r, const UnstructuredGrid& g, int np, double pl, double ph, double wi, double q, bool surf, int maxw)
{
    int nc = g.number_of_cells; int nw = r.i(1, maxw); Wells* W = create_wells(np, 0, 0);
    double zl = 1e300, zh = -1e300; int d = g.dimensions; for (int c = 0; c < nc; ++c) { zl = std::min(zl, g.cell_centroids[d * c + d - 1]); zh = std::max(zh, g.cell_centroids[d * c + d - 1]); }
    for (int w = 0; w < nw; ++w) {
        int npf = r.p(0.04) ? 0 : r.i(1, std::min(nc, 4)); if (!npf) ev("wells_without_perforations"); std::vector<int> cells; std::set<int> u; for (int k = 0; k < npf; ++k) { int c = r.i(0, nc - 1); if (u.insert(c).second) cells.push_back(c); }
        V wis; for (size_t k = 0; k < cells.size(); ++k) wis.push_back(wi * r.logu(0.2, 5));
        bool inj = r.p(0.5); V cf(np, 0.0); cf[r.i(0, np - 1)] = 1;
        add_well(inj ? INJECTOR : PRODUCER, r.u(zl, zh), (int)cells.size(), &cf[0], cells.data(), wis.data(), cat("W", w).c_str(), W);
        int nctl = r.i(1, 3); for (int k = 0; k < nctl; ++k) { int t = r.i(0, surf ? 2 : 1); V di(np, 1.0); if (t >= 1 && np > 1 && r.p(t == 2 ? 0.6 : 0.3)) { if (inj) di = cf; else { int q0 = r.i(0, np - 1); for (int p = 0; p < np; ++p) di[p] = p == q0 || r.p(0.5); } } double sg = inj ? 1 : -1;
            if (t == 0) append_well_controls(BHP, r.u(pl, ph), 0, w, W); else append_well_controls(t == 1 ? RESERVOIR_RATE : SURFACE_RATE, sg * q * r.u(0.05, 1), &di[0], w, W); }
        set_current_control(w, r.i(0, nctl - 1), W); if (r.p(0.15) || !npf) set_current_control(w, ~W->ctrls[w]->current, W);
    }
    return W;
}

// ---------------------------------------------------------------- C level: arbitrary quantities
static void clevel(Rng& r)
{
    std::string kind; GridPtr g = any_grid(r, 4, 3, &kind); int nc = g->number_of_cells, nf = g->number_of_faces, np = r.i(1, 3), n2 = np * np;
    V Ac(nc * n2), dAc(nc * n2), Af(nf * n2), mobf(nf * np), gcap(nf * np), vd(nc, 0), z(nc * np), pv(nc), pv0(nc), rc(nc), T(nf), p(nc); bool incomp = r.p(0.3), rock = r.p(0.4), rockact = rock && r.p(0.8), offd = r.p(0.6), zero_mob = r.p(0.2);
    auto rm = [&](double* A) { for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) A[i + np * j] = i == j ? r.u(0.5, 2) : offd ? r.u(-0.2, 0.2) : 0; };
    for (int c = 0; c < nc; ++c) { rm(&Ac[c * n2]); for (int k = 0; k < n2; ++k) dAc[c * n2 + k] = incomp ? 0 : (k % (np + 1) == 0 ? r.u(0, 0.3) : offd ? r.u(-0.05, 0.05) : 0); for (int q = 0; q < np; ++q) z[c * np + q] = r.u(0, 1); pv[c] = pv0[c] = r.u(0.1, 2); rc[c] = 0; if (rockact) { pv[c] *= r.u(0.9, 1.1); rc[c] = r.u(0, 0.3); } p[c] = r.u(-3, 3); }
    for (int f = 0; f < nf; ++f) { rm(&Af[f * n2]); T[f] = r.u(0.1, 3); for (int q = 0; q < np; ++q) { mobf[f * np + q] = zero_mob && np > 1 && q == 0 ? 0 : r.u(0.05, 2); gcap[f * np + q] = r.u(-1, 1); } }
    double dt = r.logu(0.01, 10); WellsPtr W; if (r.p(0.6)) W = WellsPtr(random_wells(r, *g, np, -3, 3, 0.5, 1, true, 3)); int nw = W.w ? W->number_of_wells : 0, npf = nw ? W->well_connpos[nw] : 0;
    V wdp(npf), wA(npf * n2), wm(npf * np), bhp(nw); for (int k = 0; k < npf; ++k) { wdp[k] = r.u(-0.5, 0.5); rm(&wA[k * n2]); for (int q = 0; q < np; ++q) wm[k * np + q] = r.u(0.05, 2); } for (auto& x : bhp) x = r.u(-3, 3);
    CompletionData cd; cd.wdp = npf ? &wdp[0] : 0; cd.A = npf ? &wA[0] : 0; cd.phasemob = npf ? &wm[0] : 0; cfs_tpfa_res_wells cw; cw.W = W.w; cw.data = &cd; cfs_tpfa_res_forces fo; fo.wells = &cw; fo.src = 0;
    compr_src* src = 0; V srcv(nc, 0); if (r.p(0.4)) { src = compr_src_allocate(np, r.i(0, 2)); int ns = r.i(1, 3); V sat(np, 1.0 / np); for (int k = 0; k < ns; ++k) { int c = r.i(0, nc - 1); double q = r.u(-1, 1); if (!CHK(append_compr_source_term(c, np, q, &sat[0], src) > 0, "c:source", "append_compr_source_term failed")) break; srcv[c] += q; } fo.src = src; }
    compr_quantities_gen cq; cq.nphases = np; cq.Ac = &Ac[0]; cq.dAc = &dAc[0]; cq.Af = &Af[0]; cq.phasemobf = &mobf[0]; cq.voldiscr = &vd[0];
    cfs_tpfa_res_data* h = cfs_tpfa_res_construct(g.g, &cw, np); std::string det = cat(kind, " cells ", nc, " phases ", np, " wells ", nw, " rock ", rock);
    if (!CHK(h != 0, "c:construct", det + " returned NULL")) { if (src) compr_src_deallocate(src); return; }
    int nd = nc + nw; CHK((int)h->J->m == nd, "c:size", cat(det, " system size ", h->J->m));
    auto assemble = [&](const V& pp, const V& bb, V& F) { const double* bp = nw ? &bb[0] : 0; int s = rock ? cfs_tpfa_res_comprock_assemble(g.g, dt, &fo, &z[0], &cq, &T[0], &gcap[0], &pp[0], bp, &pv[0], &pv0[0], &rc[0], h) : cfs_tpfa_res_assemble(g.g, dt, &fo, &z[0], &cq, &T[0], &gcap[0], &pp[0], bp, &pv0[0], h); F.assign(h->F, h->F + nd); return s; };
    V F; int sing = assemble(p, bhp, F); V J((size_t)nd * nd); for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) J[(size_t)i * nd + j] = get(h->J, i, j);
    // independent residual
    V R(nd, 0), Sc(nd, 0); std::vector<V> u(nc, V(np)); V su(np);
    auto accum = [&](int c, double f, const V& flux) { V x = flux; V ab = flux; solve3(np, &Ac[c * n2], &x[0]); for (int q = 0; q < np; ++q) { R[c] += f * x[q]; Sc[c] += std::fabs(f * x[q]); } };
    for (int c = 0; c < nc; ++c) { V zz(z.begin() + c * np, z.begin() + (c + 1) * np); R[c] = pv0[c]; Sc[c] = pv0[c]; accum(c, -pv0[c], zz); if (rock) { R[c] += pv[c] - pv0[c]; Sc[c] += pv[c]; } R[c] -= dt * srcv[c]; Sc[c] += dt * std::fabs(srcv[c]); }
    std::vector<V> fv(nf, V(np, 0)), cf(nf, V(np, 0));
    for (int f = 0; f < nf; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; for (int q = 0; q < np; ++q) fv[f][q] = T[f] * mobf[f * np + q] * (p[a] - p[b] + gcap[f * np + q]); for (int i = 0; i < np; ++i) for (int q = 0; q < np; ++q) cf[f][i] += Af[f * n2 + i + np * q] * fv[f][q]; accum(a, dt, cf[f]); accum(b, -dt, cf[f]); }
    std::vector<V> wq(npf, V(np, 0)), wc(npf, V(np, 0)); bool anybhp = false;
    for (int w = 0; w < nw; ++w) {
        WellControls* ct = W->ctrls[w]; bool open = ct->current >= 0; int cur = ct->current; if (open && ct->type[cur] == BHP) anybhp = true;
        for (int k = W->well_connpos[w]; k < W->well_connpos[w + 1]; ++k) {
            int c = W->well_cells[k]; double dp = bhp[w] + wdp[k] - p[c]; for (int q = 0; q < np; ++q) wq[k][q] = W->WI[k] * wm[k * np + q] * dp; for (int i = 0; i < np; ++i) for (int q = 0; q < np; ++q) wc[k][i] += wA[k * n2 + i + np * q] * wq[k][q];
            if (open) { accum(c, -dt, wc[k]); for (int q = 0; q < np; ++q) { double t = ct->type[cur] == BHP ? W->WI[k] * wm[k * np + q] * (bhp[w] - ct->target[cur]) : ct->type[cur] == RESERVOIR_RATE ? ct->distr[np * cur + q] * wq[k][q] : ct->distr[np * cur + q] * wc[k][q]; R[nc + w] += dt * t; Sc[nc + w] += std::fabs(dt * t); } }
        }
        if (open && ct->type[cur] != BHP) { R[nc + w] -= dt * ct->target[cur]; Sc[nc + w] += std::fabs(dt * ct->target[cur]); }
    }
    bool ok = true;
    for (int i = 0; i < nd && ok; ++i) ok = NEAR(F[i], R[i], 1e-11, Sc[i] + 1e-3, i < nc ? "c:cell-residual" : "c:well-residual", cat(det, " residual of ", i < nc ? "cell " : "well ", i < nc ? i : i - nc));
    bool wantsing = incomp && !rockact && !anybhp; if (incomp) ev(wantsing ? "singular" : "incomp_nonsingular");
    CHK((sing != 0) == wantsing, "c:singular", cat(det, " reported singular ", sing, " expected ", wantsing, " (incompressible ", incomp, ", pressure-controlled well ", anybhp, ")"));
    // Jacobian by central differences: cell matrices move linearly with pressure, everything else frozen
    double h0 = 1e-4; V Fm, Fp; V Asave = Ac, pvsave = pv; int ncol = std::min(nd, 12);
    for (int jj = 0; jj < ncol && ok; ++jj) {
        int j = nd <= 12 ? jj : (jj == 0 ? 0 : r.p(0.3) && nw ? nc + r.i(0, nw - 1) : r.i(0, nd - 1)); V pp = p, bb = bhp;
        for (int s = -1; s <= 1; s += 2) { if (j < nc) { pp[j] = p[j] + s * h0; for (int k = 0; k < n2; ++k) Ac[j * n2 + k] = Asave[j * n2 + k] + s * h0 * dAc[j * n2 + k]; pv[j] = pvsave[j] * (1 + s * h0 * rc[j]); } else bb[j - nc] = bhp[j - nc] + s * h0; assemble(pp, bb, s < 0 ? Fm : Fp); }
        Ac = Asave; pv = pvsave;
        for (int i = 0; i < nd && ok; ++i) {
            double fd = (Fp[i] - Fm[i]) / (2 * h0), Jv = J[(size_t)i * nd + j]; double sc = 0; for (int k = 0; k < nd; ++k) sc = std::max(sc, std::fabs(J[(size_t)i * nd + k]));
            if (i >= nc && W->ctrls[i - nc]->current < 0) { if (i != j) ok = CHK(Jv == 0, "c:shut-row", cat(det, " shut well couples to dof ", j)); else ok = CHK(Jv != 0, "c:shut-row", cat(det, " shut well has an empty diagonal")); continue; }
            if (wantsing && i == 0 && j == 0) { ok = NEAR(Jv, 2 * fd, 1e-5, sc, "c:jacobian", cat(det, " regularised entry")); continue; }
            ok = NEAR(Jv, fd, 1e-5, sc + Sc[i], "c:jacobian", cat(det, " d F[", i, "] / d x[", j, "]"));
            if (Jv != 0) ev("jacobian_entries");
        }
    }
    assemble(p, bhp, F);
    // fluxes and face pressures
    V pmc(nc * np), ff(nf, -7), wf(npf, -7), ht(g->cell_facepos[nc]), fp(nf, -7); for (auto& x : pmc) x = r.u(0.05, 2); for (auto& x : ht) x = r.u(0.1, 2);
    for (int w = 0; w < nw; ++w) for (int k = W->well_connpos[w]; k < W->well_connpos[w + 1]; ++k) if (W->type[w] == PRODUCER) for (int q = 0; q < np; ++q) pmc[W->well_cells[k] * np + q] = r.u(0.05, 2);
    cfs_tpfa_res_flux(g.g, &fo, np, &T[0], &pmc[0], &mobf[0], &gcap[0], &p[0], nw ? &bhp[0] : 0, &ff[0], npf ? &wf[0] : 0);
    cfs_tpfa_res_fpress(g.g, np, &ht[0], &mobf[0], &gcap[0], h, &p[0], &ff[0], &fp[0]);
    for (int f = 0; f < nf; ++f) { double e = 0, sc = 0; for (int q = 0; q < np; ++q) { e += fv[f][q]; sc += T[f] * mobf[f * np + q] * 8; } if (!NEAR(ff[f], e, 1e-12, sc, "c:flux", cat(det, " face ", f))) break; ev("fluxes"); }
    V num(nf, 0), den(nf, 0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { num[g->cell_faces[k]] += ht[k] * p[c]; den[g->cell_faces[k]] += ht[k]; }
    for (int f = 0; f < nf; ++f) if (den[f] > 0 && !NEAR(fp[f], num[f] / den[f], 1e-12, 3, "c:face-pressure", cat(det, " face ", f))) break;
    for (int w = 0; w < nw; ++w) for (int k = W->well_connpos[w]; k < W->well_connpos[w + 1]; ++k) { double e = 0, sc = 0; for (int q = 0; q < np; ++q) { e += wq[k][q]; sc += W->WI[k] * wm[k * np + q] * 8; } bool sh = W->ctrls[w]->current < 0; if (sh) e = 0; double dp = bhp[w] + wdp[k] - p[W->well_cells[k]]; if (!NEAR(wf[k], e, 1e-12, sc, sh ? "c:shut-well-rate" : dp > 0 ? "c:well-outflow" : "c:well-inflow", cat(det, " perforation ", k, " of well ", w))) break; ev("well_fluxes"); }
    nontrivial(hcomb(hdbl(F[0]), hdbl(F[nd - 1]))); ev("residuals", nd); ev(cat("c_np", np)); if (src) { ev("sources"); compr_src_deallocate(src); }
    cfs_tpfa_res_destroy(h);
}

// ---------------------------------------------------------------- class level
struct ObservingSolver : public LinearSolverInterface { // forwards to UMFPACK, counts solves
    LinearSolverUmfpack u; mutable int n = 0; using LinearSolverInterface::solve;
    LinearSolverReport solve(const int size, const int nnz, const int* ia, const int* ja, const double* sa, const double* rhs, double* x) const { ++n; return u.solve(size, nnz, ia, ja, sa, rhs, x); }
    void setTolerance(const double t) { u.setTolerance(t); }
    double getTolerance() const { return u.getTolerance(); }
};

static void klass(Rng& r)
{
    std::string kind; bool si = r.p(0.4); GridPtr g; V h; MockBlackoil m; int np = r.i(1, 3) == 1 ? r.i(2, 3) : r.i(2, 3), fk = r.i(0, 2); double pref = si ? 2e7 : 0, psc = si ? 1e7 : 1;
    int tries = 0; do { g = any_grid(r, 4, 3, &kind); m = random_blackoil(r, *g, np, si, r.p(0.5) ? 0.5 : 3, r.p(0.3), pref, psc, fk); h = half_trans(*g, m.rock.perm); } while (!(min_half(h) > 1e-9) && ++tries < 20);
    if (tries >= 20) { ev("skipped"); return; }
    int nc = g->number_of_cells, nf = g->number_of_faces, d = g->dimensions, n2 = np * np; bool usegrav = r.p(0.5); double gv = si ? 9.80665 : r.u(0.05, 0.5); V grav(d, 0.0); grav[d - 1] = r.p(0.85) ? gv : -gv;
    bool rock = r.p(0.3); parameter::ParameterGroup par; double cr = rock ? r.u(0.01, 0.2) / psc : 0; if (rock) { par.insertParameter("rock_compressibility_pref", cat(pref / 1e5)); char b[64]; snprintf(b, sizeof b, "%.17g", cr * 1e5); par.insertParameter("rock_compressibility", b); } RockCompressibility rc(par); int rockmode = rock ? 2 : r.i(0, 1);
    // state
    BlackoilState st; st.init(*g, np); V& s = st.saturation(); V& p = st.pressure(); bool one = r.p(0.15); int eq = r.p(0.2);
    for (int c = 0; c < nc; ++c) { double t = 0; for (int q = 0; q < np; ++q) { double v = one ? q == 0 : r.u(0.05, 1); s[np * c + q] = v; t += v; } for (int q = 0; q < np; ++q) s[np * c + q] /= t; p[c] = pref + psc * r.u(-0.3, 0.3); }
    if (eq) { usegrav = false; double pe = pref + psc * r.u(-0.3, 0.3); for (auto& x : p) x = pe; }
    V ft0 = h; double hm = 0; for (double x : h) hm = std::max(hm, x); double lam = 1 / m.rock.mu[0]; double wi = hm * r.logu(0.1, 3); double pvtot = 0; for (int c = 0; c < nc; ++c) pvtot += g->cell_volumes[c] * m.rock.poro[c];
    double dt = pvtot / nc / (hm * lam * psc) * r.logu(0.03, 3); double q = 0.05 * pvtot / nc / dt;
    std::vector<double> z0; double zw = r.p(0.5) ? 0 : 0.01; st.surfacevol().resize(nc * np); V& z = st.surfacevol();
    for (int c = 0; c < nc; ++c) { V A(n2); m.amat(p[c], &A[0], 0); for (int i = 0; i < np; ++i) { z[np * c + i] = 0; for (int k = 0; k < np; ++k) z[np * c + i] += A[i + np * k] * s[np * c + k]; } if (!eq && zw) for (int i = 0; i < np; ++i) z[np * c + i] *= 1 + zw * r.u(-1, 1); }
    if (m.incompressible() && !rock) for (int c = 0; c < nc; ++c) { V A(n2); m.amat(p[c], &A[0], 0); for (int i = 0; i < np; ++i) { z[np * c + i] = 0; for (int k = 0; k < np; ++k) z[np * c + i] += A[i + np * k] * s[np * c + k]; } }
    for (auto& x : st.facepressure()) x = pref;
    WellsPtr W; if (!eq && r.p(0.75)) W = WellsPtr(random_wells(r, *g, np, pref - 0.3 * psc, pref + 0.3 * psc, wi, q, true, 3)); int nw = W.w ? W->number_of_wells : 0;
    bool anybhp = false; for (int w = 0; w < nw; ++w) { WellControls* c = W->ctrls[w]; anybhp |= c->current >= 0 && c->type[c->current] == BHP; }
    bool incompr = m.incompressible() && !rock;
    if (incompr && !anybhp) { double tot = 0; for (int w = 0; w < nw; ++w) { WellControls* c = W->ctrls[w]; if (c->current >= 0) for (int k = 0; k < c->num; ++k) { c->target[k] = c->type[k] == BHP ? c->target[k] : 0; } } (void)tot; } // closed incompressible: only zero rates are compatible in general
    if (incompr) { UF u(nc); join_faces(*g, u); for (int w = 0; w < nw; ++w) if (W->ctrls[w]->current >= 0) for (int k = W->well_connpos[w] + 1; k < W->well_connpos[w + 1]; ++k) u.join(W->well_cells[W->well_connpos[w]], W->well_cells[k]); for (int c = 1; c < nc; ++c) if (u.find(c) != u.find(0)) { ev("skipped"); return; } if (nc == 1 && !anybhp) { ev("skipped"); return; } }
    WellState ws; ws.init(W.w, st); V bhp0 = ws.bhp(); V p0 = p, zin = z, sin = s;
    double tol = 1e-9 * pvtot / nc; int maxit = 40; ObservingSolver ls; std::string det = cat(kind, " cells ", nc, " phases ", np, " fluid ", fk, " wells ", nw, " rock ", rockmode, " gravity ", usegrav, " si ", si);
    RockCompressibility none((parameter::ParameterGroup())); const RockCompressibility* rp = rockmode == 2 ? &rc : rockmode == 1 ? &none : 0; bool thrown = false; bool sing = false;
    std::vector<V> hist;
    CompressibleTpfa tp(*g, m, rp, ls, tol, 0.0, maxit, usegrav ? &grav[0] : 0, W.w);
    int steps = r.i(1, 2); // a second step continues from the first, with controls possibly switched
    for (int step = 0; step < steps; ++step) {
        p0 = p; bhp0 = ws.bhp(); int before = ls.n;
        try { tp.solve(dt, st, ws); sing = tp.singularPressure(); } catch (const std::exception&) { thrown = true; }
        int its = ls.n - before;
        if (thrown) { ev("not_converged"); bool fin = true; for (double x : p) fin &= std::fabs(x) < 1e100; CHK(its == maxit || !fin, "k:early-throw", cat(det, " gave up after ", its, " of ", maxit, " iterations"));
            if (nw == 0) { // a closed reservoir can always be advanced, if only by a short step
                bool done = false; for (double q : {1e-3, 1e-6, 1e-9}) { BlackoilState s3 = st; s3.pressure() = p0; WellState w3; w3.init(W.w, s3); try { CompressibleTpfa t2(*g, m, rp, ls, tol, 0.0, maxit, usegrav ? &grav[0] : 0, W.w); t2.solve(dt * q, s3, w3); done = true; break; } catch (const std::exception&) {} } ev("shorter_steps"); CHK(done, "k:never-converges", cat(det, " no convergence with any step from ", dt * 1e-9, " to ", dt)); }
            return; }
        ev("steps"); ev(cat("iterations_", std::min(its, 10)));
        CHK(z == zin && s == sin, "k:state-touched", det + " surface volumes or saturations modified by the pressure step");
        for (int c = 0; c < nc; ++c) if (!CHK(std::isfinite(p[c]), "k:finite", cat(det, " pressure of cell ", c))) return;
        // independent evaluation at the solution
        std::vector<V> A(nc, V(n2)), rho(nc, V(np)), lamc(nc, V(np)); for (int c = 0; c < nc; ++c) { m.amat(p[c], &A[c][0], 0); for (int k = 0; k < np; ++k) { rho[c][k] = 0; for (int i = 0; i < np; ++i) rho[c][k] += A[c][np * k + i] * m.rock.rho[i]; lamc[c][k] = m.rock.kr(c, k, s[np * c + k]) / m.mu(k, p[c]); } }
        V R(nc, 0), Sc(nc, 0); auto accum = [&](int c, double f, const V& x0) { V x = x0; solve3(np, &A[c][0], &x[0]); for (int k = 0; k < np; ++k) { R[c] += f * x[k]; Sc[c] += std::fabs(f * x[k]); } };
        auto pvf = [&](int c, double pp) { double x = cr * (pp - pref); return g->cell_volumes[c] * m.rock.poro[c] * (1 + x + 0.5 * x * x); };
        for (int c = 0; c < nc; ++c) { double v0 = pvf(c, p0[c]), v1 = pvf(c, p[c]); R[c] = v1; Sc[c] = v1; accum(c, -v0, V(z.begin() + np * c, z.begin() + np * (c + 1))); }
        bool ambiguous = false; V ex(nf, 0), exs(nf, 0); std::vector<char> flip(nf, 0); V T(nf, 0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) T[g->cell_faces[k]] += 1 / h[k]; for (auto& t : T) t = 1 / t;
        for (int f = 0; f < nf; ++f) {
            int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) { double t = 0, lt = 0; int i = a >= 0 ? a : b; for (int k = 0; k < np; ++k) { t += lamc[i][k] * rho[i][k]; lt += lamc[i][k]; } exs[f] = T[f] * t * (usegrav ? gv : 0) * std::fabs(g->face_centroids[d * f + d - 1] - g->cell_centroids[d * i + d - 1]); continue; }
            V v(np), up(np), cfx(np, 0.0), dpot(np), psc2(np); std::vector<int> uc(np);
            for (int k = 0; k < np; ++k) { double ga = usegrav ? rho[a][k] * grav[d - 1] * (g->face_centroids[d * f + d - 1] - g->cell_centroids[d * a + d - 1]) : 0, gb = usegrav ? rho[b][k] * grav[d - 1] * (g->face_centroids[d * f + d - 1] - g->cell_centroids[d * b + d - 1]) : 0; dpot[k] = p[a] - p[b] + ga - gb; psc2[k] = std::fabs(p[a]) + std::fabs(p[b]) + std::fabs(ga) + std::fabs(gb); uc[k] = dpot[k] >= 0 ? a : b; if (dpot[k] < 0) ev("upwind_second"); else ev("upwind_first"); v[k] = T[f] * lamc[uc[k]][k] * dpot[k]; ex[f] += v[k]; exs[f] += T[f] * std::max(lamc[a][k], lamc[b][k]) * psc2[k]; if (std::fabs(dpot[k]) < 1e-11 * psc2[k]) ambiguous = true; }
            for (int k = 1; k < np; ++k) if (uc[k] != uc[0]) ev("counter_current");
            for (int i = 0; i < np; ++i) for (int k = 0; k < np; ++k) cfx[i] += A[uc[i]][i + np * k] * v[k];
            accum(a, dt, cfx); accum(b, -dt, cfx);
        }
        std::vector<V> pq; V wcons(nw, 0), wsc(nw, 0), wexp, wexps; std::vector<int> wwell;
        for (int w = 0; w < nw; ++w) {
            WellControls* ct = W->ctrls[w]; int cur = ct->current; bool open = cur >= 0;
            for (int k = W->well_connpos[w]; k < W->well_connpos[w + 1]; ++k) {
                int c = W->well_cells[k]; double col = 0; if (usegrav) { V A0(n2), r0(np, 0.0); m.amat(p0[c], &A0[0], 0); for (int q2 = 0; q2 < np; ++q2) { for (int i = 0; i < np; ++i) r0[q2] += A0[np * q2 + i] * m.rock.rho[i]; col += s[np * c + q2] * r0[q2] * grav[d - 1] * (g->cell_centroids[d * c + d - 1] - W->depth_ref[w]); } }
                double pp = ws.bhp()[w] + col; if (!NEAR(ws.perfPress()[k], pp, 1e-12, std::fabs(ws.bhp()[w]) + std::fabs(col), "k:perf-pressure", cat(det, " perforation ", k))) return;
                V Aw(n2), lw(np); const double* cfr = W->comp_frac + np * w; if (W->type[w] == INJECTOR) { m.amat(pp, &Aw[0], 0); for (int q2 = 0; q2 < np; ++q2) lw[q2] = m.rock.kr(c, q2, cfr[q2]) / m.mu(q2, pp); } else { Aw = A[c]; lw = lamc[c]; }
                double dp = pp - p[c]; V v(np), x(np, 0.0); double tot = 0, sc = 0; for (int q2 = 0; q2 < np; ++q2) { v[q2] = W->WI[k] * lw[q2] * dp; tot += v[q2]; sc += W->WI[k] * lw[q2] * (std::fabs(pp) + std::fabs(p[c])); } for (int i = 0; i < np; ++i) for (int q2 = 0; q2 < np; ++q2) x[i] += Aw[i + np * q2] * v[q2];
                if (open) { accum(c, -dt, x); if (ct->type[cur] != BHP) for (int q2 = 0; q2 < np; ++q2) { double t = ct->distr[np * cur + q2] * (ct->type[cur] == RESERVOIR_RATE ? v[q2] : x[q2]); wcons[w] += t; wsc[w] += std::fabs(ct->distr[np * cur + q2]) * sc; } }
                if (dp < 0 && W->type[w] == INJECTOR && open) ev("injector_backflow");
                wexp.push_back(open ? tot : 0); wexps.push_back(sc); wwell.push_back(w);
            }
            if (!open) { ev("shut_wells"); CHK(ws.bhp()[w] == bhp0[w], "k:shut-bhp", cat(det, " well ", w, " shut, bhp changed from ", bhp0[w], " to ", ws.bhp()[w])); continue; }
            ev(cat("wells_", ct->type[cur] == BHP ? "bhp" : ct->type[cur] == RESERVOIR_RATE ? "resv" : "surf"));
            if (ct->type[cur] == BHP) { double tw = 0; for (int k = W->well_connpos[w]; k < W->well_connpos[w + 1]; ++k) { (void)k; tw += 1; } double wl = 0; for (size_t k = 0; k < wexp.size(); ++k) if (wwell[k] == w) wl += wexps[k]; CHK(std::fabs(ws.bhp()[w] - ct->target[cur]) <= 1e-6 * psc, "k:bhp-control", cat(det, " well ", w, " bhp ", ws.bhp()[w], " target ", ct->target[cur])); }
            else NEAR(wcons[w], ct->target[cur], 1e-11, wsc[w] + 1.01e11 * tol / dt, "k:rate-control", cat(det, " well ", w, " type ", ct->type[cur]));
        }
        if (ambiguous && !eq) ev("ties");
        if (its < maxit || true) {
            double worst = 0; int wc = -1; for (int c = 0; c < nc; ++c) { double e = std::fabs(R[c]) - 1e-12 * Sc[c]; if (e > worst) { worst = e; wc = c; } }
            if (!ambiguous) { if (!CHK(worst <= 1.01 * tol, "k:balance", cat(det, " step ", step, " cell ", wc, " volume balance defect ", worst, " tolerance ", tol, " after ", its, " iterations"))) return; ev("balanced_cells", nc); }
        }
        V outf(nc, 0), outs(nc, 0);
        for (int f = 0; f < nf; ++f) { if (!NEAR(st.faceflux()[f], ex[f], 1e-11, exs[f], "k:flux", cat(det, " face ", f))) return; }
        for (size_t k = 0; k < wexp.size(); ++k) if (!NEAR(ws.perfRates()[k], wexp[k], 1e-11, wexps[k], wexp[k] == 0 ? "k:shut-well-rate" : "k:perf-rate", cat(det, " perforation ", k, " of well ", wwell[k]))) return;
        V num(nf, 0), den(nf, 0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { num[g->cell_faces[k]] += h[k] * p[c]; den[g->cell_faces[k]] += h[k]; }
        for (int f = 0; f < nf; ++f) if (!NEAR(st.facepressure()[f], num[f] / den[f], 1e-11, std::fabs(pref) + 10 * psc, "k:face-pressure", cat(det, " face ", f))) return;
        if (step == 0 && eq) { bool same = its == 0; CHK(same, "k:equilibrium", cat(det, " equilibrium took ", its, " iterations")); for (int f = 0; f < nf; ++f) CHK(std::fabs(st.faceflux()[f]) <= 1e-12 * exs[f], "k:equilibrium", cat(det, " flux ", st.faceflux()[f])); ev("equilibria"); }
        bool allshut = true; for (int w = 0; w < nw; ++w) allshut &= W->ctrls[w]->current < 0;
        CHK(sing == (incompr && !anybhp), "k:singular", cat(det, " singular ", sing)); if (sing) ev("singular_steps"); (void)allshut;
        for (int w = 0; w < nw; ++w) if (!incompr && r.p(0.3)) { WellControls* ct = W->ctrls[w]; int nx = r.i(0, ct->num - 1); set_current_control(w, r.p(0.2) || W->well_connpos[w + 1] == W->well_connpos[w] ? ~nx : nx, W.w); }
        anybhp = false; for (int w = 0; w < nw; ++w) { WellControls* c = W->ctrls[w]; anybhp |= c->current >= 0 && c->type[c->current] == BHP; }
        if (incompr && steps > 1) { /* same controls again */ }
    }
    nontrivial(hcomb(hdbl(p[0]), hcomb(hdbl(p[nc - 1]), nc))); ev(cat("fluid", fk)); ev(cat("rock", rockmode)); if (usegrav) ev("gravity");
}

int main(int argc, char** argv)
{
    std::cout.setstate(std::ios::failbit);
    return mon::run(argc, argv, "p19", [](long k, Rng& r) { if (k % 3 == 0) clevel(r); else klass(r); }, 60);
}
