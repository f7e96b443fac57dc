// P19, second workload: the linearised compressible pressure system (cfs_tpfa) against its definition.
#include "config.h"
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/sparse_sys.h>
using namespace gl;
using namespace Opm;
typedef std::vector<double> V;

static void solvec(int n, const double* A, double* x) // A column-major, n<=3, x in/out
{
    long double M[3][4]; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) M[i][j] = A[i + n * j]; M[i][n] = x[i]; }
    for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (fabsl(M[i][k]) > fabsl(M[p][k])) p = i; for (int j = 0; j <= n; ++j) std::swap(M[k][j], M[p][j]); for (int i = k + 1; i < n; ++i) { long double f = M[i][k] / M[k][k]; for (int j = k; j <= n; ++j) M[i][j] -= f * M[k][j]; } }
    for (int k = n - 1; k >= 0; --k) { long double s = M[k][n]; for (int j = k + 1; j < n; ++j) s -= M[k][j] * x[j]; x[k] = (double)(s / M[k][k]); }
}

static void run_case(Rng& r)
{
    std::string kind; GridPtr g = any_grid(r, 4, 3, &kind); int nc = g->number_of_cells, nf = g->number_of_faces, dim = g->dimensions, np = r.i(1, 3), n2 = np * np, nhf = g->cell_facepos[nc];
    // connected groups of cells: each must have a pressure reference unless compressible
    UF uf(nc); join_faces(*g, uf);
    int nw = r.p(0.6) ? r.i(1, 3) : 0; bool wells = nw > 0; std::vector<int> pos(1, 0), wcell, wtype, wctrl; V target;
    for (int w = 0; w < nw; ++w) { int k = r.i(1, std::min(nc, 4)); std::vector<int> pc = random_perm(r, nc); for (int i = 0; i < k; ++i) wcell.push_back(pc[i]); pos.push_back((int)wcell.size()); wtype.push_back(r.i(0, 1)); wctrl.push_back(r.i(0, 1)); target.push_back(wctrl[w] == BHP ? r.u(-3, 3) : (wtype[w] == 0 ? 1 : -1) * r.u(0, 2)); }
    int npf = (int)wcell.size(); std::vector<well_type> wt(nw); std::vector<well_control> wc(nw); for (int w = 0; w < nw; ++w) { wt[w] = (well_type)wtype[w]; wc[w] = (well_control)wctrl[w]; }
    V zfrac(nw * np, 0.0); well_t W; W.number_of_wells = nw; W.well_connpos = &pos[0]; W.well_cells = npf ? &wcell[0] : 0; well_control_t C; C.type = nw ? &wt[0] : 0; C.ctrl = nw ? &wc[0] : 0; C.target = nw ? &target[0] : 0; C.zfrac = nw ? &zfrac[0] : 0;
    V WI(npf), gpot(npf * np), wA(npf * n2), wm(npf * np); completion_data D;
    bool offd = r.p(0.6); auto rm = [&](double* A) { for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) A[i + np * j] = i == j ? r.u(0.5, 2) : offd ? r.u(-0.2, 0.2) : 0; };
    for (int i = 0; i < npf; ++i) { WI[i] = r.u(0.05, 2); rm(&wA[i * n2]); for (int q = 0; q < np; ++q) { gpot[i * np + q] = r.u(-0.5, 0.5); wm[i * np + q] = r.u(0.05, 2); } }
    D.WI = npf ? &WI[0] : 0; D.gpot = npf ? &gpot[0] : 0; D.A = npf ? &wA[0] : 0; D.phasemob = npf ? &wm[0] : 0;
    BcPtr bc; std::vector<int> prface(nf, -1); V prval(nf, 0); std::vector<std::pair<int, double> > fluxes; std::vector<int> bf = boundary_faces(*g); bool anypr = false;
    if (r.p(0.6)) { bc = BcPtr(flow_conditions_construct(0)); int nb = r.i(0, 4); for (int k = 0; k < nb && !bf.empty(); ++k) { int cnt = r.i(1, 2); std::vector<int> fs; for (int i = 0; i < cnt; ++i) { int f = bf[r.i(0, (int)bf.size() - 1)]; if (prface[f] == -1) { fs.push_back(f); prface[f] = 1; } } if (fs.empty()) continue; bool fl = r.p(0.3); double v = fl ? r.u(-1, 1) : r.u(-3, 3); if (!CHK(flow_conditions_append_multi(fl ? BC_FLUX_TOTVOL : BC_PRESSURE, fs.size(), &fs[0], v, bc.b) > 0, "l:bc", "append failed")) return; for (int f : fs) { if (fl) { prface[f] = -2; fluxes.push_back({ f, v }); } else { prval[f] = v; anypr = true; } } } }
    for (int f = 0; f < nf; ++f) if (prface[f] == -2) prface[f] = 2;
    V Ac(nc * n2), Af(nf * n2), mob(nf * np), gc(nf * np), T(nf), ct(nc), vd(nc), pv(nc), p0(nc), src(nc, 0);
    bool compr = r.p(0.7); for (int c = 0; c < nc; ++c) { rm(&Ac[c * n2]); ct[c] = compr ? r.u(0.01, 1) : 0; vd[c] = r.p(0.5) ? r.u(-0.2, 0.2) : 0; pv[c] = r.u(0.1, 2); p0[c] = r.u(-3, 3); if (r.p(0.3)) src[c] = r.u(-1, 1); }
    for (int f = 0; f < nf; ++f) { rm(&Af[f * n2]); T[f] = r.u(0.1, 3); for (int q = 0; q < np; ++q) { mob[f * np + q] = r.u(0.05, 2); gc[f * np + q] = r.u(-1, 1); } }
    compr_quantities cq; cq.nphases = np; cq.totcompr = &ct[0]; cq.voldiscr = &vd[0]; cq.Ac = &Ac[0]; cq.Af = &Af[0]; cq.phasemobf = &mob[0];
    double dt = r.logu(0.05, 20); std::string det = cat(kind, " phases ", np, " wells ", nw, " conditions ", bc.b ? (int)bc->nbc : 0, compr ? " compressible" : "");
    cfs_tpfa_data* h = cfs_tpfa_construct(g.g, wells ? &W : 0, np); if (!CHK(h != 0, "l:construct", det + " returned NULL")) return;
    int nd = nc + nw; CHK((int)h->A->m == nd, "l:size", cat(det, " system size ", h->A->m));
    int rounds = r.i(1, 2);
    for (int it = 0; it < rounds; ++it) {
        if (it) for (int c = 0; c < nc; ++c) p0[c] = r.u(-3, 3);
        cfs_tpfa_assemble(g.g, dt, wells ? &W : 0, bc.b, &src[0], &cq, &T[0], &gc[0], wells ? &C : 0, wells ? &D : 0, &p0[0], &pv[0], h);
        // reference system; one equation per cell and well
        V A((size_t)nd * nd, 0), b(nd, 0), S(nd, 0);
        V ctr(nhf), cgr(nhf), mtf(nf * np), gtf(nf * np);
        for (int f = 0; f < nf; ++f) { bool on = (g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0) || prface[f] == 1; for (int i = 0; i < np; ++i) { double a = 0, q2 = 0; for (int q = 0; q < np; ++q) { double x = T[f] * mob[f * np + q]; a += Af[f * n2 + i + np * q] * x; q2 += Af[f * n2 + i + np * q] * (on ? x * gc[f * np + q] : 0); } mtf[f * np + i] = a; gtf[f * np + i] = q2; } }
        for (int c = 0; c < nc; ++c) {
            double acc = ct[c] * pv[c] / dt; A[(size_t)c * nd + c] += acc; b[c] += acc * p0[c] + vd[c] + src[c]; S[c] += std::fabs(acc * p0[c]) + std::fabs(vd[c]) + std::fabs(src[c]);
            for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
                int f = g->cell_faces[k]; double sg = g->face_cells[2 * f] == c ? 1 : -1; int o = g->face_cells[2 * f + (sg > 0)]; V x(mtf.begin() + f * np, mtf.begin() + (f + 1) * np), y(gtf.begin() + f * np, gtf.begin() + (f + 1) * np); solvec(np, &Ac[c * n2], &x[0]); solvec(np, &Ac[c * n2], &y[0]);
                double t = 0, gg = 0; for (int q = 0; q < np; ++q) { t += x[q]; gg += y[q]; } ctr[k] = t; cgr[k] = gg;
                if (o >= 0) { A[(size_t)c * nd + c] += t; A[(size_t)c * nd + o] -= t; b[c] -= sg * gg; S[c] += std::fabs(gg); }
                else if (prface[f] == 1) { A[(size_t)c * nd + c] += t; b[c] += t * prval[f] - sg * gg; S[c] += std::fabs(gg) + std::fabs(t * prval[f]); }
            }
        }
        bool anybhp = false; V mtp(npf * np), gtp(npf * np);
        for (int w = 0; w < nw; ++w) {
            bool bh = wctrl[w] == BHP; anybhp = anybhp || bh;
            for (int i = pos[w]; i < pos[w + 1]; ++i) {
                int c = wcell[i]; V x(np), y(np); for (int a = 0; a < np; ++a) { double m = 0, gg = 0; for (int q = 0; q < np; ++q) { double z = WI[i] * wm[i * np + q]; m += wA[i * n2 + a + np * q] * z; gg += wA[i * n2 + a + np * q] * z * gpot[i * np + q]; } x[a] = mtp[i * np + a] = m; y[a] = gtp[i * np + a] = gg; }
                solvec(np, &Ac[c * n2], &x[0]); solvec(np, &Ac[c * n2], &y[0]); double t = 0, gg = 0; for (int q = 0; q < np; ++q) { t += x[q]; gg += y[q]; }
                A[(size_t)c * nd + c] += t; b[c] += gg; S[c] += std::fabs(gg);
                if (bh) { b[c] += t * target[w]; S[c] += std::fabs(t * target[w]); A[(size_t)(nc + w) * nd + nc + w] += t; b[nc + w] += t * target[w]; S[nc + w] += std::fabs(t * target[w]); }
                else { A[(size_t)c * nd + nc + w] -= t; A[(size_t)(nc + w) * nd + c] -= t; A[(size_t)(nc + w) * nd + nc + w] += t; b[nc + w] -= gg; S[nc + w] += std::fabs(gg); }
            }
            if (!bh) { b[nc + w] += target[w]; S[nc + w] += std::fabs(target[w]); }
        }
        bool sing = !compr && !anypr && !anybhp; if (sing) ev("legacy_singular");
        // the library's system must have the same solutions: compare row by row after scaling each row to its diagonal
        bool ok = true; V L((size_t)nd * nd, 0); for (int i = 0; i < nd; ++i) for (int k = h->A->ia[i]; k < h->A->ia[i + 1]; ++k) L[(size_t)i * nd + h->A->ja[k]] += h->A->sa[k];
        for (int i = 0; i < nd && ok; ++i) {
            double ra = A[(size_t)i * nd + i], la = L[(size_t)i * nd + i]; if (sing && i == 0) { ok = ra == 0 || CHK(la > ra * 1.001, "l:reference", cat(det, " no pressure reference: entry (0,0) ", la, " against ", ra)); la = ra; }
            double rs = 0; for (int j = 0; j < nd; ++j) rs += std::fabs(A[(size_t)i * nd + j]); double f = i >= nc && wctrl[i - nc] == BHP && la != 0 ? ra / la : 1; // a pressure equation may be scaled freely
            for (int j = 0; j < nd && ok; ++j) { double v = (j == i ? la : L[(size_t)i * nd + j]) * f; ok = NEAR(v, A[(size_t)i * nd + j], 1e-11, rs, i < nc ? "l:matrix-cell" : "l:matrix-well", cat(det, " entry (", i, ",", j, ") of ", nc, " cells")); ev("legacy_matrix_entries"); }
            ok = ok && NEAR(h->b[i] * f, b[i], 1e-11, S[i] + rs * 1e-3, i < nc ? "l:rhs-cell" : "l:rhs-well", cat(det, " row ", i, " of ", nc, " cells"));
        }
        // all cells tied to a reference? (several connected parts may be singular)
        std::set<int> parts; for (int c = 0; c < nc; ++c) parts.insert(uf.find(c)); bool solvable = compr || (parts.size() == 1 && (!sing || nc > 1)); if (!solvable) { ev("legacy_unsolved"); }
        if (ok && solvable) {
            LinearSolverUmfpack ls; LinearSolverInterface::LinearSolverReport rep = ls.solve(h->A, h->b, h->x); CHK(rep.converged, "l:solve", det + " linear system not solved"); if (!rep.converged) break;
            V x(h->x, h->x + nd), cp(nc), ff(nf), wp(nw), wf(npf); std::fill(ff.begin(), ff.end(), 1e77);
            cfs_tpfa_press_flux(g.g, bc.b, wells ? &W : 0, np, &T[0], &mob[0], &gc[0], wells ? &D : 0, h, &cp[0], &ff[0], nw ? &wp[0] : 0, npf ? &wf[0] : 0);
            double pm = 1; for (double q : x) pm = std::max(pm, std::fabs(q));
            for (int c = 0; c < nc; ++c) CHK(cp[c] == x[c], "l:cell-pressure", cat(det, " cell ", c)); for (int w = 0; w < nw; ++w) { CHK(wp[w] == x[nc + w], "l:well-pressure", cat(det, " well ", w)); if (wctrl[w] == BHP) NEAR(wp[w], target[w], 1e-9, std::fabs(target[w]) + 1e-3, "l:bhp", cat(det, " well ", w)); ev(wctrl[w] == BHP ? "legacy_bhp" : "legacy_rate"); }
            for (int f = 0; f < nf; ++f) {
                int a = g->face_cells[2 * f], o = g->face_cells[2 * f + 1]; double want = 0, sc = 1e-3; bool inner = a >= 0 && o >= 0;
                if (inner || prface[f] == 1) { double pa = a >= 0 ? x[a] : prval[f], po = o >= 0 ? x[o] : prval[f]; for (int q = 0; q < np; ++q) { double m = T[f] * mob[f * np + q]; want += m * (pa - po + gc[f * np + q]); sc += m * (std::fabs(pa) + std::fabs(po) + 1); } ev(inner ? "legacy_faces" : "legacy_pressure_faces"); }
                for (auto& k : fluxes) if (k.first == f) want = (a < 0 ? 1 : -1) * k.second;
                NEAR(ff[f], want, 1e-11, sc, "l:flux", cat(det, " face ", f, inner ? "" : " boundary"));
            }
            for (int w = 0; w < nw; ++w) for (int i = pos[w]; i < pos[w + 1]; ++i) { double want = 0, sc = 0; for (int q = 0; q < np; ++q) { double m = WI[i] * wm[i * np + q]; want += m * (x[nc + w] - x[wcell[i]] + gpot[i * np + q]); sc += m * (2 * pm + 1); } NEAR(wf[i], want, 1e-11, sc, "l:perforation", cat(det, " perforation ", i)); ev("legacy_perforations"); }
            V mt(nf * np, 7), gt(nf * np, 7); cfs_tpfa_retrieve_masstrans(g.g, np, h, &mt[0]); cfs_tpfa_retrieve_gravtrans(g.g, np, h, &gt[0]);
            for (int k = 0; k < nf * np; ++k) { NEAR(mt[k], mtf[k], 1e-12, 30, "l:masstrans", cat(det, " face ", k / np)); NEAR(gt[k], gtf[k], 1e-12, 30, "l:gravtrans", cat(det, " face ", k / np)); }
            // face pressures: average weighted with positive one-sided transmissibilities
            V ht(nhf), fp(nf, 5); for (auto& q : ht) q = r.u(0.1, 2); cfs_tpfa_fpress(g.g, bc.b, np, &ht[0], &mob[0], &gc[0], h, &cp[0], &ff[0], &fp[0]);
            V num(nf, 0), den(nf, 0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { num[g->cell_faces[k]] += ht[k] * cp[c]; den[g->cell_faces[k]] += ht[k]; }
            for (int f = 0; f < nf; ++f) NEAR(fp[f], prface[f] == 1 ? prval[f] : num[f] / den[f], 1e-12, pm, "l:face-pressure", cat(det, " face ", f));
            // explicit component transport: each face moves the same amount out of one cell and into the other, perforations add theirs
            V z(nc * np), z0; for (auto& q : z) q = r.u(0, 1); z0 = z; cfs_tpfa_expl_mass_transport(g.g, wells ? &W : 0, wells ? &D : 0, np, dt, &pv[0], h, &z[0]);
            V want = z0, sc(nc * np, 1); for (int f = 0; f < nf; ++f) { int a = g->face_cells[2 * f], o = g->face_cells[2 * f + 1]; if (a < 0 || o < 0) continue; for (int q = 0; q < np; ++q) { double m = dt * (mtf[f * np + q] * (x[a] - x[o]) + gtf[f * np + q]), s = dt * (std::fabs(mtf[f * np + q]) * 2 * pm + std::fabs(gtf[f * np + q])); want[a * np + q] -= m / pv[a]; want[o * np + q] += m / pv[o]; sc[a * np + q] += s / pv[a]; sc[o * np + q] += s / pv[o]; } }
            for (int w = 0; w < nw; ++w) for (int i = pos[w]; i < pos[w + 1]; ++i) for (int q = 0; q < np; ++q) { int c = wcell[i]; want[c * np + q] += dt / pv[c] * (mtp[i * np + q] * (x[nc + w] - x[c]) + gtp[i * np + q]); sc[c * np + q] += dt / pv[c] * (std::fabs(mtp[i * np + q]) * 2 * pm + std::fabs(gtp[i * np + q])); }
            for (int k = 0; k < nc * np; ++k) { NEAR(z[k], want[k], 1e-11, sc[k], "l:transport", cat(det, " cell ", k / np, " component ", k % np)); ev("legacy_transported"); }
            if (np == 3) {
                V dm(9 * nf), sd(3), gr(dim); for (auto& q : dm) q = r.u(-1, 1); for (int f = 0; f < nf; ++f) { dm[9 * f] = r.u(0, 2); dm[9 * f + 3] = r.u(-2, 0); dm[9 * f + 5] = r.u(-2, 0); dm[9 * f + 8] = r.u(0, 2); dm[9 * f + 2] = 0; } for (auto& q : sd) q = r.u(0.1, 1); for (auto& q : gr) q = r.u(-1, 1);
                double got = cfs_tpfa_impes_maxtime(g.g, &cq, &T[0], &pv[0], h, &dm[0], &sd[0], &gr[0]), ref = 1e100;
                for (int c = 0; c < nc; ++c) {
                    double F[2][2] = { { 0, 0 }, { 0, 0 } };
                    for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
                        int f = g->cell_faces[k], o = g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; if (o < 0) continue;
                        double dz = 0; for (int d = 0; d < dim; ++d) dz += (g->cell_centroids[dim * c + d] - g->cell_centroids[dim * o + d]) * gr[d];
                        double pot[3]; for (int j = 0; j < 3; ++j) { double rho = 0; for (int i = 0; i < 3; ++i) rho += Af[f * 9 + i + 3 * j] * sd[i]; pot[j] = std::fabs(x[c] - x[o] - rho * dz); }
                        const double *m = &mob[3 * f], *d = &dm[9 * f]; double t = T[f] / (m[0] + m[1] + m[2]);
                        // fractional-flow derivative of water (0) and gas (2) with respect to their saturations, phase potentials frozen
                        F[0][0] += t * ((m[1] + m[2]) * d[0] * pot[0] - m[0] * d[3] * pot[1]);
                        F[0][1] += t * ((m[1] + m[2]) * d[2] * pot[0] - m[0] * (d[5] * pot[1] + d[8] * pot[2]));
                        F[1][0] += t * (-m[2] * (d[0] * pot[0] + d[3] * pot[1]));
                        F[1][1] += t * ((m[0] + m[1]) * d[8] * pot[2] - m[2] * (d[2] * pot[0] + d[5] * pot[1]));
                    }
                    double tr = F[0][0] + F[1][1], de = F[0][0] * F[1][1] - F[0][1] * F[1][0], q = tr * tr - 4 * de; if (q < 1e-9 * tr * tr) { ref = -1; break; } double l = 0.5 * std::fabs(tr + std::sqrt(q)); if (l > 0) ref = std::min(ref, pv[c] / l);
                }
                if (ref > 0) { NEAR(got, ref, 1e-8, ref, "l:max-time", det); ev("legacy_max_times"); }
            }
            nontrivial(hcomb(hdbl(x[0]), hcomb(hdbl(x[nd - 1]), nd))); ev("legacy_solves");
        }
    }
    cfs_tpfa_destroy(h);
    // accumulation helpers
    V fl(nf), ze(nc), Bi(nhf), P(nc), s2 = src; for (auto& q : fl) q = r.u(-1, 1); for (auto& q : ze) q = r.u(-1, 1);
    compr_flux_term(g.g, &fl[0], &ze[0], &Bi[0]); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; NEAR(Bi[k], ze[c] * (g->face_cells[2 * f] == c ? 1 : -1) * fl[f], 1e-14, 1, "l:flux-term", det); }
    compr_accum_term(nc, dt, &pv[0], &ct[0], &P[0]); compr_src_add_press_accum(nc, &p0[0], &P[0], &s2[0]); for (int c = 0; c < nc; ++c) { double a = ct[c] * pv[c] / dt; NEAR(P[c], a, 1e-14, a, "l:accumulation", det); NEAR(s2[c], src[c] + a * p0[c], 1e-14, std::fabs(a * p0[c]) + 1, "l:pressure-accumulation", det); }
}

int main(int argc, char** argv) { return mon::run(argc, argv, "p19l", [](long, Rng& r) { run_case(r); }, 60); }
