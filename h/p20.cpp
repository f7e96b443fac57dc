// P20: coarse partitions, coarse topology and multiscale fluxes against set models and an independent dense multiscale solve.
#include "config.h"
#include "mon.hpp"
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <memory>
extern "C" {
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
}
using namespace mon; using namespace gl;
typedef std::vector<int> VI; typedef std::vector<double> VD;

// dense Gaussian elimination with partial pivoting; A row major, destroyed
static bool dense_solve(int n, VD& A, VD& b)
{
    for (int k = 0; k < n; ++k) {
        int q = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A[(size_t)i * n + k]) > std::fabs(A[(size_t)q * n + k])) q = i;
        if (A[(size_t)q * n + k] == 0) return false;
        if (q != k) { for (int j = k; j < n; ++j) std::swap(A[(size_t)k * n + j], A[(size_t)q * n + j]); std::swap(b[k], b[q]); }
        for (int i = k + 1; i < n; ++i) { double m = A[(size_t)i * n + k]; if (m == 0) continue; m /= A[(size_t)k * n + k]; double* ai = &A[(size_t)i * n]; const double* ak = &A[(size_t)k * n]; for (int j = k; j < n; ++j) ai[j] -= m * ak[j]; b[i] -= m * b[k]; }
    }
    for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) b[k] -= A[(size_t)k * n + j] * b[j]; b[k] /= A[(size_t)k * n + k]; }
    return true;
}
static long n_local = 0;
extern "C" void local_solve(CSRMatrix* A, double* b, double* x)
{
    int n = (int)A->m; VD D((size_t)n * n, 0.0), y(b, b + n); for (int i = 0; i < n; ++i) for (int k = A->ia[i]; k < A->ia[i + 1]; ++k) D[(size_t)i * n + A->ja[k]] += A->sa[k];
    if (!dense_solve(n, D, y)) violate("singular-local-system", cat("n ", n)); std::copy(y.begin(), y.end(), x); ++n_local;
}

static void uniform(Rng& r)
{
    int nd = r.i(1, 3); VI fd(nd), cd(nd); int n = 1; bool more = r.p(0.15);
    for (int i = 0; i < nd; ++i) { fd[i] = r.i(1, nd == 1 ? 60 : nd == 2 ? 14 : 8); cd[i] = r.i(1, more ? fd[i] + 3 : fd[i]); n *= fd[i]; }
    VI idx; for (int i = 0; i < n; ++i) idx.push_back(i); if (r.p(0.5)) r.shuffle(idx); if (r.p(0.4)) idx.resize(r.i(1, n));
    std::unique_ptr<int[]> ix(new int[idx.size()]), p(new int[idx.size()]); std::copy(idx.begin(), idx.end(), ix.get()); int nc = (int)idx.size(); std::string d = cat("fine ", vec(fd), " coarse ", vec(cd));
    int ret = partition_unif_idx(nd, nc, fd.data(), cd.data(), ix.get(), p.get()); CHK(ret == nc, "unif-return", cat(d, " returned ", ret)); ev("uniform_partitions"); if (more) ev("more_blocks_than_cells");
    uint64_t h = 17; for (int c = 0; c < nc; ++c) {
        int id = idx[c], b = 0, mul = 1;
        for (int i = 0; i < nd; ++i) { int x = id % fd[i]; id /= fd[i]; // first fd%cd bins hold one extra
            int q = -1, s = 0; for (int t = 0; t < cd[i]; ++t) { s += fd[i] / cd[i] + (t < fd[i] % cd[i]); if (x < s) { q = t; break; } }
            b += q * mul; mul *= cd[i]; }
        if (!CHK(p[c] == b, "unif-block", cat(d, " cell ", idx[c], " in block ", p[c], " expected ", b))) break; h = hcomb(h, b);
    }
    nontrivial(h);
    // compression and inversion of whatever came out (with extra holes)
    VI q(p.get(), p.get() + nc); if (r.p(0.5)) { int mul = r.i(1, 5), add = r.i(0, 4); for (auto& x : q) x = x * mul + add; } else if (r.p(0.5)) for (auto& x : q) x = r.i(0, 40);
    std::unique_ptr<int[]> z(new int[nc]); std::copy(q.begin(), q.end(), z.get()); int mx = partition_compress(nc, z.get()); std::set<int> u(q.begin(), q.end()); std::map<int, int> rk; int k = 0; for (int x : u) rk[x] = k++;
    CHK(mx == k - 1, "compress-return", cat("returned ", mx, " for ", k, " blocks")); for (int c = 0; c < nc; ++c) if (!CHK(z[c] == rk[q[c]], "compress", cat(vec(q), " cell ", c, " block ", z[c]))) break;
    int *pi, *inv; int ok = partition_allocate_inverse(nc, mx, &pi, &inv); if (!CHK(ok == nc && pi && inv, "allocate-inverse", cat(ok))) return; partition_invert(nc, z.get(), pi, inv);
    std::vector<VI> cells(k); for (int c = 0; c < nc; ++c) cells[z[c]].push_back(c); std::unique_ptr<int[]> loc(new int[nc]); std::fill(loc.get(), loc.get() + nc, -7); partition_localidx(k, pi, inv, loc.get());
    CHK(pi[0] == 0, "invert-start", "first start pointer nonzero"); for (int b = 0; b < k; ++b) { VI got(inv + pi[b], inv + pi[b + 1]); if (!CHK(got == cells[b], "invert", cat("block ", b, " ", vec(got), " expected ", vec(cells[b])))) break; for (size_t i = 0; i < got.size(); ++i) CHK(loc[got[i]] == (int)i, "localidx", cat("cell ", got[i], " local ", loc[got[i]])); }
    partition_deallocate_inverse(pi, inv); ev("inversions");
}

// components of the blocks of p in the cell graph of the faces
static UF block_components(int nc, int nf, const int* N, const VI& p) { UF u(nc); for (int f = 0; f < nf; ++f) { int a = N[2 * f], b = N[2 * f + 1]; if (a >= 0 && b >= 0 && p[a] == p[b]) u.join(a, b); } return u; }

static VI random_partition(Rng& r, const UnstructuredGrid& g, std::string* how)
{
    int nc = g.number_of_cells; VI p(nc); int w = r.i(0, 3); int nb = r.i(1, std::max(2, std::min(nc, r.p(0.3) ? nc : 6)));
    if (w == 0) { *how = "random"; for (auto& x : p) x = r.i(0, nb - 1); }
    else if (w == 1) { *how = "seeds"; int d = g.dimensions; std::vector<int> s; for (int i = 0; i < nb; ++i) s.push_back(r.i(0, nc - 1)); for (int c = 0; c < nc; ++c) { double best = 1e300; for (int i = 0; i < nb; ++i) { double e = 0; for (int q = 0; q < d; ++q) { double t = g.cell_centroids[d * c + q] - g.cell_centroids[d * s[i] + q]; e += t * t; } if (e < best) { best = e; p[c] = i; } } } }
    else if (w == 2) { *how = "strips"; int m = r.i(1, 4); for (int c = 0; c < nc; ++c) p[c] = (c / m) % nb; }
    else { *how = "uniform"; int d = g.dimensions; VI cd(d), ix(nc); for (int q = 0; q < d; ++q) cd[q] = r.i(1, g.cartdims[q]); long tot = 1; for (int q = 0; q < d; ++q) tot *= g.cartdims[q]; bool ok = tot >= nc && tot > 0; for (int q = 0; q < d; ++q) ok = ok && g.cartdims[q] > 0; if (!ok) { for (auto& x : p) x = r.i(0, nb - 1); return p; } for (int c = 0; c < nc; ++c) ix[c] = g.global_cell ? g.global_cell[c] : c; for (int x : ix) if (x < 0 || x >= tot) ok = false; if (!ok) { for (auto& x : p) x = r.i(0, nb - 1); return p; } partition_unif_idx(d, nc, g.cartdims, cd.data(), ix.data(), p.data()); }
    return p;
}

static void split(Rng& r, const UnstructuredGrid* gp, VI& out)
{
    // either a grid or an arbitrary (multi)graph
    int nc, nf; VI N; VI p; std::string how;
    if (gp) { nc = gp->number_of_cells; nf = gp->number_of_faces; N.assign(gp->face_cells, gp->face_cells + 2 * nf); p = random_partition(r, *gp, &how); }
    else { nc = r.i(1, 30); nf = r.i(1, 3 * nc); for (int f = 0; f < nf; ++f) { int a = r.i(r.p(0.2) ? -1 : 0, nc - 1), b = r.i(-1, nc - 1); if (a == b) b = -1; if (r.p(0.5)) std::swap(a, b); N.push_back(a); N.push_back(b); } p.resize(nc); int nb = r.i(1, 6); for (auto& x : p) x = r.i(0, nb - 1); how = "graph"; if (r.p(0.3)) { nf = nc - 1 ? nc - 1 : 1; N.clear(); for (int f = 0; f < nf; ++f) { N.push_back(f); N.push_back(f + 1 < nc ? f + 1 : -1); } for (auto& x : p) x = r.p(0.9) ? 0 : 1; how = "path"; } } // long chains: depth of the search
    std::unique_ptr<int[]> q(new int[nc]), nn(new int[2 * nf]); std::copy(p.begin(), p.end(), q.get()); std::copy(N.begin(), N.end(), nn.get());
    std::string d = cat(how, " cells ", nc, " faces ", nf, " p ", vec(p));
    UF u = block_components(nc, nf, N.data(), p); int mx = *std::max_element(p.begin(), p.end()); std::map<int, std::set<int>> comp; for (int c = 0; c < nc; ++c) comp[p[c]].insert(u.find(c)); int extra = 0; for (auto& e : comp) extra += (int)e.second.size() - 1;
    int ret = partition_split_disconnected(nc, nf, nn.get(), q.get()); ev("splits"); ev("new_blocks", extra);
    CHK(ret == extra, "split-count", cat(d, " returned ", ret, " expected ", extra));
    // same component <=> same new block
    std::map<int, int> c2b, b2c; bool ok = true;
    for (int c = 0; c < nc && ok; ++c) { int k = u.find(c); if (!c2b.count(k)) { ok = CHK(!b2c.count(q[c]), "split-merged", cat(d, " cell ", c, " block ", q[c], " holds two components")); c2b[k] = q[c]; b2c[q[c]] = k; } else ok = CHK(c2b[k] == q[c], "split-torn", cat(d, " cell ", c, " block ", q[c], " but its component has ", c2b[k])); }
    if (ok) { // one component of each block keeps its number, the others get the numbers after the largest
        std::map<int, int> keep; std::set<int> fresh; for (auto& e : b2c) { if (e.first <= mx) { int c = 0; while (u.find(c) != e.second) ++c; CHK(p[c] == e.first, "split-number", cat(d, " block ", e.first)); keep[p[c]]++; } else fresh.insert(e.first); }
        for (auto& e : comp) CHK(keep[e.first] == 1, "split-keep", cat(d, " block ", e.first, " kept by ", keep[e.first], " components")); CHK((int)fresh.size() == extra && (fresh.empty() || (*fresh.begin() == mx + 1 && *fresh.rbegin() == mx + extra)), "split-gaps", cat(d, " new numbers from ", fresh.empty() ? -1 : *fresh.begin()));
    }
    for (int i = 0; i < 2 * nf; ++i) CHK(nn[i] == N[i], "split-modified-graph", d);
    uint64_t h = 5; for (int c = 0; c < nc; ++c) h = hcomb(h, q[c]); nontrivial(h); out.assign(q.get(), q.get() + nc);
}

static bool topology(Rng& r, int nc, int nf, const int* N, const VI& p, const coarse_topology* t, bool sub, const std::string& d)
{
    std::map<std::pair<int, int>, std::set<int>> want; int nb = *std::max_element(p.begin(), p.end()) + 1;
    for (int f = 0; f < nf; ++f) { int a = N[2 * f] >= 0 ? p[N[2 * f]] : -1, b = N[2 * f + 1] >= 0 ? p[N[2 * f + 1]] : -1; if (a == b) continue; want[std::make_pair(std::min(a, b), std::max(a, b))].insert(f); }
    bool ok = CHK(t->nblocks == nb, "topo-blocks", cat(d, " ", t->nblocks, " expected ", nb)) && CHK(t->nfaces == (int)want.size(), "topo-faces", cat(d, " ", t->nfaces, " faces expected ", want.size())); if (!ok) return false;
    std::set<std::pair<int, int>> seen; std::vector<std::set<int>> bf(nb);
    for (int f = 0; f < t->nfaces && ok; ++f) {
        int a = t->neighbours[2 * f], b = t->neighbours[2 * f + 1]; auto k = std::make_pair(std::min(a, b), std::max(a, b)); ok = CHK(want.count(k) && seen.insert(k).second, "topo-pair", cat(d, " face ", f, " joins ", a, " and ", b)); if (!ok) break; if (a >= 0) bf[a].insert(f); if (b >= 0) bf[b].insert(f);
        if (sub) { VI s(t->subfaces + t->subfacepos[f], t->subfaces + t->subfacepos[f + 1]); std::set<int> S(s.begin(), s.end()); ok = CHK(S.size() == s.size() && S == want[k], "topo-subfaces", cat(d, " coarse face ", f, " (", a, ",", b, ") fine faces ", vec(s), " expected ", vec(want[k]))); ev("coarse_faces"); }
    }
    for (int b = 0; b < nb && ok; ++b) { VI s(t->blkfaces + t->blkfacepos[b], t->blkfaces + t->blkfacepos[b + 1]); std::set<int> S(s.begin(), s.end()); ok = CHK(S.size() == s.size() && S == bf[b], "topo-blkfaces", cat(d, " block ", b, " faces ", vec(s), " expected ", vec(bf[b]))); }
    return ok;
}

static void multiscale(Rng& r, UnstructuredGrid& g, VI p, const std::string& kind)
{
    int nc = g.number_of_cells, nf = g.number_of_faces, d = g.dimensions; const int* N = g.face_cells; UF all(nc); join_faces(g, all); for (int c = 1; c < nc; ++c) if (all.find(c) != all.find(0)) { ev("skipped_disconnected"); return; }
    if (r.p(0.15)) { for (int c = 0; c < nc; ++c) p[c] = c; ev("identity_partitions"); }
    partition_compress(nc, p.data()); int nb = *std::max_element(p.begin(), p.end()) + 1; if (nb < 2) { ev("skipped_single_block"); return; }
    if (r.p(0.3)) { VI pm = random_perm(r, nb); for (auto& x : p) x = pm[x]; }
    bool tensor = r.p(0.4); MockIncomp rock = random_mock(r, g, 1, r.p(0.3), r.pick(std::vector<double>{0, 1, 3}), tensor); VD T = half_trans(g, rock.perm);
    { VD a; for (int c = 0; c < nc; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) a.push_back(T[k]); if (!(min_half(a) > 1e-6)) { ev("skipped_degenerate_transmissibility"); return; } }
    double msc = r.logu(0.1, 1e3); bool uni = r.p(0.2); VD lam(nc), lam0; for (auto& x : lam) x = uni ? msc : msc * r.logu(0.03, 30); lam0 = lam;
    // sources: no block may cancel out internally
    VD src(nc, 0.0), src0; double q = r.logu(1e-4, 10); std::vector<VI> cells(nb); for (int c = 0; c < nc; ++c) cells[p[c]].push_back(c);
    { VI bl = random_perm(r, nb); int ns = r.i(2, std::max(2, std::min(nb, 5))); double tot = 0; for (int i = 0; i < ns; ++i) { const VI& C = cells[bl[i]]; double v = i + 1 < ns ? q * r.u(0.1, 1) * (r.p(0.5) ? 1 : -1) : -tot; if (i + 1 == ns && std::fabs(tot) < 0.02 * q) { src[C[0]] += 0.5 * q; src[cells[bl[0]][0]] -= tot + 0.5 * q; double s0 = 0; for (int c : cells[bl[0]]) s0 += src[c]; if (std::fabs(s0) < 0.02 * q) return; break; } tot += v; int k = r.i(1, std::min<int>(3, C.size())); VI pm = random_perm(r, (int)C.size()); double left = v; for (int j = 0; j < k; ++j) { double w = j + 1 < k ? v * r.u(0.1, 0.9) / k : left; src[C[pm[j]]] += w; left -= w; } } }
    src0 = src; std::string desc = cat(kind, " cells ", nc, " blocks ", nb, tensor ? " tensor" : "", uni ? " uniform mobility" : "");
    // weights, basis functions and coarse spaces of the reference
    VD w(nc); { VD bw(nb, 0.0); std::vector<char> has(nb, 0); for (int c = 0; c < nc; ++c) if (src[c] != 0) has[p[c]] = 1; for (int c = 0; c < nc; ++c) { double t = 0; for (int i = 0; i < d; ++i) t += rock.perm[(size_t)c * d * d + i * (d + 1)]; w[c] = has[p[c]] ? src[c] : t * g.cell_volumes[c]; bw[p[c]] += w[c]; } for (int c = 0; c < nc; ++c) w[c] /= bw[p[c]]; }
    std::map<std::pair<int, int>, int> cf; std::vector<std::pair<int, int>> pr; for (int f = 0; f < nf; ++f) { int a = N[2 * f], b = N[2 * f + 1]; if (a < 0 || b < 0 || p[a] == p[b]) continue; auto k = std::make_pair(std::min(p[a], p[b]), std::max(p[a], p[b])); if (!cf.count(k)) { cf[k] = (int)pr.size(); pr.push_back(k); } }
    int nF = (int)pr.size(); if (nF > 120) { ev("skipped_large"); return; } std::vector<std::map<int, double>> Psi(nF); // fine face -> flux, oriented by the fine face
    VD hl(T); for (int c = 0; c < nc; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) hl[k] = T[k] * lam0[c];
    VD inv(nf, 0.0); for (int c = 0; c < nc; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) inv[g.cell_faces[k]] += 1 / hl[k];
    for (int i = 0; i < nF; ++i) {
        VI D; std::map<int, int> loc; for (int b : {pr[i].first, pr[i].second}) for (int c : cells[b]) { loc[c] = (int)D.size(); D.push_back(c); } int n = (int)D.size(); VD A((size_t)n * n, 0.0), x(n); VI ff;
        for (int f = 0; f < nf; ++f) { int a = N[2 * f], b = N[2 * f + 1]; if (a < 0 || b < 0 || !loc.count(a) || !loc.count(b)) continue; double t = 1 / inv[f]; int u = loc[a], v = loc[b]; A[(size_t)u * n + u] += t; A[(size_t)v * n + v] += t; A[(size_t)u * n + v] -= t; A[(size_t)v * n + u] -= t; ff.push_back(f); }
        for (int j = 0; j < n; ++j) x[j] = w[D[j]] * (p[D[j]] == pr[i].first ? 1 : -1); A[0] *= 2; if (!dense_solve(n, A, x)) { ev("skipped_reference"); return; }
        for (int f : ff) Psi[i][f] = (x[loc[N[2 * f]]] - x[loc[N[2 * f + 1]]]) / inv[f];
    }
    // library
    std::unique_ptr<int[]> pp(new int[nc]); std::copy(p.begin(), p.end(), pp.get()); std::unique_ptr<double[]> ps(new double[nc]), pm(new double[nc]); std::copy(src.begin(), src.end(), ps.get()); std::copy(lam.begin(), lam.end(), pm.get());
    n_local = 0; ifsh_ms_data* h = ifsh_ms_construct(&g, pp.get(), &rock.perm[0], ps.get(), pm.get(), local_solve); if (!CHK(h != 0, "construct", desc)) return; CHK(n_local == nF, "basis-count", cat(desc, " solved ", n_local, " local problems for ", nF, " block pairs")); ev("basis_functions", nF);
    int nsol = r.i(1, 3); for (int it = 0; it < nsol; ++it) {
        if (it) { bool same = r.p(0.3); for (int c = 0; c < nc; ++c) { if (!same) lam[c] = msc * r.logu(0.03, 30); } double s = r.u(-2, 2); for (int c = 0; c < nc; ++c) src[c] = s * src0[c]; ev("reassembled"); }
        std::copy(src.begin(), src.end(), ps.get()); std::copy(lam.begin(), lam.end(), pm.get()); ifsh_ms_assemble(ps.get(), pm.get(), h); CSRMatrix* A = h->A; int n = (int)A->m; if (!CHK(n == nF, "system-size", cat(desc, " ", n, " unknowns for ", nF, " coarse faces"))) break; if (n == 1) { h->x[0] = 0; ev("two_block_systems"); } else local_solve(A, h->b, h->x); // one interface: the matrix is exactly zero, any multiplier will do
        VD cp(nc, 1e77), fl(nf, 1e77); ifsh_ms_press_flux(&g, h, &cp[0], &fl[0]); ev("multiscale_solves");
        VD bs(nb, 0.0); double sc = 0; for (int c = 0; c < nc; ++c) { bs[p[c]] += src[c]; sc += std::fabs(src[c]); }
        // monitors on the flux field itself
        VD div(nc, 0.0), bdiv(nb, 0.0); double fm = sc; for (double x : fl) fm = std::max(fm, std::fabs(x)); bool ok = true;
        for (int f = 0; f < nf && ok; ++f) { int a = N[2 * f], b = N[2 * f + 1]; if (a < 0 || b < 0) ok = NEAR(fl[f], 0.0, 1e-7, fm, "outer-flux", cat(desc, " face ", f)); else { div[a] += fl[f]; div[b] -= fl[f]; if (p[a] != p[b]) { bdiv[p[a]] += fl[f]; bdiv[p[b]] -= fl[f]; } } }
        for (int b = 0; b < nb && ok; ++b) ok = NEAR(bdiv[b], bs[b], 1e-7, fm, "block-balance", cat(desc, " solve ", it, " block ", b)); ev("balanced_blocks", nb);
        for (int c = 0; c < nc && ok; ++c) { ok = NEAR(div[c], w[c] * bs[p[c]], 1e-7, fm, "cell-balance", cat(desc, " solve ", it, " cell ", c)); }
        // differential: dense mixed system over coarse fluxes and block pressures
        int m = nF + nb; VD K((size_t)m * m, 0.0), x(m, 0.0); VD ib((size_t)nf * 2, 0.0); // 1/(T lambda) per face side
        for (int c = 0; c < nc; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; ib[2 * f + (N[2 * f] == c ? 0 : 1)] = 1 / (T[k] * lam[c]); }
        double bscale = 0; for (int i = 0; i < nF; ++i) for (int j = 0; j < nF; ++j) { double s = 0; for (auto& e : Psi[i]) { auto it2 = Psi[j].find(e.first); if (it2 == Psi[j].end()) continue; for (int side = 0; side < 2; ++side) { int b = p[N[2 * e.first + side]]; bool in_i = pr[i].first == b || pr[i].second == b, in_j = pr[j].first == b || pr[j].second == b; if (in_i && in_j) s += e.second * it2->second * ib[2 * e.first + side]; } } K[(size_t)i * m + j] = s; bscale = std::max(bscale, std::fabs(s)); }
        double ps_ = bscale; for (int i = 0; i < nF; ++i) { for (int j = 0; j < nF; ++j) K[(size_t)i * m + j] /= ps_; K[(size_t)i * m + nF + pr[i].first] = -1; K[(size_t)i * m + nF + pr[i].second] = 1; K[(size_t)(nF + pr[i].first) * m + i] = 1; K[(size_t)(nF + pr[i].second) * m + i] = -1; } // pressures scaled by ps_
        for (int b = 0; b < nb; ++b) x[nF + b] = bs[b]; for (int j = 0; j < m; ++j) K[(size_t)nF * m + j] = 0; K[(size_t)nF * m + nF] = 1; x[nF] = 0; // redundant balance of block 0 replaced by the pressure level
        if (!dense_solve(m, K, x)) { ev("skipped_reference"); break; }
        VD want(nf, 0.0); for (int i = 0; i < nF; ++i) for (auto& e : Psi[i]) want[e.first] += x[i] * e.second;
        for (int f = 0; f < nf && ok; ++f) ok = NEAR(fl[f], want[f], 1e-6, fm, "fine-flux", cat(desc, " solve ", it, " face ", f, " of cells ", N[2 * f], " ", N[2 * f + 1]));
        for (int c = 0; c < nc && ok; ++c) ok = CHK(std::fabs(cp[c]) < 1e70, "cell-pressure-unset", cat(desc, " solve ", it, " cell ", c, " pressure ", cp[c])); double off = cp[cells[0][0]], pr0 = 0; for (int b = 0; b < nb; ++b) pr0 = std::max(pr0, std::fabs(x[nF + b] * ps_)); for (int c = 0; c < nc && ok; ++c) ok = NEAR(cp[c] - off, x[nF + p[c]] * ps_, 1e-5, std::max(pr0, 1e-12 * std::fabs(off)), "block-pressure", cat(desc, " solve ", it, " cell ", c));
        uint64_t hh = 3; for (double v : fl) hh = hcomb(hh, hdbl(v)); nontrivial(hh); ev("flux_faces", nf); if (!ok) break;
    }
    for (int c = 0; c < nc; ++c) CHK(pp[c] == p[c], "partition-modified", desc); ifsh_ms_destroy(h);
}

static void one(long k, Rng& r)
{
    for (int i = 0; i < 3; ++i) { Rng q(r.next()); uniform(q); }
    { Rng q(r.next()); VI o; split(q, 0, o); }
    Rng q(r.next()); std::string kind; GridPtr g = any_grid(q, 4, 5, &kind); VI p; split(q, g.g, p);
    { int en = q.i(0, 1) ? q.i(1, 300) : 0; VI pt = q.p(0.5) ? p : VI(); std::string how; if (pt.empty()) pt = random_partition(q, *g, &how); if (q.p(0.2)) for (auto& x : pt) x = 2 * x + 1; coarse_topology* t = coarse_topology_create(g->number_of_cells, g->number_of_faces, en, pt.data(), g->face_cells); if (CHK(t != 0, "topology-create", kind)) { topology(q, g->number_of_cells, g->number_of_faces, g->face_cells, pt, t, en > 0, kind); coarse_topology_destroy(t); ev("topologies"); } }
    if (g->number_of_cells <= 80) multiscale(q, *g.g, p, kind); sample(cat(kind, " blocks ", vec(p)));
}
int main(int argc, char** argv) { return mon::run(argc, argv, "p20", one, 60); }
