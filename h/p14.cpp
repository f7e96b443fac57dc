// P14: relative permeability and capillary pressure follow the tables of each cell's region, their derivatives, the three-phase models and end-point scaling.
#include "config.h"
#include "deck.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace mon; typedef std::vector<double> dvec;
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
struct Tab { dvec x, y; void init(const dvec& a, const dvec& b, int samples) { if (samples <= 1) { x = a; y = b; return; } Opm::MonotCubicInterpolator c(a, b); x.clear(); y.clear(); for (int i = 0; i < samples; ++i) { double w = double(i) / (samples - 1); x.push_back((1 - w) * a.front() + w * a.back()); y.push_back(c(x.back())); } }
    double operator()(double q) const { size_t n = x.size(), s = 0; if (q <= x[0]) return y[0]; if (q >= x[n - 1]) return y[n - 1]; s = std::upper_bound(x.begin(), x.end(), q) - x.begin() - 1; return y[s] + (y[s + 1] - y[s]) * (q - x[s]) / (x[s + 1] - x[s]); }
    bool clear(double q, double d) const { auto it = std::lower_bound(x.begin(), x.end(), q - d); return it == x.end() || *it > q + d; } };
struct Region { dvec sw, krw, krow, pcw, sg, krg, krog, pcg; Tab Krw, Krow, Pcw, Krg, Krog, Pcg; double swco = 0, swmax = 1, swcr, sowcr, krwmax, kromax, krwr, krorw; };
struct Eps { bool has[8]; double v[8]; }; // SWL SWCR SWU SOWCR KRW KRO KRWR KRORW
static const char* EK[8] = {"SWL", "SWCR", "SWU", "SOWCR", "KRW", "KRO", "KRWR", "KRORW"};
static dvec rise(Rng& r, int n, double a, double b) { dvec v(n); for (int i = 0; i < n; ++i) v[i] = r.u(); std::sort(v.begin(), v.end()); double lo = v[0], hi = v[n - 1]; for (auto& x : v) x = hi > lo ? a + (b - a) * (x - lo) / (hi - lo) : a; v[0] = a; v[n - 1] = b; return v; }
static dvec strict(Rng& r, int n, double a, double b) { for (;;) { dvec v = rise(r, n, a, b); bool ok = true; for (int i = 1; i < n; ++i) ok = ok && v[i] > v[i - 1] + 0.004; if (ok) return v; } }
static void tables(Rng& r, Region& R, bool water, bool gas, bool eps, double P)
{
    R.swco = r.p(0.2) ? 0 : r.u(0.01, 0.1);
    if (water) { // connate, critical, residual oil, maximum; some of them may coincide
        bool crit = r.p(0.7), res = r.p(0.7); double cr = crit ? r.u(0.15, 0.25) : R.swco, sr = r.u(0.6, 0.72), mx = res ? r.p(0.5) ? 1 : r.u(0.8, 1) : sr; int nm = r.i(0, 4); dvec m = nm ? strict(r, nm + 2, cr, sr) : dvec{cr, sr};
        R.sw.push_back(R.swco); if (crit) { if (r.p(0.3)) R.sw.push_back(0.5 * (R.swco + cr)); R.sw.push_back(cr); } for (size_t i = 1; i < m.size(); ++i) R.sw.push_back(m[i]); if (res) { if (r.p(0.3)) R.sw.push_back(0.5 * (sr + mx)); R.sw.push_back(mx); }
        double kw = r.u(0.6, 1), kwr = res ? r.u(0.2, 0.5) : kw, ko = r.u(0.85, 1), kor = crit ? r.u(0.5, 0.8) : ko; if (crit && r.p(0.1)) kor = ko; if (res && r.p(0.1)) kwr = kw; for (double s : R.sw) { double w = s <= cr ? 0 : s <= sr ? kwr * std::pow((s - cr) / (sr - cr), 1.7) : s >= mx ? kw : kwr + (kw - kwr) * (s - sr) / (mx - sr); double o = s >= sr ? 0 : s >= cr ? kor * std::pow((sr - s) / (sr - cr), 2.3) : s <= R.swco ? ko : kor + (ko - kor) * (cr - s) / (cr - R.swco); R.krw.push_back(w); R.krow.push_back(o); }
        dvec pc = rise(r, (int)R.sw.size(), r.u(-1, 0), r.u(0.1, 3)); if (r.p(0.3)) for (auto& x : pc) x = 0; R.pcw.assign(pc.rbegin(), pc.rend()); R.swmax = R.sw.back(); R.swcr = cr; R.sowcr = 1 - sr; R.krwmax = kw; R.kromax = R.krow[0]; R.krwr = kwr; R.krorw = kor; (void)eps;
    } else R.swco = 0;
    if (gas) { int n = r.i(2, 7); R.sg = strict(r, n, 0, 1 - R.swco); R.krg = rise(r, n, 0, r.u(0.5, 1)); int z = r.i(0, n - 2); for (int i = 0; i <= z && r.p(0.5); ++i) R.krg[i] = 0; dvec o = rise(r, n, 0, water ? R.krow[0] : r.u(0.5, 1)); R.krog.assign(o.rbegin(), o.rend()); R.pcg = rise(r, n, r.p(0.5) ? 0 : r.u(-0.5, 0), r.u(0.1, 2)); if (r.p(0.3)) for (auto& x : R.pcg) x = 0; }
    (void)P;
}
struct Setup { bool W, G; int np, wp, op, gp; std::string model; int samples; bool eps, three; std::vector<Region> reg; std::vector<int> rc; std::vector<Eps> ec; };
static double lowkr(const Setup& S, const Region& R, double sw, double sg) { return (void)S, R.Krow(sw + sg); }
// reference values of kr and pc at canonical saturations
static double raw3(const Setup& S, const Region& R, double sw, double sg) { double k = R.krow[0]; return k * ((R.Krow(sw + sg) / k + R.Krw(sw)) * (R.Krog(sg) / k + R.Krg(sg)) - R.Krw(sw) - R.Krg(sg)) + 0 * S.np; }
static void krRef(const Setup& S, const Region& R, double sw, double so, double sg, double k[3])
{
    if (S.np == 2 && S.W) { k[0] = R.Krw(sw); k[1] = R.Krow(1 - so); return; } if (S.np == 2) { k[2] = R.Krg(sg); k[1] = R.Krog(sg); return; }
    k[0] = R.Krw(sw); k[2] = R.Krg(sg); if (S.model == "simple") k[1] = lowkr(S, R, sw, sg); else if (S.model == "stone2") k[1] = std::max(0.0, raw3(S, R, sw, sg)); else { double a = std::max(sw, R.swco) - R.swco, x = a / std::max(a + sg, 1e-6), e = a + R.swco + sg; k[0] = x * R.Krw(e); k[2] = (1 - x) * R.Krg(a + sg); k[1] = x * R.Krow(e) + (1 - x) * R.Krog(a + sg); }
}
// end-point scaling of one phase: own saturation s, table points cr < r < mx with kr 0, kr_r, kr_mx and their scaled counterparts
struct Pts { double cr, r, mx, kr, kmx; };
static double scaleS(const Pts& t, const Pts& q, bool three, double s) { if (s <= q.cr) return t.cr; if (s >= q.mx) return t.mx; if (!three) return t.cr + (s - q.cr) * (t.mx - t.cr) / (q.mx - q.cr); if (s <= q.r) return t.cr + (s - q.cr) * (t.r - t.cr) / (q.r - q.cr); return t.r + (s - q.r) * (t.mx - t.r) / (q.mx - q.r); }
static double scaleK(const Pts& t, const Pts& q, bool hasR, bool hasM, double s, double k) { if (!hasR && !hasM) return k; if (!hasR) return k * q.kmx / t.kmx; if (s <= q.cr) return 0; if (s > q.mx) return q.kmx; if (s <= q.r) return k * q.kr / t.kr; if (std::fabs(t.kmx - t.kr) > 1e-6) return q.kr + (k - t.kr) * (q.kmx - q.kr) / (t.kmx - t.kr); return q.kr + (q.kmx - q.kr) * (s - q.r) / (q.mx - q.r); }
static void points(const Region& R, const Eps& E, bool three, Pts& tw, Pts& qw, Pts& to, Pts& qo) { tw = Pts{R.swcr, 1 - R.sowcr, R.swmax, R.krwr, R.krwmax}; to = Pts{R.sowcr, 1 - R.swcr, 1 - R.swco, R.krorw, R.kromax}; auto g = [&](int i, double d) { return E.has[i] ? E.v[i] : d; }; qw = Pts{g(1, R.swcr), 1 - g(3, R.sowcr), g(2, R.swmax), g(6, R.krwr), g(4, R.krwmax)}; qo = Pts{g(3, R.sowcr), 1 - g(1, R.swcr), 1 - g(0, R.swco), g(7, R.krorw), g(5, R.kromax)}; if (!three) { qw.r = qw.cr + (tw.r - tw.cr) * (qw.mx - qw.cr) / (tw.mx - tw.cr); qo.r = qo.cr + (to.r - to.cr) * (qo.mx - qo.cr) / (to.mx - to.cr); } }
static void full(Rng& r)
{
    Setup S; int c = r.i(0, 3); S.W = c != 0; S.G = c != 1; S.np = 1 + S.W + S.G; S.wp = 0; S.op = S.W; S.gp = S.np - 1; static const char* M[] = {"simple", "stone2", "gwseg"}; S.model = M[r.i(0, 2)]; S.samples = r.p(0.5) ? 0 : r.p(0.3) ? 200 : r.i(2, 80); bool incomp = S.np == 2 && S.W && r.p(0.3); S.eps = S.W && !S.G && r.p(0.6); S.three = S.eps && r.p(0.5); if (S.eps) S.model = "simple"; if (incomp) { S.model = "stone2"; S.samples = 200; }
    bool field = r.p(0.4); dk::Units U = field ? dk::field() : dk::metric(); double P = U.pre; int nr = r.i(1, 3), nx = r.i(1, 4), ny = r.i(1, 2), nz = r.i(1, 3), nc = nx * ny * nz, N = nc + (r.p(0.5) ? r.i(0, 20) : 0); std::vector<int> gc(N); for (int i = 0; i < N; ++i) gc[i] = i; if (N > nc) { r.shuffle(gc); std::sort(gc.begin(), gc.begin() + nc); }
    S.reg.resize(nr); for (auto& R : S.reg) { tables(r, R, S.W, S.G, S.eps, P); if (S.W) { R.Krw.init(R.sw, R.krw, S.samples); R.Krow.init(R.sw, R.krow, S.samples); R.Pcw.init(R.sw, R.pcw, S.samples); } if (S.G) { R.Krg.init(R.sg, R.krg, S.samples); R.Krog.init(R.sg, R.krog, S.samples); R.Pcg.init(R.sg, R.pcg, S.samples); } }
    std::ostringstream o; if (field) o << "FIELD\n"; if (S.W) o << "WATER\n"; o << "OIL\n"; if (S.G) o << "GAS\n"; o << "DENSITY\n 800 1000 1 /\n"; if (S.W) o << "PVTW\n 100 1 0 0.5 0 /\n"; o << "PVCDO\n 100 1 0 2 0 /\n"; if (S.G) o << "PVDG\n 1 1 0.01\n 500 0.1 0.02 /\n";
    if (S.W) { o << "SWOF\n"; for (auto& R : S.reg) { for (size_t i = 0; i < R.sw.size(); ++i) o << num(R.sw[i]) << " " << num(R.krw[i]) << " " << num(R.krow[i]) << " " << num(R.pcw[i]) << "\n"; o << "/\n"; } } if (S.G) { o << "SGOF\n"; for (auto& R : S.reg) { for (size_t i = 0; i < R.sg.size(); ++i) o << num(R.sg[i]) << " " << num(R.krg[i]) << " " << num(R.krog[i]) << " " << num(R.pcg[i]) << "\n"; o << "/\n"; } }
    bool satnum = nr > 1 ? r.p(0.85) : r.p(0.3); S.rc.assign(nc, 0); if (satnum) { std::vector<int> a(N); for (auto& x : a) x = r.i(1, nr); o << "SATNUM\n"; for (int x : a) o << " " << x; o << " /\n"; for (int i = 0; i < nc; ++i) S.rc[i] = a[gc[i]] - 1; ev("satnum"); }
    UnstructuredGrid* g = create_grid_hexa3d(nx, ny, nz, 1.0, 1.0, r.u(5, 50)); std::unique_ptr<UnstructuredGrid, void (*)(UnstructuredGrid*)> own(g, destroy_grid); if (N > nc || r.p(0.5)) { free(g->global_cell); g->global_cell = (int*)malloc(sizeof(int) * nc); for (int i = 0; i < nc; ++i) g->global_cell[i] = gc[i]; ev("global_cells"); } else { free(g->global_cell); g->global_cell = 0; }
    S.ec.resize(nc); for (auto& e : S.ec) for (int i = 0; i < 8; ++i) e.has[i] = false;
    if (S.eps) {
        o << "ENDSCALE\n" << (r.p(0.5) ? "/\n" : "'NODIR' 'REVERS' 1 20 /\n"); if (S.three) o << "SCALECRS\nYES /\n"; else if (r.p(0.5)) o << "SCALECRS\nNO /\n"; static const double lo[8] = {0.01, 0.15, 0.85, 0.25, 0.6, 0.85, 0.2, 0.5}, hi[8] = {0.1, 0.28, 1, 0.36, 1, 1, 0.5, 0.8}; bool kw[8], vd[8]; for (int i = 0; i < 8; ++i) { kw[i] = r.p(0.35); vd[i] = false; } if (r.p(0.3)) for (int i = 0; i < 8; ++i) kw[i] = false;
        for (int i = 0; i < 8; ++i) if (kw[i]) { o << EK[i] << "\n"; dvec a(N); for (auto& x : a) { x = r.u(lo[i], hi[i]); o << " " << num(x); } o << " /\n"; for (int k = 0; k < nc; ++k) { S.ec[k].has[i] = true; S.ec[k].v[i] = a[gc[k]]; } ev(cat("keyword_", EK[i])); }
        for (int w = 0; w < 2; ++w) if (r.p(0.35)) { o << (w ? "ENKRVD\n" : "ENPTVD\n"); bool use[4]; for (int i = 0; i < 4; ++i) { use[i] = r.p(0.6); } use[r.i(0, 3)] = true; static const int col[2][4] = {{1, 2, 3, 7}, {1, 3, 4, 7}}; std::vector<dvec> dep(nr); std::vector<std::vector<dvec>> val(nr, std::vector<dvec>(4)); for (int j = 0; j < nr; ++j) { int n = r.i(2, 4); double d = r.u(-20, 30); for (int q = 0; q < n; ++q) { dep[j].push_back(d * U.len); o << num(d); for (int cc = 1; cc <= (w ? 7 : 8); ++cc) { int f = -1; for (int i = 0; i < 4; ++i) if (col[w][i] == cc) f = i; if (f >= 0 && use[f]) { double x = r.u(lo[4 * w + f], hi[4 * w + f]); val[j][f].push_back(x); o << " " << num(x); } else o << " 1*"; } o << "\n"; d += r.u(5, 60) / U.len; } o << "/\n"; } o << "/\n";
            for (int f = 0; f < 4; ++f) if (use[f] && !kw[4 * w + f]) { vd[4 * w + f] = true; for (int k = 0; k < nc; ++k) { int j = S.rc[k]; const Region& R = S.reg[j]; double z = g->cell_centroids[3 * k + 2], tabv[8] = {R.swco, R.swcr, R.swmax, R.sowcr, R.krwmax, R.kromax, R.krwr, R.krorw}; Eps& e = S.ec[k]; e.has[4 * w + f] = true; Tab t; t.x = dep[j]; t.y = val[j][f]; bool in = z >= t.x.front() && z <= t.x.back(); e.v[4 * w + f] = in ? t(z) : tabv[4 * w + f]; ev(in ? "depth_tables" : "outside_depth_tables"); } } }
        ev(S.three ? "three_point" : "two_point");
    }
    o << "NOECHO\n"; std::string text = o.str(), base = cat("model ", S.model, " samples ", S.samples, incomp ? " incomp" : "", "\n", text); Opm::EclipseGridParser deck; { dk::CoutCatch q; std::istringstream is(text); deck.read(is, true); }
    std::unique_ptr<Opm::BlackoilPropertiesInterface> bp; std::unique_ptr<Opm::IncompPropertiesInterface> ip; { dk::CoutCatch q; if (incomp) ip.reset(new Opm::IncompPropertiesFromDeck(deck, *g)); else { Opm::parameter::ParameterGroup par; if (S.model != "simple" || r.p(0.5)) par.insertParameter("threephase_model", S.model); par.insertParameter("sat_tab_size", cat(S.samples)); par.insertParameter("pvt_tab_size", "0"); if (S.samples == 200 && S.model == "simple" && r.p(0.5)) bp.reset(new Opm::BlackoilPropertiesFromDeck(deck, *g, r.p(0.5))); else bp.reset(new Opm::BlackoilPropertiesFromDeck(deck, *g, par, r.p(0.5))); } }
    int np = S.np; auto relperm = [&](int n, const double* s, const int* cell, double* k, double* d) { if (ip) ip->relperm(n, s, cell, k, d); else bp->relperm(n, s, cell, k, d); }; auto capp = [&](int n, const double* s, const int* cell, double* k, double* d) { if (ip) ip->capPress(n, s, cell, k, d); else bp->capPress(n, s, cell, k, d); };
    int n = r.i(1, 10); dvec s(n * np), kr(n * np), kr2(n * np), dk_(n * np * np), pc(n * np), pc2(n * np), dpc(n * np * np), smin(n * np), smax(n * np); std::vector<int> cells(n);
    for (int i = 0; i < n; ++i) { cells[i] = r.i(0, nc - 1); const Region& R = S.reg[S.rc[cells[i]]]; double w = 0, gs = 0; auto pick = [&](const dvec& t) { return r.p(0.25) ? t[r.i(0, (int)t.size() - 1)] : r.u(); }; if (np == 2) { if (S.W) { w = pick(R.sw); if (S.eps && r.p(0.3)) { Pts a, q, b, e; points(R, S.ec[cells[i]], S.three, a, q, b, e); double v[6] = {q.cr, q.r, q.mx, 1 - e.cr, 1 - e.r, 1 - e.mx}; w = std::min(1.0, std::max(0.0, v[r.i(0, 5)])); } } else gs = pick(R.sg); } else { w = r.p(0.15) ? R.swco : pick(R.sw); gs = r.p(0.2) ? 0 : r.p(0.1) ? 1 - w : r.p(0.2) ? r.logu(1e-9, 1e-5) : pick(R.sg); if (r.p(0.1)) { w = R.swco; gs = 0; } if (w + gs > 1) { if (r.p(0.5)) gs = 1 - w; else { gs *= 0.5; w *= 0.5; } } } if (S.W) s[np * i + S.wp] = w; if (S.G) s[np * i + S.gp] = gs; s[np * i + S.op] = 1 - w - gs; }
    relperm(n, &s[0], &cells[0], &kr[0], 0); capp(n, &s[0], &cells[0], &pc[0], 0); capp(n, &s[0], &cells[0], &pc2[0], &dpc[0]); CHK(pc == pc2, "pc-with-derivative", base); if (ip) ip->satRange(n, &cells[0], &smin[0], &smax[0]); else bp->satRange(n, &cells[0], &smin[0], &smax[0]);
    if (!S.eps) { relperm(n, &s[0], &cells[0], &kr2[0], &dk_[0]); CHK(kr == kr2, "kr-with-derivative", base); } else { bool t = false; { dk::CoutCatch q; try { relperm(n, &s[0], &cells[0], &kr2[0], &dk_[0]); } catch (const std::exception&) { t = true; } } if (!CHK(t, "scaled-derivative-not-refused", base)) return; }
    for (int i = 0; i < n; ++i) {
        const double* si = &s[np * i]; const Region& R = S.reg[S.rc[cells[i]]]; double sw = S.W ? si[S.wp] : 0, so = si[S.op], sg = S.G ? si[S.gp] : 0; int pos[3] = {S.W ? S.wp : -1, S.op, S.G ? S.gp : -1}; std::string at = cat("cell ", cells[i], " region ", S.rc[cells[i]] + 1, " s ", vec(dvec(si, si + np)), " "); ev("points"); nontrivial(hcomb(hdbl(si[0]), hdbl(kr[np * i])));
        { double k1[3], p1[3], a1[3], b1[3]; relperm(1, si, &cells[i], k1, 0); capp(1, si, &cells[i], p1, 0); if (ip) ip->satRange(1, &cells[i], a1, b1); else bp->satRange(1, &cells[i], a1, b1); for (int k = 0; k < np; ++k) if (!CHK(k1[k] == kr[np * i + k] && p1[k] == pc[np * i + k] && a1[k] == smin[np * i + k] && b1[k] == smax[np * i + k], "batch", at + base)) return; ev("alone"); }
        // saturation range
        double lo[3] = {R.swco, 1 - R.swmax, 0}, hi[3] = {R.swmax, 1 - R.swco, S.G ? R.sg.back() : 1}; for (int c2 = 0; c2 < 3; ++c2) if (pos[c2] >= 0 && !CHK(close(smin[np * i + pos[c2]], lo[c2], 1e-14, 1) && close(smax[np * i + pos[c2]], hi[c2], 1e-14, 1), "saturation-range", cat(at, c2, " ", smin[np * i + pos[c2]], " ", smax[np * i + pos[c2]], " ", base))) return;
        // values
        double k[3] = {0, 0, 0}; static const char* cn[] = {"water", "oil", "gas"}; bool degenerate = false;
        if (S.eps) { const Eps& E = S.ec[cells[i]]; Pts tw, qw, to, qo; points(R, E, S.three, tw, qw, to, qo); if ((S.three || E.has[6]) && qw.r > qw.mx + 1e-9 && S.three) { ev("inconsistent_points"); continue; } if (qo.r > qo.mx + 1e-9) { ev("inconsistent_points"); continue; } bool mw = E.has[1] || E.has[2] || (S.three && E.has[3]), mo = E.has[3] || E.has[0] || (S.three && E.has[1]); double a = mw ? scaleS(tw, qw, S.three, sw) : sw, b = mo ? scaleS(to, qo, S.three, so) : so; k[0] = R.Krw(a); k[1] = R.Krow(1 - b);
            double k0 = k[0], k1 = k[1]; k[0] = scaleK(tw, qw, E.has[6], E.has[4], sw, k[0]); k[1] = scaleK(to, qo, E.has[7], E.has[5], so, k[1]); auto deg = [&](const Pts& q, bool hr, bool hm, double t, double q2, double v, double tm, double qm, double& out, double sat) { if (hr && q.r > q.mx - 1e-6) { ev("no_room_above_critical"); if (sat <= q.cr) out = 0; else if (S.three) out = v * q2 / t; else out = hm ? v * qm / tm : v; } }; deg(qw, E.has[6], E.has[4], tw.kr, qw.kr, k0, tw.kmx, qw.kmx, k[0], sw); deg(qo, E.has[7], E.has[5], to.kr, qo.kr, k1, to.kmx, qo.kmx, k[1], so);
            degenerate = std::fabs(sw - qw.cr) < 1e-12 || std::fabs(sw - qw.r) < 1e-12 || std::fabs(sw - qw.mx) < 1e-12 || std::fabs(so - qo.cr) < 1e-12 || std::fabs(so - qo.r) < 1e-12 || std::fabs(so - qo.mx) < 1e-12;
            // end points in saturation and value, from the library alone
            if (i == 0 && S.samples <= 1) { double q[3], x[3]; auto ev2 = [&](int ph, double sat) { x[S.wp] = ph ? 1 - sat : sat; x[S.op] = 1 - x[S.wp]; relperm(1, x, &cells[i], q, 0); return q[ph ? S.op : S.wp]; }; for (int ph = 0; ph < 2; ++ph) { const Pts& q1 = ph ? qo : qw; bool hr = E.has[ph ? 7 : 6], hm = E.has[ph ? 5 : 4]; if (!(q1.r < q1.mx - 1e-5)) continue; double e0 = ev2(ph, q1.cr - 1e-9), em = ev2(ph, q1.mx), er = ev2(ph, q1.r), ex = ev2(ph, std::min(1.0, q1.mx + 0.05)); bool mapped = ph ? mo : mw; bool same = (E.has[0] || E.has[1] || E.has[2] || E.has[3]) ? mapped : true; if (!same) continue; const Pts& t1 = ph ? to : tw; double wantM = hm ? q1.kmx : t1.kmx, wantR = hr ? q1.kr : hm ? t1.kr * q1.kmx / t1.kmx : t1.kr; if (!CHK(std::fabs(e0) < 1e-6 && std::fabs(em - wantM) < 1e-6 && std::fabs(ex - wantM) < 1e-6, std::string("scaled-end:") + (ph ? "oil" : "water"), cat(at, "critical ", q1.cr, " gives ", e0, ", maximum ", q1.mx, " gives ", em, " and beyond ", ex, " expected ", wantM, " ", base))) return; if (!CHK(std::fabs(er - wantR) < 1e-6, std::string("scaled-middle:") + (ph ? "oil" : "water"), cat(at, q1.r, " gives ", er, " expected ", wantR, " ", base))) return; ev("scaled_ends"); } }
        } else krRef(S, R, sw, so, sg, k);
        for (int c2 = 0; c2 < 3; ++c2) if (pos[c2] >= 0) { double v = kr[np * i + pos[c2]]; if (!CHK(std::isfinite(v), std::string("kr-finite:") + cn[c2], cat(at, v, " ", base))) return; if (degenerate) { ev("at_break_points"); continue; } if (!CHK(close(v, k[c2], 1e-10, 1), std::string("kr:") + cn[c2], cat(at, v, " expected ", k[c2], " ", base))) return; ev("values"); }
        for (int c2 = 0; c2 < 3; ++c2) if (pos[c2] >= 0) { double v = pc[np * i + pos[c2]], e = c2 == 1 ? 0 : (c2 == 0 ? R.Pcw(sw) : R.Pcg(sg)) * P; if (!CHK(close(v, e, 1e-10, 3 * P), std::string("pc:") + cn[c2], cat(at, v, " expected ", e, " ", base))) return; ev("values"); }
        if (np == 3) { if (sg == 0 && sw >= R.swco + 1e-5) { CHK(close(kr[np * i], R.Krw(sw), 1e-9, 1) && close(kr[np * i + S.op], R.Krow(sw), 1e-9, 1) && std::fabs(kr[np * i + 2]) < 1e-9, "no-gas", at + base); ev("reduced_no_gas"); } if (sw == R.swco && sg > 1e-5 && S.model == "gwseg") { CHK(std::fabs(kr[np * i]) < 1e-9 && close(kr[np * i + S.op], R.Krog(sg), 1e-9, 1) && close(kr[np * i + 2], R.Krg(sg), 1e-9, 1), "no-water", at + base); ev("reduced_no_water"); } ev("three_phase_" + S.model); }
        // derivatives along directions keeping the sum
        if (!S.eps) for (int e = 0; e < np * np; ++e) if (!CHK(std::isfinite(dk_[np * np * i + e]), "derivative-finite", cat(at, vec(dvec(&dk_[np * np * i], &dk_[np * np * i] + np * np)), " ", base))) return;
        double dir[3] = {0, 0, 0}; int a = r.i(0, np - 1), b = (a + r.i(1, np - 1)) % np; dir[a] = 1; dir[b] = -1; if (np == 3 && r.p(0.3)) { dir[0] = r.u(-1, 1); dir[2] = r.u(-1, 1); dir[1] = -dir[0] - dir[2]; }
        double h = 1e-6; bool clear = true; dvec args; auto far = [&](const Tab& t, double q) { clear = clear && t.clear(q, 4 * h); }; if (S.W) { for (double q : {sw, 1 - so, sw + sg}) { far(R.Krw, q); far(R.Krow, q); far(R.Pcw, q); } } if (S.G) { for (double q : {sg, sw - R.swco + sg}) { far(R.Krg, q); far(R.Krog, q); far(R.Pcg, q); } clear = clear && std::fabs(sw - R.swco) > 4 * h; if (np == 3) { clear = clear && std::max(sw, R.swco) - R.swco + sg > 0.02; if (S.model == "stone2") clear = clear && std::fabs(raw3(S, R, sw, sg)) > 1e-4; } }
        if (clear) { double x1[3], x2[3], k1[3], k2[3]; for (int q = 0; q < np; ++q) { x1[q] = si[q] - h * dir[q]; x2[q] = si[q] + h * dir[q]; } if (!S.eps) { relperm(1, x1, &cells[i], k1, 0); relperm(1, x2, &cells[i], k2, 0); for (int q = 0; q < np; ++q) { double d = 0; for (int j = 0; j < np; ++j) d += dk_[np * np * i + q + np * j] * dir[j]; double fd = (k2[q] - k1[q]) / (2 * h); if (!CHK(close(d, fd, 1e-6, 1), cat("dkr:", q), cat(at, "direction ", vec(dvec(dir, dir + np)), " derivative ", d, " difference ", fd, " ", base))) return; ev("derivatives"); } if (np == 3 && sw < R.swco) ev("below_connate"); }
            capp(1, x1, &cells[i], k1, 0); capp(1, x2, &cells[i], k2, 0); for (int q = 0; q < np; ++q) { double d = 0; for (int j = 0; j < np; ++j) d += dpc[np * np * i + q + np * j] * dir[j]; double fd = (k2[q] - k1[q]) / (2 * h); if (!CHK(close(d, fd, 1e-6, 3 * P), cat("dpc:", q), cat(at, "direction ", vec(dvec(dir, dir + np)), " derivative ", d, " difference ", fd, " ", base))) return; ev("derivatives"); } }
    }
    ev(S.W && S.G ? "three_phase" : S.W ? "oil_water" : "oil_gas"); if (S.samples > 1) ev("resampled"); else ev("exact_tables"); if (incomp) ev("incompressible"); if (satnum && nr > 1) ev("regions");
}
static void basic(Rng& r)
{
    dk::CoutCatch q; Opm::parameter::ParameterGroup g; int np = 2, f = 1; if (r.p(0.3)) { np = 1; g.insertParameter("num_phases", "1"); } static const char* F[] = {"Constant", "Linear", "Quadratic"}; if (r.p(0.7)) { f = r.i(np == 1 ? 0 : 1, 2); g.insertParameter("relperm_func", F[f]); } int nc = r.i(1, 6), n = r.i(1, 6); Opm::BlackoilPropertiesBasic b(g, r.i(2, 3), nc); Opm::IncompPropertiesBasic ib(g, r.i(2, 3), nc);
    dvec s(n * np); for (auto& x : s) x = r.p(0.1) ? r.i(0, 1) : r.u(); std::vector<int> cells(n); for (auto& x : cells) x = r.i(0, nc - 1);
    for (int w = 0; w < 2; ++w) { dvec k(n * np, 9), k2(n * np, 9), d(n * np * np, 9), p(n * np, 9), dp(n * np * np, 9), a(n * np, 9), e(n * np, 9); if (w) { ib.relperm(n, &s[0], &cells[0], &k[0], 0); ib.relperm(n, &s[0], &cells[0], &k2[0], &d[0]); ib.capPress(n, &s[0], &cells[0], &p[0], &dp[0]); ib.satRange(n, &cells[0], &a[0], &e[0]); } else { b.relperm(n, &s[0], &cells[0], &k[0], 0); b.relperm(n, &s[0], &cells[0], &k2[0], &d[0]); b.capPress(n, &s[0], &cells[0], &p[0], &dp[0]); b.satRange(n, &cells[0], &a[0], &e[0]); }
        std::string ctx = cat(F[f], " np ", np, w ? " incomp" : ""); for (int i = 0; i < n * np; ++i) { double x = s[i], v = f == 0 ? 1 : f == 1 ? x : x * x; CHK(close(k[i], v, 1e-14, 0) && k[i] == k2[i], "basic-kr", ctx); CHK(p[i] == 0 && a[i] == 0 && e[i] == 1, "basic-pc-range", ctx); for (int j = 0; j < np; ++j) { int pt = i / np, ph = i % np; double dv = ph != j ? 0 : f == 0 ? 0 : f == 1 ? 1 : 2 * x; CHK(close(d[np * np * pt + ph + np * j], dv, 1e-14, 0) && dp[np * np * pt + ph + np * j] == 0, "basic-derivative", ctx); } ev("basic_values"); } }
}
static void one(long k, Rng& r) { if (k % 10 == 9) basic(r); else full(r); }
int main(int argc, char** argv) { return mon::run(argc, argv, "P14", one); }
