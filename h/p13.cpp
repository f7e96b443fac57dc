// P13: PVT values, derivatives, volume matrices and densities follow the tables, for every point of any batch.
#include "config.h"
#include "deck.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/pvt/PvtPropertiesIncompFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/pvt/BlackoilPvtProperties.hpp>
#include <opm/core/props/pvt/PvtPropertiesBasic.hpp>
#include <opm/core/props/satfunc/SaturationPropsBasic.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace mon; typedef std::vector<double> dvec; static const double INF = std::numeric_limits<double>::infinity();
static double lin(const dvec& x, const dvec& y, double p, double* slope = 0) { size_t s = 0, n = x.size(); bool up = x[n - 1] > x[0]; while (s + 2 < n && (up ? p >= x[s + 1] : p < x[s + 1])) ++s; double d = (y[s + 1] - y[s]) / (x[s + 1] - x[s]); if (slope) *slope = d; return y[s] + d * (p - x[s]); }
struct Val { double B, mu, R; bool cmpB, sat; };
struct Const { double pref, B, c, mu, cv; Val at(double p) const { double x = c * (p - pref), y = -cv * (p - pref); Val v = {B / (1 + x + 0.5 * x * x), mu / (1 + y + 0.5 * y * y), 0, true, false}; return v; } };
struct Dead { dvec p, bi, mu; int samples; dvec up, ub, um; void prep() { if (samples <= 0) return; Opm::MonotCubicInterpolator a(p, bi), b(p, mu); for (int i = 0; i < samples; ++i) { double w = double(i) / (samples - 1), x = (1 - w) * p.front() + w * p.back(); up.push_back(x); ub.push_back(a(x)); um.push_back(b(x)); } } Val at(double x) const { Val v = {0, 0, 0, true, false}; if (samples > 0) { v.B = 1 / lin(up, ub, x); v.mu = lin(up, um, x); } else { v.B = 1 / lin(p, bi, x); v.mu = lin(p, mu, x); } return v; } };
struct Row { dvec x, b, m; double key; }; // live oil: key Rs, x pressures, b = 1/Bo; live gas: key pressure, x Rv, b = Bg
struct LiveOil {
    std::vector<Row> t; dvec rs, pb, bs, ms; bool first = false; // first: fill from the first row of the run of complete rows before it, not from the nearest
    void prep() { for (auto& r : t) { rs.push_back(r.key); pb.push_back(r.x[0]); bs.push_back(r.b[0]); ms.push_back(r.m[0]); } std::vector<Row> full = t;
        for (size_t i = 0; i < t.size(); ++i) if (t[i].x.size() < 2) { int pr = (int)i - 1, nx = (int)i + 1; while (pr >= 0 && t[pr].x.size() < 2) --pr; if (first && pr > 0) { int q = pr; while (q > 1 && t[q - 1].x.size() > 1) --q; pr = q; } while (t[nx].x.size() < 2) ++nx; double p0 = t[i].x[0]; dvec br; for (double q : t[nx].x) if (q > p0 + 1) br.push_back(q); if (pr >= 0) for (double q : t[pr].x) if (q > p0 + 1) br.push_back(q); std::sort(br.begin(), br.end()); double a = p0; Row& f = full[i];
            for (double e : br) { if (e <= a) continue; double mid = 0.5 * (a + e), sb, sm, sb0 = 0, sm0 = 0, w = 1; lin(t[nx].x, t[nx].b, mid, &sb); lin(t[nx].x, t[nx].m, mid, &sm); if (pr >= 0) { lin(t[pr].x, t[pr].b, mid, &sb0); lin(t[pr].x, t[pr].m, mid, &sm0); w = (rs[i] - rs[pr]) / (rs[nx] - rs[pr]); sb = sb0 + w * (sb - sb0); sm = sm0 + w * (sm - sm0); } f.x.push_back(e); f.b.push_back(f.b.back() + sb * (e - a)); f.m.push_back(f.m.back() + sm * (e - a)); a = e; } }
        t = full; }
    Val at(double p, double zo, double zg) const { Val v; double sat = lin(pb, rs, p), mr = zo == 0 ? 0 : zg / zo; v.cmpB = true; v.R = zg == 0 ? 0 : zo == 0 ? sat : std::min(sat, zg / zo); v.sat = sat < mr; if (v.sat) { v.B = 1 / lin(pb, bs, p); v.mu = lin(pb, ms, p); return v; } size_t s = 0; while (s + 2 < rs.size() && mr >= rs[s + 1]) ++s; double w = (mr - rs[s]) / (rs[s + 1] - rs[s]); v.B = 1 / ((1 - w) * lin(t[s].x, t[s].b, p) + w * lin(t[s + 1].x, t[s + 1].b, p)); v.mu = (1 - w) * lin(t[s].x, t[s].m, p) + w * lin(t[s + 1].x, t[s + 1].m, p); return v; }
};
struct LiveGas {
    std::vector<Row> t; dvec p, rv, bs, ms; void prep() { for (auto& r : t) { p.push_back(r.key); rv.push_back(r.x[0]); bs.push_back(r.b[0]); ms.push_back(r.m[0]); } }
    static double tv(const Row& r, const dvec& y, double q) { return r.x.size() < 2 ? y[0] : lin(r.x, y, q); }
    Val at(double q, double zo, double zg) const { Val v; double sat = lin(p, rv, q), mr = zo == 0 ? 0 : zg == 0 ? INF : zo / zg; v.R = zo == 0 ? 0 : std::min(sat, mr); v.sat = sat < mr; v.cmpB = zg != 0; if (v.sat) { v.B = lin(p, bs, q); v.mu = lin(p, ms, q); return v; } size_t s = 0; while (s + 2 < p.size() && q >= p[s + 1]) ++s; double w = (q - p[s]) / (p[s + 1] - p[s]); if (t[s].x.size() < 2) { v.B = lin(p, bs, q); v.mu = lin(p, ms, q); return v; } v.B = (1 - w) * tv(t[s], t[s].b, mr) + w * tv(t[s + 1], t[s + 1].b, mr); v.mu = (1 - w) * tv(t[s], t[s].m, mr) + w * tv(t[s + 1], t[s + 1].m, mr); return v; }
};
struct Fluid { bool used[3]; int pos[3], np; double rho[3]; bool pvtw; int oil, gas; Const W, C; Dead D, G; LiveOil LO, LO2; LiveGas LG; double lo, hi; dvec nodes;
    Val at(int canon, double p, const double* z) const { double zo = used[1] ? z[pos[1]] : 0, zg = used[2] ? z[pos[2]] : 0; if (canon == 0) return W.at(p); if (canon == 1) return oil == 0 ? C.at(p) : oil == 1 ? D.at(p) : LO.at(p, zo, zg); return gas == 0 ? G.at(p) : LG.at(p, zo, zg); } };
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string make(Rng& r, Fluid& F, int samples)
{
    bool field = r.p(0.4); dk::Units U = field ? dk::field() : dk::metric(); double P = U.pre, V = U.vis, O = U.lr / U.ls, G = U.gr / U.gs, S = U.gs / U.ls; std::ostringstream o; int c = r.i(0, 3); F.used[0] = c != 0; F.used[1] = true; F.used[2] = c != 1; F.np = 0; for (int i = 0; i < 3; ++i) { F.pos[i] = F.np; F.np += F.used[i]; } if (field) o << "FIELD\n"; if (F.used[0]) o << "WATER\n"; o << "OIL\n"; if (F.used[2]) o << "GAS\n";
    double d[3] = {r.u(600, 950), r.u(950, 1100), r.u(0.5, 5)}; if (field) for (auto& x : d) x /= 16; F.rho[0] = d[1] * U.den; F.rho[1] = d[0] * U.den; F.rho[2] = d[2] * U.den; o << "DENSITY\n" << num(d[0]) << " " << num(d[1]) << " " << num(d[2]) << " /\n";
    double pscale = field ? 14.5 : 1; F.lo = r.u(1, 100) * pscale; F.hi = F.lo + r.u(50, 500) * pscale; double top = INF; auto within = [&](int n) { dvec v = dk::increasing(r, n, F.lo, F.hi); v.front() = F.lo; v.back() = F.hi; for (int i = 1; i < n; ++i) if (!(v[i] > v[i - 1] + 1e-3)) v[i] = v[i - 1] + 1; top = std::min(top, v.back()); return v; };
    auto cst = [&](Const& k, const char* kw) { double a = r.u(1, 600) * pscale, b = r.u(0.9, 1.6), cc = r.p(0.2) ? 0 : r.logu(1e-6, 1e-3) / pscale, m = r.logu(0.1, 10), cv = r.p(0.3) ? 0 : (r.p(0.2) ? -1 : 1) * r.logu(1e-6, 5e-4) / pscale; k.pref = a * P; k.B = b * O; k.c = cc / P; k.mu = m * V; k.cv = cv / P; o << kw << "\n" << num(a) << " " << num(b) << " " << num(cc) << " " << num(m) << " " << num(cv) << " /\n"; };
    F.pvtw = true; if (F.used[0]) { if (r.p(0.8)) cst(F.W, "PVTW"); else { Const w = {0, 1, 0, 0.5e-3, 0}; F.W = w; F.pvtw = false; } }
    auto dead = [&](Dead& D, const char* kw, bool gas) { int n = r.i(2, 8); dvec p = within(n); double B = gas ? r.u(0.1, 1) : r.u(1.1, 1.6), m = r.logu(0.01, 5); o << kw << "\n"; D.samples = samples; for (int i = 0; i < n; ++i) { o << num(p[i]) << " " << num(B) << " " << num(m) << "\n"; D.p.push_back(p[i] * P); D.bi.push_back(1 / (B * (gas ? G : O))); D.mu.push_back(m * V); B *= gas ? r.u(0.5, 0.99) : r.u(0.95, 0.9999); m *= r.u(1.001, 1.3); } o << "/\n"; D.prep(); };
    F.oil = F.used[2] ? r.i(0, 2) : r.i(0, 1); if (F.oil == 0) cst(F.C, "PVCDO"); else if (F.oil == 1) dead(F.D, "PVDO", false);
    else { int n = r.i(2, 6); dvec pb = within(n); double R = r.p(0.3) ? 0 : r.u(0.1, 30), B = r.u(1.02, 1.2), m = r.logu(0.3, 3); o << "PVTO\n"; for (int i = 0; i < n; ++i) { bool last = i == n - 1; int k = last || r.p(0.5) ? r.i(1, 4) : 0; Row t; t.key = R * S; o << num(R); double p = pb[i], b = B, mm = m; for (int j = 0; j <= k; ++j) { o << " " << num(p) << " " << num(b) << " " << num(mm) << "\n"; t.x.push_back(p * P); t.b.push_back(1 / (b * O)); t.m.push_back(mm * V); double dp = r.u(5, 150) * pscale; b *= std::exp(-r.logu(1e-5, 3e-4) / pscale * dp); mm *= 1 + 2e-4 / pscale * dp * r.u(); p += dp; } o << "/\n"; F.LO.t.push_back(t); R += r.u(2, 60); B *= r.u(1.005, 1.1); m *= r.u(0.8, 0.99); } o << "/\n"; F.LO2 = F.LO; F.LO2.first = true; F.LO2.prep(); F.LO.prep(); for (auto& t : F.LO.t) F.nodes.insert(F.nodes.end(), t.x.begin(), t.x.end()); }
    F.gas = r.i(0, 1); if (F.used[2]) { if (F.gas == 0) dead(F.G, "PVDG", true); else { int n = r.i(2, 6); dvec p = within(n); double R = r.logu(1e-6, 1e-3), B = r.u(0.02, 0.5), m = r.u(0.01, 0.03); o << "PVTG\n"; int mode = r.i(0, 3); for (int i = 0; i < n; ++i) { int k = mode == 0 ? 0 : mode == 1 || r.p(0.5) ? r.i(1, 3) : 0; Row t; t.key = p[i] * P; o << num(p[i]); double q = R, b = B, mm = m; for (int j = 0; j <= k; ++j) { o << " " << num(q) << " " << num(b) << " " << num(mm) << "\n"; t.x.push_back(q / S); t.b.push_back(b * G); t.m.push_back(mm * V); q = j == k - 1 && r.p(0.7) ? 0 : q * r.u(0.1, 0.8); b *= r.u(0.98, 1.02); mm *= r.u(0.95, 1.05); } o << "/\n"; F.LG.t.push_back(t); R *= r.u(1.0, 2.0); B *= r.u(0.5, 0.97); m *= r.u(1.01, 1.3); } o << "/\n"; F.LG.prep(); F.nodes.insert(F.nodes.end(), F.LG.p.begin(), F.LG.p.end()); ev(cat("gas_tables_mode", mode)); } }
    if (top < INF) F.hi = top; F.lo *= P; F.hi *= P; { double e = 1e-9 * (F.hi - F.lo); F.lo += e; F.hi -= e; } for (const Dead* D : {&F.D, &F.G}) { const dvec& q = D->samples > 0 ? D->up : D->p; F.nodes.insert(F.nodes.end(), q.begin(), q.end()); }
    if (F.used[0]) o << "SWOF\n 0 0 1 0\n 1 1 0 0 /\n"; if (F.used[2]) o << "SGOF\n 0 0 1 0\n 1 1 0 0 /\n"; o << "NOECHO\n"; ev(cat("oil_kind_", F.oil)); if (F.used[2]) ev(cat("gas_kind_", F.gas)); if (F.oil == 2 && F.used[2] && F.gas == 1) ev("live_live"); return o.str();
}
struct G1 { UnstructuredGrid* g; G1() : g(create_grid_cart3d(2, 1, 1)) {} ~G1() { destroy_grid(g); } };
static void full(Rng& r)
{
    Fluid F; int samples = r.p(0.5) ? 0 : r.p(0.5) ? 200 : r.i(2, 60); std::string text = make(r, F, samples); Opm::EclipseGridParser deck; { dk::CoutCatch q; std::istringstream is(text); deck.read(is, true); } G1 grid; std::unique_ptr<Opm::BlackoilPropertiesFromDeck> props; Opm::parameter::ParameterGroup par; par.insertParameter("pvt_tab_size", cat(samples)); if (r.p(0.5)) par.insertParameter("sat_tab_size", "0"); { dk::CoutCatch q; if (samples == 200 && r.p(0.5)) props.reset(new Opm::BlackoilPropertiesFromDeck(deck, *grid.g, r.p(0.5))); else props.reset(new Opm::BlackoilPropertiesFromDeck(deck, *grid.g, par, r.p(0.5))); }
    Opm::BlackoilPvtProperties pvt; { dk::CoutCatch q; pvt.init(deck, samples); } int np = F.np; std::string base = cat("samples ", samples, "\n", text); if (!CHK(pvt.numPhases() == np && props->numPhases() == np, "phases", base)) return; static const char* cn[] = {"water", "oil", "gas"};
    for (int c = 0; c < 3; ++c) { CHK(!!pvt.phaseUsed()[c] == F.used[c] && (!F.used[c] || pvt.phasePosition()[c] == F.pos[c]), "phase-order", base); if (F.used[c]) CHK(close(pvt.surfaceDensities()[F.pos[c]], F.rho[c], 1e-13, 0) && close(props->surfaceDensity()[F.pos[c]], F.rho[c], 1e-13, 0), "surface-density", base); }
    // points
    int n = r.i(1, 12); dvec p(n), z(n * np); std::vector<int> cells(n);
    for (int i = 0; i < n; ++i) { cells[i] = r.i(0, 1); p[i] = r.p(0.15) && !F.nodes.empty() ? std::min(std::max(F.nodes[r.i(0, (int)F.nodes.size() - 1)], F.lo), F.hi) : r.u(F.lo, F.hi); for (int k = 0; k < np; ++k) z[np * i + k] = r.p(0.15) ? 0 : r.logu(1e-3, 10); if (F.used[2]) { double& zo = z[np * i + F.pos[1]]; double& zg = z[np * i + F.pos[2]]; int w = r.i(0, 4); if (F.oil == 2 && w <= 1) { double m = F.LO.rs.back(); zg = zo * (w ? r.u(0, m) : r.p(0.3) ? F.LO.rs[r.i(0, (int)F.LO.rs.size() - 1)] : r.u(0, 2 * m)); } else if (F.gas == 1 && w >= 3) { double m = F.LG.rv.back(); zo = zg * (w == 3 ? r.u(0, m) : r.u(0, 2 * m)); } } }
    dvec B(n * np), B2(n * np), dB(n * np), R(n * np), R2(n * np), dR(n * np), mu(n * np), mu2(n * np), A(n * np * np), A2(n * np * np), dA(n * np * np), rho(n * np);
    pvt.B(n, &p[0], &z[0], &B[0]); pvt.dBdp(n, &p[0], &z[0], &B2[0], &dB[0]); pvt.R(n, &p[0], &z[0], &R[0]); pvt.dRdp(n, &p[0], &z[0], &R2[0], &dR[0]); pvt.mu(n, &p[0], &z[0], &mu[0]); props->viscosity(n, &p[0], &z[0], &cells[0], &mu2[0], 0); props->matrix(n, &p[0], &z[0], &cells[0], &A[0], 0); props->matrix(n, &p[0], &z[0], &cells[0], &A2[0], &dA[0]); props->density(n, &A[0], &rho[0]); CHK(B == B2, "B-with-derivative", base); CHK(R == R2, "R-with-derivative", base); CHK(mu == mu2, "facade-viscosity", base); CHK(A == A2, "A-with-derivative", base);
    if (r.p(0.05)) { bool t = false; dk::CoutCatch q; try { props->viscosity(n, &p[0], &z[0], &cells[0], &mu2[0], &B2[0]); } catch (const std::exception&) { t = true; } CHK(t, "viscosity-derivative-not-refused", base); }
    for (int i = 0; i < n; ++i) {
        const double* zi = &z[np * i]; std::string at = cat("point ", i, " of ", n, " p ", num(p[i]), " z ", vec(dvec(zi, zi + np)), " "); ev("points"); nontrivial(hcomb(hdbl(p[i]), hdbl(B[np * i]))); bool good = true; double Ba[3] = {1, 1, 1}, Ra[3] = {0, 0, 0};
        // alone: the rest of the batch has no influence
        { double b[3], m[3], q[3], d1[3], d2[3], a[9], da[9]; pvt.dBdp(1, &p[i], zi, b, d1); pvt.dRdp(1, &p[i], zi, q, d2); pvt.mu(1, &p[i], zi, m); props->matrix(1, &p[i], zi, &cells[i], a, da); for (int k = 0; k < np; ++k) good = CHK(b[k] == B[np * i + k] && q[k] == R[np * i + k] && m[k] == mu[np * i + k] && d1[k] == dB[np * i + k] && d2[k] == dR[np * i + k], "batch", at + base) && good; for (int k = 0; k < np * np; ++k) good = CHK(a[k] == A[np * np * i + k] && da[k] == dA[np * np * i + k], "batch-matrix", at + base) && good; ev("alone"); } if (!good) return;
        for (int c = 0; c < 3; ++c) if (F.used[c]) {
            int k = np * i + F.pos[c]; Val v = F.at(c, p[i], zi); if (c == 1 && F.oil == 2) { Val v2 = F.LO2.at(p[i], zi[F.pos[1]], F.used[2] ? zi[F.pos[2]] : 0); if (!close(B[np * i + F.pos[1]], v.B, 1e-9, 0)) v = v2; } Ba[c] = B[k]; Ra[c] = R[k]; std::string w = cn[c] + (" " + at); bool nearsw = false; { double zo = zi[F.pos[1]], zg = F.used[2] ? zi[F.pos[2]] : 0; if (c == 1 && F.oil == 2 && zo > 0) { double s = lin(F.LO.pb, F.LO.rs, p[i]); nearsw = std::fabs(s - zg / zo) <= 1e-9 * s; } if (c == 2 && F.gas == 1 && zg > 0) { double s = lin(F.LG.p, F.LG.rv, p[i]); nearsw = std::fabs(s - zo / zg) <= 1e-9 * s; } }
            if (!CHK(std::isfinite(B[k]) && B[k] > 0 && std::isfinite(mu[k]) && mu[k] > 0 && std::isfinite(R[k]) && R[k] >= 0 && std::isfinite(dB[k]) && std::isfinite(dR[k]), std::string("finite:") + cn[c], cat(w, " B ", B[k], " mu ", mu[k], " R ", R[k], " dB ", dB[k], " dR ", dR[k], " ", base))) return;
            if (nearsw) { ev("switch_points"); continue; } if (c == 1 && F.oil == 2) ev(v.sat ? "oil_saturated" : "oil_undersaturated"); if (c == 2 && F.gas == 1) ev(v.sat ? "gas_saturated" : "gas_undersaturated");
            if (v.cmpB && !CHK(close(B[k], v.B, 1e-9, 0), std::string("B:") + cn[c], cat(w, B[k], " expected ", v.B, " ", base))) return; if (!CHK(close(mu[k], v.mu, 1e-9, 0), std::string("mu:") + cn[c], cat(w, mu[k], " expected ", v.mu, " ", base))) return; if (!CHK(close(R[k], v.R, 1e-9, 1e-3 * (c == 1 ? F.oil == 2 ? F.LO.rs.back() : 0 : c == 2 && F.gas == 1 ? F.LG.rv.back() : 0)), std::string("R:") + cn[c], cat(w, R[k], " expected ", v.R, " ", base))) return; ev("values", 3);
            // derivative: rate of change of the library's own values where no table node is near
            double h = 2e-5 * (F.hi - F.lo); bool clear = p[i] - h > F.lo && p[i] + h < F.hi; for (double q : F.nodes) clear = clear && std::fabs(q - p[i]) > 1.01 * h; if (clear) { double pm = p[i] - h, pp = p[i] + h; if (F.at(c, pm, zi).sat == v.sat && F.at(c, pp, zi).sat == v.sat) { double bm[3], bp[3], rm[3], rp[3]; pvt.B(1, &pm, zi, bm); pvt.B(1, &pp, zi, bp); pvt.R(1, &pm, zi, rm); pvt.R(1, &pp, zi, rp); int q = F.pos[c]; double fb = (bp[q] - bm[q]) / (2 * h), fr = (rp[q] - rm[q]) / (2 * h), range = F.hi - F.lo; if (!CHK(close(dB[k], fb, 5e-4, 1e-3 * B[k] / range) , std::string("dB:") + cn[c], cat(w, dB[k], " difference ", fb, " B ", B[k], " ", base))) return; if (!CHK(close(dR[k], fr, 5e-4, 1e-3 * std::max(R[k], 1e-12) / range), std::string("dR:") + cn[c], cat(w, dR[k], " difference ", fr, " ", base))) return; ev("derivatives"); } }
        }
        // A = R B^-1, its derivative, and densities
        auto ent = [&](int row, int col) { return A[np * np * i + row + np * col]; }; auto dent = [&](int row, int col) { return dA[np * np * i + row + np * col]; };
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (F.used[a] && F.used[b]) { int kb = np * i + F.pos[b]; double Rr = a == b ? 1 : (a == 1 && b == 2) || (a == 2 && b == 1) ? Ra[b] : 0, dRr = a == b || Rr == 0 ? 0 : dR[kb], e = Rr / Ba[b], de = dRr / Ba[b] - Rr * dB[kb] / (Ba[b] * Ba[b]); if ((a == 1 && b == 2) || (a == 2 && b == 1)) de = dR[kb] / Ba[b] - Rr * dB[kb] / (Ba[b] * Ba[b]); if (!CHK(close(ent(F.pos[a], F.pos[b]), e, 1e-14, 0), "matrix", cat(at, cn[a], " in ", cn[b], " ", ent(F.pos[a], F.pos[b]), " expected ", e, " ", base))) return; if (!CHK(close(dent(F.pos[a], F.pos[b]), de, 1e-10, 1e-3 * std::fabs(e) / (F.hi - F.lo)), "matrix-derivative", cat(at, cn[a], " in ", cn[b], " ", dent(F.pos[a], F.pos[b]), " expected ", de, " ", base))) return; ev("matrix_entries"); }
        double u[3], m1 = 0, m2 = 0; for (int k = 0; k < np; ++k) { u[k] = r.u(); m1 += rho[np * i + k] * u[k]; if (!CHK(rho[np * i + k] > 0, "density-positive", at + base)) return; } for (int a = 0; a < np; ++a) { double za = 0; for (int b = 0; b < np; ++b) za += ent(a, b) * u[b]; int c = 0; while (!(F.used[c] && F.pos[c] == a)) ++c; m2 += za * F.rho[c]; } if (!CHK(close(m1, m2, 1e-12, 0), "mass", cat(at, m1, " expected ", m2, " ", base))) return; ev("mass_checks");
        if (F.np == 2 && !F.used[2]) ev("oil_water"); else if (F.np == 2) ev("oil_gas"); else ev("three_phase");
    }
}
static void basic(Rng& r)
{
    using Opm::parameter::ParameterGroup; dk::CoutCatch q; ParameterGroup g; int np = 2; double rho[2] = {1000, 1000}, mu[2] = {1e-3, 1e-3}, poro = 1, perm = 100 * 9.869232667160130e-16; if (r.p(0.2)) { np = 1; g.insertParameter("num_phases", "1"); } else if (r.p(0.5)) g.insertParameter("num_phases", "2");
    for (int k = 0; k < np; ++k) { if (r.p(0.7)) { double x = r.u(1, 1500); g.insertParameter(cat("rho", k + 1), num(x)); rho[k] = x; } if (r.p(0.7)) { double x = r.logu(0.01, 100); g.insertParameter(cat("mu", k + 1), num(x)); mu[k] = x * 1e-3; } } if (r.p(0.5)) { poro = r.u(); g.insertParameter("porosity", num(poro)); } if (r.p(0.5)) { double x = r.logu(0.1, 1e4); g.insertParameter("permeability", num(x)); perm = x * 9.869232667160130e-16; }
    int dim = r.i(2, 3), nc = r.i(1, 9), n = r.i(1, 8); Opm::BlackoilPropertiesBasic b(g, dim, nc); Opm::IncompPropertiesBasic ib(g, dim, nc); std::string ctx = cat("np ", np); dvec p(n), z(n * np), m(n * np), A(n * np * np), dA(n * np * np, 5), rh(n * np); std::vector<int> cells(n, 0); for (auto& x : p) x = r.u(0, 1e8); for (auto& x : z) x = r.u(); CHK(b.numPhases() == np && ib.numPhases() == np && b.numCells() == nc && ib.numCells() == nc && b.numDimensions() == dim && ib.numDimensions() == dim, "basic-size", ctx);
    b.viscosity(n, &p[0], &z[0], &cells[0], &m[0], 0); b.matrix(n, &p[0], &z[0], &cells[0], &A[0], &dA[0]); b.density(n, &A[0], &rh[0]);
    for (int i = 0; i < n; ++i) for (int k = 0; k < np; ++k) { CHK(close(m[np * i + k], mu[k], 1e-14, 0), "basic-viscosity", ctx); CHK(close(rh[np * i + k], rho[k], 1e-14, 0), "basic-density", ctx); for (int l = 0; l < np; ++l) CHK(A[np * np * i + k + np * l] == (k == l) && dA[np * np * i + k + np * l] == 0, "basic-matrix", ctx); ev("basic_points"); }
    for (int k = 0; k < np; ++k) CHK(close(ib.viscosity()[k], mu[k], 1e-14, 0) && close(ib.density()[k], rho[k], 1e-14, 0) && close(ib.surfaceDensity()[k], rho[k], 1e-14, 0) && close(b.surfaceDensity()[k], rho[k], 1e-14, 0), "basic-incomp", ctx); for (int c = 0; c < nc; ++c) { CHK(b.porosity()[c] == poro && ib.porosity()[c] == poro, "basic-porosity", ctx); for (int e = 0; e < dim * dim; ++e) CHK(close(b.permeability()[c * dim * dim + e], e % (dim + 1) ? 0 : perm, 1e-13, 0) && close(ib.permeability()[c * dim * dim + e], e % (dim + 1) ? 0 : perm, 1e-13, 0), "basic-permeability", ctx); }
    // incompressible fluid from a deck: reservoir densities are surface densities over the volume factor
    bool field = r.p(0.4); dk::Units U = field ? dk::field() : dk::metric(); double d[3] = {r.u(600, 950), r.u(950, 1100), 1}, Bo = r.u(1, 1.6), Bw = r.u(0.95, 1.1), mo = r.logu(0.1, 10), mw = r.logu(0.1, 10); std::ostringstream o; if (field) o << "FIELD\n"; o << "OIL\nWATER\nDENSITY\n" << num(d[0]) << " " << num(d[1]) << " 1 /\nPVTW\n 100 " << num(Bw) << " 0 " << num(mw) << " 0 /\nPVCDO\n 100 " << num(Bo) << " 0 " << num(mo) << " 0 /\nSWOF\n 0 0 1 0\n 1 1 0 0 /\nNOECHO\n"; std::istringstream is(o.str()); Opm::EclipseGridParser deck; deck.read(is, true); G1 grid; Opm::IncompPropertiesFromDeck ip(deck, *grid.g);
    CHK(ip.numPhases() == 2, "incomp-phases", ""); double e[2][3] = {{d[1] * U.den, d[1] * U.den / Bw, mw * U.vis}, {d[0] * U.den, d[0] * U.den / Bo, mo * U.vis}}; for (int k = 0; k < 2; ++k) { CHK(close(ip.surfaceDensity()[k], e[k][0], 1e-13, 0) && close(ip.density()[k], e[k][1], 1e-13, 0) && close(ip.viscosity()[k], e[k][2], 1e-13, 0), "incomp-from-deck", cat(k, " ", ip.surfaceDensity()[k], " ", ip.density()[k], " ", ip.viscosity()[k], o.str())); ev("incomp_decks"); }
    // decks that do not describe an incompressible oil-water fluid are refused
    { static const char* line[] = {"OIL\n", "WATER\n", "DENSITY\n 800 1000 1 /\n", "PVTW\n 100 1 0 1 0 /\n", "PVCDO\n 100 1 0 1 0 /\n"}; int drop = r.i(0, 5); std::string t; for (int k = 0; k < 5; ++k) if (k != drop) t += line[k]; if (drop == 5) t += "GAS\n"; t += "SWOF\n 0 0 1 0\n 1 1 0 0 /\nNOECHO\n"; std::istringstream i2(t); Opm::EclipseGridParser d2; d2.read(i2, true); bool th = false; try { Opm::PvtPropertiesIncompFromDeck pv; pv.init(d2); } catch (const std::exception&) { th = true; } CHK(th, "incomp-unsuitable-deck-accepted", t); ev("refused"); }
}
// the constant-property classes on their own: every constructor, every function, refused arguments
static void basic2(Rng& r)
{
    dk::CoutCatch q; int np = r.i(1, 3), n = r.i(1, 6); std::vector<double> rho(np), mu(np); for (auto& x : rho) x = r.u(1, 1500); for (auto& x : mu) x = r.logu(1e-5, 1); std::string ctx = cat("np ", np);
    Opm::PvtPropertiesBasic pvt; if (r.p(0.5)) pvt.init(np, rho, mu); else { Opm::parameter::ParameterGroup g; g.insertParameter("num_phases", cat(np)); for (int k = 0; k < np; ++k) { g.insertParameter(cat("rho", k + 1), num(rho[k])); g.insertParameter(cat("mu", k + 1), num(mu[k])); mu[k] *= 1e-3; } pvt.init(g); }
    dvec p(n), z(n * np), m(n * np, -7), B(m), B2(m), dB(m), R(m), R2(m), dR(m); for (auto& x : p) x = r.u(0, 1e8); for (auto& x : z) x = r.u(); pvt.mu(n, &p[0], &z[0], &m[0]); pvt.B(n, &p[0], &z[0], &B[0]); pvt.dBdp(n, &p[0], &z[0], &B2[0], &dB[0]); pvt.R(n, &p[0], &z[0], &R[0]); pvt.dRdp(n, &p[0], &z[0], &R2[0], &dR[0]); CHK(pvt.numPhases() == np, "pvtbasic-phases", ctx);
    for (int i = 0; i < n * np; ++i) { CHK(close(m[i], mu[i % np], 1e-14, 0) && B[i] == 1 && B2[i] == 1 && dB[i] == 0 && R[i] == 0 && R2[i] == 0 && dR[i] == 0, "pvtbasic-value", cat(ctx, " entry ", i, " mu ", m[i], " B ", B[i], " ", B2[i], " dB ", dB[i], " R ", R[i], " ", R2[i], " dR ", dR[i])); ev("pvtbasic_values"); nontrivial(hdbl(m[i])); } for (int k = 0; k < np; ++k) CHK(close(pvt.surfaceDensities()[k], rho[k], 1e-14, 0), "pvtbasic-density", ctx);
    { int bad = r.p(0.5) ? 4 + r.i(0, 5) : -r.i(0, 3); bool t = false; try { Opm::PvtPropertiesBasic x; if (r.p(0.5)) { dvec v(std::max(bad, 0), 1.0); x.init(bad, v, v); } else { Opm::parameter::ParameterGroup g; g.insertParameter("num_phases", cat(bad)); x.init(g); } } catch (const std::exception&) { t = true; } CHK(t, "pvtbasic-illegal-phases-accepted", cat(bad)); ev("refused"); }
    // the facade built from explicit data
    int p2 = r.i(1, 2), dim = r.i(1, 3), nc = r.i(1, 7); dvec rh2(p2), mu2(p2); for (auto& x : rh2) x = r.u(1, 1500); for (auto& x : mu2) x = r.logu(1e-5, 1); double por = r.u(), perm = r.logu(1e-16, 1e-11); int f = r.i(p2 == 1 ? 0 : 1, 2); Opm::SaturationPropsBasic::RelPermFunc fn = f == 0 ? Opm::SaturationPropsBasic::Constant : f == 1 ? Opm::SaturationPropsBasic::Linear : Opm::SaturationPropsBasic::Quadratic;
    Opm::IncompPropertiesBasic ib(p2, fn, rh2, mu2, por, perm, dim, nc); CHK(ib.numPhases() == p2 && ib.numDimensions() == dim && ib.numCells() == nc, "facade-size", ctx); for (int k = 0; k < p2; ++k) CHK(ib.viscosity()[k] == mu2[k] && ib.density()[k] == rh2[k] && ib.surfaceDensity()[k] == rh2[k], "facade-fluid", ctx); for (int c = 0; c < nc; ++c) { CHK(ib.porosity()[c] == por, "facade-porosity", ctx); for (int e = 0; e < dim * dim; ++e) CHK(ib.permeability()[c * dim * dim + e] == (e % (dim + 1) ? 0 : perm), "facade-permeability", ctx); }
    dvec s(n * p2), kr(n * p2, -1), dk(n * p2 * p2, -1), kr2(n * p2, -1), pc(n * p2, -1), dpc(n * p2 * p2, -1), lo(n * p2, -1), hi(n * p2, -1); std::vector<int> cells(n); for (int i = 0; i < n; ++i) { cells[i] = r.i(0, nc - 1); double a = r.p(0.2) ? r.i(0, 1) : r.u(); s[i * p2] = a; if (p2 == 2) s[i * p2 + 1] = 1 - a; } ib.relperm(n, &s[0], &cells[0], &kr[0], &dk[0]); ib.relperm(n, &s[0], &cells[0], &kr2[0], 0); ib.capPress(n, &s[0], &cells[0], &pc[0], &dpc[0]); ib.satRange(n, &cells[0], &lo[0], &hi[0]);
    for (int i = 0; i < n; ++i) for (int k = 0; k < p2; ++k) { double x = s[i * p2 + k], e = f == 0 ? 1 : f == 1 ? x : x * x, d = f == 0 ? 0 : f == 1 ? 1 : 2 * x; CHK(kr[i * p2 + k] == e && kr2[i * p2 + k] == e && pc[i * p2 + k] == 0 && lo[i * p2 + k] == 0 && hi[i * p2 + k] == 1, "facade-relperm", cat("func ", f, " s ", x, " kr ", kr[i * p2 + k], " pc ", pc[i * p2 + k])); for (int l = 0; l < p2; ++l) CHK(dk[i * p2 * p2 + k + p2 * l] == (k == l ? d : 0) && dpc[i * p2 * p2 + k + p2 * l] == 0, "facade-drelperm", cat("func ", f, " s ", x)); ev("facade_points"); }
    { bool t = false; int bad = r.i(0, 2); try { { Opm::parameter::ParameterGroup g; g.insertParameter("num_phases", bad == 0 ? (r.p(0.5) ? "0" : cat(r.i(3, 5))) : bad == 1 ? "2" : "1"); if (bad > 0) g.insertParameter("relperm_func", bad == 1 ? "Constant" : "Cubic"); Opm::SaturationPropsBasic x; x.init(g); } } catch (const std::exception&) { t = true; } CHK(t, "satbasic-illegal-accepted", cat(bad)); ev("refused"); }
}
static void one(long k, Rng& r) { if (k % 8 == 7) { if (k % 16 == 7) basic(r); else basic2(r); } else full(r); }
int main(int argc, char** argv) { return mon::run(argc, argv, "P13", one); }
