// P30: initial states match the requested configuration (saturations, hydrostatic pressures, face pressures, surface volumes, well pressures).
#include "config.h"
#include "gridlib.hpp"
#include "deck.hpp"
#include "wellsdeck.hpp"
#include "flow.hpp"
#include <opm/core/simulator/initState.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <functional>
using namespace mon; using namespace gl; typedef std::vector<double> dvec; typedef Opm::parameter::ParameterGroup PG;
static std::string S(double x) { return wd::g17(x); }
static const double BAR = 1e5;
struct Geo { GridPtr g; std::string kind; dvec z; double lo, hi; int nc, dim; };
static Geo geometry(Rng& r, bool allow2d)
{
    Geo o; for (;;) { if (r.p(0.15)) { int nx = r.i(1, 6), ny = r.i(1, 6); dvec x = coords(r, nx), y = coords(r, ny), d(2); double top = r.u(500, 3000); d[0] = top; d[1] = top + r.u(1, 20); o.kind = "one layer"; o.g = GridPtr(create_grid_tensor3d(nx, ny, 1, &x[0], &y[0], &d[0], 0)); } else o.g = random_grid(r, 6, &o.kind, allow2d); if (o.g.g && o.g->number_of_cells > 0) break; }
    UnstructuredGrid& g = *o.g.g; o.nc = g.number_of_cells; o.dim = g.dimensions; // stretch vertically to reservoir depths
    if (r.p(0.8)) { double a = r.logu(1, 40), b = r.u(500, 3000); if (o.kind == "one layer") { a = 1; b = 0; } int d = o.dim; for (int n = 0; n < g.number_of_nodes; ++n) g.node_coordinates[d * n + d - 1] = a * g.node_coordinates[d * n + d - 1] + b; compute_geometry(&g); }
    o.z.resize(o.nc); for (int c = 0; c < o.nc; ++c) o.z[c] = g.cell_centroids[o.dim * c + o.dim - 1]; o.lo = *std::min_element(o.z.begin(), o.z.end()); o.hi = *std::max_element(o.z.begin(), o.z.end()); return o;
}
static double depth(Rng& r, const Geo& o, double out) { double L = std::max(o.hi - o.lo, 1.0); switch (r.i(0, 5)) { case 0: return o.z[r.i(0, o.nc - 1)]; case 1: return o.lo - r.u(0, out) * L; case 2: return o.hi + r.u(0, out) * L; case 3: return 0.5 * (o.z[r.i(0, o.nc - 1)] + o.z[r.i(0, o.nc - 1)]); default: return r.u(o.lo, o.hi); } }
// ---- fluids ----
struct Tab { dvec sw, sg; }; // water table; gas table
struct Fluid { std::string text; std::vector<Tab> tabs; std::vector<int> satnum; int np; bool w, o, g, live; };
static std::string swof(Rng& r, dvec& s, const char* nm) { (void)nm; int n = r.i(2, 8); double a = r.p(0.3) ? 0 : r.u(0.01, 0.3), b = r.p(0.3) ? 1 : r.u(0.6, 0.99); s = dk::increasing(r, n, a, b); s[0] = a; s[n - 1] = b; std::string t; for (int i = 0; i < n; ++i) { double x = double(i) / (n - 1); t += " " + S(s[i]) + " " + S(i ? x * x : 0) + " " + S(1 - x) + " 0\n"; } return t + "/\n"; }
static Fluid fluid(Rng& r, const Geo& o, int kind) // 0 incompressible water/oil, 1 compressible water/oil, 2 oil/gas, 3 three phases
{
    Fluid f; f.w = kind != 2; f.o = true; f.g = kind >= 2; f.live = false; f.np = f.w + f.o + f.g; std::vector<std::string> ph, k; if (f.w) ph.push_back("WATER\n"); ph.push_back("OIL\n"); if (f.g) ph.push_back("GAS\n"); r.shuffle(ph); for (auto& p : ph) f.text += p; f.text += "METRIC\n";
    bool regs = kind == 0 && r.p(0.4) && o.dim == 3; int nr = regs ? 2 : 1; f.tabs.resize(nr); size_t ng = (size_t)o.g->cartdims[0] * o.g->cartdims[1] * (o.dim == 3 ? o.g->cartdims[2] : 1);
    if (regs) { std::string t = "SATNUM\n"; for (size_t c = 0; c < ng; ++c) { f.satnum.push_back(r.i(1, nr)); t += cat(" ", f.satnum[c], c % 20 == 19 ? "\n" : ""); } k.push_back(t + " /\n"); ev("saturation_regions"); }
    double ro = r.u(600, 950), rw = r.p(0.1) ? r.u(400, 600) : r.u(980, 1150), rg = r.u(0.5, 2); k.push_back("DENSITY\n " + S(ro) + " " + S(rw) + " " + S(rg) + " /\n");
    if (f.w) { std::string t = "SWOF\n"; for (auto& q : f.tabs) t += swof(r, q.sw, "SWOF"); k.push_back(t); bool c = kind > 0 && r.p(0.8); k.push_back("PVTW\n " + S(r.u(100, 300)) + " " + S(r.u(0.95, 1.1)) + " " + S(c ? r.logu(1e-6, 1e-3) : 0) + " " + S(r.u(0.2, 1)) + " 0 /\n"); }
    if (f.g) { std::string t = "SGOF\n"; for (auto& q : f.tabs) { int n = r.i(2, 6); double top = f.w ? 1 - q.sw[0] : 1.0; q.sg = dk::increasing(r, n, 0, top); q.sg[0] = 0; q.sg[n - 1] = top; for (int i = 0; i < n; ++i) { double x = double(i) / (n - 1); t += " " + S(q.sg[i]) + " " + S(i ? x * x : 0) + " " + S(1 - x) + " 0\n"; } t += "/\n"; } k.push_back(t); dvec p = dk::increasing(r, 4, 1, 900); double b = 1.2; t = "PVDG\n"; for (int i = 0; i < 4; ++i) { t += " " + S(p[i]) + " " + S(b / p[i]) + " " + S(0.01 + 0.001 * i) + "\n"; } k.push_back(t + "/\n"); }
    if (kind == 0) k.push_back("PVCDO\n 200 " + S(r.u(1, 1.5)) + " 0 " + S(r.u(0.5, 5)) + " 0 /\n");
    else if (f.g && r.p(0.4)) { f.live = true; k.push_back("PVTO\n 0 1 1.05 1.2 /\n 50 100 1.15 1.0 /\n 120 250 1.3 0.8\n 400 1.25 0.9 /\n /\n"); }
    else if (r.p(0.5) || f.g) { int n = r.i(2, 6); dvec p = dk::increasing(r, n, 20, 700); double b = r.u(1.1, 1.4), c = r.p(0.3) ? 0 : r.logu(1e-6, 5e-4); std::string t = "PVDO\n"; for (int i = 0; i < n; ++i) t += " " + S(p[i]) + " " + S(b * std::exp(-c * p[i])) + " " + S(1 + 0.01 * i) + "\n"; k.push_back(t + "/\n"); }
    else k.push_back("PVCDO\n 200 " + S(r.u(1, 1.4)) + " " + S(r.p(0.3) ? 0 : r.logu(1e-6, 1e-3)) + " 1.0 0 /\n");
    r.shuffle(k); for (auto& s : k) f.text += s; return f;
}
struct Deck { Opm::EclipseGridParser p; explicit Deck(const std::string& t) { std::istringstream is(t); dk::CoutCatch c; p.read(is, true); } };
// ---- checks ----
template <class State> static void faces(const Geo& o, const State& st, const std::string& ctx)
{
    const UnstructuredGrid& g = *o.g.g; int d = o.dim; if (!CHK((int)st.facepressure().size() == g.number_of_faces && (int)st.pressure().size() == o.nc && (int)st.saturation().size() == o.nc * st.numPhases() && (int)st.faceflux().size() == g.number_of_faces, "sizes", ctx)) return;
    for (int f = 0; f < g.number_of_faces; ++f) { int c[2] = {g.face_cells[2 * f], g.face_cells[2 * f + 1]}; double fp = st.facepressure()[f], want; if (c[0] < 0 && c[1] < 0) continue; if (c[0] < 0 || c[1] < 0) { want = st.pressure()[c[0] < 0 ? c[1] : c[0]]; ev("boundary_faces"); } else { double w[2]; for (int j = 0; j < 2; ++j) { w[j] = 0; for (int k = 0; k < d; ++k) { double x = g.face_centroids[d * f + k] - g.cell_centroids[d * c[j] + k]; w[j] += x * x; } w[j] = std::sqrt(w[j]); } if (!(w[0] + w[1] > 0)) continue; double p0 = st.pressure()[c[0]], p1 = st.pressure()[c[1]]; want = p0 + (p1 - p0) * w[0] / (w[0] + w[1]); ev("interior_faces"); CHK(fp >= std::min(p0, p1) - 1e-12 * (std::fabs(p0) + std::fabs(p1)) && fp <= std::max(p0, p1) + 1e-12 * (std::fabs(p0) + std::fabs(p1)), "face-pressure-outside-cells", cat("face ", f, " ", fp, " cells ", p0, " ", p1, ctx)); } if (!CHK(close(fp, want, 1e-11, std::fabs(want)), "face-pressure", cat("face ", f, " ", fp, " expected ", want, ctx))) break; }
    for (double v : st.faceflux()) if (!CHK(v == 0, "initial-flux", ctx)) break;
}
template <class State> static void sats(const Geo& o, const State& st, std::function<double(int)> want, int pos, const std::string& ctx) { for (int c = 0; c < o.nc; ++c) { const double* s = &st.saturation()[(size_t)2 * c]; double e = want(c); CHK(close(s[0] + s[1], 1, 1e-14, 1), "saturation-sum", cat("cell ", c, " ", s[0], " ", s[1], ctx)); if (e == e && !CHK(close(s[pos], e, 1e-12, 1), "saturation", cat("cell ", c, " depth ", o.z[c], " phase ", pos, " ", s[pos], " expected ", e, ctx))) break; ev("cells"); } }
template <class State> static void press(const Geo& o, const State& st, std::function<double(double)> P, std::function<double(double)> tol, const std::string& ctx) { for (int c = 0; c < o.nc; ++c) { double e = P(o.z[c]), t = tol(o.z[c]); if (!CHK(std::fabs(st.pressure()[c] - e) <= t, "pressure", cat("cell ", c, " depth ", o.z[c], " pressure ", st.pressure()[c], " expected ", e, " tolerance ", t, ctx))) break; ev("hydrostatic_cells"); } }
// pressure from a datum through at most two zones of given density functions
struct Column { std::function<double(double)> lower, upper; double g, woc, zd, pd; // lower: below the contact
    double leg(double za, double pa, double zb, bool low) const { int n = 24; double h = (zb - za) / n, p = pa; const std::function<double(double)>& R = low ? lower : upper; if (h == 0 || g == 0) return pa; for (int i = 0; i < n; ++i) { double k1 = g * R(p), k2 = g * R(p + 0.5 * h * k1), k3 = g * R(p + 0.5 * h * k2), k4 = g * R(p + h * k3); p += h * (k1 + 2 * k2 + 2 * k3 + k4) / 6; } return p; }
    double at(double z) const { bool a = zd > woc, b = z > woc; return a == b ? leg(zd, pd, z, a) : leg(woc, leg(zd, pd, woc, a), z, b); } };
struct Opts { PG param; std::string text; bool conv, seg, hasw, hass; double woc, s0, pref; };
static Opts options(Rng& r, const Geo& o, bool comp)
{
    Opts q; q.conv = r.p(0.15); q.seg = !comp && r.p(0.2); q.hasw = q.seg && !q.conv ? true : r.p(0.5); q.hass = r.p(0.4); q.woc = depth(r, o, comp ? 0.5 : 2); q.s0 = r.p(0.1) ? r.i(0, 1) : r.u(); bool pr = r.p(0.7) || comp; q.pref = pr ? comp ? r.u(150, 350) : r.u(1, 500) : 100; q.param.disableOutput();
    std::vector<std::pair<std::string, std::string> > a; if (q.conv) a.push_back(std::make_pair("convection_testcase", "true")); else if (r.p(0.2)) a.push_back(std::make_pair("convection_testcase", "false")); if (q.seg) a.push_back(std::make_pair("segregation_testcase", "true")); if (q.hasw) a.push_back(std::make_pair("water_oil_contact", S(q.woc))); if (q.hass) a.push_back(std::make_pair("init_saturation", S(q.s0))); if (pr) { if (r.p(0.2)) q.pref = std::floor(q.pref) + 1; a.push_back(std::make_pair("ref_pressure", S(q.pref))); }
    r.shuffle(a); for (auto& x : a) { q.param.insertParameter(x.first, x.second); q.text += " " + x.first + "=" + x.second; } return q;
}
static double gravity(Rng& r) { return r.p(0.15) ? 0.0 : r.p(0.6) ? 9.80665 : r.u(0.5, 20); }
static bool left(const Geo& o, int c) { int gc = o.g->global_cell ? o.g->global_cell[c] : c, nx = o.g->cartdims[0]; return gc % nx < nx / 2; }
// ---- incompressible, from parameters or a deck ----
struct Range { dvec mn, mx; }; // first-phase saturation range per cell
static Range ranges(const Geo& o, const Fluid& f) { Range q; for (int c = 0; c < o.nc; ++c) { int gc = o.g->global_cell ? o.g->global_cell[c] : c; const Tab& t = f.tabs[f.satnum.empty() ? 0 : f.satnum[gc] - 1]; const dvec& s = f.w ? t.sw : t.sg; q.mn.push_back(s.front()); q.mx.push_back(s.back()); } return q; }
template <class Props> static void basic_incomp(Rng& r, const Geo& o, const Props& props, const Range& R, const double* rho, const std::string& pre)
{
    Opts q = options(r, o, false); double g = gravity(r); std::string ctx = cat(" ", o.kind, " gravity ", g, " parameters", q.text, " densities ", rho[0], " ", rho[1], pre); sample(ctx); nontrivial(hcomb(hstr(ctx), hdbl(o.z[o.nc - 1]))); Opm::TwophaseState st; if (r.p(0.2)) { Opts q0 = options(r, o, false); try { dk::CoutCatch c; initStateBasic(*o.g.g, props, q0.param, 9.81, st); } catch (const std::exception&) { } ev("reused_states"); }
    { dk::CoutCatch c; try { initStateBasic(*o.g.g, props, q.param, g, st); } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), " ", c.e.str(), ctx)); return; } }
    double pref = q.pref * BAR, eps = 1e-12 * (pref + 1e8); auto tol = [&](double) { return eps; }; Column K; K.g = g; K.pd = pref;
    if (q.conv) { sats(o, st, [&](int c) { return left(o, c) ? R.mx[c] : R.mn[c]; }, 0, ctx); press(o, st, [&](double) { return pref; }, tol, ctx); ev("convection_cases"); }
    else if (q.seg || q.hasw) { double lo = q.seg ? rho[1] : rho[0], up = q.seg ? rho[0] : rho[1]; sats(o, st, [&](int c) { return o.z[c] == q.woc ? NAN : (o.z[c] > q.woc) != q.seg ? R.mx[c] : R.mn[c]; }, 0, ctx); K.lower = [=](double) { return lo; }; K.upper = [=](double) { return up; }; K.woc = K.zd = q.woc; press(o, st, [&](double z) { return K.at(z); }, tol, ctx); ev(q.seg ? "segregation_cases" : "contact_cases"); }
    else { double m = q.hass ? rho[0] * q.s0 + rho[1] * (1 - q.s0) : rho[1]; sats(o, st, [&](int c) { return q.hass ? q.s0 : R.mn[c]; }, 0, ctx); K.lower = K.upper = [=](double) { return m; }; K.woc = K.zd = o.z[0]; press(o, st, [&](double z) { return K.at(z); }, tol, ctx); ev(q.hass ? "uniform_cases" : "default_cases"); }
    faces(o, st, ctx);
}
static std::string equil(Rng& r, const Geo& o, double out, double& zd, double& pd, double& woc) { zd = depth(r, o, out); woc = r.p(0.1) ? zd : depth(r, o, out); pd = r.u(150, 350); return "EQUIL\n " + S(zd) + " " + S(pd) + " " + S(woc) + (r.p(0.5) ? " 0 0 0 /\n" : " /\n"); }
static std::string arr(Rng& r, const char* n, const dvec& v) { (void)r; std::string t = std::string(n) + "\n"; for (size_t i = 0; i < v.size(); ++i) t += " " + S(v[i]) + (i % 6 == 5 ? "\n" : ""); return t + " /\n"; }
static void incomp(Rng& r)
{
    Geo o = geometry(r, true); if (o.dim == 2 || r.p(0.4)) { PG p; p.disableOutput(); double rho[2] = {r.u(900, 1200), r.u(500, 1000)}; p.insertParameter("rho1", S(rho[0])); p.insertParameter("rho2", S(rho[1])); dk::CoutCatch* q = new dk::CoutCatch; Opm::IncompPropertiesBasic props(p, o.dim, o.nc); delete q; Range R; R.mn.assign(o.nc, 0); R.mx.assign(o.nc, 1); basic_incomp(r, o, props, R, rho, " basic fluid"); return; }
    Fluid f = fluid(r, o, 0); size_t ng = (size_t)o.g->cartdims[0] * o.g->cartdims[1] * o.g->cartdims[2]; bool fromdeck = r.p(0.6), eq = r.p(0.6); double zd = 0, pd = 0, woc = 0; dvec pr(ng), sw(ng); std::string t = f.text; if (fromdeck) { if (eq) t += equil(r, o, 2, zd, pd, woc); else { for (auto& x : pr) x = r.u(50, 400); for (auto& x : sw) x = r.u(); t += arr(r, "PRESSURE", pr) + arr(r, "SWAT", sw); } }
    Deck d(t); std::unique_ptr<Opm::IncompPropertiesFromDeck> props; { dk::CoutCatch q; props.reset(new Opm::IncompPropertiesFromDeck(d.p, *o.g.g)); } Range R = ranges(o, f); const std::vector<double>& D = d.p.getDENSITY().densities_[0]; double rho[2] = {D[1] / d.p.getPVTW().pvtw_[0][1], D[0] / d.p.getPVCDO().pvcdo_[0][1]};
    if (!fromdeck) { basic_incomp(r, o, *props, R, rho, " deck fluid"); return; }
    double g = gravity(r); std::string ctx = cat(" ", o.kind, " gravity ", g, " deck\n", t); nontrivial(hcomb(hstr(ctx), hdbl(o.z[o.nc - 1]))); sample(ctx.substr(0, 600)); Opm::TwophaseState st; { dk::CoutCatch c; try { initStateFromDeck(*o.g.g, *props, d.p, g, st); } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), c.e.str(), ctx)); return; } }
    if (eq) { Column K; K.g = g; K.zd = zd; K.pd = pd * BAR; K.woc = woc; K.lower = [=](double) { return rho[0]; }; K.upper = [=](double) { return rho[1]; }; sats(o, st, [&](int c) { return std::fabs(o.z[c] - woc) < 1e-12 * std::fabs(woc) ? NAN : o.z[c] > woc ? R.mx[c] : R.mn[c]; }, 0, ctx); press(o, st, [&](double z) { return K.at(z); }, [&](double) { return 1e-12 * (K.pd + 1e8); }, ctx); ev("deck_equilibrium"); }
    else { auto G = [&](int c) { return o.g->global_cell ? o.g->global_cell[c] : c; }; sats(o, st, [&](int c) { return sw[G(c)]; }, 0, ctx); for (int c = 0; c < o.nc; ++c) CHK(close(st.pressure()[c], pr[G(c)] * BAR, 1e-13, 0), "pressure-from-deck", cat("cell ", c, ctx)); ev("deck_tabulated"); }
    faces(o, st, ctx);
}
// ---- compressible ----
template <class Props> static void surfvol(const Geo& o, const Props& props, Opm::BlackoilState& st, bool live, const std::string& ctx)
{
    int np = st.numPhases(); if (!CHK((int)st.surfacevol().size() == o.nc * np, "surfacevol-size", ctx)) return; for (int c = 0; c < o.nc; ++c) { double p = st.pressure()[c]; const double *s = &st.saturation()[(size_t)c * np], *z = &st.surfacevol()[(size_t)c * np]; dvec A(np * np, 0.0); if (live) { props.matrix(1, &p, s, &c, &A[0], 0); for (int i = 0; i < np; ++i) { double e = 0; for (int k = 0; k < np; ++k) e += A[i + np * k] * s[k]; CHK(close(z[i], e, 1e-13, std::fabs(e)), "surfacevol", cat("cell ", c, " component ", i, " ", z[i], " expected ", e, ctx)); } ev("live_surface_volumes"); continue; }
        for (int i = 0; i < np; ++i) { dvec one(np, 0.0); one[i] = 1; props.matrix(1, &p, &one[0], &c, &A[0], 0); double e = A[i + np * i] * s[i]; if (!CHK(close(z[i], e, 1e-12, std::fabs(e)), "surfacevol", cat("cell ", c, " component ", i, " ", z[i], " saturation ", s[i], " expected ", e, ctx))) return; } ev("surface_volumes"); }
}
template <class Props> static double density(const Props& props, double p, int ph) { double z[2] = {ph == 0 ? 1.0 : 0.0, ph == 1 ? 1.0 : 0.0}, A[4] = {0}, rho[2] = {0}; int c = 0; props.matrix(1, &p, z, &c, A, 0); props.density(1, A, rho); return rho[ph]; }
template <class Props> static void hydro(const Geo& o, const Props& props, const Opm::BlackoilState& st, double g, double zd, double pd, double woc, const std::string& ctx)
{
    Column K; K.g = g; K.zd = zd; K.pd = pd; K.woc = woc; K.lower = [&](double p) { return density(props, p, 0); }; K.upper = [&](double p) { return density(props, p, 1); };
    // what a first-order integration over a hundredth of the depth range may be off by
    double a = std::min(o.lo, zd), b = std::max(o.hi, zd), h = (b - a) / 100, plo = pd, phi = pd, c = 0, rm = 0; for (double z : {a, b}) { double p = K.at(z); plo = std::min(plo, p); phi = std::max(phi, p); } for (int ph = 0; ph < 2; ++ph) for (int i = 0; i < 40; ++i) { double dp = (phi - plo) / 40 + 1, p0 = plo + i * dp, r0 = density(props, p0, ph), r1 = density(props, p0 + dp, ph); c = std::max(c, std::fabs(r1 - r0) / (dp * std::max(r0, r1))); rm = std::max(rm, std::max(r0, r1)); }
    double grad = g * rm, jump = g * std::fabs(K.lower(pd) - K.upper(pd)), dP = grad * (b - a); auto tol = [&](double z) { return 1e-9 * pd + 2.5 * c * dP * grad * h + (std::fabs(z - woc) < 2 * h ? jump * h : 0); };
    press(o, st, [&](double z) { return K.at(z); }, tol, ctx);
}
static void blackoil(Rng& r)
{
    Geo o = geometry(r, false); if ((o.hi - o.lo) > 800) { ev("skipped"); return; } Fluid f = fluid(r, o, 1); bool fromdeck = r.p(0.6), eq = r.p(0.7); size_t ng = (size_t)o.g->cartdims[0] * o.g->cartdims[1] * o.g->cartdims[2]; double zd = 0, pd = 0, woc = 0; dvec pr(ng), sw(ng); std::string t = f.text; if (fromdeck) { if (eq) t += equil(r, o, 0.4, zd, pd, woc); else { for (auto& x : pr) x = r.u(50, 400); for (auto& x : sw) x = r.u(); t += arr(r, "PRESSURE", pr) + arr(r, "SWAT", sw); } }
    Deck d(t); std::unique_ptr<Opm::BlackoilPropertiesFromDeck> props; { dk::CoutCatch q; if (r.p(0.5)) props.reset(new Opm::BlackoilPropertiesFromDeck(d.p, *o.g.g)); else { PG pg; pg.disableOutput(); pg.insertParameter("pvt_tab_size", r.p(0.5) ? "0" : "100"); pg.insertParameter("sat_tab_size", "0"); props.reset(new Opm::BlackoilPropertiesFromDeck(d.p, *o.g.g, pg)); } } Range R = ranges(o, f); double g = gravity(r); Opm::BlackoilState st; auto G = [&](int c) { return o.g->global_cell ? o.g->global_cell[c] : c; };
    if (!fromdeck) { Opts q = options(r, o, true); std::string ctx = cat(" ", o.kind, " gravity ", g, " parameters", q.text, "\n", t); sample(ctx.substr(0, 600)); nontrivial(hcomb(hstr(ctx), hdbl(o.z[o.nc - 1]))); { dk::CoutCatch c; try { initStateBasic(*o.g.g, *props, q.param, g, st); initBlackoilSurfvol(*o.g.g, *props, st); } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), c.e.str(), ctx)); return; } }
        double pref = q.pref * BAR; if (q.conv) { sats(o, st, [&](int c) { return left(o, c) ? R.mx[c] : R.mn[c]; }, 0, ctx); press(o, st, [&](double) { return pref; }, [&](double) { return 1e-12 * pref; }, ctx); ev("compressible_convection"); } else if (q.hasw) { sats(o, st, [&](int c) { return o.z[c] == q.woc ? NAN : o.z[c] > q.woc ? R.mx[c] : R.mn[c]; }, 0, ctx); hydro(o, *props, st, g, q.woc, pref, q.woc, ctx); ev("compressible_contact"); } else { sats(o, st, [&](int c) { return R.mn[c]; }, 0, ctx); hydro(o, *props, st, g, o.z[0], pref, 1e30, ctx); ev("compressible_default"); } faces(o, st, ctx); surfvol(o, *props, st, false, ctx); return; }
    std::string ctx = cat(" ", o.kind, " depths ", o.lo, " to ", o.hi, " gravity ", g, " deck\n", t); sample(ctx.substr(0, 600)); nontrivial(hcomb(hstr(ctx), hdbl(o.z[o.nc - 1]))); { dk::CoutCatch c; try { if (r.p(0.5)) { initBlackoilStateFromDeck(*o.g.g, *props, d.p, g, st); ev("blackoil_from_deck"); } else { initStateFromDeck(*o.g.g, *props, d.p, g, st); initBlackoilSurfvol(*o.g.g, *props, st); } } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), c.e.str(), ctx)); return; } }
    if (eq) { sats(o, st, [&](int c) { return std::fabs(o.z[c] - woc) < 1e-12 * std::fabs(woc) ? NAN : o.z[c] > woc ? R.mx[c] : R.mn[c]; }, 0, ctx); hydro(o, *props, st, g, zd, pd * BAR, woc, ctx); ev("compressible_equilibrium"); } else { sats(o, st, [&](int c) { return sw[G(c)]; }, 0, ctx); for (int c = 0; c < o.nc; ++c) CHK(close(st.pressure()[c], pr[G(c)] * BAR, 1e-13, 0), "pressure-from-deck", cat("cell ", c, ctx)); ev("compressible_tabulated"); }
    faces(o, st, ctx); surfvol(o, *props, st, false, ctx);
}
// ---- gas: tabulated initialisation only; equilibration with gas must be refused ----
static void gas(Rng& r)
{
    Geo o = geometry(r, false); int kind = r.i(2, 3); Fluid f = fluid(r, o, kind); size_t ng = (size_t)o.g->cartdims[0] * o.g->cartdims[1] * o.g->cartdims[2]; dvec pr(ng), sw(ng, 0.0), sg(ng); for (auto& x : pr) x = r.u(50, 400); for (size_t i = 0; i < ng; ++i) { if (f.w) sw[i] = r.u(0, 0.6); sg[i] = r.p(0.3) ? 0 : r.u(0, 0.4); } int miss = r.p(0.25) ? r.i(0, 3) : -1; std::vector<std::string> k; if (miss != 0) k.push_back(arr(r, "PRESSURE", pr)); if (f.w && miss != 1) k.push_back(arr(r, "SWAT", sw)); if (miss != 2) k.push_back(arr(r, "SGAS", sg)); double a, b, c; if (miss == 3) { k.erase(k.begin()); k.push_back(equil(r, o, 1, a, b, c)); } r.shuffle(k); std::string t = f.text; for (auto& s : k) t += s; bool bad = miss == 0 || miss == 2 || miss == 3 || (miss == 1 && f.w);
    Deck d(t); std::unique_ptr<Opm::BlackoilPropertiesFromDeck> props; { dk::CoutCatch q; props.reset(new Opm::BlackoilPropertiesFromDeck(d.p, *o.g.g)); } Opm::BlackoilState st; std::string ctx = cat(" ", o.kind, " deck\n", t.substr(0, 3000)); bool thrown = false; { dk::CoutCatch q; try { initStateFromDeck(*o.g.g, *props, d.p, 9.8, st); } catch (const std::exception&) { thrown = true; } } nontrivial(hcomb(hstr(t), o.nc)); if (!CHK(thrown == bad, bad ? "accepted-incomplete" : "refused", ctx)) return; if (bad) { ev("incomplete_refused"); return; }
    int np = f.np; if (!CHK(st.numPhases() == np, "phases", ctx)) return; for (int q = 0; q < o.nc; ++q) { int G = o.g->global_cell ? o.g->global_cell[q] : q; const double* s = &st.saturation()[(size_t)q * np]; double so = 1 - sw[G] - sg[G]; int w = 0, l = f.w ? 1 : 0, v = l + 1; bool ok = (!f.w || s[w] == sw[G]) && close(s[l], so, 1e-13, 1) && s[v] == sg[G]; if (!CHK(ok, "saturation", cat("cell ", q, ctx))) break; double sum = 0; for (int i = 0; i < np; ++i) sum += s[i]; CHK(close(sum, 1, 1e-14, 1), "saturation-sum", ctx); CHK(close(st.pressure()[q], pr[G] * BAR, 1e-13, 0), "pressure-from-deck", ctx); ev("cells"); } ev(np == 3 ? "three_phase" : "oil_gas"); faces(o, st, ctx); { dk::CoutCatch q; initBlackoilSurfvol(*o.g.g, *props, st); } surfvol(o, *props, st, f.live, ctx);
    // a deck that disagrees with the fluid object is refused
    Fluid f2 = fluid(r, o, 1); Deck d2(f2.text + arr(r, "PRESSURE", pr) + arr(r, "SWAT", sw)); if (np == 3) { bool th = false; dk::CoutCatch q; try { Opm::BlackoilState s2; initStateFromDeck(*o.g.g, *props, d2.p, 9.8, s2); } catch (const std::exception&) { th = true; } CHK(th, "accepted-phase-mismatch", ctx); }
}
static void wells(Rng& r)
{
    Geo o = geometry(r, true); int np = r.i(1, 3), nw = r.i(0, 6); WellsPtr w(create_wells(np, nw, nw * 3)); std::vector<double> want; int np_ = 0; Opm::TwophaseState st; st.init(*o.g.g, 2); for (auto& p : st.pressure()) p = r.u(1e5, 5e7); std::string ctx = " " + o.kind;
    for (int k = 0; k < nw; ++k) { int n = r.i(1, 3); std::vector<int> c(n); dvec wi(n, 1e-12), cf(np, 0.0); for (auto& x : c) x = r.i(0, o.nc - 1); cf[0] = 1; bool inj = r.p(0.5); add_well(inj ? INJECTOR : PRODUCER, o.z[c[0]], n, &cf[0], &c[0], &wi[0], cat("W", k).c_str(), w.w); dvec distr(np, 1.0); int nc = r.i(0, 3); std::vector<int> ty; dvec tg; for (int q = 0; q < nc; ++q) { ty.push_back(r.i(0, 2)); tg.push_back(ty[q] == 0 ? r.u(1e5, 5e7) : r.u(-1, 1)); append_well_controls(ty[q] == 0 ? BHP : ty[q] == 1 ? RESERVOIR_RATE : SURFACE_RATE, tg[q], &distr[0], k, w.w); } int cur = nc ? r.i(-1, nc - 1) : -1; set_current_control(k, cur, w.w); bool shut = cur < 0; if (r.p(0.2) && cur >= 0) { w.w->ctrls[k]->current = ~cur; shut = true; } double e = !shut && ty[cur] == 0 ? tg[cur] : st.pressure()[c[0]]; want.push_back(e); np_ += n; ev(shut ? "shut_wells" : ty[cur] == 0 ? "bhp_wells" : "rate_wells"); ctx += cat(" well ", k, " control ", cur, shut ? " shut" : ""); }
    Opm::WellState ws; ws.init(w.w, st); if (!CHK((int)ws.bhp().size() == nw && (int)ws.perfRates().size() == np_ && (int)ws.perfPress().size() == np_, "well-state-size", ctx)) return; for (int k = 0; k < nw; ++k) CHK(ws.bhp()[k] == want[k], "well-pressure", cat("well ", k, " ", ws.bhp()[k], " expected ", want[k], ctx)); for (double x : ws.perfRates()) CHK(x == 0, "well-rate", ctx); nontrivial(hcomb(hstr(ctx), hdbl(st.pressure()[0]))); Opm::WellState none; none.init(0, st); CHK(none.bhp().empty() && none.perfRates().empty(), "no-wells", ""); ev("well_states");
}
static void one(long k, Rng& r) { (void)k; double u = r.u(); if (u < 0.4) incomp(r); else if (u < 0.75) blackoil(r); else if (u < 0.9) gas(r); else wells(r); }
int main(int argc, char** argv) { return run(argc, argv, "p30", one, 20); }
