// P27: discontinuous Galerkin time of flight: weak form, conservation, exactness, agreement with first order, basis functions and limiter.
#include "config.h"
#define FLOW_NO_WELLS
#include <sstream>
#include <iostream>
#include "tof.hpp"
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/tof/DGBasis.hpp>
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace mon; using namespace gl;
typedef std::vector<double> dvec;
// Basis functions by definition: monomials about the centroid, or products of (1/2 -+ (x - xc)).
struct Bas {
    const UnstructuredGrid& g; int deg; bool ml; int d, n; Bas(const UnstructuredGrid& g_, int deg_, bool ml_) : g(g_), deg(deg_), ml(ml_), d(g_.dimensions) { n = deg == 0 ? 1 : ml ? (1 << d) : d + 1; }
    double val(int c, int i, const double* x) const { if (deg == 0) return 1; const double* cc = g.cell_centroids + d * c; if (!ml) return i == 0 ? 1 : x[i - 1] - cc[i - 1]; double p = 1; for (int k = 0; k < d; ++k) p *= 0.5 + ((i >> (d - 1 - k)) & 1 ? 1 : -1) * (x[k] - cc[k]); return p; }
    double der(int c, int i, int k, const double* x) const { if (deg == 0) return 0; const double* cc = g.cell_centroids + d * c; if (!ml) return i == k + 1; double p = 1; for (int q = 0; q < d; ++q) { int s = (i >> (d - 1 - q)) & 1 ? 1 : -1; p *= q == k ? s : 0.5 + s * (x[q] - cc[q]); } return p; }
    double fun(int c, const double* co, const double* x) const { double s = 0; for (int i = 0; i < n; ++i) s += co[i] * val(c, i, x); return s; }
    double avg(const double* co) const { if (!ml) return co[0]; double s = 0; for (int i = 0; i < n; ++i) s += co[i]; return s / n; }
};
struct Local { dvec J, rhs, Jm, rm; }; // J[j*n+i], magnitudes for tolerances
static Local assemble(const Bas& B, const Field& F, const dvec& pv, const dvec& u, const Opm::VelocityInterpolationInterface& vi, int c)
{
    const UnstructuredGrid& G = B.g; int d = B.d, n = B.n; Local L; L.J.assign(n * n, 0.0); L.rhs.assign(n, 0.0); L.Jm = L.J; L.rm = L.rhs; double x[3], vel[3];
    { Opm::CellQuadrature q(G, c, B.deg); for (int p = 0; p < q.numQuadPts(); ++p) { q.quadPtCoord(p, x); double w = q.quadPtWeight(p) * pv[c] / G.cell_volumes[c]; for (int j = 0; j < n; ++j) { double t = w * B.val(c, j, x); L.rhs[j] += t; L.rm[j] += std::fabs(t); } } }
    { Opm::CellQuadrature q(G, c, 2 * B.deg); double sink = std::max(0.0, -F.src[c]) / G.cell_volumes[c]; for (int p = 0; p < q.numQuadPts(); ++p) { q.quadPtCoord(p, x); double w = q.quadPtWeight(p); vi.interpolate(c, x, vel); for (int j = 0; j < n; ++j) { double a = 0, am = 0; for (int k = 0; k < d; ++k) { double t = vel[k] * B.der(c, j, k, x); a -= t; am += std::fabs(t); } a += sink * B.val(c, j, x); am += sink * std::fabs(B.val(c, j, x)); for (int i = 0; i < n; ++i) { double b = B.val(c, i, x); L.J[j * n + i] += w * a * b; L.Jm[j * n + i] += std::fabs(w * am * b); } } } }
    for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { int f = G.cell_faces[h]; double q0 = out_of(G, c, f, F.v); int o = G.face_cells[2 * f] == c ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; if (q0 == 0 || (q0 < 0 && o < 0)) continue; double vn = q0 / G.face_areas[f]; Opm::FaceQuadrature q(G, f, 2 * B.deg);
        for (int p = 0; p < q.numQuadPts(); ++p) { q.quadPtCoord(p, x); double w = q.quadPtWeight(p) * vn; if (q0 > 0) { for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { double t = w * B.val(c, j, x) * B.val(c, i, x); L.J[j * n + i] += t; L.Jm[j * n + i] += std::fabs(t); } } else { double um = 0, uu = 0; for (int i = 0; i < n; ++i) { double t = u[n * o + i] * B.val(o, i, x); uu += t; um += std::fabs(t); } for (int j = 0; j < n; ++j) { L.rhs[j] -= w * uu * B.val(c, j, x); L.rm[j] += std::fabs(w * um * B.val(c, j, x)); } } } }
    return L;
}
static bool solve(int n, dvec A, dvec b, dvec& x, double& piv) { piv = 1e300; double top = 0; for (double t : A) top = std::max(top, std::fabs(t)); for (int c = 0; c < n; ++c) { int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(A[i * n + c]) > std::fabs(A[p * n + c])) p = i; for (int k = 0; k < n; ++k) std::swap(A[p * n + k], A[c * n + k]); std::swap(b[p], b[c]); piv = std::min(piv, std::fabs(A[c * n + c]) / top); if (A[c * n + c] == 0) return false; for (int i = c + 1; i < n; ++i) { double f = A[i * n + c] / A[c * n + c]; for (int k = c; k < n; ++k) A[i * n + k] -= f * A[c * n + k]; b[i] -= f * b[c]; } } x.assign(n, 0.0); for (int i = n; i-- > 0;) { double t = b[i]; for (int k = i + 1; k < n; ++k) t -= A[i * n + k] * x[k]; x[i] = t / A[i * n + i]; } return true; }
static std::vector<V3> corners(const UnstructuredGrid& g, int c, int f0 = -1) { std::set<int> s; for (int h = g.cell_facepos[c]; h < g.cell_facepos[c + 1]; ++h) { int f = g.cell_faces[h]; if (f0 >= 0 && f != f0) continue; for (int k = g.face_nodepos[f]; k < g.face_nodepos[f + 1]; ++k) s.insert(g.face_nodes[k]); } std::vector<V3> v; for (int x : s) v.push_back(pt(g.node_coordinates + g.dimensions * x, g.dimensions)); return v; }

static void basis(Rng& r, const UnstructuredGrid& G, bool box)
{
    int d = G.dimensions, deg = r.i(0, 1); bool ml = r.p(0.5); Bas B(G, deg, ml); std::unique_ptr<Opm::DGBasisInterface> L; if (ml) L.reset(new Opm::DGBasisMultilin(G, deg)); else L.reset(new Opm::DGBasisBoundedTotalDegree(G, deg)); std::string ds = cat(ml ? "multilinear" : "total", " degree ", deg, " dim ", d);
    if (!CHK(L->numBasisFunc() == B.n && L->dimensions() == d && L->degree() == deg, "basis-size", ds)) return; int c = r.i(0, G.number_of_cells - 1); std::vector<V3> cn = corners(G, c); dvec co(B.n), o; for (auto& t : co) t = r.u(-2, 2); o = co; double inc = r.u(-3, 3), fac = r.p(0.2) ? 0 : r.u(-0.5, 1.5); dvec add = co, mu = co; L->addConstant(inc, &add[0]); L->multiplyGradient(fac, &mu[0]); double av = L->functionAverage(&co[0]);
    for (int t = 0; t < 6; ++t) { V3 p = t < 2 ? r.pick(cn) : mk(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); if (t >= 2) p = gl::add(p, pt(G.cell_centroids + d * c, d)); double x[3] = {p[0], p[1], p[2]}; dvec v(B.n, -9), gr(B.n * d, -9); L->eval(c, x, &v[0]); L->evalGrad(c, x, &gr[0]); double sc = 1; for (int k = 0; k < d; ++k) sc *= 1 + std::fabs(x[k] - G.cell_centroids[d * c + k]); sc += 1e-2 * norm(p);
        for (int i = 0; i < B.n; ++i) { NEAR(v[i], B.val(c, i, x), 1e-12, sc, "basis-value", cat(ds, " function ", i)); for (int k = 0; k < d; ++k) NEAR(gr[i * d + k], B.der(c, i, k, x), 1e-12, sc, "basis-gradient", cat(ds, " function ", i, " direction ", k)); }
        double f = B.fun(c, &co[0], x), s2 = 20 * sc; NEAR(L->evalFunc(c, &co[0], x), f, 1e-12, s2, "basis-function", ds); { double y = B.fun(c, &add[0], x), part = f + inc / B.n; bool divided = ml && deg == 1 && std::fabs(y - part) <= 1e-12 * s2; NEAR(y, f + inc, 1e-12, s2, divided ? "add-constant:multilinear-divided-by-count" : "add-constant", cat(ds, " by ", inc)); } NEAR(B.fun(c, &mu[0], x), B.avg(&co[0]) + fac * (f - B.avg(&co[0])), 1e-12, s2, "multiply-gradient", cat(ds, " by ", fac)); ev("basis_points"); }
    if (!ml || box) { double s = 0, cx[3], lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; if (!ml) { for (int k = 0; k < d; ++k) cx[k] = G.cell_centroids[d * c + k]; s = B.fun(c, &co[0], cx); } else { for (auto& q : cn) for (int k = 0; k < d; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); } int m = 1 << d; for (int q = 0; q < m; ++q) { double y[3]; for (int k = 0; k < d; ++k) y[k] = (q >> k) & 1 ? hi[k] : lo[k]; s += B.fun(c, &co[0], y) / m; } /* corner mean is the average of a multilinear function over a box */ } NEAR(av, s, 1e-11, 100, "function-average", ds); dvec z = mu; NEAR(L->functionAverage(&z[0]), av, 1e-12, 10, "gradient-keeps-average", ds); ev("averages"); }
    if (r.p(0.05)) { int t = 0; Quiet q; for (int bad : {-1, 2}) { try { if (ml) Opm::DGBasisMultilin b(G, bad); else Opm::DGBasisBoundedTotalDegree b(G, bad); } catch (const std::exception&) { ++t; } } CHK(t == 2, "bad-degree", ds); }
}
static void one(long, Rng& r)
{
    std::string kind; int w = r.i(0, 9); GridPtr g = w < 4 ? random_grid(r, r.p(0.1) ? 6 : 4, &kind, true, false) : w < 6 ? arrangement_grid(r, 2, r.i(0, 5), 0.03) : any_grid(r, 3, 3, &kind); if (w >= 4 && w < 6) kind = "polygons"; bool exact = false; int axis = -1;
    bool box = kind.find("tensor") == 0 && kind.find("tilted") == std::string::npos; bool affine = false; V3 A[3] = {mk(1, 0, 0), mk(0, 1, 0), mk(0, 0, 1)};
    if (box && r.p(0.35)) { exact = true; axis = r.i(0, g->dimensions - 1); if (r.p(0.4)) { affine = true; int d = g->dimensions; for (int k = 0; k < d; ++k) for (int q = 0; q < d; ++q) A[k][q] = (k == q) * r.u(0.5, 1.5) + r.u(-0.4, 0.4); for (int n = 0; n < g->number_of_nodes; ++n) { V3 x = pt(g->node_coordinates + d * n, d), y = mk(0, 0, 0); for (int k = 0; k < d; ++k) y = add(y, mul(A[k], x[k])); for (int q = 0; q < d; ++q) g->node_coordinates[d * n + q] = y[q]; } fill_geometry(const_cast<UnstructuredGrid*>(&*g)); box = false; kind += " sheared"; } else if (r.p(0.3)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); kind += " renumbered"; } }
    const UnstructuredGrid& G = *g; int nc = G.number_of_cells, d = G.dimensions, nf = G.number_of_faces; basis(r, G, box);
    int deg = r.p(0.25) ? 0 : 1; bool ml = affine ? false : r.p(0.4), cvi = (box || kind == "polygons") && r.p(0.4), lim = deg == 1 && (box || !ml) && r.p(0.45); Bas B(G, deg, ml); int n = B.n;
    Field F; dvec pv(nc); double poro = r.u(0.05, 1), x0 = 0, speed = 1;
    if (exact) { F.kind = "along axis"; F.src.assign(nc, 0.0); F.v.assign(nf, 0.0); speed = (r.p(0.5) ? 1 : -1) * r.logu(1e-3, 10); V3 u = mul(A[axis], speed); double m = 0; for (int f = 0; f < nf; ++f) { F.v[f] = dot(u, pt(G.face_normals + d * f, d)); m = std::max(m, std::fabs(F.v[f])); } for (auto& x : F.v) if (std::fabs(x) < 1e-10 * m) x = 0; for (int c = 0; c < nc; ++c) pv[c] = poro * G.cell_volumes[c]; F.group = groups(G, F.v); F.gsize.assign(nc, 1); F.acyclic = true; }
    else { F = steady_field(r, G, true); double pm = r.logu(1e-2, 1e3); for (auto& x : pv) x = pm * r.logu(0.2, 1); if (r.p(0.3)) for (int c = 0; c < nc; ++c) pv[c] = poro * G.cell_volumes[c]; }
    bool stagnant = false, weak = false; for (int c = 0; c < nc; ++c) { double o = std::max(0.0, -F.src[c]), vn = o; for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { double q = out_of(G, c, G.cell_faces[h], F.v); if (q > 0) o += q; vn = std::max(vn, std::fabs(q)); } if (o == 0) stagnant = true; if (o < 1e-6 * vn) weak = true; }
    std::string meth = r.p(0.5) ? "MinUpwindFace" : "MinUpwindAverage", use = r.pick(std::vector<std::string>{"DuringComputations", "AsPostProcess", "AsSimultaneousPostProcess"}); double thr = r.p(0.5) ? 1e-3 : r.p(0.5) ? 0 : r.u(0, 0.3);
    std::string ds = cat(kind, " cells ", nc, " field ", F.kind, " degree ", deg, ml ? " multilinear" : "", cvi ? " cvi" : "", lim ? " " + meth + " " + use : "");
    auto prm = [&](bool l) { Opm::parameter::ParameterGroup p; p.insertParameter("dg_degree", std::to_string(deg)); p.insertParameter("use_tensorial_basis", ml ? "true" : "false"); p.insertParameter("use_cvi", cvi ? "true" : "false"); p.insertParameter("use_limiter", l ? "true" : "false"); if (l) { p.insertParameter("limiter_relative_flux_threshold", cat(thr)); p.insertParameter("limiter_method", meth); p.insertParameter("limiter_usage", use); } p.disableOutput(); return p; };
    if (lim) { std::ostringstream o; o.precision(17); o << thr; thr = std::atof(cat(thr).c_str()); }
    dvec U, L; bool thrown = false; dvec keepv = F.v, keeps = F.src, keepp = pv;
    { CoutCatch cc; Quiet q; std::streambuf* eb = std::cerr.rdbuf(cc.o.rdbuf()); try { Opm::TofDiscGalReorder s(G, prm(false)); if (r.p(0.3)) { dvec v2 = F.v, s2 = F.src, t; for (auto& x : v2) x = -x; for (auto& x : s2) x = -x; try { s.solveTof(&v2[0], &pv[0], &s2[0], t); } catch (const std::exception&) { } U.assign(r.i(0, 9), 2.0); ev("used_objects"); } s.solveTof(&F.v[0], &pv[0], &F.src[0], U); if (lim) { Opm::TofDiscGalReorder z(G, prm(true)); z.solveTof(&F.v[0], &pv[0], &F.src[0], L); } } catch (const std::exception&) { thrown = true; } std::cerr.rdbuf(eb); }
    if (thrown) { ev("refused"); CHK(stagnant || weak || !F.acyclic, "refused", ds); return; }
    if (!CHK(F.v == keepv && F.src == keeps && pv == keepp, "inputs", ds)) return; if (!CHK((int)U.size() == n * nc && (!lim || (int)L.size() == n * nc), "size", ds)) return; ev("solves");
    std::unique_ptr<Opm::VelocityInterpolationInterface> vi; if (cvi) vi.reset(new Opm::VelocityInterpolationECVI(G)); else vi.reset(new Opm::VelocityInterpolationConstant(G)); vi->setupFluxes(&F.v[0]);
    std::vector<int> ord = flow_order(G, F.v);
    // weak form and conservation of the unlimited solution
    for (int c : ord) {
        bool fin = true; for (int i = 0; i < n; ++i) if (!(std::fabs(U[n * c + i]) < 1e200)) fin = false; if (!fin) { ev("nonfinite_skipped"); CHK(stagnant || !F.acyclic, "finite", cat(ds, " cell ", c)); return; }
        Local S = assemble(B, F, pv, U, *vi, c); for (int j = 0; j < n; ++j) { double res = -S.rhs[j], m = S.rm[j]; for (int i = 0; i < n; ++i) { res += S.J[j * n + i] * U[n * c + i]; m += S.Jm[j * n + i] * std::fabs(U[n * c + i]); } for (int q = 0; q < n; ++q) { double mq = 0; for (int i = 0; i < n; ++i) mq += S.Jm[q * n + i] * std::fabs(U[n * c + i]); m = std::max(m, mq); } if (!CHK(std::fabs(res) <= 1e-10 * m, "weak-form", cat(ds, " cell ", c, " test function ", j, " residual ", res, " scale ", m))) return; } ev("weak_form_cells");
        if (!ml || deg == 0) { double in = pv[c], out = std::max(0.0, -F.src[c]) * U[n * c], m = in + std::fabs(out); for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { int f = G.cell_faces[h]; double q = out_of(G, c, f, F.v); int o = G.face_cells[2 * f] == c ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; int s = q > 0 ? c : o; if (s < 0 || q == 0) continue; double t = B.fun(s, &U[n * s], G.face_centroids + d * f); double tm = 0; for (int i = 0; i < n; ++i) tm += std::fabs(U[n * s + i] * B.val(s, i, G.face_centroids + d * f)); m += std::fabs(q) * tm; if (q > 0) out += q * t; else in -= q * t; } if (kind.find("cornerpoint") == std::string::npos || deg == 0) { if (!CHK(std::fabs(in - out) <= 1e-9 * m, "conservation", cat(ds, " cell ", c, " in ", in, " out ", out))) return; ev("conservation_cells"); } }
    }
    if (deg == 0) { dvec t; bool ok = true; { CoutCatch cc; Quiet q; try { Opm::TofReorder s(G); s.solveTof(&F.v[0], &pv[0], &F.src[0], t); } catch (const std::exception&) { ok = false; } } if (ok) { for (int c : ord) if (!CHK(std::fabs(t[c] - U[c]) <= 1e-10 * t[c] || !(t[c] < 1e300), "first-order", cat(ds, " cell ", c, " ", U[c], " ", t[c]))) return; ev("first_order_agreements"); } }
    if (exact) { double lo = 1e300; V3 un = mk(0, 0, 0); { // reciprocal direction of the axis
            int a = (axis + 1) % d, b = (axis + 2) % d; if (d == 2) { V3 o = A[1 - axis]; un = mk(-o[1], o[0], 0); } else un = cross(A[a], A[b]); double s = dot(un, A[axis]); un = mul(un, 1 / s); } for (int q = 0; q < G.number_of_nodes; ++q) lo = std::min(lo, dot(un, pt(G.node_coordinates + d * q, d)) * (speed > 0 ? 1 : -1)); x0 = lo; double span = 0; for (int q = 0; q < G.number_of_nodes; ++q) span = std::max(span, dot(un, pt(G.node_coordinates + d * q, d)) * (speed > 0 ? 1 : -1) - lo); double top = poro * span / std::fabs(speed); double wt = 1; if (ml) for (int c = 0; c < nc; ++c) { V3 lo3 = mk(1e300, 1e300, 1e300), hi3 = mk(-1e300, -1e300, -1e300); for (auto& p : corners(G, c)) for (int k = 0; k < d; ++k) { lo3[k] = std::min(lo3[k], p[k]); hi3[k] = std::max(hi3[k], p[k]); } double q = 1; for (int k = 0; k < d; ++k) { double e = hi3[k] - lo3[k]; q *= std::max(e, 1 / e) * std::max(e, 1 / e); } wt = std::max(wt, q); } double et = 1e-8 + 1e-12 * wt;
        for (int c = 0; c < nc; ++c) { if (deg == 1) for (auto& p : corners(G, c)) { double x[3] = {p[0], p[1], p[2]}; double want = poro * (dot(un, p) * (speed > 0 ? 1 : -1) - x0) / std::fabs(speed); if (!NEAR(B.fun(c, &U[n * c], x), want, et, top, "exact", cat(ds, " cell ", c))) return; if (lim && !NEAR(B.fun(c, &L[n * c], x), want, et, top, "exact-limited", cat(ds, " cell ", c))) return; } ev("exact_cells"); } }
    if (lim) {
        for (int c : ord) {
            double tot = 0, ti = 0; for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { double q = out_of(G, c, G.cell_faces[h], F.v); if (q < 0) ti -= q; else tot += q; } tot = std::max(tot, ti); const dvec& ref = use == "AsSimultaneousPostProcess" ? U : L; double M = 1e300; int ups = 0; bool close = false; double mag = 0;
            for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { int f = G.cell_faces[h]; double q = out_of(G, c, f, F.v); int o = G.face_cells[2 * f] == c ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; if (q < 0 && std::fabs(-q - tot * thr) < 1e-9 * tot && thr > 0) close = true; if (!(q < -tot * thr)) continue; ++ups; double t = 0; if (o >= 0) { if (meth == "MinUpwindFace") { t = 1e300; for (auto& p : corners(G, o, f)) { double x[3] = {p[0], p[1], p[2]}; t = std::min(t, B.fun(o, &ref[n * o], x)); for (int i = 0; i < n; ++i) mag = std::max(mag, std::fabs(ref[n * o + i] * B.val(o, i, x))); } } else { t = B.avg(&ref[n * o]); for (int i = 0; i < n; ++i) mag = std::max(mag, std::fabs(ref[n * o + i])); } } M = std::min(M, t); }
            if (close) { ev("threshold_skipped"); continue; } dvec u(U.begin() + n * c, U.begin() + n * (c + 1)); double piv = 1; if (use == "DuringComputations") { Local S = assemble(B, F, pv, L, *vi, c); if (!solve(n, S.J, S.rhs, u, piv) || piv < 1e-9) { ev("illconditioned_skipped"); continue; } }
            double a0 = B.avg(&u[0]), a1 = B.avg(&L[n * c]); std::vector<V3> cn = corners(G, c); double lo0 = 1e300, lo1 = 1e300; for (auto& p : cn) { double x[3] = {p[0], p[1], p[2]}; lo0 = std::min(lo0, B.fun(c, &u[0], x)); lo1 = std::min(lo1, B.fun(c, &L[n * c], x)); for (int i = 0; i < n; ++i) mag = std::max(mag, std::max(std::fabs(L[n * c + i] * B.val(c, i, x)), std::fabs(u[i] * B.val(c, i, x)))); } double tol = (use == "DuringComputations" ? 1e-12 / piv + 1e-10 : 1e-10) * mag; ev("limited_cells");
            if (ups == 0) { if (a0 > tol && !CHK(std::fabs(a1 - a0) <= tol, "limiter-source", cat(ds, " cell ", c, " average ", a1, " was ", a0))) return; continue; } M = std::max(M, 0.0);
            bool divided = ml && a0 < M - tol; for (auto& p : cn) { double x[3] = {p[0], p[1], p[2]}; if (std::fabs(B.fun(c, &L[n * c], x) - (a0 + (M - a0) / n)) > tol) divided = false; } // flat, but raised by one part in n only
            if (divided) { ev("flattened_cells"); violate("limiter-flat:multilinear-divided-by-count", cat(ds, " cell ", c, " raised to ", a1, " instead of ", M)); continue; }
            if (!CHK(lo1 >= M - tol, "limiter-minimum", cat(ds, " cell ", c, " lowest corner ", lo1, " upstream minimum ", M, " tol ", tol))) return;
            if (a0 < M - tol) { ev("flattened_cells"); if (!CHK(std::fabs(a1 - M) <= tol, "limiter-flat", cat(ds, " cell ", c, " average ", a1, " minimum ", M, " before ", a0))) return; for (auto& p : cn) { double x[3] = {p[0], p[1], p[2]}; if (!CHK(std::fabs(B.fun(c, &L[n * c], x) - M) <= 2 * tol, "limiter-flat", cat(ds, " cell ", c, " value ", B.fun(c, &L[n * c], x), " not flat at ", M))) return; } continue; }
            if (a0 < M + tol) continue;
            if (!CHK(std::fabs(a1 - a0) <= tol, "limiter-average", cat(ds, " cell ", c, " average ", a1, " was ", a0))) return;
            double fac = lo0 >= M ? 1 : (a0 - M) / (a0 - lo0); if (fac < 1) ev("reduced_cells"); for (auto& p : cn) { double x[3] = {p[0], p[1], p[2]}; if (!CHK(std::fabs(B.fun(c, &L[n * c], x) - (a0 + fac * (B.fun(c, &u[0], x) - a0))) <= 10 * tol * (1 + mag / std::max(a0 - lo0, 1e-300) * (fac < 1)), "limiter-slope", cat(ds, " cell ", c, " factor ", fac))) return; }
        }
    }
    uint64_t h = hstr(ds); for (double x : F.v) h = hcomb(h, hdbl(x)); nontrivial(h); sample(ds);
}
int main(int c, char** v) { return run(c, v, "p27", one); }
