// P05: quadrature exactness and velocity/barycentric reconstruction on convex cells.
#include "polygrid.hpp"
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/WachspressCoord.hpp>
using namespace mon; using namespace gl;
struct Mom { double m0; double m1[3]; double m2[3][3]; Mom() { std::memset(this, 0, sizeof *this); } };
// simplex with given points (k+1 of them) and signed measure
static void addsimplex(Mom& M, const V3* p, int n, double vol) { double f1 = 1.0 / n, f2 = 1.0 / (n * (n + 1)); double s[3] = {0, 0, 0}; for (int a = 0; a < n; ++a) for (int i = 0; i < 3; ++i) s[i] += p[a][i]; M.m0 += vol; for (int i = 0; i < 3; ++i) { M.m1[i] += vol * f1 * s[i]; for (int j = 0; j < 3; ++j) { double t = s[i] * s[j]; for (int a = 0; a < n; ++a) t += p[a][i] * p[a][j]; M.m2[i][j] += vol * f2 * t; } } }
// moments about a local origin o
static Mom face_mom(const UnstructuredGrid& g, int f, V3 o) { Mom M; int d = g.dimensions, b = g.face_nodepos[f], e = g.face_nodepos[f + 1]; std::vector<V3> p; for (int k = b; k < e; ++k) p.push_back(sub(pt(g.node_coordinates + d * g.face_nodes[k], d), o)); if (d == 2) { V3 q[2] = {p[0], p[1]}; addsimplex(M, q, 2, norm(sub(p[1], p[0]))); return M; } V3 va = vector_area(g, f); va = mul(va, 1 / norm(va)); for (size_t k = 1; k + 1 < p.size(); ++k) { V3 q[3] = {p[0], p[k], p[k + 1]}; addsimplex(M, q, 3, 0.5 * dot(cross(sub(q[1], q[0]), sub(q[2], q[0])), va)); } return M; }
static Mom cell_mom(const UnstructuredGrid& g, int c, V3 o) { Mom M; int d = g.dimensions; for (int h = g.cell_facepos[c]; h < g.cell_facepos[c + 1]; ++h) { int f = g.cell_faces[h], b = g.face_nodepos[f], e = g.face_nodepos[f + 1]; std::vector<V3> p; for (int k = b; k < e; ++k) p.push_back(sub(pt(g.node_coordinates + d * g.face_nodes[k], d), o)); if (d == 2) { V3 q[3] = {mk(0, 0, 0), p[0], p[1]}; addsimplex(M, q, 3, 0.5 * std::fabs(p[0][0] * p[1][1] - p[0][1] * p[1][0])); } else for (size_t k = 1; k + 1 < p.size(); ++k) { V3 q[4] = {mk(0, 0, 0), p[0], p[k], p[k + 1]}; addsimplex(M, q, 4, std::fabs(dot(p[0], cross(p[k], p[k + 1]))) / 6); } } return M; }
static V3 node_avg(const UnstructuredGrid& g, int c) { V3 s = mk(0, 0, 0); int n = 0, d = g.dimensions; for (int h = g.cell_facepos[c]; h < g.cell_facepos[c + 1]; ++h) for (int k = g.face_nodepos[g.cell_faces[h]]; k < g.face_nodepos[g.cell_faces[h] + 1]; ++k) { s = add(s, pt(g.node_coordinates + d * g.face_nodes[k], d)); ++n; } return mul(s, 1.0 / n); }
template <class Q> static void quad(const UnstructuredGrid& g, const Q& q, int deg, const Mom& M, V3 o, double h, double meas, double mscale, const std::string& tag, const std::string& d, std::function<bool(V3)> inside)
{
    int n = q.numQuadPts(), dim = g.dimensions; double s0 = 0, s1[3] = {0, 0, 0}, s2[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; CHK(n >= 1, tag + ":count", d);
    for (int k = 0; k < n; ++k) { double x[3] = {0, 0, 0}; q.quadPtCoord(k, x); double w = q.quadPtWeight(k); CHK(w > 0, tag + ":weight", cat(d, " point ", k, " weight ", w)); V3 p = mk(x[0], x[1], dim == 3 ? x[2] : 0); CHK(inside(p), tag + ":inside", cat(d, " point ", k, " at ", p[0], ",", p[1], ",", p[2])); p = sub(p, o); s0 += w; for (int i = 0; i < 3; ++i) { s1[i] += w * p[i]; for (int j = 0; j < 3; ++j) s2[i][j] += w * p[i] * p[j]; } }
    NEAR(s0, M.m0, 1e-10, mscale, tag + ":sum", d); NEAR(s0, meas, 1e-10, mscale, tag + ":sum-grid", d);
    if (deg >= 0) for (int i = 0; i < dim; ++i) NEAR(s1[i], M.m1[i], 1e-10, h * mscale, tag + ":linear", cat(d, " x", i));
    if (deg >= 2) for (int i = 0; i < dim; ++i) for (int j = 0; j <= i; ++j) NEAR(s2[i][j], M.m2[i][j], 1e-10, h * h * mscale, tag + ":quadratic", cat(d, " x", i, "x", j));
    ev("quadrature_points", n);
}
static void one(long k, Rng& r)
{
    std::string kind; GridPtr g; bool generic = true; int which = r.i(0, 5);
    if (which <= 1) { g = arrangement_grid(r, 2, r.i(0, 5)); kind = "polygons"; } else if (which <= 3) { g = arrangement_grid(r, 3, r.i(0, 4), 0.02); kind = "polyhedra"; } else { g = random_grid(r, 3, &kind, true, r.p(0.7)); if (kind.find("cornerpoint") == 0) generic = kind.find("faulted") == std::string::npos; }
    const UnstructuredGrid& G = *g; int dim = G.dimensions; Scale sc = scales(G); std::string d0 = cat(kind, " cells ", G.number_of_cells);
    for (int c = 0; c < G.number_of_cells; ++c) {
        V3 o = node_avg(G, c); Mom M = cell_mom(G, c, o); double h = 0; for (int f = G.cell_facepos[c]; f < G.cell_facepos[c + 1]; ++f) for (int q = G.face_nodepos[G.cell_faces[f]]; q < G.face_nodepos[G.cell_faces[f] + 1]; ++q) h = std::max(h, norm(sub(pt(G.node_coordinates + dim * G.face_nodes[q], dim), o)));
        auto inside = [&](V3 p) { for (int f = G.cell_facepos[c]; f < G.cell_facepos[c + 1]; ++f) { int ff = G.cell_faces[f]; double sg = G.face_cells[2 * ff] == c ? 1 : -1; V3 nn = mul(pt(G.face_normals + dim * ff, dim), sg); if (dot(nn, sub(p, pt(G.face_centroids + dim * ff, dim))) > 1e-9 * (sc.M + h) * norm(nn)) return false; } return true; };
        for (int deg = 0; deg <= 2; ++deg) quad(G, Opm::CellQuadrature(G, c, deg), deg, M, o, h, G.cell_volumes[c], M.m0 + 1e-3 * sc.M * M.m0 / h, cat("cell", deg), cat(d0, " cell ", c), inside);
        ev("cells");
    }
    for (int f = 0; f < G.number_of_faces; ++f) {
        V3 o = pt(G.node_coordinates + dim * G.face_nodes[G.face_nodepos[f]], dim); Mom M = face_mom(G, f, o); double h = 0; V3 nn = pt(G.face_normals + dim * f, dim), av = mk(0, 0, 0); int m = G.face_nodepos[f + 1] - G.face_nodepos[f]; std::vector<V3> P; for (int q = 0; q < m; ++q) { P.push_back(pt(G.node_coordinates + dim * G.face_nodes[G.face_nodepos[f] + q], dim)); h = std::max(h, norm(sub(P[q], o))); av = add(av, mul(P[q], 1.0 / m)); }
        nn = mul(nn, 1 / norm(nn)); double tl = 1e-9 * (sc.M + h);
        auto inside = [&](V3 p) { if (std::fabs(dot(sub(p, av), nn)) > tl) return false; for (int q = 0; q < m; ++q) { V3 a = P[q], b = P[(q + 1) % m]; if (dim == 2) { if (dot(sub(p, a), sub(P[1 - q], a)) < -tl * h) return false; continue; } V3 e = sub(b, a); if (norm(e) < tl) continue; V3 in = cross(nn, e); if (dot(in, sub(av, a)) < 0) in = mul(in, -1); if (dot(in, sub(p, a)) < -tl * norm(e)) return false; } return true; };
        for (int deg = 0; deg <= 2; ++deg) quad(G, Opm::FaceQuadrature(G, f, deg), deg, M, o, h, G.face_areas[f], M.m0 + 1e-3 * sc.M * M.m0 / h, cat("face", deg), cat(d0, " face ", f), inside);
        ev("faces");
    }
    if (k % 8 == 0) { int t = 0; try { Opm::CellQuadrature(G, 0, 3); } catch (const std::exception&) { ++t; } try { Opm::FaceQuadrature(G, 0, 3); } catch (const std::exception&) { ++t; } CHK(t == 2, "degree3", "unsupported degree accepted"); }
    // velocity reconstruction
    V3 v = mk(r.u(-1, 1), r.u(-1, 1), dim == 3 ? r.u(-1, 1) : 0); v = mul(v, r.logu(1e-6, 1e3)); if (r.p(0.3)) { v = mk(r.p(0.5) ? 0 : v[0], r.p(0.5) ? 0 : v[1], r.p(0.5) ? 0 : v[2]); ev("velocities_along_axes"); } std::vector<double> flux(G.number_of_faces); for (int f = 0; f < G.number_of_faces; ++f) flux[f] = dot(v, pt(G.face_normals + dim * f, dim));
    Opm::VelocityInterpolationConstant vc(G); vc.setupFluxes(&flux[0]); std::unique_ptr<Opm::VelocityInterpolationECVI> ve; std::unique_ptr<Opm::WachspressCoord> wc; std::vector<double> keep = flux;
    if (generic) { ve.reset(new Opm::VelocityInterpolationECVI(G)); std::vector<double> other(flux); if (r.p(0.3)) { for (auto& x : other) x = r.u(-1, 1); ve->setupFluxes(&other[0]); } ve->setupFluxes(&flux[0]); wc.reset(new Opm::WachspressCoord(G)); }
    double vt = norm(v);
    for (int c = 0; c < G.number_of_cells; ++c) {
        std::vector<int> nodes; { std::set<int> s; for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) for (int q = G.face_nodepos[G.cell_faces[h]]; q < G.face_nodepos[G.cell_faces[h] + 1]; ++q) s.insert(G.face_nodes[q]); nodes.assign(s.begin(), s.end()); }
        int nn = nodes.size(); double hc = 0; V3 cc = node_avg(G, c); for (int n : nodes) hc = std::max(hc, norm(sub(pt(G.node_coordinates + dim * n, dim), cc))); double amp = 1 + sc.M / std::pow(G.cell_volumes[c], 1.0 / dim); amp *= amp;
        std::vector<int> vert; if (generic) { CHK(wc->numCorners(c) == nn, "bary:corners", cat(d0, " cell ", c, " corners ", wc->numCorners(c), " vertices ", nn)); for (int i = 0; i < wc->numCorners(c); ++i) vert.push_back(wc->cornerInfo()[c][i].vertex); auto vs = vert; std::sort(vs.begin(), vs.end()); CHK(vs == nodes, "bary:corners", cat(d0, " cell ", c));
            for (int i = 0; i < nn; ++i) { int id = wc->cornerInfo()[c][i].corner_id; std::set<int> fs; for (int q = 0; q < dim; ++q) { int f = wc->adjacentFaces()[dim * id + q]; fs.insert(f); bool incell = G.face_cells[2 * f] == c || G.face_cells[2 * f + 1] == c, has = false; for (int z = G.face_nodepos[f]; z < G.face_nodepos[f + 1]; ++z) has |= G.face_nodes[z] == vert[i]; CHK(incell && has, "bary:adjacent", cat(d0, " cell ", c, " corner ", i, " face ", f)); } CHK((int)fs.size() == dim, "bary:adjacent", "repeated face"); } }
        for (int t = 0; t < 6 + nn; ++t) {
            V3 p; int corner = -1; if (t < nn) { corner = t; p = pt(G.node_coordinates + dim * (generic ? vert[t] : nodes[t]), dim); } else { std::vector<double> w(nn); double s = 0; for (auto& x : w) { x = -std::log(r.u(1e-9, 1)); if (r.p(0.3)) x = 0; s += x; } if (s == 0) { w[0] = s = 1; } if (t == nn) { std::fill(w.begin(), w.end(), 0); w[r.i(0, nn - 1)] = 1; s = 1; } p = mk(0, 0, 0); for (int i = 0; i < nn; ++i) p = add(p, mul(pt(G.node_coordinates + dim * nodes[i], dim), w[i] / s)); }
            double x[3] = {p[0], p[1], p[2]}, u[3] = {0, 0, 0}; vc.interpolate(c, x, u); for (int q = 0; q < dim; ++q) NEAR(u[q], v[q], 1e-10, vt * amp, "velocity:constant", cat(d0, " cell ", c, " component ", q)); ev("velocity_points");
            if (!generic) continue;
            ve->interpolate(c, x, u); for (int q = 0; q < dim; ++q) NEAR(u[q], v[q], 1e-9, vt * amp, "velocity:ecvi", cat(d0, " cell ", c, " component ", q, " corner ", corner));
            std::vector<double> b(nn, -7); wc->cartToBary(c, x, &b[0]); double s = 0; V3 rec = mk(0, 0, 0); for (int i = 0; i < nn; ++i) { CHK(b[i] >= -1e-9 * amp, "bary:nonnegative", cat(d0, " cell ", c, " coordinate ", b[i])); s += b[i]; rec = add(rec, mul(sub(pt(G.node_coordinates + dim * vert[i], dim), cc), b[i])); } NEAR(s, 1, 1e-11, 1, "bary:sum", d0); CHK(norm(sub(rec, sub(p, cc))) <= 1e-9 * amp * hc, "bary:linear", cat(d0, " cell ", c, " point ", p[0], ",", p[1], ",", p[2], " reproduced with error ", norm(sub(rec, sub(p, cc)))));
            if (corner >= 0) CHK(std::fabs(b[corner] - 1) <= 1e-9 * amp, "bary:own-corner", cat(d0, " cell ", c, " corner ", corner, " coordinate ", b[corner])); ev("bary_points");
        }
    }
    CHK(keep == flux, "velocity:input", "fluxes changed"); nontrivial(hcomb(hstr(kind), hdbl(G.node_coordinates[dim * (G.number_of_nodes - 1)] + v[0])));
}
int main(int c, char** v) { return run(c, v, "p05", one); }
