// Shared grid monitors and generators.
#pragma once
#include "mon.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <array>
#include <memory>

namespace gl {
using namespace mon;

struct V3 { double v[3]; double& operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
inline V3 mk(double a, double b, double c) { V3 r = {{a, b, c}}; return r; }
inline V3 sub(V3 a, V3 b) { return mk(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 add(V3 a, V3 b) { return mk(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 mul(V3 a, double s) { return mk(a[0] * s, a[1] * s, a[2] * s); }
inline V3 cross(V3 a, V3 b) { return mk(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }

struct GridPtr { UnstructuredGrid* g; explicit GridPtr(UnstructuredGrid* p = 0) : g(p) {} ~GridPtr() { if (g) destroy_grid(g); } GridPtr(GridPtr&& o) : g(o.g) { o.g = 0; } GridPtr& operator=(GridPtr&& o) { if (g) destroy_grid(g); g = o.g; o.g = 0; return *this; } UnstructuredGrid* operator->() const { return g; } const UnstructuredGrid& operator*() const { return *g; } GridPtr(const GridPtr&) = delete; };

inline V3 pt(const double* p, int d) { return mk(p[0], p[1], d == 3 ? p[2] : 0.0); }

// Vector area of a face from its nodes (fan sum, exact for any closed polygon); 2D: edge normal (dy,-dx)
inline V3 vector_area(const UnstructuredGrid& g, int f)
{
    int d = g.dimensions, b = g.face_nodepos[f], e = g.face_nodepos[f + 1];
    if (d == 2) { V3 a = pt(g.node_coordinates + 2 * g.face_nodes[b], 2), c = pt(g.node_coordinates + 2 * g.face_nodes[b + 1], 2); return mk(c[1] - a[1], a[0] - c[0], 0); }
    V3 s = mk(0, 0, 0), o = pt(g.node_coordinates + 3 * g.face_nodes[b], 3);
    for (int k = b; k < e; ++k) {
        int k2 = k + 1 == e ? b : k + 1;
        V3 p = sub(pt(g.node_coordinates + 3 * g.face_nodes[k], 3), o), q = sub(pt(g.node_coordinates + 3 * g.face_nodes[k2], 3), o);
        s = add(s, mul(cross(p, q), 0.5));
    }
    return s;
}

struct Scale { double L, M, A, V; };
inline Scale scales(const UnstructuredGrid& g)
{
    Scale s; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; s.M = 0;
    for (int n = 0; n < g.number_of_nodes; ++n) for (int d = 0; d < g.dimensions; ++d) { double x = g.node_coordinates[n * g.dimensions + d]; lo[d] = std::min(lo[d], x); hi[d] = std::max(hi[d], x); s.M = std::max(s.M, std::fabs(x)); }
    s.L = 0; for (int d = 0; d < g.dimensions; ++d) s.L = std::max(s.L, hi[d] - lo[d]);
    s.A = g.dimensions == 3 ? s.L * s.M : s.M; s.V = g.dimensions == 3 ? s.L * s.L * s.M : s.L * s.M;
    return s;
}

// Structural and geometric invariants every grid must satisfy. Returns false on the first structural problem.
// planar: every face is planar and every cell convex, so areas equal vector areas and centroids lie inside.
inline bool check_grid(const UnstructuredGrid& g, const std::string& pre, bool planar = true, double rt = 1e-10)
{
    const int d = g.dimensions, nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes;
    ev("grids_checked"); ev("cells_checked", nc); ev("faces_checked", nf);
    if (!CHK(d == 2 || d == 3, pre + ":dim", cat("dimensions ", d))) return false;
    if (!CHK(nc > 0 && nf > 0 && nn > 0, pre + ":counts", cat(nc, " ", nf, " ", nn))) return false;
    if (!CHK(g.face_nodepos[0] == 0 && g.cell_facepos[0] == 0, pre + ":pos0", "position arrays do not start at 0")) return false;
    for (int f = 0; f < nf; ++f) if (!CHK(g.face_nodepos[f + 1] - g.face_nodepos[f] >= (d == 2 ? 2 : 3), pre + ":facenodes", cat("face ", f, " has ", g.face_nodepos[f + 1] - g.face_nodepos[f], " nodes"))) return false;
    for (int k = 0; k < g.face_nodepos[nf]; ++k) if (!CHK(g.face_nodes[k] >= 0 && g.face_nodes[k] < nn, pre + ":nodeidx", cat("face node ", k, " = ", g.face_nodes[k], " of ", nn))) return false;
    std::vector<int> seen(2 * nf, 0);
    for (int c = 0; c < nc; ++c) {
        if (!CHK(g.cell_facepos[c + 1] - g.cell_facepos[c] >= d + 1, pre + ":cellfaces", cat("cell ", c, " has ", g.cell_facepos[c + 1] - g.cell_facepos[c], " faces"))) return false;
        for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) {
            int f = g.cell_faces[k];
            if (!CHK(f >= 0 && f < nf, pre + ":faceidx", cat("cell ", c, " face ", f))) return false;
            int side = g.face_cells[2 * f] == c ? 0 : g.face_cells[2 * f + 1] == c ? 1 : -1;
            if (!CHK(side >= 0, pre + ":inverse", cat("cell ", c, " lists face ", f, " whose cells are ", g.face_cells[2 * f], ",", g.face_cells[2 * f + 1]))) return false;
            if (!CHK(!seen[2 * f + side]++, pre + ":dupface", cat("cell ", c, " lists face ", f, " twice"))) return false;
            if (g.cell_facetag) if (!CHK(g.cell_facetag[k] >= 0 && g.cell_facetag[k] < 2 * d, pre + ":tag", cat("cell ", c, " face ", f, " tag ", g.cell_facetag[k]))) return false;
        }
    }
    for (int f = 0; f < nf; ++f) {
        int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1];
        if (!CHK(a >= -1 && a < nc && b >= -1 && b < nc && (a >= 0 || b >= 0) && a != b, pre + ":facecells", cat("face ", f, " cells ", a, ",", b))) return false;
        if (!CHK((a < 0 || seen[2 * f]) && (b < 0 || seen[2 * f + 1]), pre + ":inverse", cat("face ", f, " not listed by its cell"))) return false;
    }
    if (g.global_cell) {
        int tot = g.cartdims[0] * g.cartdims[1] * (d == 3 ? g.cartdims[2] : 1);
        for (int c = 0; c < nc; ++c) if (!CHK(g.global_cell[c] >= 0 && g.global_cell[c] < tot && (c == 0 || g.global_cell[c] > g.global_cell[c - 1]), pre + ":globalcell", cat("cell ", c, " global ", g.global_cell[c], " dims ", g.cartdims[0], ",", g.cartdims[1], ",", g.cartdims[2]))) return false;
    }
    Scale s = scales(g);
    bool r = true;
    for (int f = 0; f < nf && r; ++f) {
        V3 n = pt(g.face_normals + d * f, d);
        if (planar) r &= NEAR(norm(n), g.face_areas[f], rt, s.A, pre + ":normal-length", cat("length of normal of face ", f, " vs area"));
        V3 va = vector_area(g, f);
        if (planar) r &= NEAR(norm(va), g.face_areas[f], rt, s.A * 10, pre + ":area", cat("area of face ", f, " from nodes"));
        if (planar && d == 3 && norm(va) > rt * s.A * 100) { // centroid of a planar polygon from signed triangles
            V3 o = pt(g.node_coordinates + 3 * g.face_nodes[g.face_nodepos[f]], 3), m = mk(0, 0, 0); double at = 0, an = norm(va);
            for (int k = g.face_nodepos[f]; k + 1 < g.face_nodepos[f + 1]; ++k) { V3 p = sub(pt(g.node_coordinates + 3 * g.face_nodes[k], 3), o), q = sub(pt(g.node_coordinates + 3 * g.face_nodes[k + 1], 3), o); double a = 0.5 * dot(cross(p, q), va) / an; at += a; m = add(m, mul(add(p, q), a / 3)); }
            V3 ce = add(o, mul(m, 1 / at)), fc = pt(g.face_centroids + 3 * f, 3);
            r &= CHK(norm(sub(ce, fc)) <= rt * (s.L + s.M) * (10 + s.A / an * 10), pre + ":face-centroid", cat("face ", f, " centroid ", fc[0], ",", fc[1], ",", fc[2], " nodes say ", ce[0], ",", ce[1], ",", ce[2]));
        }
        if (d == 2) for (int q = 0; q < 2; ++q) r &= NEAR(g.face_centroids[2 * f + q], 0.5 * (g.node_coordinates[2 * g.face_nodes[g.face_nodepos[f]] + q] + g.node_coordinates[2 * g.face_nodes[g.face_nodepos[f] + 1] + q]), rt, s.M, pre + ":face-centroid", cat("2d face ", f));
        r &= CHK(norm(sub(n, va)) <= rt * 10 * s.A || (!planar && g.face_areas[f] < 1e300 && dot(n, va) >= 0), pre + ":normal", cat("face ", f, " normal ", n[0], ",", n[1], ",", n[2], " nodes say ", va[0], ",", va[1], ",", va[2]));
    }
    for (int c = 0; c < nc && r; ++c) {
        V3 sum = mk(0, 0, 0); double vol = 0; V3 cc = pt(g.cell_centroids + d * c, d);
        for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) {
            int f = g.cell_faces[k]; double sg = g.face_cells[2 * f] == c ? 1 : -1;
            V3 n = mul(planar ? pt(g.face_normals + d * f, d) : vector_area(g, f), sg);
            sum = add(sum, n); V3 dx = sub(pt(g.face_centroids + d * f, d), cc); vol += dot(dx, n) / d;
            if (planar) r &= CHK(dot(dx, n) >= -rt * 10 * s.V, pre + ":orientation", cat("cell ", c, " face ", f, " (cells ", g.face_cells[2 * f], ",", g.face_cells[2 * f + 1], ") points inward: ", dot(dx, n)));
        }
        r &= CHK(norm(sum) <= rt * 50 * s.A, pre + ":closed", cat("outward area vectors of cell ", c, " sum to ", sum[0], ",", sum[1], ",", sum[2]));
        r &= CHK(g.cell_volumes[c] > 0, pre + ":volume-sign", cat("cell ", c, " volume ", g.cell_volumes[c]));
        if (planar) r &= NEAR(g.cell_volumes[c], vol, rt * 10, s.V, pre + ":volume", cat("volume of cell ", c, " vs divergence theorem"));
    }
    return r;
}

// ---- generators -------------------------------------------------------------------------------------------------
inline std::vector<double> coords(Rng& r, int n, double minh = 0.05, double maxh = 3.0)
{
    std::vector<double> x(n + 1); double off = r.p(0.3) ? r.u(-500, 2000) : r.p(0.3) ? r.u(-2, 2) : 0.0; x[0] = off; bool uni = r.p(0.25); double h = r.u(minh, maxh); double sc = r.p(0.3) ? r.logu(0.01, 100) : 1.0;
    for (int i = 0; i < n; ++i) x[i + 1] = x[i] + sc * (uni ? h : r.u(minh, maxh));
    return x;
}

// Corner-point geometry over an nx*ny*nz box
struct CP {
    int nx, ny, nz; std::vector<double> coord, zcorn; std::vector<int> actnum; bool use_act;
    struct grdecl decl() const { struct grdecl g; g.dims[0] = nx; g.dims[1] = ny; g.dims[2] = nz; g.coord = &coord[0]; g.zcorn = &zcorn[0]; g.actnum = use_act ? &actnum[0] : 0; g.mapaxes = 0; return g; }
    size_t zi(int i, int j, int k, int ci, int cj, int ck) const { return (2 * i + ci) + (size_t)2 * nx * ((2 * j + cj) + (size_t)2 * ny * (2 * k + ck)); }
    double z(int i, int j, int k, int ci, int cj, int ck) const { return zcorn[zi(i, j, k, ci, cj, ck)]; }
    double& z(int i, int j, int k, int ci, int cj, int ck) { return zcorn[zi(i, j, k, ci, cj, ck)]; }
    int cell(int i, int j, int k) const { return i + nx * (j + ny * k); }
    // pillar top/bottom
    double* pil(int i, int j) { return &coord[6 * (i + (size_t)(nx + 1) * j)]; }
    const double* pil(int i, int j) const { return &coord[6 * (i + (size_t)(nx + 1) * j)]; }
};

// Random grid usable by solvers: Cartesian, tensor (optionally with tilted top) or faulted corner-point with holes.
// All have planar faces and convex cells. kind is set to a description.
CP random_cp(Rng& r, int nx, int ny, int nz, bool faults, bool holes);

inline GridPtr from_cp(const CP& c, double tol = 0.0) { struct grdecl g = c.decl(); return GridPtr(create_grid_cornerpoint(&g, tol)); }

inline GridPtr random_grid(Rng& r, int maxn, std::string* kind = 0, bool allow2d = true, bool allowcp = true)
{
    int which = r.i(0, 9);
    int nx = r.i(1, maxn), ny = r.i(1, maxn), nz = r.i(1, maxn);
    if (which <= 1 && allow2d) { if (kind) *kind = cat("tensor2d ", nx, "x", ny); std::vector<double> x = coords(r, nx), y = coords(r, ny); return GridPtr(create_grid_tensor2d(nx, ny, &x[0], &y[0])); }
    if (which <= 5 || !allowcp) {
        std::vector<double> x = coords(r, nx), y = coords(r, ny), z = coords(r, nz);
        std::vector<double> dz;
        if (r.p(0.3)) { double a = r.u(-0.5, 0.5), b = r.u(-0.5, 0.5); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) dz.push_back(100 + a * (x[i] - x[0]) + b * (y[j] - y[0])); }
        if (kind) *kind = cat("tensor3d ", nx, "x", ny, "x", nz, dz.empty() ? "" : " tilted");
        return GridPtr(create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], dz.empty() ? 0 : &dz[0]));
    }
    bool faults = r.p(0.6), holes = r.p(0.5);
    for (int tries = 0;; ++tries) {
        CP c = random_cp(r, nx, ny, nz, faults, holes && tries < 20);
        GridPtr g = from_cp(c);
        if (g.g && g->number_of_cells > 0) { if (kind) *kind = cat("cornerpoint ", nx, "x", ny, "x", nz, faults ? " faulted" : "", holes ? " holes" : ""); return g; }
    }
}

inline CP random_cp(Rng& r, int nx, int ny, int nz, bool faults, bool holes)
{
    CP c; c.nx = nx; c.ny = ny; c.nz = nz; c.use_act = holes;
    c.coord.assign(6 * (size_t)(nx + 1) * (ny + 1), 0); c.zcorn.assign(8 * (size_t)nx * ny * nz, 0); c.actnum.assign((size_t)nx * ny * nz, 1);
    std::vector<double> x = coords(r, nx, 0.3, 3), y = coords(r, ny, 0.3, 3);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double* p = c.pil(i, j); p[0] = p[3] = x[i]; p[1] = p[4] = y[j]; p[2] = 0; p[5] = 1000; }
    double gx = r.p(0.5) ? r.u(-0.3, 0.3) : 0, gy = r.p(0.5) ? r.u(-0.3, 0.3) : 0;
    std::vector<double> th(nz); for (auto& t : th) t = r.u(0.3, 2);
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        double thr = faults && r.p(0.5) ? r.u(-2, 2) : 0;
        for (int k = 0; k < nz; ++k) {
            double top = 500 + thr; for (int q = 0; q < k; ++q) top += th[q];
            for (int cj = 0; cj < 2; ++cj) for (int ci = 0; ci < 2; ++ci) { double t = top + gx * (x[i + ci] - x[0]) + gy * (y[j + cj] - y[0]); c.z(i, j, k, ci, cj, 0) = t; c.z(i, j, k, ci, cj, 1) = t + th[k]; }
        }
    }
    // make shared interfaces bitwise equal within a column
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int k = 1; k < nz; ++k) for (int cj = 0; cj < 2; ++cj) for (int ci = 0; ci < 2; ++ci) c.z(i, j, k, ci, cj, 0) = c.z(i, j, k - 1, ci, cj, 1);
    if (holes) { bool any = false; for (auto& a : c.actnum) { a = r.p(0.8); any |= a; } if (!any) c.actnum[0] = 1; }
    return c;
}
} // namespace gl
