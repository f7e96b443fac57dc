// P01: Cartesian and tensor grids against the analytic boxes they describe.
#include "gridlib.hpp"
#include <opm/core/grid/GridManager.hpp>
using namespace gl;
// logical side of a face as seen from cell (i,j,k): expected neighbour and analytic geometry
static void check_box(const UnstructuredGrid& g, const std::vector<double>& x, const std::vector<double>& y, const std::vector<double>& z, const std::vector<double>& dz, const std::string& what, bool planar)
{
    const int d = g.dimensions, nx = (int)x.size() - 1, ny = (int)y.size() - 1, nz = d == 3 ? (int)z.size() - 1 : 1;
    const std::string k = "p01";
    if (!CHK(g.cartdims[0] == nx && g.cartdims[1] == ny && g.cartdims[2] == (d == 2 ? 1 : nz), k + ":cartdims", cat(what, " cartdims ", g.cartdims[0], ",", g.cartdims[1], ",", g.cartdims[2]))) return;
    if (!CHK(g.number_of_cells == nx * ny * nz, k + ":ncells", cat(what, " ", g.number_of_cells))) return;
    int nfe = d == 2 ? (nx + 1) * ny + nx * (ny + 1) : (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1);
    int nne = (nx + 1) * (ny + 1) * (d == 3 ? nz + 1 : 1);
    if (!CHK(g.number_of_faces == nfe && g.number_of_nodes == nne, k + ":nfaces", cat(what, " faces ", g.number_of_faces, " expected ", nfe, " nodes ", g.number_of_nodes, " expected ", nne))) return;
    if (!CHK(g.cell_facetag != 0, k + ":notags", what)) return;
    if (g.global_cell) for (int c = 0; c < g.number_of_cells; ++c) if (!CHK(g.global_cell[c] == c, k + ":globalcell", what)) return;
    if (!check_grid(g, k, planar, 1e-9)) return;
    Scale s = scales(g);
    // node coordinates: the lattice is reproduced exactly (to rounding)
    std::vector<char> nodeseen;
    auto dep = [&](int i, int j) { return dz.empty() ? 0.0 : dz[i + (nx + 1) * j]; };
    for (int c = 0; c < g.number_of_cells; ++c) {
        int i = c % nx, j = (c / nx) % ny, kk = c / (nx * ny);
        double dx = x[i + 1] - x[i], dy = y[j + 1] - y[j], dzz = d == 3 ? z[kk + 1] - z[kk] : 1.0;
        double zc = d == 3 ? 0.5 * (z[kk] + z[kk + 1]) + 0.25 * (dep(i, j) + dep(i + 1, j) + dep(i, j + 1) + dep(i + 1, j + 1)) : 0;
        if (!NEAR(g.cell_volumes[c], dx * dy * dzz, 1e-9, 0.01 * s.V, k + ":box-volume", cat(what, " cell ", c))) return;
        double cx[3] = {0.5 * (x[i] + x[i + 1]), 0.5 * (y[j] + y[j + 1]), zc};
        for (int q = 0; q < d; ++q) if (!NEAR(g.cell_centroids[c * d + q], cx[q], 1e-10, s.M, k + ":box-centroid", cat(what, " cell ", c, " dir ", q))) return;
        if (!CHK(g.cell_facepos[c + 1] - g.cell_facepos[c] == 2 * d, k + ":sides", cat(what, " cell ", c))) return;
        int tagseen = 0;
        for (int h = g.cell_facepos[c]; h < g.cell_facepos[c + 1]; ++h) {
            int f = g.cell_faces[h], t = g.cell_facetag[h]; tagseen |= 1 << t;
            int nb[3] = {i, j, kk}; nb[t / 2] += t % 2 ? 1 : -1;
            int lim[3] = {nx, ny, nz};
            int en = nb[t / 2] < 0 || nb[t / 2] >= lim[t / 2] ? -1 : nb[0] + nx * (nb[1] + ny * nb[2]);
            int other = g.face_cells[2 * f] == c ? g.face_cells[2 * f + 1] : g.face_cells[2 * f];
            if (!CHK(other == en, k + ":tag-neighbour", cat(what, " cell ", c, " tag ", t, " leads to ", other, " expected ", en))) return;
            // positive logical direction is first -> second
            if (en >= 0 && !CHK((g.face_cells[2 * f] == c) == (t % 2 == 1), k + ":face-direction", cat(what, " cell ", c, " tag ", t, " face cells ", g.face_cells[2 * f], ",", g.face_cells[2 * f + 1]))) return;
            // analytic face centroid, normal
            double e[3] = {cx[0], cx[1], zc}; V3 n = mk(0, 0, 0);
            if (t / 2 == 0) { int ii = i + t % 2; e[0] = x[ii]; n = mk(dy * (d == 3 ? dzz : 1), 0, 0); if (d == 3) e[2] = 0.5 * (z[kk] + z[kk + 1]) + 0.5 * (dep(ii, j) + dep(ii, j + 1)); }
            else if (t / 2 == 1) { int jj = j + t % 2; e[1] = y[jj]; n = mk(0, dx * (d == 3 ? dzz : 1), 0); if (d == 3) e[2] = 0.5 * (z[kk] + z[kk + 1]) + 0.5 * (dep(i, jj) + dep(i + 1, jj)); }
            else { e[2] = z[kk + t % 2] + (zc - 0.5 * (z[kk] + z[kk + 1])); V3 d1 = mk(dx, dy, dep(i + 1, j + 1) - dep(i, j)), d2 = mk(-dx, dy, dep(i, j + 1) - dep(i + 1, j)); n = mul(cross(d1, d2), 0.5); }
            // library orientation: from first to second; outward for this cell if it is first
            double sg = (g.face_cells[2 * f] == c ? 1.0 : -1.0) * (t % 2 ? 1.0 : -1.0);
            if (planar || t / 2 != 2) for (int q = 0; q < d; ++q) if (!NEAR(g.face_normals[f * d + q] * sg, n[q], 1e-9, s.A, k + ":box-normal", cat(what, " cell ", c, " tag ", t, " comp ", q))) return;
            // sloping I/J sides are parallelograms: centroid is exact, too
            for (int q = 0; q < d; ++q) if (planar || t / 2 != 2) if (!NEAR(g.face_centroids[f * d + q], e[q], 1e-10, s.M, k + ":box-face-centroid", cat(what, " cell ", c, " tag ", t, " comp ", q))) return;
        }
        if (!CHK(tagseen == (1 << (2 * d)) - 1, k + ":tags-missing", cat(what, " cell ", c, " tags seen ", tagseen))) return;
    }
    ev("boxes_compared", g.number_of_cells);
}
static std::vector<double> uni(int n, double h) { std::vector<double> x(n + 1); for (int i = 0; i <= n; ++i) x[i] = i * h; return x; }
static void onecase(long kase, Rng& r)
{
    int m = r.p(0.1) ? 14 : 6, kind = kase % 9;
    int nx = r.i(1, m), ny = r.i(1, m), nz = r.i(1, m);
    if (r.p(0.05)) nx = r.i(20, 60);
    if (r.p(0.01)) { int* n[3] = {&nx, &ny, &nz}; nx = std::min(nx, 6); ny = std::min(ny, 6); nz = std::min(nz, 3); *n[r.i(0, 2)] = r.i(100, 700); ev("long_boxes"); }
    std::vector<double> none;
    std::string what;
    UnstructuredGrid* raw_ = 0; std::unique_ptr<Opm::GridManager> gm; const UnstructuredGrid* g = 0;
    double dx = r.logu(1e-3, 1e3), dy = r.logu(1e-3, 1e3), dz = r.logu(1e-3, 1e3);
    std::vector<double> x, y, z, dep; bool planar = true;
    switch (kind) {
    case 0: x = uni(nx, dx); y = uni(ny, dy); raw_ = create_grid_cart2d(nx, ny, dx, dy); what = "cart2d"; break;
    case 1: x = uni(nx, 1); y = uni(ny, 1); z = uni(nz, 1); raw_ = create_grid_cart3d(nx, ny, nz); what = "cart3d"; break;
    case 2: x = uni(nx, dx); y = uni(ny, dy); z = uni(nz, dz); raw_ = create_grid_hexa3d(nx, ny, nz, dx, dy, dz); what = "hexa3d"; break;
    case 3: x = coords(r, nx); y = coords(r, ny); { std::vector<double> xx = x, yy = y; raw_ = create_grid_tensor2d(nx, ny, &xx[0], &yy[0]); xx.assign(xx.size(), -1); } what = "tensor2d"; break;
    case 4: case 5: {
        x = coords(r, nx); y = coords(r, ny); z = coords(r, nz);
        if (kind == 5) { what = "tensor3d depth"; int mode = r.i(0, 2); double mz = 1e300; for (int q = 0; q < nz; ++q) mz = std::min(mz, 0.2 * (z[q + 1] - z[q])); for (int q = 0; q < nx; ++q) mz = std::min(mz, 0.2 * (x[q + 1] - x[q])); for (int q = 0; q < ny; ++q) mz = std::min(mz, 0.2 * (y[q + 1] - y[q])); double a = r.u(-1, 1), b = r.u(-1, 1), cst = r.u(-10, 3000);
            for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) dep.push_back(mode == 0 ? cst : mode == 1 ? cst + a * (x[i] - x[0]) + b * (y[j] - y[0]) : cst + r.u(-1, 1) * mz);
            planar = mode != 2; if (!planar) what += " curved"; else ev("tilted_tops"); }
        else what = "tensor3d";
        std::vector<double> xx = x, yy = y, zz = z, dd = dep; raw_ = create_grid_tensor3d(nx, ny, nz, &xx[0], &yy[0], &zz[0], dep.empty() ? 0 : &dd[0]); break; }
    case 6: x = uni(nx, dx); y = uni(ny, dy); gm.reset(new Opm::GridManager(nx, ny, dx, dy)); what = "GridManager2d"; break;
    case 7: x = uni(nx, 1); y = uni(ny, 1); if (r.p(0.5)) { gm.reset(new Opm::GridManager(nx, ny)); what = "GridManager2d unit"; } else { z = uni(nz, 1); gm.reset(new Opm::GridManager(nx, ny, nz)); what = "GridManager3d unit"; } break;
    default: x = uni(nx, dx); y = uni(ny, dy); z = uni(nz, dz); gm.reset(new Opm::GridManager(nx, ny, nz, dx, dy, dz)); what = "GridManager3d";
    }
    g = raw_ ? raw_ : gm ? gm->c_grid() : 0;
    GridPtr own(raw_);
    what += cat(" ", nx, "x", ny, "x", nz);
    if (!CHK(g != 0, "p01:null", what)) return;
    ev(("grid_kind_" + std::to_string(kind)).c_str());
    check_box(*g, x, y, z, dep, what, planar);
    nontrivial(hcomb(hstr(what), hdbl(g->cell_volumes[g->number_of_cells - 1])));
    sample(what);
}
int main(int c, char** v) { return run(c, v, "p01", onecase); }
