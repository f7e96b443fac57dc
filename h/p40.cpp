// P40: geometry computed by the library from nodes and connectivity, against an independent decomposition.
#include "gridlib.hpp"
#include "polygrid.hpp"
#include <opm/core/grid/cornerpoint_grid.h>
using namespace gl;
static void affine(UnstructuredGrid& g, Rng& r)
{
    int d = g.dimensions; double A[3][3], b[3]; for (;;) { for (int i = 0; i < 3; ++i) { b[i] = r.p(0.5) ? 0 : r.u(-1, 1) * r.logu(1, 100); for (int j = 0; j < 3; ++j) A[i][j] = r.u(-1, 1); } if (d == 2) { A[2][0] = A[2][1] = A[0][2] = A[1][2] = 0; A[2][2] = 1; } double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); if (std::fabs(det) > 0.15) break; }
    double s = r.p(0.5) ? 1 : r.logu(1e-3, 1e4); for (int n = 0; n < g.number_of_nodes; ++n) { double x[3] = {0, 0, 0}; for (int q = 0; q < d; ++q) x[q] = g.node_coordinates[d * n + q]; for (int i = 0; i < d; ++i) { double v = 0; for (int j = 0; j < d; ++j) v += A[i][j] * x[j]; g.node_coordinates[d * n + i] = s * (v + b[i]); } }
}
static void onecase(long k, Rng& r)
{
    int dim = r.p(0.5) ? 2 : 3; GridPtr gp = arrangement_grid(r, dim, r.i(0, dim == 2 ? 9 : 6)); if (r.p(0.5)) gp = renumber(*gp, random_perm(r, gp->number_of_cells), r.p(0.7) ? &r : 0); bool aff = r.p(0.6); if (aff) affine(*const_cast<UnstructuredGrid*>(gp.g), r);
    UnstructuredGrid& g = *const_cast<UnstructuredGrid*>(gp.g); const int d = dim, nf = g.number_of_faces, nc = g.number_of_cells, nn = g.number_of_nodes; fill_geometry(&g);
    if (d == 3) for (int f = 0; f < nf; ++f) if (r.p(0.5)) { int b = g.face_nodepos[f], e = g.face_nodepos[f + 1]; std::rotate(g.face_nodes + b, g.face_nodes + b + r.i(0, e - b - 1), g.face_nodes + e); } // the node a face starts with is immaterial
    for (int c = 0; c < nc; ++c) if (r.p(0.3)) { int b = g.cell_facepos[c], e = g.cell_facepos[c + 1]; std::vector<int> v(g.cell_faces + b, g.cell_faces + e); r.shuffle(v); if (!g.cell_facetag) std::copy(v.begin(), v.end(), g.cell_faces + b); }
    std::vector<double> N(g.face_normals, g.face_normals + d * nf), F(g.face_centroids, g.face_centroids + d * nf), A(g.face_areas, g.face_areas + nf), C(g.cell_centroids, g.cell_centroids + d * nc), V(g.cell_volumes, g.cell_volumes + nc), X(g.node_coordinates, g.node_coordinates + d * nn);
    std::vector<int> t1(g.face_nodes, g.face_nodes + g.face_nodepos[nf]), t2(g.cell_faces, g.cell_faces + g.cell_facepos[nc]), t3(g.face_cells, g.face_cells + 2 * nf), t4(g.face_nodepos, g.face_nodepos + nf + 1), t5(g.cell_facepos, g.cell_facepos + nc + 1);
    auto wipe = [&](double* p, int n) { for (int i = 0; i < n; ++i) p[i] = r.p(0.5) ? NAN : r.u(-1e3, 1e3); }; wipe(g.face_normals, d * nf); wipe(g.face_centroids, d * nf); wipe(g.face_areas, nf); wipe(g.cell_centroids, d * nc); wipe(g.cell_volumes, nc);
    compute_geometry(&g);
    double M = 0, L = 0, Am = 0, Vm = 0; for (double x : X) M = std::max(M, std::fabs(x)); for (double x : A) Am = std::max(Am, x); for (double x : V) Vm = std::max(Vm, x); L = std::pow(Am, 1.0 / (d - 1)); std::string ds = cat(d, "d ", nc, " cells ", nf, " faces", aff ? " mapped" : "");
    double er = 1e-9 + 1e-14 * std::pow(M / (L > 0 ? L : 1), 1); // coordinates carry rounding relative to the distance from the origin
    bool ok = true; double sA = Am * er * (1 + M / L) * 1e-3 + 1e-10 * Am, sX = 1e-10 * (M + L), sV = 1e-9 * Vm * (1 + 1e-3 * M / L);
    for (int f = 0; f < nf && ok; ++f) { ok = CHK(std::fabs(g.face_areas[f] - A[f]) <= sA, "face-area", cat(ds, " face ", f, " ", g.face_areas[f], " expected ", A[f])); for (int q = 0; q < d && ok; ++q) { ok = CHK(std::fabs(g.face_normals[d * f + q] - N[d * f + q]) <= sA, "face-normal", cat(ds, " face ", f, " ", g.face_normals[d * f + q], " expected ", N[d * f + q])) && CHK(std::fabs(g.face_centroids[d * f + q] - F[d * f + q]) <= sX, "face-centroid", cat(ds, " face ", f, " ", g.face_centroids[d * f + q], " expected ", F[d * f + q])); } }
    ev("faces", nf);
    for (int c = 0; c < nc && ok; ++c) { ok = CHK(std::fabs(g.cell_volumes[c] - V[c]) <= sV, "cell-volume", cat(ds, " cell ", c, " ", g.cell_volumes[c], " expected ", V[c])); double thin = 1 + Vm / V[c]; for (int q = 0; q < d && ok; ++q) ok = CHK(std::fabs(g.cell_centroids[d * c + q] - C[d * c + q]) <= sX * std::min(thin, 1e3), "cell-centroid", cat(ds, " cell ", c, " ", g.cell_centroids[d * c + q], " expected ", C[d * c + q])); int m = g.cell_facepos[c + 1] - g.cell_facepos[c]; ev(d == 2 ? (m == 3 ? "triangles" : m == 4 ? "quadrilaterals" : "polygons") : m == 4 ? "tetrahedra" : m == 6 ? "six_sided" : "polyhedra"); }
    CHK(std::equal(X.begin(), X.end(), g.node_coordinates) && std::equal(t1.begin(), t1.end(), g.face_nodes) && std::equal(t2.begin(), t2.end(), g.cell_faces) && std::equal(t3.begin(), t3.end(), g.face_cells) && std::equal(t4.begin(), t4.end(), g.face_nodepos) && std::equal(t5.begin(), t5.end(), g.cell_facepos), "topology-changed", ds);
    // repeated: bitwise the same
    std::vector<double> v1(g.cell_volumes, g.cell_volumes + nc), n1(g.face_normals, g.face_normals + d * nf), c1(g.cell_centroids, g.cell_centroids + d * nc); compute_geometry(&g); CHK(std::equal(v1.begin(), v1.end(), g.cell_volumes) && std::equal(n1.begin(), n1.end(), g.face_normals) && std::equal(c1.begin(), c1.end(), g.cell_centroids), "not-repeatable", ds);
    uint64_t h = d; for (double x : V) h = hcomb(h, hdbl(x)); nontrivial(h); if (aff) ev("mapped_grids");
}
int main(int c, char** v) { return run(c, v, "p40", onecase); }
