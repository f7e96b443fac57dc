// General polygonal/polyhedral grids (box cut by random lines/planes), renumbering of cells and faces. Geometry is computed here, independently of the library.
#pragma once
#include "gridlib.hpp"
namespace gl {

struct Poly { int dim; std::vector<V3> nodes; std::vector<std::vector<int>> faces; std::vector<std::array<int, 2>> fc; std::vector<std::vector<int>> cells; };

// Fill all geometry arrays of a grid from nodes and connectivity; orients 3D faces' node order (and 2D normals) from first to second cell.
inline void fill_geometry(UnstructuredGrid* g)
{
    int d = g->dimensions, nf = g->number_of_faces, nc = g->number_of_cells;
    std::vector<V3> avg(nc, mk(0, 0, 0));
    for (int c = 0; c < nc; ++c) { int n = 0; for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; for (int q = g->face_nodepos[f]; q < g->face_nodepos[f + 1]; ++q) { avg[c] = add(avg[c], pt(g->node_coordinates + d * g->face_nodes[q], d)); ++n; } } avg[c] = mul(avg[c], 1.0 / n); }
    for (int f = 0; f < nf; ++f) {
        int b = g->face_nodepos[f], e = g->face_nodepos[f + 1]; V3 va = vector_area(*g, f), m = mk(0, 0, 0); double A = norm(va);
        if (d == 2) m = mul(add(pt(g->node_coordinates + 2 * g->face_nodes[b], 2), pt(g->node_coordinates + 2 * g->face_nodes[b + 1], 2)), 0.5);
        else { V3 o = pt(g->node_coordinates + 3 * g->face_nodes[b], 3); double at = 0; for (int k = b + 1; k + 1 < e; ++k) { V3 p = sub(pt(g->node_coordinates + 3 * g->face_nodes[k], 3), o), q = sub(pt(g->node_coordinates + 3 * g->face_nodes[k + 1], 3), o); double a = 0.5 * dot(cross(p, q), va) / A; at += a; m = add(m, mul(add(p, q), a / 3)); } m = add(o, mul(m, 1 / at)); }
        int c = g->face_cells[2 * f] >= 0 ? g->face_cells[2 * f] : g->face_cells[2 * f + 1]; double sg = g->face_cells[2 * f] >= 0 ? 1 : -1;
        if (sg * dot(va, sub(m, avg[c])) < 0) { va = mul(va, -1); std::reverse(g->face_nodes + b, g->face_nodes + e); }
        for (int q = 0; q < d; ++q) { g->face_normals[d * f + q] = va[q]; g->face_centroids[d * f + q] = m[q]; } g->face_areas[f] = A;
    }
    for (int c = 0; c < nc; ++c) {
        double V = 0; V3 m = mk(0, 0, 0); V3 o = avg[c];
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; double sg = g->face_cells[2 * f] == c ? 1 : -1; int b = g->face_nodepos[f], e = g->face_nodepos[f + 1]; V3 n = mul(pt(g->face_normals + d * f, d), sg), fcen = sub(pt(g->face_centroids + d * f, d), o); double v = dot(fcen, n) / d; V += v; (void)b; (void)e; m = add(m, mul(fcen, v * d / (d + 1.0))); }
        m = add(o, mul(m, 1 / V)); g->cell_volumes[c] = V; for (int q = 0; q < d; ++q) g->cell_centroids[d * c + q] = m[q];
    }
}

inline GridPtr to_grid(const Poly& p)
{
    size_t nfn = 0, ncf = 0; for (auto& f : p.faces) nfn += f.size(); for (auto& c : p.cells) ncf += c.size();
    UnstructuredGrid* g = allocate_grid(p.dim, p.cells.size(), p.faces.size(), nfn, ncf, p.nodes.size());
    for (size_t n = 0; n < p.nodes.size(); ++n) for (int q = 0; q < p.dim; ++q) g->node_coordinates[p.dim * n + q] = p.nodes[n][q];
    int pos = 0; for (size_t f = 0; f < p.faces.size(); ++f) { g->face_nodepos[f] = pos; for (int n : p.faces[f]) g->face_nodes[pos++] = n; g->face_cells[2 * f] = p.fc[f][0]; g->face_cells[2 * f + 1] = p.fc[f][1]; } g->face_nodepos[p.faces.size()] = pos;
    pos = 0; for (size_t c = 0; c < p.cells.size(); ++c) { g->cell_facepos[c] = pos; for (int f : p.cells[c]) g->cell_faces[pos++] = f; } g->cell_facepos[p.cells.size()] = pos;
    free(g->cell_facetag); g->cell_facetag = 0; free(g->global_cell); g->global_cell = 0; g->cartdims[0] = p.cells.size(); g->cartdims[1] = g->cartdims[2] = 1;
    fill_geometry(g); return GridPtr(g);
}

// Cut every cell crossed by the plane n.x = c. Returns false (unchanged) when the cut would make slivers.
inline bool cut(Poly& p, V3 n, double c, double eps)
{
    std::vector<double> s(p.nodes.size()); for (size_t k = 0; k < s.size(); ++k) { s[k] = dot(n, p.nodes[k]) - c; if (std::fabs(s[k]) < eps) return false; }
    Poly q; q.dim = p.dim; q.nodes = p.nodes; std::map<std::pair<int, int>, int> en;
    auto xnode = [&](int a, int b) { auto k = std::make_pair(std::min(a, b), std::max(a, b)); auto it = en.find(k); if (it != en.end()) return it->second; double t = s[k.first] / (s[k.first] - s[k.second]); q.nodes.push_back(add(p.nodes[k.first], mul(sub(p.nodes[k.second], p.nodes[k.first]), t))); return en[k] = (int)q.nodes.size() - 1; };
    std::vector<std::array<int, 2>> part(p.faces.size()); std::vector<std::vector<int>> seg(p.faces.size()); // part: new face below/above (-1: none); seg: cut nodes
    for (size_t f = 0; f < p.faces.size(); ++f) {
        std::vector<int> lo, hi; const std::vector<int>& L = p.faces[f]; int m = L.size();
        if (p.dim == 2) { if ((s[L[0]] < 0) != (s[L[1]] < 0)) { int x = xnode(L[0], L[1]); seg[f].push_back(x); if (s[L[0]] < 0) { lo = {L[0], x}; hi = {x, L[1]}; } else { hi = {L[0], x}; lo = {x, L[1]}; } } else (s[L[0]] < 0 ? lo : hi) = L; }
        else for (int k = 0; k < m; ++k) { int a = L[k], b = L[(k + 1) % m]; (s[a] < 0 ? lo : hi).push_back(a); if ((s[a] < 0) != (s[b] < 0)) { int x = xnode(a, b); lo.push_back(x); hi.push_back(x); seg[f].push_back(x); } }
        part[f] = {{-1, -1}}; if (!lo.empty()) { part[f][0] = q.faces.size(); q.faces.push_back(lo); } if (!hi.empty()) { part[f][1] = q.faces.size(); q.faces.push_back(hi); }
    }
    q.fc.assign(q.faces.size(), std::array<int, 2>{{-1, -1}});
    for (size_t cc = 0; cc < p.cells.size(); ++cc) {
        std::vector<int> side[2]; std::vector<std::pair<int, int>> segs; std::vector<int> xs;
        int idx[2] = {-1, -1}; for (int f : p.cells[cc]) for (int h = 0; h < 2; ++h) if (part[f][h] >= 0) side[h].push_back(part[f][h]);
        for (int f : p.cells[cc]) { if (p.dim == 2) { if (seg[f].size()) xs.push_back(seg[f][0]); } else if (seg[f].size() == 2) segs.push_back(std::make_pair(seg[f][0], seg[f][1])); }
        for (int h = 0; h < 2; ++h) if (!side[h].empty()) { idx[h] = q.cells.size(); q.cells.push_back(side[h]); for (int f : p.cells[cc]) if (part[f][h] >= 0) { int nf = part[f][h]; if (p.fc[f][0] == (int)cc) q.fc[nf][0] = idx[h]; else q.fc[nf][1] = idx[h]; } }
        if (idx[0] >= 0 && idx[1] >= 0) {
            std::vector<int> loop; if (p.dim == 2) loop = xs; else { loop = {segs[0].first, segs[0].second}; std::vector<bool> used(segs.size()); used[0] = true; while (loop.size() < segs.size()) { bool ok = false; for (size_t k = 1; k < segs.size(); ++k) if (!used[k]) { if (segs[k].first == loop.back()) { loop.push_back(segs[k].second); used[k] = ok = true; break; } if (segs[k].second == loop.back()) { loop.push_back(segs[k].first); used[k] = ok = true; break; } } if (!ok) return false; } }
            int nf = q.faces.size(); q.faces.push_back(loop); q.fc.push_back(std::array<int, 2>{{idx[0], idx[1]}}); q.cells[idx[0]].push_back(nf); q.cells[idx[1]].push_back(nf);
        }
    }
    // reject slivers: short edges
    double mine = 1e300; for (auto& f : q.faces) for (size_t k = 0; k < f.size(); ++k) mine = std::min(mine, norm(sub(q.nodes[f[k]], q.nodes[f[(k + 1) % f.size()]])));
    if (mine < eps) return false; p = q; return true;
}

inline GridPtr arrangement_grid(Rng& r, int dim, int ncuts, double minedge = 0.01)
{
    Poly p; p.dim = dim; V3 L = mk(r.u(0.5, 2), r.u(0.5, 2), r.u(0.5, 2)); V3 o = r.p(0.3) ? mk(r.u(-50, 50), r.u(-50, 50), dim == 3 ? r.u(-50, 50) : 0) : mk(0, 0, 0);
    if (dim == 2) { for (int k = 0; k < 4; ++k) p.nodes.push_back(mk((k == 1 || k == 2) ? L[0] : 0, k >= 2 ? L[1] : 0, 0)); p.faces = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; }
    else { for (int k = 0; k < 8; ++k) p.nodes.push_back(mk(k & 1 ? L[0] : 0, k & 2 ? L[1] : 0, k & 4 ? L[2] : 0)); p.faces = {{0, 2, 6, 4}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 3, 7, 6}, {0, 1, 3, 2}, {4, 5, 7, 6}}; }
    for (size_t f = 0; f < p.faces.size(); ++f) p.fc.push_back(std::array<int, 2>{{r.p(0.5) ? 0 : -1, -1}}); for (auto& f : p.fc) if (f[0] < 0) f[1] = 0;
    p.cells.push_back(std::vector<int>()); for (size_t f = 0; f < p.faces.size(); ++f) p.cells[0].push_back(f);
    for (int k = 0; k < ncuts; ++k) for (int t = 0; t < 20; ++t) { V3 n = mk(r.u(-1, 1), r.u(-1, 1), dim == 3 ? r.u(-1, 1) : 0); if (norm(n) < 0.1) continue; n = mul(n, 1 / norm(n)); double c = n[0] * L[0] * r.u(0.1, 0.9) + n[1] * L[1] * r.u(0.1, 0.9) + n[2] * L[2] * r.u(0.1, 0.9); if (cut(p, n, c, minedge)) break; }
    for (auto& x : p.nodes) x = add(x, o);
    return to_grid(p);
}

// New grid with cell perm[old]=new and optionally reversed faces. All other data equal.
inline GridPtr renumber(const UnstructuredGrid& a, const std::vector<int>& perm, Rng* flip = 0)
{
    int d = a.dimensions, nc = a.number_of_cells, nf = a.number_of_faces; UnstructuredGrid* g = allocate_grid(d, nc, nf, a.face_nodepos[nf], a.cell_facepos[nc], a.number_of_nodes);
    std::copy(a.node_coordinates, a.node_coordinates + d * a.number_of_nodes, g->node_coordinates); std::copy(a.face_nodes, a.face_nodes + a.face_nodepos[nf], g->face_nodes); std::copy(a.face_nodepos, a.face_nodepos + nf + 1, g->face_nodepos);
    std::copy(a.face_normals, a.face_normals + d * nf, g->face_normals); std::copy(a.face_centroids, a.face_centroids + d * nf, g->face_centroids); std::copy(a.face_areas, a.face_areas + nf, g->face_areas);
    std::vector<int> inv(nc); for (int c = 0; c < nc; ++c) inv[perm[c]] = c;
    for (int f = 0; f < nf; ++f) { for (int q = 0; q < 2; ++q) g->face_cells[2 * f + q] = a.face_cells[2 * f + q] < 0 ? -1 : perm[a.face_cells[2 * f + q]]; if (flip && flip->p(0.5)) { std::swap(g->face_cells[2 * f], g->face_cells[2 * f + 1]); for (int q = 0; q < d; ++q) g->face_normals[d * f + q] *= -1; std::reverse(g->face_nodes + g->face_nodepos[f], g->face_nodes + g->face_nodepos[f + 1]); } }
    if (a.cell_facetag == 0) { free(g->cell_facetag); g->cell_facetag = 0; }
    free(g->global_cell); g->global_cell = (int*)malloc(nc * sizeof(int)); int pos = 0; std::copy(a.cartdims, a.cartdims + 3, g->cartdims);
    for (int c = 0; c < nc; ++c) { int o = inv[c]; g->cell_facepos[c] = pos; for (int k = a.cell_facepos[o]; k < a.cell_facepos[o + 1]; ++k) { g->cell_faces[pos] = a.cell_faces[k]; if (g->cell_facetag) g->cell_facetag[pos] = a.cell_facetag[k]; ++pos; } g->global_cell[c] = a.global_cell ? a.global_cell[o] : o; g->cell_volumes[c] = a.cell_volumes[o]; for (int q = 0; q < d; ++q) g->cell_centroids[d * c + q] = a.cell_centroids[d * o + q]; }
    g->cell_facepos[nc] = pos; return GridPtr(g);
}
// New grid with the faces numbered differently and, if asked for, listed in another order around each cell. Cells keep their numbers.
inline GridPtr refaced(const UnstructuredGrid& a, Rng& r, bool reorder)
{
    int d = a.dimensions, nc = a.number_of_cells, nf = a.number_of_faces; UnstructuredGrid* g = allocate_grid(d, nc, nf, a.face_nodepos[nf], a.cell_facepos[nc], a.number_of_nodes); std::vector<int> old(nf), neu(nf); for (int f = 0; f < nf; ++f) old[f] = f; r.shuffle(old); for (int f = 0; f < nf; ++f) neu[old[f]] = f;
    std::copy(a.node_coordinates, a.node_coordinates + d * a.number_of_nodes, g->node_coordinates); int pos = 0;
    for (int f = 0; f < nf; ++f) { int o = old[f]; g->face_nodepos[f] = pos; for (int k = a.face_nodepos[o]; k < a.face_nodepos[o + 1]; ++k) g->face_nodes[pos++] = a.face_nodes[k]; for (int q = 0; q < 2; ++q) g->face_cells[2 * f + q] = a.face_cells[2 * o + q]; g->face_areas[f] = a.face_areas[o]; for (int q = 0; q < d; ++q) { g->face_normals[d * f + q] = a.face_normals[d * o + q]; g->face_centroids[d * f + q] = a.face_centroids[d * o + q]; } } g->face_nodepos[nf] = pos;
    if (a.cell_facetag == 0) { free(g->cell_facetag); g->cell_facetag = 0; } free(g->global_cell); g->global_cell = (int*)malloc(nc * sizeof(int)); std::copy(a.cartdims, a.cartdims + 3, g->cartdims); std::copy(a.cell_facepos, a.cell_facepos + nc + 1, g->cell_facepos); std::copy(a.cell_volumes, a.cell_volumes + nc, g->cell_volumes); std::copy(a.cell_centroids, a.cell_centroids + d * nc, g->cell_centroids);
    for (int c = 0; c < nc; ++c) { g->global_cell[c] = a.global_cell ? a.global_cell[c] : c; std::vector<int> k; for (int i = a.cell_facepos[c]; i < a.cell_facepos[c + 1]; ++i) k.push_back(i); if (reorder) r.shuffle(k); for (size_t i = 0; i < k.size(); ++i) { int p = a.cell_facepos[c] + i; g->cell_faces[p] = neu[a.cell_faces[k[i]]]; if (g->cell_facetag) g->cell_facetag[p] = a.cell_facetag[k[i]]; } }
    return GridPtr(g);
}
inline std::vector<int> random_perm(Rng& r, int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); return p; }
} // namespace gl
