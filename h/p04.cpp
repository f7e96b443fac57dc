// P04: column extraction against an independent grouping and connectivity oracle.
#include "polygrid.hpp"
#include <opm/core/grid/ColumnExtract.hpp>
using namespace mon; using namespace gl;
static void one(Rng& r)
{
    std::string kind; GridPtr g;
    int which = r.i(0, 9); int nx = r.i(1, 5), ny = r.i(1, 5), nz = r.i(1, 8);
    if (which < 2) { std::vector<double> x = coords(r, nx), y = coords(r, ny), z = coords(r, nz); g = GridPtr(create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], 0)); kind = "tensor"; }
    else if (which == 2) { std::vector<double> x = coords(r, nx), y = coords(r, ny); g = GridPtr(create_grid_tensor2d(nx, ny, &x[0], &y[0])); kind = "2d"; nz = 1; }
    else for (;;) {
        CP c = random_cp(r, nx, ny, nz, r.p(0.5), false); c.use_act = true; double pact = r.pick(std::vector<double>{1, 0.9, 0.6, 0.3}); bool any = false; for (auto& a : c.actnum) { a = r.p(pact); any |= a != 0; } if (!any) c.actnum[r.i(0, (int)c.actnum.size() - 1)] = 1;
        if (r.p(0.4)) for (int t = r.i(1, 6); t > 0; --t) { int i = r.i(0, nx - 1), j = r.i(0, ny - 1), k = r.i(0, nz - 1); for (int cj = 0; cj < 2; ++cj) for (int ci = 0; ci < 2; ++ci) { double d = c.z(i, j, k, ci, cj, 1) - c.z(i, j, k, ci, cj, 0); for (int q = k; q < nz; ++q) for (int h = 0; h < 2; ++h) if (q > k || h == 1) c.z(i, j, q, ci, cj, h) -= d; } } // pinch a cell out
        if (r.p(0.3)) { int i = r.i(0, nx - 1), j = r.i(0, ny - 1), k = r.i(0, nz - 1); double s = r.u(0.5, 3); for (int q = k; q < nz; ++q) for (int cj = 0; cj < 2; ++cj) for (int ci = 0; ci < 2; ++ci) for (int h = 0; h < 2; ++h) c.z(i, j, q, ci, cj, h) += s; ev("layer_gaps"); } // open gap
        bool thick = false; for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (c.actnum[c.cell(i, j, k)] && c.z(i, j, k, 0, 0, 1) - c.z(i, j, k, 0, 0, 0) > 0.1) thick = true; if (!thick) continue;
        g = from_cp(c); kind = "cp"; if (g.g && g->number_of_cells > 0) break;
    }
    if (r.p(0.3)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); kind += " renumbered"; ev("renumbered"); }
    if (r.p(0.3)) { g = refaced(*g, r, r.p(0.5)); kind += " refaced"; ev("refaced"); }
    int nc = g->number_of_cells; std::vector<std::vector<int>> col; Opm::extractColumn(*g, col);
    std::string d = cat(kind, " ", nx, "x", ny, "x", nz, " active ", nc); uint64_t h = hstr(kind);
    // oracle: cells of each logical column by depth, split where neighbours in that order share no face
    std::map<int, std::vector<std::pair<int, int>>> by; for (int c = 0; c < nc; ++c) { int gi = g->global_cell ? g->global_cell[c] : c; by[gi % (g->cartdims[0] * g->cartdims[1])].push_back(std::make_pair(gi / (g->cartdims[0] * g->cartdims[1]), c)); h = hcomb(h, gi); }
    std::set<std::pair<int, int>> nb; for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { nb.insert(std::make_pair(a, b)); nb.insert(std::make_pair(b, a)); } }
    std::set<std::vector<int>> want; for (auto& kv : by) { auto v = kv.second; std::sort(v.begin(), v.end()); std::vector<int> cur; for (auto& p : v) { if (!cur.empty() && !nb.count(std::make_pair(cur.back(), p.second))) { want.insert(cur); cur.clear(); ev("splits"); } cur.push_back(p.second); } want.insert(cur); }
    std::vector<int> seen(nc, 0); size_t total = 0; std::set<std::vector<int>> got;
    for (auto& c : col) { CHK(!c.empty(), "empty-column", d); for (int x : c) if (CHK(x >= 0 && x < nc, "cell-index", cat(d, " cell ", x))) { ++seen[x]; ++total; } got.insert(c); }
    for (int c = 0; c < nc; ++c) CHK(seen[c] == 1, "partition", cat(d, " cell ", c, " occurs ", seen[c], " times"));
    CHK(col.size() == want.size(), "column-count", cat(d, " columns ", col.size(), " expected ", want.size()));
    for (auto& w : want) CHK(got.count(w), "column-content", cat(d, " expected column ", vec(w), " missing"));
    ev("columns", (long)col.size()); ev("cells", nc); if (want.size() < (size_t)nc) nontrivial(h);
}
int main(int c, char** v) { return run(c, v, "p04", [](long, Rng& r) { for (int q = 0; q < 4; ++q) one(r); }); }
