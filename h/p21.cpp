// P21: reordered sequences against an independent strongly-connected-component oracle (reachability by two graph searches).
#include "polygrid.hpp"
#include <opm/core/transport/reorder/reordersequence.h>
#include <opm/core/transport/reorder/tarjan.h>
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>
#include <iostream>
using namespace mon; using namespace gl;
typedef std::vector<std::vector<int>> Adj; // adj[c] = upwind cells, one entry per inflow connection

// Kosaraju, iterative. Returns component id per vertex.
static std::vector<int> scc(const Adj& a)
{
    int n = a.size(); Adj b(n); for (int c = 0; c < n; ++c) for (int u : a[c]) b[u].push_back(c);
    std::vector<int> order, st(n, 0), comp(n, -1);
    for (int s = 0; s < n; ++s) if (!st[s]) { std::vector<std::pair<int, size_t>> q; q.push_back(std::make_pair(s, 0)); st[s] = 1; while (!q.empty()) { int v = q.back().first; if (q.back().second < a[v].size()) { int w = a[v][q.back().second++]; if (!st[w]) { st[w] = 1; q.push_back(std::make_pair(w, 0)); } } else { order.push_back(v); q.pop_back(); } } }
    int k = 0; for (int i = n; i-- > 0;) if (comp[order[i]] < 0) { std::vector<int> q(1, order[i]); comp[order[i]] = k; while (!q.empty()) { int v = q.back(); q.pop_back(); for (int w : b[v]) if (comp[w] < 0) { comp[w] = k; q.push_back(w); } } ++k; }
    return comp;
}
static bool judge(const Adj& a, const int* seq, const int* comps, int ncomp, const std::string& d)
{
    int n = a.size(); ev("graphs"); ev("vertices", n);
    if (!CHK(ncomp >= 1 && ncomp <= n, "ncomponents", cat(d, " ncomp ", ncomp, " n ", n))) return false;
    if (!CHK(comps[0] == 0 && comps[ncomp] == n, "cover", cat(d, " first ", comps[0], " last ", comps[ncomp], " n ", n))) return false;
    for (int k = 0; k < ncomp; ++k) if (!CHK(comps[k] < comps[k + 1], "cover", cat(d, " group ", k, ": ", comps[k], "..", comps[k + 1]))) return false;
    std::vector<int> pos(n, -1), grp(n, -1);
    for (int k = 0, i = 0; i < n; ++i) { while (i >= comps[k + 1]) ++k; int c = seq[i]; if (!CHK(c >= 0 && c < n, "permutation", cat(d, " entry ", i, " is ", c))) return false; if (!CHK(pos[c] < 0, "permutation", cat(d, " cell ", c, " twice"))) return false; pos[c] = i; grp[c] = k; }
    std::vector<int> id = scc(a); std::map<int, int> m; int nid = 0; for (int v : id) nid = std::max(nid, v + 1);
    if (!CHK(nid == ncomp, "group-count", cat(d, " groups ", ncomp, " expected ", nid))) return false;
    for (int c = 0; c < n; ++c) { auto it = m.insert(std::make_pair(id[c], grp[c])).first; if (!CHK(it->second == grp[c], "group-content", cat(d, " cell ", c, " is in group ", grp[c], " but is mutually reachable with a cell of group ", it->second))) return false; }
    for (int c = 0; c < n; ++c) for (int u : a[c]) { ev("upwind_relations"); if (!CHK(grp[u] == grp[c] || pos[u] < pos[c], "upstream-order", cat(d, " cell ", c, " at ", pos[c], " receives from ", u, " at ", pos[u]))) return false; }
    int big = 0; for (int k = 0; k < ncomp; ++k) if (comps[k + 1] - comps[k] > 1) ++big; ev("loops", big); if (ncomp > 1 && big) ev("mixed_graphs");
    return true;
}
struct Rec : Opm::ReorderSolverInterface {
    std::vector<std::vector<int>> calls;
    void solveSingleCell(const int c) override { calls.push_back(std::vector<int>(1, c)); }
    void solveMultiCell(const int n, const int* c) override { calls.push_back(std::vector<int>(c, c + n)); if (n < 2) violate("multi-call", cat("solveMultiCell called for ", n)); }
    void go(const UnstructuredGrid& g, const double* f) { reorderAndTransport(g, f); }
    const std::vector<int>& seq() { return sequence(); } const std::vector<int>& comps() { return components(); }
};
static std::vector<double> flux_for(Rng& r, const UnstructuredGrid& g, std::string& kind)
{
    int nf = g.number_of_faces, nc = g.number_of_cells, d = g.dimensions; std::vector<double> q(nf, 0.0); int w = r.i(0, 6); double mag = r.pick(std::vector<double>{1, 1e-6, 1e-300, 4e-320, 1e200});
    if (w == 0) { kind = "random"; for (auto& x : q) x = r.u(-1, 1); }
    else if (w == 1) { kind = "potential"; std::vector<double> p(nc); for (auto& x : p) x = r.u(); for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; q[f] = (a < 0 ? 0.5 : p[a]) - (b < 0 ? 0.5 : p[b]); } }
    else if (w == 2) { kind = "sparse"; double pr = r.u(0.05, 0.6); for (auto& x : q) if (r.p(pr)) x = r.u(-1, 1); }
    else if (w == 3) { kind = "rotation"; V3 c = pt(g.cell_centroids + d * r.i(0, nc - 1), d); for (int f = 0; f < nf; ++f) { V3 x = sub(pt(g.face_centroids + d * f, d), c), n = pt(g.face_normals + d * f, d); q[f] = -x[1] * n[0] + x[0] * n[1]; } }
    else if (w == 4) { kind = "uniform"; V3 u = mk(r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1), r.p(0.3) ? 0 : r.u(-1, 1)); for (int f = 0; f < nf; ++f) q[f] = dot(u, pt(g.face_normals + d * f, d)); }
    else if (w == 5) { kind = "zero"; }
    else { kind = "few-loops"; std::vector<double> p(nc); for (int c = 0; c < nc; ++c) p[c] = r.u(); for (int f = 0; f < nf; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; q[f] = (a < 0 ? 0.5 : p[a]) - (b < 0 ? 0.5 : p[b]); if (r.p(0.05)) q[f] = -q[f]; } }
    for (auto& x : q) { x *= mag; if (x == 0 && r.p(0.5)) x = -0.0; } kind += cat(" x", mag); return q;
}
static void grid_case(Rng& r)
{
    std::string kind, fk; GridPtr g; int w = r.i(0, 9);
    if (w == 0) { int n = st().tier == "thorough" && r.p(0.02) ? 20000 : r.i(1, 400), s = r.i(0, 2); kind = cat("chain ", n); g = GridPtr(create_grid_cart3d(s == 0 ? n : 1, s == 1 ? n : 1, s == 2 ? n : 1)); }
    else if (w <= 2) { g = arrangement_grid(r, r.i(2, 3), r.i(0, 4)); kind = "polyhedral"; }
    else g = random_grid(r, 6, &kind);
    if (r.p(0.4)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); kind += " renumbered"; } if (r.p(0.3)) { g = refaced(*g, r, r.p(0.5)); kind += " refaced"; }
    int nc = g->number_of_cells, nf = g->number_of_faces; std::vector<double> q = flux_for(r, *g, fk); std::string d = cat(kind, " ", fk, " cells ", nc);
    Adj a(nc); int ne = 0, nint = 0; for (int f = 0; f < nf; ++f) { int x = g->face_cells[2 * f], y = g->face_cells[2 * f + 1]; if (x < 0 || y < 0) continue; ++nint; if (q[f] > 0) a[y].push_back(x), ++ne; else if (q[f] < 0) a[x].push_back(y), ++ne; }
    std::vector<double> q0 = q; int nco = -7, nco2 = -7; // exact-size heap arrays: sanitizers watch their ends
    std::vector<int> seq(nc, -5), comp(nc + 1, -5), seq2(nc, -6), comp2(nc + 1, -6), ia(nc + 1, -6); int* ja = (int*)malloc(sizeof(int) * (nint ? nint : 1));
    compute_sequence(g.g, &q[0], &seq[0], &comp[0], &nco);
    bool ok = judge(a, &seq[0], &comp[0], nco, d);
    compute_sequence_graph(g.g, &q[0], &seq2[0], &comp2[0], &nco2, &ia[0], ja);
    ok = ok && judge(a, &seq2[0], &comp2[0], nco2, d + " (graph)");
    if (CHK(ia[0] == 0 && ia[nc] == ne, "graph-size", cat(d, " ia[nc] ", ia[nc], " inflow connections ", ne)))
        for (int c = 0; c < nc; ++c) { if (!CHK(ia[c] <= ia[c + 1], "graph-rows", cat(d, " row ", c))) break; std::vector<int> x(ja + ia[c], ja + ia[c + 1]), y = a[c]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (!CHK(x == y, "graph-content", cat(d, " cell ", c, " lists ", vec(x), " expected ", vec(y)))) break; }
    free(ja); CHK(q == q0, "input-changed", d);
    { std::cout.setstate(std::ios::failbit); Rec s; int reps = r.i(1, 2); for (int t = 0; t < reps; ++t) { s.calls.clear(); s.go(*g, &q[0]); } std::cout.clear();
      std::vector<int> fs, fc(1, 0); for (auto& c : s.calls) { for (int x : c) fs.push_back(x); fc.push_back((int)fs.size()); }
      ev("solver_calls", (long)s.calls.size());
      CHK(fs == s.seq(), "solver-sequence", cat(d, " calls ", vec(fs), " sequence ", vec(s.seq()))); CHK(fc == s.comps(), "solver-groups", cat(d, " calls ", vec(fc), " components ", vec(s.comps())));
      if ((int)fs.size() == nc) judge(a, &fs[0], &fc[0], (int)fc.size() - 1, d + " (solver)"); else CHK(false, "solver-visits", cat(d, " visited ", fs.size())); }
    if (ok && ne) { uint64_t h = hstr(kind); for (int f = 0; f < nf; ++f) h = hcomb(h, q[f] > 0 ? 1 : q[f] < 0 ? 2 : 0); nontrivial(h); } if (ne) ev("nontrivial_grids");
}
static void digraph_case(Rng& r)
{
    int n = r.i(1, r.p(0.1) ? 300 : 14); if (r.p(0.003)) { n = (int)r.logu(1000, 20000); ev("large_digraphs"); } double avg = r.pick(std::vector<double>{0.3, 1, 1.5, 3}); Adj a(n); int shape = r.i(0, 3);
    for (int c = 0; c < n; ++c) { int deg = 0; while (r.u() < avg / (1 + avg)) ++deg; for (int k = 0; k < deg; ++k) a[c].push_back(r.i(0, n - 1)); } // self loops and repeated edges included
    if (shape == 1) for (int c = 0; c + 1 < n; ++c) a[c].push_back(c + 1);
    if (shape == 2) for (int c = 0; c < n; ++c) a[c].push_back((c + 1) % n);
    if (shape == 3) for (int c = 0; c < n; ++c) { std::vector<int> k; for (int u : a[c]) if (u < c) k.push_back(u); a[c] = k; }
    std::vector<int> ia(1, 0), ja, vert(n, -3), comp(n + 1, -3), work(3 * n, -3); for (auto& x : a) { for (int u : x) ja.push_back(u); ia.push_back((int)ja.size()); }
    ja.shrink_to_fit(); ja.reserve(1); int nco = -1; std::vector<int> ia0 = ia, ja0 = ja; tarjan(n, &ia[0], ja.data(), &vert[0], &comp[0], &nco, &work[0]);
    CHK(ia == ia0 && ja == ja0, "input-changed", "tarjan"); ev("digraphs"); judge(a, &vert[0], &comp[0], nco, cat("digraph n ", n, " shape ", shape, " ia ", vec(ia), " ja ", vec(ja)));
    if (!ja.empty()) { uint64_t h = n; for (int x : ia) h = hcomb(h, x); for (int x : ja) h = hcomb(h, x); nontrivial(h); }
}
int main(int c, char** v) { return run(c, v, "p21", [](long, Rng& r) { for (int q = 0; q < 3; ++q) grid_case(r); for (int q = 0; q < 10; ++q) digraph_case(r); }); }
