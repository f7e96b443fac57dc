// P11: wells from a deck match the deck's description, epoch by epoch.
#include "config.h"
#include "wellsdeck.hpp"
using namespace gl; using namespace wd;
// radial inflow into a vertical bore: 2 pi sqrt(kx ky) dz / (ln(r0/rw) + S), r0 the equivalent radius for an anisotropic cell
static double peaceman(double dx, double dy, double dz, double kx, double ky, double rw, double S, double* r0out) { double a = std::sqrt(ky / kx), b = std::sqrt(kx / ky); double r0 = 0.28 * std::sqrt(a * dx * dx + b * dy * dy) / (std::sqrt(a) + std::sqrt(b)); *r0out = r0; return 2 * M_PI * std::sqrt(kx * ky) * dz / (std::log(r0 / rw) + S); }
struct G { GridPtr g; std::vector<int> cell; int nx, ny, nz; };
static void extent(const UnstructuredGrid& g, int c, double d[3]) { double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; for (int q = g.cell_facepos[c]; q < g.cell_facepos[c + 1]; ++q) for (int k = 0; k < 3; ++k) { double x = g.face_centroids[3 * g.cell_faces[q] + k]; lo[k] = std::min(lo[k], x); hi[k] = std::max(hi[k], x); } for (int k = 0; k < 3; ++k) d[k] = hi[k] - lo[k]; }
static G grid(Rng& r)
{
    G o; int m = 5; o.nx = r.i(1, m); o.ny = r.i(1, m); o.nz = r.i(1, m);
    if (r.p(0.4)) { dvec x = coords(r, o.nx, 20, 200), y = coords(r, o.ny, 20, 200), z = coords(r, o.nz, 2, 30); for (auto& t : z) t += 1000; o.g = GridPtr(create_grid_tensor3d(o.nx, o.ny, o.nz, &x[0], &y[0], &z[0], 0)); if (r.p(0.5)) { } }
    else for (;;) { CP c = random_cp(r, o.nx, o.ny, o.nz, r.p(0.5), r.p(0.6)); double s = r.u(10, 80); for (int j = 0; j <= o.ny; ++j) for (int i = 0; i <= o.nx; ++i) { double* p = c.pil(i, j); p[0] *= s; p[1] *= s; p[3] *= s; p[4] *= s; } o.g = from_cp(c); if (o.g.g && o.g->number_of_cells > 0) break; }
    o.cell.assign((size_t)o.nx * o.ny * o.nz, -1); for (int c = 0; c < o.g->number_of_cells; ++c) o.cell[o.g->global_cell ? o.g->global_cell[c] : c] = c; return o;
}
struct Spec { std::string name; int i, j, k1, k2; double trans, diam, skin; }; // one connection record, deck wide
static void check(Rng& r, Opm::EclipseGridParser& deck, int e, const G& gr, const dvec& perm, const std::vector<Well>& ws, const Phases& P, const std::map<std::string, std::string>& parents, const std::string& ctx)
{
    deck.setCurrentEpoch(e); std::unique_ptr<Opm::WellsManager> wm; bool needperm = true; (void)needperm; (void)r;
    { dk::CoutCatch q; try { wm.reset(new Opm::WellsManager(deck, *gr.g, &perm[0])); } catch (const std::exception& x) { CHK(false, "refused", cat("epoch ", e, " ", q.e.str(), " ", x.what(), ctx)); return; } }
    const Wells* W = wm->c_wells(); if (!CHK(W && W->number_of_wells == (int)ws.size() && !wm->empty(), "well-count", cat("epoch ", e, " ", W ? W->number_of_wells : -1, " expected ", ws.size(), ctx))) return; if (!CHK(W->number_of_phases == P.np, "phase-count", ctx)) return; ev("epochs");
    for (size_t w = 0; w < ws.size(); ++w) {
        const Well& m = ws[w]; std::string cx = cat(" epoch ", e, " well ", m.name, ctx); ev("wells"); if (!CHK(W->name[w] && m.name == W->name[w], "name", cat(W->name[w] ? W->name[w] : "null", cx))) return; if (m.controlled) CHK(W->type[w] == (m.inj ? INJECTOR : PRODUCER), "type", cx);
        int a = W->well_connpos[w], b = W->well_connpos[w + 1]; if (CHK(b - a == (int)m.perfs.size(), "perforation-count", cat(b - a, " expected ", m.perfs.size(), cx))) for (int k = a; k < b; ++k) { const Perf& p = m.perfs[k - a]; ev("perforations"); CHK(W->well_cells[k] == p.cell, "perforation-cell", cat("connection ", k - a, " cell ", W->well_cells[k], " expected ", p.cell, cx)); CHK(close(W->WI[k], p.wi, 1e-9, 0), "connection-factor", cat("connection ", k - a, " ", W->WI[k], " expected ", p.wi, cx)); }
        if (m.datum >= 0) { CHK(close(W->depth_ref[w], m.datum, 1e-12, 0), "reference-depth", cat(W->depth_ref[w], " stated ", m.datum, cx)); ev("given_depths"); } else if (!m.perfs.empty()) { double top = 1e300; for (auto& p : m.perfs) top = std::min(top, gr.g->cell_centroids[3 * p.cell + 2]); CHK(W->depth_ref[w] == top, "reference-depth-default", cat(W->depth_ref[w], " top connection at ", top, cx)); ev("default_depths"); }
        if (m.inj && m.controlled) for (int p = 0; p < 3; ++p) if (P.used[p]) CHK(W->comp_frac[w * P.np + P.pos[p]] == (p == m.itype ? 1.0 : 0.0), "component-fraction", cat("phase ", p, " fraction ", W->comp_frac[w * P.np + P.pos[p]], cx)); if (m.inj) ev("injectors");
        if (m.controlled) check_controls(*W, (int)w, m, P, cx); else { CHK(W->ctrls[w]->num == 0 && W->ctrls[w]->current < 0, "uncontrolled-well", cx); ev("uncontrolled_wells"); }
        const std::vector<Opm::WellNode*>& leaf = wm->wellCollection().getLeafNodes(); if (CHK(leaf.size() == ws.size(), "leaf-count", cat(leaf.size(), cx))) { CHK(leaf[w]->name() == m.name, "leaf-name", cat(leaf[w]->name(), cx)); Opm::WellsGroupInterface* up = const_cast<Opm::WellsGroupInterface*>(leaf[w]->getParent()); std::string g = m.group; while (up) { if (!CHK(up->name() == g, "group-path", cat("found ", up->name(), " stated ", g, cx))) break; ev("group_links"); up = const_cast<Opm::WellsGroupInterface*>(up->getParent()); std::map<std::string, std::string>::const_iterator it = parents.find(g); if (it == parents.end()) { CHK(!up, "group-path", cat("group ", g, " has a parent", cx)); break; } g = it->second; if (!CHK(up != 0, "group-path", cat("no parent, stated ", g, cx))) break; } }
    }
}
static void good(Rng& r)
{
    G gr = grid(r); Phases P = random_phases(r); bool field = r.p(0.3), conv = r.p(0.9); dk::Units U = !conv ? dk::si() : field ? dk::field() : dk::metric(); int nc = gr.g->number_of_cells; dvec perm(9 * (size_t)nc, 0); for (int c = 0; c < nc; ++c) { for (int k = 0; k < 3; ++k) perm[9 * c + 4 * k] = r.logu(1e-16, 1e-11); if (r.p(0.2)) { double o = 0.3 * std::min(perm[9 * c], perm[9 * c + 4]); perm[9 * c + 1] = perm[9 * c + 3] = o; } }
    std::string text = head(r, P, field); std::map<std::string, std::string> parents; int ng = r.i(1, 4); std::vector<std::string> groups; for (int k = 0; k < ng; ++k) groups.push_back(cat("G", k + 1)); bool tree = r.p(0.4);
    if (tree) { std::vector<std::string> ls; std::vector<std::string> up; up.push_back("FIELD"); for (auto& g : groups) { std::string p = up[r.i(0, (int)up.size() - 1)]; parents[g] = p; up.push_back(g); ls.push_back(" " + q(r, g) + " " + q(r, p) + " /\n"); } r.shuffle(ls); text += kw(r, "GRUPTREE", ls); ev("group_trees"); }
    std::vector<Well> ws; std::vector<std::vector<Well> > want; std::set<int> taken; int ne = r.i(1, 4); static const char* roots[] = {"P", "PROD", "INJ", "I", "W", "W1", "WELL_A", "A-1", "W10", "P1", "PR", "IN", "X", "WE"}; std::set<std::string> opened; bool skins = conv && r.p(0.2); std::vector<Spec> specs; std::vector<std::pair<std::string, int> > done; int lines_before = 0; (void)lines_before;
    for (int e = 0; e < ne; ++e) {
        std::vector<std::string> spec, comp, cinj, cprod, open; std::vector<int> touched;
        int add = e == 0 ? r.i(1, 4) : r.p(0.5) ? r.i(1, 2) : 0; for (int k = 0; k < add; ++k) { Well w; bool dup; do { w.name = roots[r.i(0, 13)]; if (r.p(0.5)) w.name += cat(r.i(1, 20)); dup = false; for (auto& o : ws) dup |= o.name == w.name; } while (dup); w.inj = r.p(0.4); w.i = r.i(0, gr.nx - 1); w.j = r.i(0, gr.ny - 1); ws.push_back(w); touched.push_back((int)ws.size() - 1); }
        if (e > 0) for (size_t k = 0; k < ws.size(); ++k) if (r.p(0.25)) touched.push_back((int)k); r.shuffle(touched);
        if (e == 0 || add > 0 || r.p(0.9)) { std::sort(touched.begin(), touched.end()); touched.erase(std::unique(touched.begin(), touched.end()), touched.end()); for (int k : touched) for (int rep = r.p(0.1) ? 2 : 1; rep--;) { Well& w = ws[k]; w.group = groups[r.i(0, ng - 1)]; std::vector<std::string> lead, it; lead.push_back(q(r, w.name)); lead.push_back(q(r, w.group)); lead.push_back(cat(w.i + 1)); lead.push_back(cat(w.j + 1)); if (r.p(0.5)) { double d = r.p(0.1) ? 0.0 : r.u(500, 3000); it.push_back(g17(d)); w.datum = d * U.len; } else { it.push_back(""); w.datum = -1; } lead.push_back(it[0].empty() ? "1*" : it[0]); lead.push_back(r.p(0.5) ? "OIL" : "'WATER'"); spec.push_back(line(r, lead, std::vector<std::string>())); } }
        else touched.clear();
        for (size_t k = 0; k < ws.size(); ++k) { Well& w = ws[k]; if (w.perfs.empty() ? w.group.empty() : !r.p(0.15)) continue; int nl = r.i(1, 2); for (int l = 0; l < nl; ++l) {
            int i = r.p(0.6) ? w.i : r.i(0, gr.nx - 1), j = r.p(0.6) ? w.j : r.i(0, gr.ny - 1); std::vector<int> col; for (int q = 0; q < gr.nz; ++q) { int c = i + gr.nx * (j + gr.ny * q); if (gr.cell[c] >= 0 && !taken.count(c)) col.push_back(q); } if (col.empty()) continue; int k1 = col[r.i(0, (int)col.size() - 1)], k2 = k1; while (k2 + 1 < gr.nz && std::find(col.begin(), col.end(), k2 + 1) != col.end() && r.p(0.7)) ++k2;
            std::vector<std::string> it; bool di = i == w.i && r.p(0.5), dj = j == w.j && r.p(0.5), d1 = k1 == 0 && r.p(0.5), d2 = k2 == gr.nz - 1 && r.p(0.5); it.push_back(di ? r.p(0.7) ? "" : "0" : cat(i + 1)); it.push_back(dj ? r.p(0.7) ? "" : "0" : cat(j + 1)); it.push_back(d1 ? "" : cat(k1 + 1)); it.push_back(d2 ? "" : cat(k2 + 1)); std::string ijk; for (size_t a = 0; a < 4; ++a) ijk += it[a].empty() ? "1* " : it[a] + " "; ev(di || dj || d1 || d2 ? "defaulted_locations" : "given_locations");
            double trans = r.p(0.5) ? r.logu(1e-3, 1e4) : 0, diam = r.p(0.7) ? r.logu(0.05, 1.0) : 0, skin = skins ? r.u(0, 10) : 0; if (r.p(0.1)) trans = 0; double rw = diam > 0 ? 0.5 * diam * U.len : 0.5 * 0.3048; bool small = false; std::vector<Perf> add; for (int q = k1; q <= k2; ++q) { int c = gr.cell[i + gr.nx * (j + gr.ny * q)]; double d[3], r0; extent(*gr.g, c, d); Perf p; p.cell = c; p.wi = trans > 0 ? trans * dk::factor(U, 'X') : peaceman(d[0], d[1], d[2], perm[9 * c], perm[9 * c + 4], rw, skin, &r0); if (!(trans > 0) && !(r0 > 1.05 * rw)) small = true; add.push_back(p); } if (small) continue; for (int q = k1; q <= k2; ++q) taken.insert(i + gr.nx * (j + gr.ny * q));
            if (trans > 0) ev("given_factors", (long)add.size()); else ev("computed_factors", (long)add.size()); std::string as = w.name; if (r.p(0.3)) for (size_t cut = 1; cut <= w.name.size(); ++cut) { std::string pre = w.name.substr(0, cut); int m = 0; for (auto& o : ws) m += o.name.compare(0, cut, pre) == 0; if (m == 1) { as = pre + "*"; ev("connection_wildcards"); break; } }
            // a prefix that is unique now must stay unique in every later epoch, since records accumulate
            std::vector<std::string> lead, tail; lead.push_back(q(r, as)); lead.push_back(ijk); lead.push_back(r.p(0.6) ? "OPEN" : r.p(0.5) ? "1*" : "'OPEN'"); tail.push_back(r.p(0.5) ? "" : cat(r.i(0, 3))); tail.push_back(trans > 0 ? g17(trans) : r.p(0.8) ? "" : "0"); tail.push_back(diam > 0 ? g17(diam) : ""); std::string ln = line(r, lead, tail); if (tail[2].size() && r.p(0.3)) { size_t at = ln.rfind('/'); size_t nd = ln.find('/'); if (at == nd) ln.insert(at, "3* Z "); } comp.push_back(ln); Spec s; s.name = as; s.skin = skin; specs.push_back(s); w.perfs.insert(w.perfs.end(), add.begin(), add.end()); } }
        // wells given controls in this epoch
        for (size_t k = 0; k < ws.size(); ++k) { Well& w = ws[k]; if (w.group.empty() || opened.count(w.name)) continue; if (w.controlled ? !r.p(0.3) : e == 0 && k == 0 ? false : r.p(0.1)) continue; std::string as = w.name; std::vector<int> all(1, (int)k);
            if (r.p(0.25)) { size_t cut = r.i(1, (int)w.name.size()); std::string pre = w.name.substr(0, cut); std::vector<int> m; bool mix = false; for (size_t o = 0; o < ws.size(); ++o) if (ws[o].name.compare(0, cut, pre) == 0) { m.push_back((int)o); mix |= ws[o].inj != w.inj || opened.count(ws[o].name) || ws[o].group.empty(); } if (!mix) { all = m; as = pre + "*"; ev("control_wildcards"); if (m.size() > 1) ev("control_wildcards_many"); done.push_back(std::make_pair(pre, (int)w.inj)); } }
            std::string ln = control(r, w, P, U, as); (w.inj ? cinj : cprod).push_back(ln); for (int o : all) if (o != (int)k) { ws[o].ctl = w.ctl; ws[o].mode = w.mode; ws[o].shut = w.shut; ws[o].itype = w.itype; ws[o].controlled = true; } }
        for (size_t k = 0; k < ws.size(); ++k) { Well& w = ws[k]; if (!w.controlled || !r.p(0.15) || w.mode == "GRUP") continue; int m = r.p(0.2) ? 2 : 1; for (int z = 0; z < m; ++z) { w.shut = r.p(0.5); open.push_back(line(r, std::vector<std::string>{q(r, w.name), w.shut ? "SHUT" : "OPEN"}, std::vector<std::string>())); } opened.insert(w.name); ev("welopen"); }
        for (size_t k = 0; k < ws.size(); ++k) if (ws[k].controlled && ws[k].mode == "GRUP" && !opened.count(ws[k].name) && r.p(0.1)) { ws[k].shut = true; open.push_back(line(r, std::vector<std::string>{q(r, ws[k].name), "SHUT"}, std::vector<std::string>())); opened.insert(ws[k].name); }
        if (!spec.empty()) text += kw(r, "WELSPECS", spec); if (!comp.empty()) text += kw(r, "COMPDAT", comp); std::vector<std::string> ks; if (!cinj.empty()) ks.push_back(kw(r, "WCONINJE", cinj)); if (!cprod.empty()) ks.push_back(kw(r, "WCONPROD", cprod)); r.shuffle(ks); for (auto& s : ks) text += s; if (!open.empty()) text += kw(r, "WELOPEN", open); if (e == 0 && (ks.empty() || comp.empty())) { ev("skipped"); return; }
        if (e + 1 < ne && (spec.empty() && comp.empty() && ks.empty() && open.empty())) { --e; --ne; continue; } if (e == ne - 1 && e > 0 && spec.empty() && comp.empty() && ks.empty() && open.empty()) break; want.push_back(ws); text += cat("TSTEP\n ", r.i(1, 30), " /\n");
    }
    // names with a prefix used as wildcard by an earlier epoch: the accumulated record must not reach them
    for (auto& s : specs) { size_t st = s.name.find('*'); if (st == std::string::npos) continue; int m = 0; for (auto& o : ws) m += o.name.compare(0, st, s.name.substr(0, st)) == 0; if (m != 1) { ev("skipped"); return; } }
    for (auto& d : done) { std::set<bool> ty; for (size_t e = 0; e < want.size(); ++e) for (auto& o : want[e]) if (o.name.compare(0, d.first.size(), d.first) == 0) { ty.insert(o.inj); if (!want[0].empty()) { bool first = false; for (auto& z : want[0]) first |= z.name == o.name; if (!first && want.size() > 1) ty.insert(!o.inj); } } if (ty.size() > 1) { ev("skipped"); return; } }
    for (auto& w : ws) if (w.perfs.empty()) { ev("skipped"); return; }
    Opm::EclipseGridParser deck; { dk::CoutCatch q; std::istringstream is(text); try { deck.read(is, conv); } catch (const std::exception& x) { CHK(false, "deck-refused", cat(x.what(), q.e.str(), "\n", text)); return; } }
    std::string ctx = cat("\ngrid ", gr.nx, "x", gr.ny, "x", gr.nz, " deck:\n", text); if (!CHK(deck.numberOfEpochs() == (int)want.size(), "epoch-count", cat(deck.numberOfEpochs(), ctx))) return; ev("decks"); if (want.size() > 1) ev("multi_epoch"); nontrivial(hstr(text)); sample(text);
    if (skins) for (size_t e = 0; e < want.size(); ++e) { deck.setCurrentEpoch((int)e); std::shared_ptr<int> dummy; std::tr1::shared_ptr<Opm::COMPDAT> c(new Opm::COMPDAT(deck.getCOMPDAT())); for (size_t k = 0; k < c->compdat.size(); ++k) c->compdat[k].skin_factor_ = specs.at(k).skin; deck.setSpecialField("COMPDAT", c); ev("skins"); }
    std::vector<int> order; for (size_t e = 0; e < want.size(); ++e) order.push_back((int)e); if (r.p(0.3)) r.shuffle(order); for (int e : order) { for (auto& w : want[e]) if (w.perfs.empty()) goto next; check(r, deck, e, gr, perm, want[e], P, parents, ctx); next:; }
}
// decks that state something impossible are refused
static void bad(Rng& r)
{
    G gr = grid(r); Phases P = phases(1, 1, 0); int c0 = -1; for (size_t c = 0; c < gr.cell.size(); ++c) if (gr.cell[c] >= 0) { c0 = (int)c; break; } int i = c0 % gr.nx + 1, j = c0 / gr.nx % gr.ny + 1, k = c0 / gr.nx / gr.ny + 1; dvec perm(9 * (size_t)gr.g->number_of_cells, 0); for (int c = 0; c < gr.g->number_of_cells; ++c) perm[9 * c] = perm[9 * c + 4] = perm[9 * c + 8] = 1e-13;
    int why = r.i(0, 12); std::string ijk = cat(i, " ", j, " ", k, " ", k), spec = cat("WELSPECS\n W1 G ", i, " ", j, " 1* OIL /\n I1 G ", i, " ", j, " 1* WATER /\n/\n"), comp = cat("COMPDAT\n W1 ", ijk, " OPEN 1* 10 /\n"), inj = "WCONINJE\n I1 WATER OPEN RATE 100 /\n/\n", prod = "WCONPROD\n W1 OPEN BHP 5* 100 /\n/\n", extra, ph = "WATER\nOIL\n", what; bool twod = false;
    switch (why) {
    case 0: what = "connection for an undefined well"; comp += cat(" W2 ", ijk, " OPEN 1* 10 /\n"); break;
    case 1: { what = "connection to an inactive or missing cell"; int f = -1; for (size_t c = 0; c < gr.cell.size(); ++c) if (gr.cell[c] < 0) f = (int)c; if (f < 0) comp += cat(" W1 ", gr.nx, " ", gr.ny, " ", gr.nz, " ", gr.nz + 1, " OPEN 1* 10 /\n"); else comp += cat(" W1 ", f % gr.nx + 1, " ", f / gr.nx % gr.ny + 1, " ", f / gr.nx / gr.ny + 1, " ", f / gr.nx / gr.ny + 1, " OPEN 1* 10 /\n"); break; }
    case 2: what = "controls for an undefined producer"; prod = "WCONPROD\n W1 OPEN BHP 5* 100 /\n W3 OPEN BHP 5* 100 /\n/\n"; break;
    case 3: what = "controls for an undefined injector"; inj = "WCONINJE\n I1 WATER OPEN RATE 100 /\n I2 WATER OPEN RATE 100 /\n/\n"; break;
    case 4: what = "declared mode has no limit"; prod = r.p(0.5) ? "WCONPROD\n W1 OPEN ORAT 5* 100 /\n/\n" : "WCONPROD\n W1 OPEN RESV 10 4* 100 /\n/\n"; break;
    case 5: what = "declared injection mode has no limit"; inj = "WCONINJE\n I1 WATER OPEN RESV 100 /\n/\n"; break;
    case 6: what = "THP limit"; prod = "WCONPROD\n W1 OPEN BHP 5* 100 20 /\n/\n"; break;
    case 7: what = "opening an undefined well"; extra = "WELOPEN\n W9 OPEN /\n/\n"; break;
    case 8: what = "WELTARG"; extra = "WELTARG\n W1 ORAT 10 /\n/\n"; break;
    case 9: what = "gas limit without gas"; prod = "WCONPROD\n W1 OPEN BHP 2* 5 2* 100 /\n/\n"; break;
    case 10: what = "gas injection without gas"; inj = "WCONINJE\n I1 GAS OPEN RATE 100 /\n/\n"; break;
    case 11: what = "unknown control mode"; prod = "WCONPROD\n W1 OPEN XRAT 10 4* 100 /\n/\n"; break;
    default: what = "two-dimensional grid"; twod = true; }
    std::string text = ph + spec + comp + "/\n" + inj + prod + extra + "TSTEP\n 1 /\n"; bool thrown = false; GridPtr flat(twod ? create_grid_cart2d(3, 3, 1, 1) : 0); std::string err; { dk::CoutCatch q; try { Opm::EclipseGridParser deck; std::istringstream is(text); deck.read(is, true); Opm::WellsManager wm(deck, twod ? *flat : *gr.g, &perm[0]); } catch (const std::exception&) { thrown = true; } err = q.e.str(); } ev("refusals"); CHK(thrown, "accepted:" + what, text);
    if (r.p(0.2) && gr.nz > 0) { // a connection flagged SHUT is not open to flow
        std::string d = cat("WATER\nOIL\nWELSPECS\n W1 G ", i, " ", j, " 1* OIL /\n W2 G ", i, " ", j, " 1* OIL /\n/\nCOMPDAT\n W1 ", ijk, " OPEN 1* 10 /\n W2 ", ijk, " SHUT 1* 10 /\n/\nWCONPROD\n 'W*' OPEN BHP 5* 100 /\n/\nTSTEP\n 1 /\n"); dk::CoutCatch q; Opm::EclipseGridParser deck; std::istringstream is(d); deck.read(is, true); Opm::WellsManager wm(deck, *gr.g, &perm[0]); CHK(wm.c_wells()->well_connpos[1] == 1, "perforation-count", d); CHK(wm.c_wells()->well_connpos[2] == 1, "shut-connection", d); ev("shut_connections"); }
    if (r.p(0.2)) { dk::CoutCatch q; Opm::EclipseGridParser deck; std::istringstream is(ph + "TSTEP\n 1 /\n"); deck.read(is, true); Opm::WellsManager wm(deck, *gr.g, &perm[0]); CHK(wm.empty(), "wells-from-nothing", ""); ev("no_wells"); }
    if (r.p(0.2)) { Wells* W = create_wells(2, 2, 2); int c[2] = {0, 1}; double wi[2] = {1, 2}, cf[2] = {1, 0}; add_well(INJECTOR, 10, 1, cf, c, wi, "A", W); add_well(PRODUCER, 20, 1, 0, c + 1, wi + 1, "B", W); append_well_controls(BHP, 5, 0, 1, W); { Opm::WellsManager wm(W), none; CHK(none.empty() && none.c_wells() == 0, "default-not-empty", ""); CHK(!wm.empty() && wm.c_wells() != W && wm.c_wells()->number_of_wells == 2 && wm.c_wells()->WI[1] == 2 && wm.c_wells()->depth_ref[0] == 10 && wm.c_wells()->ctrls[1]->target[0] == 5, "wells-copied", ""); destroy_wells(W); CHK(std::string(wm.c_wells()->name[1]) == "B", "copy-independent", ""); } ev("copied_wells"); }
}
int main(int argc, char** argv) { return run(argc, argv, "p11", [](long, Rng& r) { if (r.p(0.85)) good(r); else bad(r); }, 60); }
