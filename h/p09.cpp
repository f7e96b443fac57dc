// P09: hostile decks, parameter files, grid files and table files under memory, hang, leak, reproducibility and "truncation is reported" monitors.
#include "config.h"
#include "hostile.hpp"
#include "gridlib.hpp"
#include "polygrid.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/vag/vag.hpp>
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <climits>
using namespace mon;
using namespace hx;
typedef std::string S;

// ---------- decks ----------
static S dump(const Opm::EclipseGridParser& p0)
{
    Opm::EclipseGridParser& p = const_cast<Opm::EclipseGridParser&>(p0); S s; std::vector<S> nm; int ne = p.numberOfEpochs();
    for (int e = 0; e < ne && e < 6; ++e) { p.setCurrentEpoch(e < 3 ? e : ne - 1 - (e - 3)); std::vector<S> names = p.fieldNames(); s += cat("epoch ", e, " of ", ne, ": ");
        for (auto& n : names) { s += n + " "; Opm::FieldType t = Opm::EclipseGridParser::classifyKeyword(n); if (e && t != Opm::SpecialField && t != Opm::Timestepping) continue; if (t == Opm::IgnoreWithData || t == Opm::IgnoreNoData || t == Opm::Unknown) continue; if (n == "SWFN" || n == "SOF2" || n == "TUNING" || !p.hasField(n)) continue;
            try { s += dk::show(dk::rows(p, n)); } catch (const std::exception& x) { s += "(no rows)"; } s += "; "; ev("deck_fields"); } }
    p.setCurrentEpoch(0); if (!p.getStartDate().is_not_a_date()) s += boost::gregorian::to_iso_string(p.getStartDate()); return s;
}
static dk::KW some_kw(Rng& r) { int w = r.i(0, 9); if (w < 2) { S n = dk::INTS[r.i(0, 10)]; std::vector<int> v(r.i(1, 30)); for (int& x : v) x = r.i(0, 3); return dk::array_i(n, v); } if (w < 4) { int n = sizeof dk::FLTS / sizeof *dk::FLTS; S q = dk::FLTS[r.i(0, n - 1)]; return dk::array_d(q, dk::runs(r, r.i(1, 40), false), dk::array_dim(q)); } int n = sizeof dk::SPEC / sizeof *dk::SPEC; return dk::special(r, dk::SPEC[r.i(0, n - 1)]); }
static S dates(Rng& r) { S s = "DATES\n"; int n = r.i(1, 4), y = r.i(1990, 2020); for (int i = 0; i < n; ++i) { y += r.i(0, 2); s += cat(" ", r.i(1, 28), " '", dk::MONTHS[r.i(0, 11)], "' ", y, " /\n"); } return s + "/\n"; }
static S some_deck(Rng& r, bool files)
{
    dk::Layout L = r.p(0.5) ? dk::wild(r) : dk::plain(); if (!files) L.include = 0; S s; int n = r.p(0.1) ? 0 : r.i(1, 8); std::vector<dk::KW> ks; for (int i = 0; i < n; ++i) ks.push_back(some_kw(r));
    dk::Files F; F.n = r.i(0, 1000) * 10; if (r.p(0.2)) s += r.p(0.5) ? "FIELD\n" : "METRIC\n"; s += dk::render(r, L, ks, files ? &F : 0); if (!s.empty() && s[s.size() - 1] != '\n') s += "\n";
    if (r.p(0.25)) { int m = r.i(1, 3); for (int i = 0; i < m; ++i) { s += r.p(0.5) ? dates(r) : S("TSTEP\n 1 2*3 /\n"); if (r.p(0.6)) { std::vector<dk::KW> k2(1, some_kw(r)); s += dk::render(r, dk::plain(), k2); } } }
    if (r.p(0.05)) s += S("TUNING\n 1 2 /\n 3 /\n /\n"); if (r.p(0.05)) s += "SWFN\n 0 0 1\n 1 1 0 /\n 0 0 0 1 1 0 /\n"; if (r.p(0.03)) s += "SOF2\n 0 0\n 1 1 /\n"; return s;
}
static void deck_fuzz(Rng& r)
{
    S base = some_deck(r, true), donor = some_deck(r, false), log; int kind = r.i(0, 19); S t;
    if (kind == 0) t = garbage(r, 300); else if (kind == 1) { int n = r.i(1, 40); for (int i = 0; i < n; ++i) { int a = sizeof dk::SPEC / sizeof *dk::SPEC; t += r.p(0.3) ? S("\n") + (r.p(0.7) ? dk::SPEC[r.i(0, a - 1)] : dk::FLTS[r.i(0, 20)]) + "\n" : r.p(0.5) ? hostile_token(r) : hostile_number(r); t += r.p(0.2) ? "\n" : " "; } log = "tokens"; }
    else if (kind == 2) { t = base + (r.p(0.5) ? "\nINCLUDE\n 'deck.txt' /\n" : "\nINCLUDE\n cycle.inc /\n"); spit("cycle.inc", r.p(0.5) ? "PORO\n 3*0.1 /\nINCLUDE\n 'deck.txt' /\n" : "INCLUDE\n 'cycle.inc' /\n"); log = "include-cycle"; }
    else if (kind == 3) { t = base + "\nINCLUDE\n " + (r.p(0.5) ? "'nosuch.inc'" : r.p(0.5) ? "." : "''") + " /\n" + donor; log = "include-missing"; }
    else if (kind == 4) { t = base + "\n" + dk::SPEC[r.i(0, (int)(sizeof dk::SPEC / sizeof *dk::SPEC) - 1)] + (r.p(0.5) ? "" : r.p(0.5) ? "\n" : "\n "); if (r.p(0.5)) { t += r.p(0.5) ? " -- c" : "\n-- comment"; } log = "keyword-at-end"; }
    else t = mutate(r, base, donor, log);
    spit("deck.txt", t); bool si = r.p(0.6); S ctx = cat("deck (", log, ")\n", t.substr(0, 1500)); ev("decks"); nontrivial(hstr(t));
    auto run = [&]() -> S { Opm::EclipseGridParser p("deck.txt", si); return dump(p); };
    Result a = guarded("deck", ctx, run);
    if (r.p(0.2)) { // a parser object that refused or accepted this input must read other input as a new one would
        S g = some_deck(r, false); dk::CoutCatch cc; S x, y; try { std::istringstream is(g); Opm::EclipseGridParser p; p.read(is, si); x = dump(p); } catch (const std::exception&) { x = "refused"; }
        try { Opm::EclipseGridParser p; try { std::istringstream is(t); p.read(is, si); } catch (const std::exception&) { ev("reused_after_refusal"); } std::istringstream is(g); try { p.read(is, si); y = dump(p); } catch (const std::exception&) { y = "refused"; } } catch (const std::exception&) { y = "error"; }
        CHK(x == y, "deck:reuse", cat("after other input a deck reads as ", y.substr(0, 500), "\ninstead of ", x.substr(0, 500), "\n--- deck\n", g.substr(0, 600), "\n--- before\n", t.substr(0, 600))); ev("parser_reuses");
    }
    (void)a;
}
// A deck that ends inside a record of a keyword is incomplete: that has to be reported.
static void deck_truncated(Rng& r)
{
    dk::Layout L = dk::plain(); std::vector<dk::KW> pre; int n = r.i(0, 3); for (int i = 0; i < n; ++i) pre.push_back(some_kw(r)); dk::KW k = some_kw(r); if (k.shape == 'T' || k.shape == 'N' || k.name == "POISSONMOD") return;
    S head = dk::render(r, L, pre); if (!head.empty() && head[head.size() - 1] != '\n') head += "\n"; dk::Out o; dk::keyword(r, L, o, k); S s = o.s; size_t nl = s.find('\n');
    // positions inside a record: after its first token and before its slash
    std::vector<size_t> posn; bool started = false, quoted = false, inrec = false; for (size_t i = nl + 1; i < s.size(); ++i) { char c = s[i]; if (c == '\'') quoted = !quoted; if (!quoted && c == '/') { started = false; inrec = false; continue; } if (!isspace((unsigned char)c)) { started = true; } if (started) posn.push_back(i + 1); (void)inrec; }
    if (posn.empty()) return; size_t at = posn[r.next() % posn.size()]; S t = head + s.substr(0, at); if (r.p(0.3)) t += r.p(0.5) ? "\n" : "  "; if (r.p(0.1)) t += "\n-- the end\n";
    spit("deck.txt", t); S ctx = cat("deck cut inside a record of ", k.name, "\n", t.substr(t.size() > 900 ? t.size() - 900 : 0)); bool si = r.p(0.5);
    // already complete decks must be accepted, otherwise the cut proves nothing
    { dk::CoutCatch cc; std::istringstream is(head + s); try { Opm::EclipseGridParser p; p.read(is, si); } catch (const std::exception&) { ev("unusable_bases"); return; } }
    Result a = guarded("truncated", ctx, [&]() -> S { Opm::EclipseGridParser p("deck.txt", si); return dump(p); });
    ev("truncations"); ev("truncated_" + k.name); nontrivial(hstr(t)); CHK(!a.ok, "truncated:" + k.name + ":accepted", ctx);
}

// ---------- parameters ----------
static S xml_body(Rng& r, int depth) { S o; int n = r.i(0, 4); for (int i = 0; i < n; ++i) { int w = r.i(0, 9); S nm = cat("p", r.i(0, 5)); if (w < 6 || depth > 3) { static const char* ty[] = {"int", "double", "bool", "string", "file", "cmdline", "odd", ""}; o += "<Parameter name=\"" + nm + "\" type=\"" + ty[r.i(0, 7)] + "\" value=\"" + (r.p(0.5) ? cat(r.i(-5, 500)) : S("a &lt; b &#65; &quot;x&quot;")) + "\"/>\n"; } else if (w < 9) o += "<ParameterGroup name=\"" + nm + "\">\n" + xml_body(r, depth + 1) + "</ParameterGroup>\n"; else if (r.p(0.5)) o += "<MergeWithFile value=\"inc.xml\"/>\n"; else o += "<ParameterGroupFromFile name=\"" + nm + "\" value=\"inc.xml\"/>\n"; if (r.p(0.1)) o += "<!-- c -->\n"; if (r.p(0.05)) o += "text"; if (r.p(0.03)) o += "<![CDATA[ <x> ]]>"; } return o; }
static S some_xml(Rng& r) { S o; if (r.p(0.5)) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; if (r.p(0.1)) o += "<!DOCTYPE a>\n"; if (r.p(0.2)) o += "<!-- c -->\n"; return o + "<ParameterGroup>\n" + xml_body(r, 0) + "</ParameterGroup>\n"; }
static S some_param(Rng& r) { S o; int n = r.i(0, 8); for (int i = 0; i < n; ++i) { int d = r.i(0, 3); for (int k = 0; k < d; ++k) o += cat("g", r.i(0, 2), "/"); o += cat("p", r.i(0, 4), "="); o += r.p(0.5) ? cat(r.u(-10, 10)) : S("some text"); if (r.p(0.1)) o += " // comment"; o += r.p(0.1) ? "\r\n" : "\n"; if (r.p(0.1)) o += "// comment\n"; if (r.p(0.1)) o += "\n"; } return o; }
static S pdump(const Opm::parameter::ParameterGroup& g) { std::ostringstream o; g.writeParamToStream(o); g.displayUsage(false); S s = o.str(); s += cat(" unused ", g.anyUnused()); for (int i = 0; i < 6; ++i) { S n = cat(i % 2 ? "g0/" : "", "p", i); try { s += cat(" ", n, " ", g.has(n)); } catch (const std::exception&) { s += " -"; } } try { s += cat(" ", g.getDefault<int>("p1", 7)); } catch (const std::exception&) { s += " -"; } try { s += cat(" ", g.getDefault<double>("p2", 7.5)); } catch (const std::exception&) { s += " -"; } try { s += g.getDefault<S>("p3", "dflt"); } catch (const std::exception&) { s += " -"; } try { s += cat(" ", g.getDefault<bool>("p0", true)); } catch (const std::exception&) { s += " -"; } return s; }
static void param_fuzz(Rng& r)
{
    bool xml = r.p(0.65); S base = xml ? some_xml(r) : some_param(r), donor = xml ? some_xml(r) : some_param(r), log, t; int kind = r.i(0, 24);
    if (kind == 0) t = garbage(r, 200); else if (kind == 1) { int n = r.i(1, 25); for (int i = 0; i < n; ++i) { static const char* x[] = {"<", ">", "/>", "</", "<Parameter ", "name=", "value=", "\"", "'", "<ParameterGroup", "<MergeWithFile value=\"inc.xml\"/>", "<!--", "-->", "<?xml", "?>", "&", "&#", "&#x", ";", "<![CDATA[", "]]>", "a/b", "=", "//", "/", " ", "\n", "<?xml version=\"1.0\" encoding=\"", "UTF-8", "</ParameterGroup>", "\xef\xbb\xbf", "\xf0\x90", "\xc3", "&#65;", "&lt", "x=1\n", "/=1\n", "a/=2\n", "a=1\na/b=2\n"}; t += x[r.i(0, 38)]; } log = "tokens"; }
    else if (kind == 2 && xml) { int n = r.p(0.9) ? r.i(5, 300) : r.i(5000, 60000); for (int i = 0; i < n; ++i) t += "<ParameterGroup name=\"g\">"; if (r.p(0.7)) for (int i = 0; i < n; ++i) t += "</ParameterGroup>"; log = cat("nested ", n); }
    else if (kind == 2) { int n = r.p(0.9) ? r.i(5, 300) : r.i(5000, 40000); for (int i = 0; i < n; ++i) t += "g/"; t += "p=1\n"; log = cat("nested ", n); }
    else if (kind == 3 && xml) { t = r.p(0.3) ? S("<!-- only a comment -->") : r.p(0.3) ? S("<?xml version=\"1.0\"?>") : r.p(0.5) ? S("<ParameterGroup><Parameter name=\"a/b\" type=\"int\" value=\"1\"/></ParameterGroup>") : S("<ParameterGroup><ParameterGroup name=\"a/b\"><Parameter name=\"\" value=\"1\"/></ParameterGroup></ParameterGroup>"); log = "special"; }
    else t = mutate(r, base, donor, log);
    S f = xml ? "in.xml" : "in.param"; spit(f, t); spit("inc.xml", r.p(0.2) ? S("<ParameterGroup><MergeWithFile value=\"") + (r.p(0.5) ? "inc.xml" : "in.xml") + "\"/></ParameterGroup>" : r.p(0.8) ? S("<ParameterGroup><Parameter name=\"q\" type=\"int\" value=\"3\"/></ParameterGroup>") : mutate_once(r, donor, base, log));
    S ctx = cat(f, " (", log, ")\n", t.substr(0, 1500)); ev(xml ? "xml_files" : "param_files"); nontrivial(hstr(t)); bool ctor = r.p(0.3);
    guarded(xml ? "xml" : "param", ctx, [&]() -> S { if (ctor) { S pn = "prog"; const char* av[] = {pn.c_str(), f.c_str()}; Opm::parameter::ParameterGroup g(2, (char**)av); return pdump(g); } Opm::parameter::ParameterGroup g; if (xml) g.readXML(f); else g.readParam(f); return pdump(g); });
}

// ---------- grid files ----------
static S num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static S grid_text(Rng& r, const UnstructuredGrid& g, bool tag, bool map)
{
    S s; int c = 0; auto P = [&](const S& x) { s += x; s += ++c % 7 ? " " : "\n"; }; auto I = [&](const int* v, long n) { for (long i = 0; i < n; ++i) P(cat(v[i])); }; auto D = [&](const double* v, long n) { for (long i = 0; i < n; ++i) P(num(v[i])); };
    int d = g.dimensions, nf = g.number_of_faces, nc = g.number_of_cells, h[] = {d, nc, nf, g.number_of_nodes, g.face_nodepos[nf], g.cell_facepos[nc], tag, map}; I(h, 8); s += "\n"; I(g.cartdims, d); s += "\n"; D(g.node_coordinates, (long)d * g.number_of_nodes); s += "\n"; I(g.face_nodepos, nf + 1); s += "\n"; I(g.face_nodes, h[4]); s += "\n"; I(g.face_cells, 2 * nf); s += "\n"; D(g.face_areas, nf); D(g.face_centroids, d * nf); D(g.face_normals, d * nf); s += "\n"; I(g.cell_facepos, nc + 1); s += "\n"; for (int k = 0; k < h[5]; ++k) { P(cat(g.cell_faces[k])); if (tag) P(cat(g.cell_facetag[k])); } s += "\n"; if (map) I(g.global_cell, nc); D(g.cell_volumes, nc); D(g.cell_centroids, d * nc); (void)r; return s;
}
static S gdump(const UnstructuredGrid& g)
{
    int d = g.dimensions, nf = g.number_of_faces, nc = g.number_of_cells, nn = g.number_of_nodes; std::ostringstream o; bool ok = d >= 1 && d <= 3 && nf >= 0 && nc >= 0 && nn >= 0; auto bad = [&](const char* w) { ok = false; o << " BAD:" << w; };
    if (!ok) bad("counts"); o << d << " " << nc << " " << nf << " " << nn << ";"; for (int i = 0; i < d; ++i) o << g.cartdims[i] << " ";
    if (ok) { if (g.face_nodepos[0] || g.cell_facepos[0]) bad("start"); for (int f = 0; f < nf && ok; ++f) if (g.face_nodepos[f + 1] < g.face_nodepos[f]) bad("face_nodepos"); for (int c = 0; c < nc && ok; ++c) if (g.cell_facepos[c + 1] < g.cell_facepos[c]) bad("cell_facepos"); }
    if (ok) { for (int i = 0; i < g.face_nodepos[nf]; ++i) { int x = g.face_nodes[i]; if (x < 0 || x >= nn) { bad("node"); break; } } for (int i = 0; i < 2 * nf; ++i) { int x = g.face_cells[i]; if (x < -1 || x >= nc) { bad("cell"); break; } } for (int i = 0; i < g.cell_facepos[nc]; ++i) { int x = g.cell_faces[i]; if (x < 0 || x >= nf) { bad("face"); break; } if (g.cell_facetag) o << g.cell_facetag[i]; }
        uint64_t h = 0; auto H = [&](const double* v, long n) { for (long i = 0; i < n; ++i) h = hcomb(h, hdbl(v[i])); }; H(g.node_coordinates, (long)d * nn); H(g.face_areas, nf); H(g.face_centroids, (long)d * nf); H(g.face_normals, (long)d * nf); H(g.cell_volumes, nc); H(g.cell_centroids, (long)d * nc); o << h; for (int i = 0; i < 2 * nf; ++i) o << g.face_cells[i] << ","; if (g.global_cell) for (int c = 0; c < nc; ++c) o << g.global_cell[c] << ","; }
    return o.str();
}
static gl::GridPtr small_grid(Rng& r) { for (;;) { int w = r.i(0, 3); gl::GridPtr g = w < 3 ? gl::random_grid(r, 3) : gl::arrangement_grid(r, r.i(2, 3), r.i(0, 2)); if (g.g && g->cell_facetag) return g; if (g.g && r.p(0.2)) return g; } }
static void gridfile_fuzz(Rng& r)
{
    gl::GridPtr g = small_grid(r), h = small_grid(r); bool tag = g->cell_facetag && r.p(0.7), map = g->global_cell && r.p(0.7); S base = grid_text(r, *g, tag, map), donor = grid_text(r, *h, false, false), log, t; int kind = r.i(0, 9);
    if (kind == 0) { std::vector<Piece> v = split(base); int q = r.i(0, 7), k = 0; for (auto& p : v) if (!p.ws && k++ == q) p.s = hostile_number(r); t = joinp(v); log = "header"; } else if (kind == 1 && r.p(0.3)) { static const char* hd[] = {"3 600000000 600000000 600000000 2000000000 2000000000 1 1 1 1 1 ", "2 100000000 1 1 1 1 0 0 1 1 ", "3 0 0 0 0 0 0 0 1 1 1 0 0", "1 0 0 0 0 0 1 1 0 0 0", "3 1 1 1 2147483647 2147483647 1 1 1 1 1 0 0 0"}; t = hd[r.i(0, 4)]; log = "huge"; } else t = mutate(r, base, donor, log);
    spit("grid.txt", t); ev("grid_files"); nontrivial(hstr(t)); S ctx = cat("grid file (", log, ")\n", t.substr(0, 800)); bool mgr = r.p(0.4);
    Result a = guarded("gridfile", ctx, [&]() -> S { if (mgr) { Opm::GridManager m("grid.txt"); return gdump(*m.c_grid()); } UnstructuredGrid* u = read_grid("grid.txt"); if (!u) throw std::runtime_error("no grid"); struct D { UnstructuredGrid* u; ~D() { destroy_grid(u); } } d = {u}; return gdump(*u); });
    CHK(!a.ok || a.what.find("BAD:") == S::npos, "gridfile:inconsistent", cat("accepted with out-of-range contents: ", a.what.substr(0, 200), "\n", ctx));
}
static void vag_fuzz(Rng& r)
{
    gl::GridPtr g; do g = small_grid(r); while (g->dimensions != 3); S base, log; { dk::CoutCatch cc; Opm::VAG v; Opm::unstructuredGridToVag(*g.g, v); std::ostringstream o; Opm::writeVagFormat(o, v); base = o.str(); }
    S t = mutate(r, base, base, log); ev("vag_files"); nontrivial(hstr(t)); S ctx = cat("vag file (", log, ")\n", t.substr(0, 800));
    guarded("vag", ctx, [&]() -> S { std::istringstream is(t); Opm::VAG v; Opm::readVagGrid(is, v); auto ps = [](const Opm::PosStruct& p) { return cat(vec(p.pos, 3000), vec(p.value, 3000)); }; return cat(v.number_of_vertices, " ", v.number_of_volumes, " ", v.number_of_faces, " ", v.number_of_edges, vec(v.vertices, 3000), ps(v.volumes_to_faces), ps(v.faces_to_edges), ps(v.faces_to_vertices), ps(v.volumes_to_vertices), vec(v.material, 3000)); });
}
// ---------- table files ----------
static void table_fuzz(Rng& r)
{
    auto table = [&]() { S s; int n = r.i(1, 12), c = r.i(2, 4); double x = 0; if (r.p(0.4)) s += "# comment\n"; for (int i = 0; i < n; ++i) { x += r.u(0.01, 2); s += cat(x); for (int k = 1; k < c; ++k) s += cat(r.p(0.8) ? " " : ",", r.u(-3, 3)); s += r.p(0.9) ? "\n" : "\r\n"; } return s; };
    S base = table(), donor = table(), log, t = mutate(r, base, donor, log); spit("table.txt", t); ev("table_files"); nontrivial(hstr(t)); int xc = r.i(1, 3), fc = r.i(1, 4); S ctx = cat("table file (", log, ") columns ", xc, " ", fc, "\n", t.substr(0, 800));
    guarded("table", ctx, [&]() -> S { Opm::MonotCubicInterpolator m; bool ok = m.read("table.txt", xc, fc); if (!ok) throw std::runtime_error("refused"); std::ostringstream o; o << m.toString() << m.isMonotone() << m.getSize(); for (double q : {-1.0, 0.0, 0.5, 3.3, 1e6}) o << " " << m.evaluate(q); return o.str(); });
}

int main(int argc, char** argv)
{
    return run(argc, argv, "p09", [](long k, Rng& r) {
        (void)k; int w = r.i(0, 99); if (w < 45) deck_fuzz(r); else if (w < 58) deck_truncated(r); else if (w < 76) param_fuzz(r); else if (w < 88) gridfile_fuzz(r); else if (w < 94) vag_fuzz(r); else table_fuzz(r);
    }, 15);
}
