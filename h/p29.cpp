// P29: everything written for a step (state vectors, visualisation files, water cut, well report) is parsed back and compared with the state; nothing else is touched; failing destinations are reported.
#include "config.h"
#include "../lib/sim.hpp"
#include "../lib/polygrid.hpp"
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/utility/StopWatch.hpp>
#include <ftw.h>
#include <numeric>
using namespace sm;

// ---- reading the files
static bool within(double got, double want, int digits) { if (got == want) return true; return std::fabs(got - want) <= (0.50001 * std::pow(10.0, 1 - digits) + 2.3e-16) * std::fabs(want); }
static std::vector<std::string> words(const std::string& s) { std::istringstream in(s); std::vector<std::string> w; std::string x; while (in >> x) w.push_back(x); return w; }
static bool number(const std::string& w, double& x) { char* e = 0; x = std::strtod(w.c_str(), &e); return e != w.c_str() && *e == 0; }
static bool numbers(const std::string& s, dvec& v) { v.clear(); for (auto& w : words(s)) { double x; if (!number(w, x)) return false; v.push_back(x); } return true; }
struct Node { std::string name, text; std::map<std::string, std::string> at; std::vector<Node> kids; const Node* kid(const std::string& n, const std::string& label = "") const { for (auto& k : kids) if (k.name == n && (label.empty() || (k.at.count("Name") && k.at.at("Name") == label))) return &k; return 0; } };
struct Xml { // strict: one root, properly nested, quoted attributes
    const std::string& s; size_t i = 0; std::string err; explicit Xml(const std::string& t) : s(t) {}
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
    bool fail(const std::string& m) { if (err.empty()) err = cat(m, " at offset ", i); return false; }
    std::string name() { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '-' || s[i] == ':' || s[i] == '.')) ++i; return s.substr(b, i - b); }
    bool element(Node& n) {
        if (i >= s.size() || s[i] != '<') return fail("no element"); ++i; n.name = name(); if (n.name.empty()) return fail("no element name");
        for (;;) { ws(); if (i >= s.size()) return fail("end inside a tag"); if (s.compare(i, 2, "/>") == 0) { i += 2; return true; } if (s[i] == '>') { ++i; break; } std::string a = name(); if (a.empty() || i >= s.size() || s[i] != '=') return fail("bad attribute"); ++i; if (s[i] != '"') return fail("attribute not quoted"); size_t e = s.find('"', ++i); if (e == std::string::npos) return fail("unterminated attribute"); if (n.at.count(a)) return fail("attribute repeated"); n.at[a] = s.substr(i, e - i); i = e + 1; }
        for (;;) { size_t b = i; while (i < s.size() && s[i] != '<') ++i; n.text += s.substr(b, i - b); if (i >= s.size()) return fail("unclosed " + n.name); if (s.compare(i, 2, "</") == 0) { i += 2; std::string e = name(); if (e != n.name) return fail("closing " + e + " for " + n.name); ws(); if (i >= s.size() || s[i] != '>') return fail("bad closing tag"); ++i; return true; } n.kids.push_back(Node()); if (!element(n.kids.back())) return false; }
    }
    bool document(Node& n) { ws(); if (s.compare(i, 5, "<?xml") == 0) { size_t e = s.find("?>", i); if (e == std::string::npos) return fail("header"); i = e + 2; } ws(); if (!element(n)) return false; ws(); return i == s.size() || fail("text after the root element"); }
};
typedef std::map<std::string, std::pair<int, const dvec*> > Fields; // components, values

static bool check_vtu(const std::string& text, const UnstructuredGrid& g, const Fields& F, const std::string& d)
{
    Node root; Xml x(text); if (!CHK(x.document(root), "vtu-wellformed", cat(d, ": ", x.err))) return false;
    const Node *ug = root.kid("UnstructuredGrid"), *pc = ug ? ug->kid("Piece") : 0; if (!CHK(root.name == "VTKFile" && root.at["type"] == "UnstructuredGrid" && root.kids.size() == 1 && pc && ug->kids.size() == 1, "vtu-structure", d)) return false;
    int nc = g.number_of_cells, nn = g.number_of_nodes; if (!CHK(pc->at.count("NumberOfPoints") && pc->at.count("NumberOfCells") && pc->at.at("NumberOfPoints") == cat(nn) && pc->at.at("NumberOfCells") == cat(nc), "vtu-counts", d)) return false;
    const Node *pts = pc->kid("Points"), *cl = pc->kid("Cells"), *cd = pc->kid("CellData"); if (!CHK(pts && cl && cd && pts->kids.size() == 1 && cl->kids.size() == 5 && cd->kids.size() == F.size(), "vtu-structure", cat(d, ": ", cd ? cd->kids.size() : 0, " fields of ", F.size()))) return false;
    dvec v; auto arr = [&](const Node* n, const char* type, int comp, const char* what) -> bool { return CHK(n && n->name == "DataArray" && n->at.count("type") && n->at.at("type") == type && n->at.count("format") && n->at.at("format") == "ascii" && n->at.count("NumberOfComponents") && n->at.at("NumberOfComponents") == cat(comp) && n->kids.empty() && numbers(n->text, v), "vtu-array", cat(d, ": ", what)); };
    if (!arr(&pts->kids[0], "Float64", 3, "points")) return false; if (!CHK((int)v.size() == 3 * nn, "vtu-points", cat(d, ": ", v.size(), " coordinates of ", nn, " nodes"))) return false; for (int i = 0; i < 3 * nn; ++i) if (!CHK(within(v[i], g.node_coordinates[i], 12), "vtu-points", cat(d, ": coordinate ", i, " is ", g17(v[i]), " not ", g17(g.node_coordinates[i])))) return false; ev("vtu_points", nn);
    if (!arr(cl->kid("DataArray", "connectivity"), "Int32", 1, "connectivity")) return false; dvec con = v; if (!arr(cl->kid("DataArray", "offsets"), "Int32", 1, "offsets")) return false; dvec off = v; if (!CHK((int)off.size() == nc && (nc == 0 || off[nc - 1] == con.size()), "vtu-offsets", cat(d, ": ", off.size(), " offsets, ", con.size(), " corners"))) return false;
    for (int c = 0; c < nc; ++c) { std::set<int> want; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; want.insert(g.face_nodes + g.face_nodepos[f], g.face_nodes + g.face_nodepos[f + 1]); } double b = c ? off[c - 1] : 0; std::set<int> got; bool ok = off[c] - b == want.size(); if (ok) for (int k = (int)b; k < (int)off[c]; ++k) got.insert((int)con[k]); if (!CHK(ok && got == want, "vtu-connectivity", cat(d, ": cell ", c))) return false; }
    if (!arr(cl->kid("DataArray", "faces"), "Int32", 1, "faces")) return false; dvec fs = v; if (!arr(cl->kid("DataArray", "faceoffsets"), "Int32", 1, "faceoffsets")) return false; if (!CHK((int)v.size() == nc, "vtu-faceoffsets", d)) return false;
    size_t at = 0; for (int c = 0; c < nc; ++c) { int nf = g.cell_facepos[c + 1] - g.cell_facepos[c]; bool ok = at < fs.size() && fs[at++] == nf; std::multiset<std::vector<int> > want, got; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; want.insert(std::vector<int>(g.face_nodes + g.face_nodepos[f], g.face_nodes + g.face_nodepos[f + 1])); } for (int k = 0; ok && k < nf; ++k) { ok = at < fs.size(); int n = ok ? (int)fs[at++] : 0; ok = ok && n >= 0 && at + n <= fs.size(); if (!ok) break; std::vector<int> p; for (int j = 0; j < n; ++j) p.push_back((int)fs[at++]); got.insert(p); } if (!CHK(ok && got == want && v[c] == at, "vtu-faces", cat(d, ": cell ", c))) return false; } if (!CHK(at == fs.size(), "vtu-faces", cat(d, ": ", fs.size(), " numbers, ", at, " expected"))) return false;
    if (!arr(cl->kid("DataArray", "types"), "UInt8", 1, "types")) return false; if (!CHK((int)v.size() == nc && std::count(v.begin(), v.end(), 42.0) == nc, "vtu-types", d)) return false;
    for (auto& f : F) { const Node* n = cd->kid("DataArray", f.first); if (!arr(n, "Float64", f.second.first, f.first.c_str())) return false; const dvec& w = *f.second.second; if (!CHK(v.size() == w.size(), "vtu-field", cat(d, ": field ", f.first, " has ", v.size(), " values of ", w.size()))) return false; for (size_t i = 0; i < w.size(); ++i) { double want = std::fabs(w[i]) < std::numeric_limits<double>::min() ? 0 : w[i]; if (!CHK(within(v[i], want, 12), "vtu-field", cat(d, ": field ", f.first, " item ", i, " is ", g17(v[i]), " not ", g17(w[i])))) return false; } ev("vtu_values", w.size()); }
    if (cd->at.count("Scalars")) CHK(F.count(cd->at.at("Scalars")), "vtu-scalars", cat(d, ": default scalars ", cd->at.at("Scalars"))); ev("vtu_files"); return true;
}

// ---- the files below a directory
static std::map<std::string, std::string>* walkmap = 0; static std::set<std::string>* walkdirs = 0;
static int visit(const char* p, const struct stat*, int type) { std::string n = p; if (n.compare(0, 2, "./") == 0) n = n.substr(2); if (type == FTW_F || type == FTW_SL) (*walkmap)[n] = slurp(p); else if (n != ".") walkdirs->insert(n); return 0; }
static std::map<std::string, std::string> tree(std::set<std::string>* dirs = 0) { std::map<std::string, std::string> m; std::set<std::string> ds; walkmap = &m; walkdirs = &ds; ftw(".", visit, 16); if (dirs) *dirs = ds; return m; }
static void clean() { char b[4096]; std::string w = getcwd(b, sizeof b) ? b : ""; const std::string tail = "/p29work"; if (w.size() < tail.size() || w.compare(w.size() - tail.size(), tail.size(), tail) != 0) _exit(79); (void)!system("find . -mindepth 1 -delete 2>/dev/null"); } // only ever inside the work directory

static double wild(Rng& r) { switch (r.i(0, 6)) { case 0: return 0; case 1: return r.u(-1, 1); case 2: return std::ldexp(r.u(-0.9, 0.9), r.i(-1074, 1023)); case 3: return r.i(-1000, 1000); case 4: return r.p(0.5) ? 5e-324 : -std::numeric_limits<double>::min(); case 5: return (r.p(0.5) ? 1 : -1) * (r.p(0.5) ? 1.7e308 : std::numeric_limits<double>::min() / 2); default: return r.logu(1e-8, 1e9); } }
static const char* NAMES[] = {"saturation", "pressure", "velocity", "surfvolume", "porosity", "tof", "x", "zz_9"};

static void direct(Rng& r)
{
    Opm::DataMap dm; std::map<std::string, dvec> data; int nf = r.i(0, 5);
    if (r.p(0.25)) { // structured variant
        std::tr1::array<int, 3> dims; std::tr1::array<double, 3> cs; int nc = 1; for (int k = 0; k < 3; ++k) { dims[k] = r.i(1, r.p(0.2) ? 9 : 4); nc *= dims[k]; cs[k] = r.logu(1e-3, 1e4); } std::map<std::string, int> comps;
        for (int f = 0; f < nf; ++f) { std::string n = NAMES[r.i(0, 7)]; int m = r.i(1, 3); comps[n] = m; dvec v(nc * m); for (double& x : v) x = wild(r); data[n] = v; } for (auto& x : data) dm[x.first] = &x.second;
        int prec = r.p(0.5) ? 6 : r.i(3, 17); std::ostringstream os; os.precision(prec); Opm::writeVtkData(dims, cs, dm, os); std::vector<std::string> w = words(os.str().substr(std::min(os.str().size(), os.str().find("DATASET")))); std::string d = cat("structured ", dims[0], "x", dims[1], "x", dims[2], " precision ", prec); nontrivial(hstr(os.str())); size_t i = 0; double x = 0;
        auto word = [&](const std::string& s) { return CHK(i < w.size() && w[i] == s, "structured-layout", cat(d, ": expected ", s, ", found ", i < w.size() ? w[i] : "nothing")) && ++i; }; auto num = [&](double want, const char* key) { bool ok = i < w.size() && number(w[i], x); ++i; return CHK(ok && within(x, want, prec), key, cat(d, ": ", i - 1 < w.size() ? w[i - 1] : "nothing", " instead of ", want)); };
        if (!CHK(os.str().compare(0, 5, "# vtk") == 0, "structured-layout", d)) return; if (!word("DATASET") || !word("STRUCTURED_POINTS") || !word("DIMENSIONS")) return; for (int k = 0; k < 3; ++k) if (!num(dims[k] + 1, "structured-dimensions")) return; if (!word("ORIGIN")) return; for (int k = 0; k < 3; ++k) if (!num(0, "structured-layout")) return; if (!word("SPACING")) return; for (int k = 0; k < 3; ++k) if (!num(cs[k], "structured-spacing")) return; if (!word("CELL_DATA") || !num(nc, "structured-counts")) return;
        for (auto& f : data) { if (!word("SCALARS") || !word(f.first) || !word("float") || !word("LOOKUP_TABLE") || !word(f.first + "_table")) return; int m = comps[f.first]; for (int c = 0; c < nc; ++c) if (!num(f.second[c * m], "structured-values")) return; ev("structured_values", nc); } CHK(i == w.size(), "structured-counts", cat(d, ": ", w.size() - i, " more words")); ev("structured_files"); return;
    }
    std::string kind; GridPtr gp; if (r.p(0.3)) { gp = arrangement_grid(r, 3, r.i(0, 6)); kind = cat("polyhedral ", gp->number_of_cells); } else gp = random_grid(r, 5, &kind, true); const UnstructuredGrid& g = *gp; int nc = g.number_of_cells; Fields F;
    for (int f = 0; f < nf; ++f) { std::string n = NAMES[r.i(0, 7)]; int m = r.p(0.5) ? 1 : r.i(2, 7); dvec v(nc * m); for (double& x : v) x = wild(r); data[n] = v; F[n].first = m; } for (auto& x : data) { dm[x.first] = &x.second; F[x.first].second = &x.second; }
    std::ostringstream os; if (r.p(0.3)) os.precision(r.i(2, 17)); bool ok = true; try { Quiet q; Opm::writeVtkData(g, dm, os); } catch (const std::exception&) { ok = false; }
    if (g.dimensions != 3) { CHK(!ok, "vtu-2d", kind); ev("vtu_2d_refused"); return; } if (!CHK(ok, "vtu-refused", kind)) return; nontrivial(hstr(os.str())); check_vtu(os.str(), g, F, cat(kind, " direct"));
}

static void stopwatch(Rng& r)
{
    Opm::time::StopWatch w; Quiet q; int state = 0; double lastStart = 0; for (int k = 0; k < 12; ++k) { int op = r.i(0, 3); bool threw = false; double t = 0; try { if (op == 0) w.start(); else if (op == 1) w.stop(); else if (op == 2) t = w.secsSinceStart(); else t = w.secsSinceLast(); } catch (const std::exception&) { threw = true; }
        bool want = (op == 1 && state != 1) || (op >= 2 && state == 0); if (!CHK(threw == want, "stopwatch-order", cat("operation ", op, " in state ", state))) return; if (!threw) { if (op == 0) { state = 1; lastStart = 0; } if (op == 1) state = 2; if (op == 2) { CHK(t >= lastStart && t < 3600, "stopwatch-time", cat(t, " after ", lastStart)); lastStart = t; } if (op == 3) CHK(t >= 0 && t < 3600, "stopwatch-time", cat(t)); } ev("stopwatch_operations"); }
}

static void velocity(const UnstructuredGrid& g, const dvec& flux, dvec& v, dvec& scale)
{
    int d = g.dimensions; v.assign(g.number_of_cells * d, 0.0); scale = v;
    for (int c = 0; c < g.number_of_cells; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) { int f = g.cell_faces[k]; double q = g.face_cells[2 * f] == c ? flux[f] : -flux[f]; for (int j = 0; j < d; ++j) { double x = q * (g.face_centroids[d * f + j] - g.cell_centroids[d * c + j]) / g.cell_volumes[c]; v[d * c + j] += x; scale[d * c + j] += std::fabs(x) + std::fabs(q / g.cell_volumes[c]) * 1e-3 * std::fabs(g.cell_centroids[d * c + j]); } }
}

static void simulated(long k, Rng& r)
{
    bool comp = k % 2; Case c = make(r, comp, 4); bool longrun = k % 800 < 2;
    if (longrun) { while (c.g->number_of_cells > 12 || c.g->dimensions != 3) c = make(r, comp, 4); double s = 0; for (double x : c.steps) s += x; int m = r.i(1001, 1010); c.steps.assign(m, 0); for (double& x : c.steps) x = std::floor(1e6 * s / m / 86400 * r.u(0.5, 1.5) + 1) / 1e6 * 86400; ev("runs_over_1000_steps"); }
    const UnstructuredGrid& g = *c.g; int nc = g.number_of_cells; size_t n = c.steps.size(); std::string d = describe(c); Params off; off["output"] = "false"; clean();
    // the states, one step at a time
    std::vector<Snap> S; std::vector<std::string> T; std::string why, alltext; Snap full;
    try { Quiet q; { Runner A(c, off); A.run(c.steps, 0); full = A.state(); alltext = A.text; } Runner X(c, off); S.push_back(X.state()); for (size_t i = 0; i < n; ++i) { dvec pre(c.steps.begin(), c.steps.begin() + i + 1); X.run(pre, i); S.push_back(X.state()); } } catch (const std::exception&) { ev("refused_runs"); return; }
    if (!same(full, S.back(), why)) { ev("stepwise_differs_no_verdict"); return; } // judged by the property about restarts
    Params o; std::string dir = "output"; if (r.p(0.8)) { dir = r.pick(std::vector<std::string>{"out", "a/b/c", "./x", "res.d", "a b", "out/"}); o["output_dir"] = dir; } if (r.p(0.5)) o["output"] = "true"; bool vtk = true; if (g.dimensions != 3 || r.p(0.4)) { vtk = false; o["output_vtk"] = "false"; } else if (r.p(0.3)) o["output_vtk"] = "true"; int every = 1; if (r.p(0.5)) { every = r.i(1, 4); o["output_interval"] = cat(every); } if (longrun) { every = r.i(180, 520); o["output_interval"] = cat(every); vtk = true; o.erase("output_vtk"); }
    std::string D = dir; if (D.compare(0, 2, "./") == 0) D = D.substr(2); while (D.size() && D[D.size() - 1] == '/') D.erase(D.size() - 1);
    std::set<int> shown; for (size_t i = 0; i < n; ++i) if (i % every == 0) shown.insert(i); shown.insert(n); auto num3 = [](int i) { char b[20]; snprintf(b, sizeof b, "%03d", i); return std::string(b); };
    std::vector<std::string> fields = {"saturation", "pressure", "velocity"}; if (comp) fields.push_back("surfvolume"); bool reorder = !comp && c.reorder; std::set<std::string> want; for (int i : shown) { for (auto& f : fields) want.insert(D + "/" + f + "/" + num3(i) + ".txt"); if (reorder) want.insert(D + "/reorder_it/" + num3(i) + ".txt"); if (vtk) want.insert(D + "/vtk_files/output-" + num3(i) + ".vtu"); } want.insert(D + "/watercut.txt"); if (c.W.w) want.insert(D + "/wellreport.txt"); want.insert(D + "/step_timing.param");
    d = cat(d, ", output"); for (auto& x : o) d += " " + x.first + "=" + x.second; nontrivial(hstr(d));
    spit("decoy.txt", "decoy"); Runner::timer(*std::unique_ptr<Opm::SimulatorTimer>(new Opm::SimulatorTimer), c.steps, 0); // leaves timer.data behind
    // a destination that cannot be written
    std::vector<std::string> wl(want.begin(), want.end()); bool fault = r.p(0.4) && !longrun; std::string victim; int how = 0;
    if (fault) {
        how = r.i(0, 3); victim = wl[r.i(0, wl.size() - 1)]; if (how == 0) { victim = victim.substr(0, victim.rfind('/')); if (r.p(0.3)) victim = D; std::string up = victim.find('/') == std::string::npos ? "." : victim.substr(0, victim.rfind('/')); (void)!system(("mkdir -p '" + up + "' && echo file > '" + victim + "'").c_str()); } // a file where a directory is needed
        else { std::string up = victim.substr(0, victim.rfind('/')); (void)!system(("mkdir -p '" + up + "'").c_str()); if (how == 1) mkdir(victim.c_str(), 0755); else if (how == 2) { if (symlink("/dev/full", victim.c_str())) {} } else if (symlink("/proc/self/no/such/place", victim.c_str())) {} } // a directory in place of the file, a full disk, a destination that does not exist
        d += cat(", fault ", how, " at ", victim);
    }
    bool threw = false; std::string text; Snap end; try { Quiet q; Runner X(c, o); X.run(c.steps, 0); text = X.text; end = X.state(); } catch (const std::exception&) { threw = true; }
    if (fault) { static const char* kn[4] = {"file-for-directory", "directory-for-file", "full-disk", "missing-destination"}; std::string what = victim.find("step_timing") != std::string::npos ? "-timing-log" : ""; ev(cat("fault_", kn[how])); CHK(threw, cat("unreported-failure:", kn[how], what), d); return; }
    if (!CHK(!threw, "output-refused", d)) return; if (!CHK(same(full, end, why), "output-influence", cat(d, ": ", why))) return;
    std::map<std::string, std::string> M = tree(); if (!CHK(M.count("decoy.txt") && M["decoy.txt"] == "decoy", "outside-directory", d)) return; M.erase("decoy.txt"); M.erase("timer.data");
    for (auto& f : M) if (!CHK(want.count(f.first), "unexpected-file", cat(d, ": ", f.first))) return; for (auto& f : want) if (!CHK(M.count(f), "missing-file", cat(d, ": ", f))) return; ev("files", M.size()); if (longrun) ev("files_over_1000_steps", M.size());
    for (int i : shown) {
        const Snap& s = S[i]; dvec vel, scale, v; velocity(g, s.ff, vel, scale); Fields F; F["saturation"] = {2, &s.s}; F["pressure"] = {1, &s.p}; F["velocity"] = {g.dimensions, &vel};
        for (auto& f : fields) {
            if (!CHK(numbers(M[D + "/" + f + "/" + num3(i) + ".txt"], v), "state-format", cat(d, ": ", f, " ", i))) return; const dvec& w = f == "saturation" ? s.s : f == "pressure" ? s.p : f == "velocity" ? vel : s.z; if (!CHK(v.size() == w.size(), "state-count", cat(d, ": ", f, " ", i, " has ", v.size(), " of ", w.size()))) return;
            for (size_t j = 0; j < w.size(); ++j) { bool ok = within(v[j], w[j], 15); if (f == "velocity") ok = ok || std::fabs(v[j] - w[j]) <= 1e-11 * scale[j]; if (!CHK(ok, cat("state-value:", f), cat(d, ": step ", i, " item ", j, " is ", g17(v[j]), " not ", g17(w[j])))) return; } ev("state_values", w.size()); ev("state_files"); if (f == "velocity") vel = v;
        }
        if (vtk && !check_vtu(M[D + "/vtk_files/output-" + num3(i) + ".vtu"], g, F, cat(d, " step ", i))) return;
        if (reorder) { if (!CHK(numbers(M[D + "/reorder_it/" + num3(i) + ".txt"], v) && (int)v.size() == nc, "iteration-count", cat(d, " step ", i))) return; for (double x : v) if (!CHK(x >= 0 && x == std::floor(x) && (i || x == 0), "iteration-value", cat(d, " step ", i, ": ", x))) return; ev("iteration_files"); }
    }
    // water cut
    { std::vector<dvec> rows; std::istringstream in(M[D + "/watercut.txt"]); std::string l; while (std::getline(in, l)) { dvec v; if (!CHK(numbers(l, v) && v.size() == 3, "watercut-format", cat(d, ": ", l))) return; rows.push_back(v); } if (!CHK(rows.size() == n + 1, "watercut-rows", cat(d, ": ", rows.size(), " rows for ", n, " steps"))) return;
      std::vector<dvec> pr = printed(alltext, comp ? "    Produced surface volumes:" : "    Produced volumes:"), tp = printed(alltext, comp ? "    Total prod surface volumes:" : "    Total prod volumes:"); if (!CHK(pr.size() == n && tp.size() == n, "reports", d)) return; dvec pv0 = c.porevol(c.p0); double PV = std::accumulate(pv0.begin(), pv0.end(), 0.0), t = 0; CHK(rows[0][0] == 0 && rows[0][1] == 0 && rows[0][2] == 0, "watercut-start", d);
      for (size_t i = 0; i < n; ++i) { t += c.steps[i]; if (!CHK(within(rows[i + 1][0], t / 86400, 6) || std::fabs(rows[i + 1][0] - t / 86400) < 1e-5 * t / 86400, "watercut-time", cat(d, ": row ", i + 1, " time ", rows[i + 1][0], " not ", t / 86400))) return; double a = pr[i][0], b = pr[i][1]; if (a + b > 0) { if (!CHK(std::fabs(rows[i + 1][1] - a / (a + b)) <= 2e-4 * a / (a + b), "watercut-fraction", cat(d, ": row ", i + 1, " fraction ", rows[i + 1][1], " produced ", a, " ", b))) return; ev("watercut_fractions"); } double w = tp[i][0] / (comp ? PV : 1); if (!CHK(std::fabs(rows[i + 1][2] - w) <= 2e-4 * std::fabs(w), "watercut-cumulative", cat(d, ": row ", i + 1, " cumulative ", rows[i + 1][2], " not ", w))) return; ev("watercut_rows"); } }
    // well report
    if (c.W.w) {
        int nw = c.W->number_of_wells; std::vector<dvec> rows; std::istringstream in(M[D + "/wellreport.txt"]); std::string l; while (std::getline(in, l)) { dvec v; if (!CHK(numbers(l, v) && (int)v.size() == 1 + 3 * nw, "wellreport-format", cat(d, ": ", l))) return; rows.push_back(v); } if (!CHK(rows.size() == n + 1, "wellreport-rows", cat(d, ": ", rows.size(), " rows for ", n, " steps"))) return; double t = 0;
        for (size_t i = 0; i <= n; ++i) { if (i) t += c.steps[i - 1]; if (!CHK(std::fabs(rows[i][0] - t / 86400) <= 1e-5 * t / 86400, "wellreport-time", cat(d, ": row ", i, " time ", rows[i][0], " not ", t / 86400))) return; const Snap& s = S[i];
            for (int w = 0; w < nw; ++w) {
                if (!CHK(within(rows[i][1 + 3 * w], s.bhp[w] / 1e5, 6), "wellreport-bhp", cat(d, ": row ", i, " well ", w, " ", rows[i][1 + 3 * w], " not ", s.bhp[w] / 1e5))) return; double q = 0, qa = 0, qw = 0; bool ok = true;
                for (int p = c.W->well_connpos[w]; p < c.W->well_connpos[w + 1]; ++p) { int cell = c.W->well_cells[p]; double x = s.pr[p] * 86400, f = x > 0 ? c.W->comp_frac[2 * w] : c.fw(cell, s.s[2 * cell], s.p[cell]); if (x != 0 && !(f >= 0)) ok = false; q += x; qa += std::fabs(x); if (x != 0) qw += x * f; }
                if (!CHK(std::fabs(rows[i][2 + 3 * w] - q) <= 5.01e-6 * std::fabs(q) + 1e-12 * qa, "wellreport-rate", cat(d, ": row ", i, " well ", w, " ", rows[i][2 + 3 * w], " not ", q))) return; if (ok && std::fabs(q) > 1e-3 * qa && qa > 0) { if (!CHK(std::fabs(rows[i][3 + 3 * w] - qw / q) <= 5.01e-6 * std::fabs(qw / q) + 1e-9, "wellreport-fraction", cat(d, ": row ", i, " well ", w, " ", rows[i][3 + 3 * w], " not ", qw / q))) return; ev("wellreport_fractions"); } ev("wellreport_entries"); } }
    }
    // timing log: one group of three lines per step
    { std::vector<std::string> L; std::istringstream in(M[D + "/step_timing.param"]); std::string l; while (std::getline(in, l)) L.push_back(l); if (!CHK(L.size() == 3 * n, "timing-rows", cat(d, ": ", L.size(), " lines for ", n, " steps"))) return; static const char* key[3] = {"/timing/total_time=", "/timing/pressure/total_time=", "/timing/transport/total_time="}; for (size_t i = 0; i < L.size(); ++i) { double x = -1; if (!CHK(L[i].compare(0, std::strlen(key[i % 3]), key[i % 3]) == 0 && number(L[i].substr(std::strlen(key[i % 3])), x) && x >= 0, "timing-format", cat(d, ": ", L[i]))) return; } ev("timing_rows", L.size()); }
    ev(comp ? "compressible_outputs" : "incompressible_outputs"); sample(d);
}

int main(int argc, char** argv)
{
    mkdir("p29work", 0755); if (chdir("p29work")) return 79;
    return run(argc, argv, "p29", [](long k, Rng& r) { if (k % 5 < 3) { direct(r); if (k % 15 == 0) stopwatch(r); } else simulated(k / 5 * 2 + k % 5 - 3, r); });
}
