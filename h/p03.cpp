// P03: grids read from text files, decks (corner-point, block sizes), VAG files, and cut out of decks, against the description they were made from.
#include "config.h"
#include "gridlib.hpp"
#include "polygrid.hpp"
#include "deck.hpp"
#include <cstring>
#include <cerrno>
#include <fstream>
#include <climits>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/vag/vag.hpp>
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
using namespace gl;
typedef std::vector<double> dvec;
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };

// ---- a grid as plain data ----
struct Data {
    int d = 0, nc = 0, nf = 0, nn = 0, tag = 0, map = 0; std::vector<int> dims, fnp, fn, fc, cfp, cf, ct, gc; dvec xyz, fa, fcen, fnrm, vol, ccen;
    bool operator==(const Data& o) const { auto eq = [](const dvec& a, const dvec& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof(double))); }; return d == o.d && nc == o.nc && nf == o.nf && nn == o.nn && dims == o.dims && fnp == o.fnp && fn == o.fn && fc == o.fc && cfp == o.cfp && cf == o.cf && ct == o.ct && gc == o.gc && eq(xyz, o.xyz) && eq(fa, o.fa) && eq(fcen, o.fcen) && eq(fnrm, o.fnrm) && eq(vol, o.vol) && eq(ccen, o.ccen); }
};
template <class T> static std::vector<T> arr(const T* p, size_t n) { return p ? std::vector<T>(p, p + n) : std::vector<T>(); }
static Data data(const UnstructuredGrid& g)
{
    Data a; a.d = g.dimensions; a.nc = g.number_of_cells; a.nf = g.number_of_faces; a.nn = g.number_of_nodes; a.dims = arr(g.cartdims, 3);
    a.fnp = arr(g.face_nodepos, a.nf + 1); a.fn = arr(g.face_nodes, a.fnp.back()); a.fc = arr(g.face_cells, 2 * a.nf); a.cfp = arr(g.cell_facepos, a.nc + 1); a.cf = arr(g.cell_faces, a.cfp.back()); a.ct = arr(g.cell_facetag, a.cfp.back()); a.gc = arr(g.global_cell, a.nc); a.tag = g.cell_facetag != 0; a.map = g.global_cell != 0;
    a.xyz = arr(g.node_coordinates, a.d * a.nn); a.fa = arr(g.face_areas, a.nf); a.fcen = arr(g.face_centroids, a.d * a.nf); a.fnrm = arr(g.face_normals, a.d * a.nf); a.vol = arr(g.cell_volumes, a.nc); a.ccen = arr(g.cell_centroids, a.d * a.nc); return a;
}
static std::string diff(const Data& a, const Data& b) { std::string s; auto I = [&](const char* n, const std::vector<int>& x, const std::vector<int>& y) { if (x != y) s += cat(n, " ", vec(x, 12), " expected ", vec(y, 12), "; "); }; auto D = [&](const char* n, const dvec& x, const dvec& y) { if (x.size() != y.size()) { s += cat(n, " sizes ", x.size(), " ", y.size(), "; "); return; } for (size_t i = 0; i < x.size(); ++i) if (memcmp(&x[i], &y[i], 8)) { s += cat(n, "[", i, "] = ", x[i], " expected ", y[i], "; "); return; } };
    if (a.d != b.d || a.nc != b.nc || a.nf != b.nf || a.nn != b.nn) s += cat("counts ", a.d, " ", a.nc, " ", a.nf, " ", a.nn, " expected ", b.d, " ", b.nc, " ", b.nf, " ", b.nn, "; "); I("cartdims", a.dims, b.dims); I("face_nodepos", a.fnp, b.fnp); I("face_nodes", a.fn, b.fn); I("face_cells", a.fc, b.fc); I("cell_facepos", a.cfp, b.cfp); I("cell_faces", a.cf, b.cf); I("cell_facetag", a.ct, b.ct); I("global_cell", a.gc, b.gc); D("nodes", a.xyz, b.xyz); D("areas", a.fa, b.fa); D("face_centroids", a.fcen, b.fcen); D("normals", a.fnrm, b.fnrm); D("volumes", a.vol, b.vol); D("cell_centroids", a.ccen, b.ccen); return s; }

// ---- text format: tokens in file order ----
static std::string num(Rng& r, double x, int style) { char b[64]; if (style == 1 && r.p(0.3)) snprintf(b, sizeof b, "%.16e", x); else if (style == 1 && r.p(0.1)) snprintf(b, sizeof b, "%.17E", x); else if (style == 1 && r.p(0.1)) snprintf(b, sizeof b, "%+.17g", x); else if (style == 1 && r.p(0.05)) snprintf(b, sizeof b, "%a", x); else snprintf(b, sizeof b, "%.17g", x); return b; }
static std::vector<std::string> tokens(Rng& r, const Data& a, int style)
{
    std::vector<std::string> t; auto I = [&](const std::vector<int>& v) { for (int x : v) t.push_back(cat(x)); }; auto D = [&](const dvec& v) { for (double x : v) t.push_back(num(r, x, style)); };
    I({a.d, a.nc, a.nf, a.nn, (int)a.fn.size(), (int)a.cf.size(), a.tag ? (r.p(0.8) ? 1 : r.i(2, 9)) : 0, a.map ? (r.p(0.8) ? 1 : r.i(2, 9)) : 0}); I(std::vector<int>(a.dims.begin(), a.dims.begin() + a.d));
    D(a.xyz); I(a.fnp); I(a.fn); I(a.fc); D(a.fa); D(a.fcen); D(a.fnrm); I(a.cfp); for (size_t k = 0; k < a.cf.size(); ++k) { t.push_back(cat(a.cf[k])); if (a.tag) t.push_back(cat(a.ct[k])); } I(a.gc); D(a.vol); D(a.ccen); return t;
}
static std::string join(Rng& r, const std::vector<std::string>& t, int style) { std::string s; if (style && r.p(0.3)) s = "\n  "; for (size_t i = 0; i < t.size(); ++i) { s += t[i]; if (i + 1 < t.size() || r.p(0.7)) s += style == 0 ? (i % 8 == 7 ? "\n" : " ") : r.p(0.7) ? " " : r.p(0.5) ? "\n" : r.p(0.4) ? "\t" : r.p(0.5) ? "\r\n" : " \n\n "; } return s; }

// Reference reader. 1 valid, 0 invalid, -1 no verdict (constructs on which C number scanning and token-wise reading may differ).
static int reference(const std::string& s, Data& a)
{
    std::vector<std::string> t; std::istringstream is(s); std::string w; while (is >> w) t.push_back(w); size_t k = 0; int amb = 0;
    auto in = [&](long& v) { if (k >= t.size()) return false; char* e; errno = 0; v = std::strtol(t[k].c_str(), &e, 10); if (e != t[k].c_str() && *e && strchr("0123456789+-.naife", *e)) amb = 1; if (*e || e == t[k].c_str()) return false; if (errno || v > INT_MAX || v < INT_MIN) { amb = 1; return false; } ++k; return true; };
    auto db = [&](double& v) { if (k >= t.size()) return false; char* e; v = std::strtod(t[k].c_str(), &e); if (*e && e != t[k].c_str()) amb = 1; if (*e || e == t[k].c_str()) return false; ++k; return true; };
    auto ins = [&](std::vector<int>& v, size_t n) { v.clear(); for (size_t i = 0; i < n; ++i) { long x; if (!in(x)) return false; v.push_back((int)x); } return true; };
    auto dbs = [&](dvec& v, size_t n) { v.clear(); for (size_t i = 0; i < n; ++i) { double x; if (!db(x)) return false; v.push_back(x); } return true; };
    auto pos = [](const std::vector<int>& v, long n) { if (v[0] != 0 || v.back() != n) return false; for (size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) return false; return true; };
    auto rng = [](const std::vector<int>& v, int lo, int hi) { for (int x : v) if (x < lo || x >= hi) return false; return true; };
    long h[6]; for (long& x : h) if (!in(x)) return amb ? -1 : 0; if (h[0] < 1 || h[0] > 3) return 0; for (long x : h) if (x < 0 || x > INT_MAX / 3 - 1) return 0;
    long tg, mp; if (!in(tg) || !in(mp)) return amb ? -1 : 0; a.tag = tg != 0; a.map = mp != 0; a.d = h[0]; a.nc = h[1]; a.nf = h[2]; a.nn = h[3];
    bool ok = ins(a.dims, a.d) && dbs(a.xyz, (size_t)a.d * a.nn) && ins(a.fnp, a.nf + 1) && pos(a.fnp, h[4]) && ins(a.fn, h[4]) && rng(a.fn, 0, a.nn) && ins(a.fc, 2 * (size_t)a.nf) && rng(a.fc, -1, a.nc) && dbs(a.fa, a.nf) && dbs(a.fcen, (size_t)a.d * a.nf) && dbs(a.fnrm, (size_t)a.d * a.nf) && ins(a.cfp, a.nc + 1) && pos(a.cfp, h[5]);
    if (ok) { a.cf.clear(); a.ct.clear(); for (long i = 0; i < h[5] && ok; ++i) { long x, y; ok = in(x); if (ok) a.cf.push_back((int)x); if (ok && a.tag) { ok = in(y); if (ok) a.ct.push_back((int)y); } } ok = ok && rng(a.cf, 0, a.nf); }
    if (ok && a.map) ok = ins(a.gc, a.nc); ok = ok && dbs(a.vol, a.nc) && dbs(a.ccen, (size_t)a.d * a.nc); if (!ok) return amb ? -1 : 0; while (a.dims.size() < 3) a.dims.push_back(1); return 1;
}
static GridPtr some_grid(Rng& r, int maxn) { for (;;) { int w = r.i(0, 9); if (w < 6) return random_grid(r, maxn); GridPtr g = arrangement_grid(r, r.i(2, 3), r.i(0, 4)); if (!g.g) continue; if (w < 8) return g; std::vector<int> perm(g->number_of_cells); for (size_t i = 0; i < perm.size(); ++i) perm[i] = i; r.shuffle(perm); return renumber(*g, perm, &r); } }

static Data make_data(Rng& r, int maxn)
{
    GridPtr g = some_grid(r, maxn); Data a = data(*g);
    if (r.p(0.3)) { a.tag = !a.tag; a.ct.clear(); if (a.tag) for (size_t i = 0; i < a.cf.size(); ++i) a.ct.push_back(r.i(0, 2 * a.d - 1)); } if (r.p(0.3)) { a.map = !a.map; a.gc.clear(); if (a.map) for (int i = 0; i < a.nc; ++i) a.gc.push_back(i); }
    if (r.p(0.3)) for (dvec* v : {&a.xyz, &a.fa, &a.fcen, &a.fnrm, &a.vol, &a.ccen}) for (double& x : *v) if (r.p(0.4)) x = (r.p(0.5) ? -1 : 1) * (r.p(0.1) ? 0.0 : r.p(0.1) ? 5e-324 * r.i(1, 1000) : r.p(0.1) ? 1.7976931348623157e308 : r.logu(1e-30, 1e30));
    if (a.d == 2) a.dims[2] = 1; return a;
}
static void compare_reads(const std::string& f, const Data& a, const std::string& key, const std::string& ctx)
{
    Quiet q; UnstructuredGrid* g = read_grid(f.c_str()); if (CHK(g != 0, key + ":refused", cat(ctx, " valid file refused by read_grid"))) { GridPtr p(g); Data b = data(*g); CHK(b == a, key + ":differs", cat(ctx, " read_grid: ", diff(b, a))); CHK((g->cell_facetag != 0) == (a.tag != 0) && (g->global_cell != 0) == (a.map != 0), key + ":optional", ctx + " optional arrays"); }
    try { Opm::GridManager m(f); Data b = data(*m.c_grid()); CHK(b == a, key + ":manager", cat(ctx, " GridManager: ", diff(b, a))); } catch (const std::exception&) { violate(key + ":manager-refused", ctx + " valid file refused by GridManager"); }
}
static void text_roundtrip(Rng& r, const std::string& dir)
{
    Data a = make_data(r, r.p(0.1) ? 7 : 4); int style = r.i(0, 1); std::string s = join(r, tokens(r, a, style), style); if (r.p(0.1)) s += "\n"; std::string f = dir + "/g.txt"; spit(f, s); nontrivial(hstr(s)); ev("text_roundtrips"); ev("text_values", (long)(a.xyz.size() + a.fn.size() + a.cf.size() + a.fcen.size() + a.fnrm.size() + a.ccen.size()));
    compare_reads(f, a, "text", cat(a.d, "-D grid of ", a.nc, " cells"));
    Data b; CHK(reference(s, b) == 1 && b == a, "machinery:reference", "reference reader disagrees with the writer"); // guards the oracle itself
    if (r.p(0.2)) { // reading does not depend on what was read before
        Data c = make_data(r, 3); spit(dir + "/h.txt", join(r, tokens(r, c, 0), 0)); compare_reads(dir + "/h.txt", c, "text2", "second grid"); compare_reads(f, a, "text-again", "same file again"); }
}
static void text_corrupt(Rng& r, const std::string& dir)
{
    Data a = make_data(r, 2); int style = r.p(0.2); std::vector<std::string> t = tokens(r, a, style); std::string f = dir + "/c.txt", s, what;
    for (int rep = 0; rep < 6; ++rep) {
        std::vector<std::string> u = t; int w = r.i(0, 11); bool byte = false; int hdr = 8 + a.d, ncoord = a.d * a.nn; int ibeg = hdr + ncoord, iend = ibeg + a.nf + 1 + (int)a.fn.size() + 2 * a.nf;
        if (w == 0) { s = join(r, u, style); s.resize(r.i(0, (int)s.size())); what = cat("cut to ", s.size(), " bytes"); byte = true; }
        else if (w == 1) { u.resize(r.i(0, (int)u.size() - 1)); what = cat("cut to ", u.size(), " of ", t.size(), " tokens"); }
        else if (w == 2) { int k = r.i(0, (int)u.size() - 1); u.erase(u.begin() + k); what = cat("token ", k, " deleted"); }
        else if (w == 3) { int k = r.i(0, (int)u.size() - 1); u.insert(u.begin() + k, u[k]); what = cat("token ", k, " doubled"); }
        else if (w == 4) { int k = r.i(0, (int)u.size() - 1); static const char* g[] = {"x", "-", "", "abc", "/", "#", "nan", "inf", "*", "\"1\"", ",", "1,5", "--3", "e5", "0x"}; what = cat("token ", k, " garbage ", g[r.i(0, 14)]); u[k] = g[r.i(0, 14)]; what = cat("token ", k, " -> ", u[k]); }
        else if (w == 5) { int k = r.i(0, 7); int v = std::atoi(u[k].c_str()); u[k] = cat(r.p(0.6) ? v + (r.p(0.5) ? 1 : -1) : r.p(0.5) ? r.i(-3, 40) : r.p(0.5) ? r.i(100000, 2000000000) : -r.i(1, 2000000000)); what = cat("header ", k, " ", t[k], " -> ", u[k]); }
        else if (w == 6) { int k = r.i(ibeg, iend - 1); int v = std::atoi(u[k].c_str()); u[k] = cat(r.p(0.4) ? v + (r.p(0.5) ? 1 : -1) : r.p(0.5) ? -r.i(1, 3) : r.p(0.5) ? r.i(0, 60) : r.i(1000, 2147483647)); what = cat("index ", k, " ", t[k], " -> ", u[k]); }
        else if (w == 7) { int b0 = iend + a.nf * (1 + 2 * a.d), e0 = b0 + a.nc + 1 + (int)a.cf.size() * (1 + a.tag); int k = r.i(b0, e0 - 1); int v = std::atoi(u[k].c_str()); u[k] = cat(r.p(0.4) ? v + (r.p(0.5) ? 1 : -1) : r.p(0.5) ? -r.i(1, 3) : r.p(0.5) ? r.i(0, 60) : r.i(1000, 2147483647)); what = cat("cell index ", k, " ", t[k], " -> ", u[k]); }
        else if (w == 8) { int k = r.i(0, (int)u.size() - 1), l = r.i(0, (int)u.size() - 1); std::swap(u[k], u[l]); what = cat("tokens ", k, " and ", l, " swapped"); }
        else if (w == 9) { int k = r.i(0, (int)u.size() - 1), l = std::min<int>(u.size(), k + r.i(1, 20)); u.erase(u.begin() + k, u.begin() + l); what = cat("tokens ", k, "..", l, " deleted"); }
        else if (w == 10) { u[6] = cat(!std::atoi(u[6].c_str())); if (r.p(0.5)) u[7] = cat(!std::atoi(u[7].c_str())); what = "optional sections' flags flipped"; }
        else { static const char* e[] = {"", "\n", " ", "grid", "0 0 0 0 0 0 0 0", "3", "-1 -1 -1", "3 0 0 0 0 0 0 0 1 1 1", "2 0 0 0 0 0 0 0"}; s = e[r.i(0, 8)]; what = "degenerate file '" + s + "'"; byte = true; }
        if (!byte) s = join(r, u, style);
        spit(f, s); nontrivial(hstr(s)); ev("corrupted_files"); Data b; int v = reference(s, b); std::string ctx = cat(a.d, "-D grid of ", a.nc, " cells, ", what);
        if (v == 1) { ev("corruptions_still_valid"); compare_reads(f, b, "altered", ctx); continue; }
        Quiet q; UnstructuredGrid* g = read_grid(f.c_str()); bool thrown = false; try { Opm::GridManager m(f); } catch (const std::exception&) { thrown = true; }
        if (v == 0) { ev("corruptions_reported"); CHK(g == 0, "corrupt:accepted", ctx + " accepted by read_grid"); CHK(thrown, "corrupt:manager-accepted", ctx + " accepted by GridManager"); } else ev("corruptions_ambiguous");
        if (g) destroy_grid(g);
    }
    if (r.p(0.2)) { Quiet q; std::string m = r.p(0.5) ? dir + "/missing.txt" : dir; UnstructuredGrid* g = read_grid(m.c_str()); CHK(g == 0, "missing:accepted", m); bool th = false; try { Opm::GridManager x(m); } catch (const std::exception&) { th = true; } CHK(th, "missing:manager", m); ev("missing_files"); }
}

// ---- decks ----
static CP tilt(Rng& r, CP c) // inclined pillars, keeping faces planar is not needed for comparisons with the library's own construction
{ double ax = r.u(-0.05, 0.05), ay = r.u(-0.05, 0.05); for (int j = 0; j <= c.ny; ++j) for (int i = 0; i <= c.nx; ++i) { double* p = c.pil(i, j); p[3] = p[0] + ax * (p[5] - p[2]); p[4] = p[1] + ay * (p[5] - p[2]); } return c; }
static dk::KW specgrid(Rng& r, int nx, int ny, int nz) { dk::B b("SPECGRID", 'S'); b.in(nx).in(ny).in(nz); if (r.p(0.5)) { b.in(1).grp(); b.str("F", false); } b.end(); return b.k; }
static std::unique_ptr<Opm::EclipseGridParser> parse(Rng& r, const std::string& dir, const std::vector<dk::KW>& ks, const dk::Layout& L, bool si) { dk::Files F; F.dir = dir; std::string txt = dk::render(r, L, ks, &F), f = dir + "/DECK.DATA"; spit(f, txt); nontrivial(hstr(txt)); return std::unique_ptr<Opm::EclipseGridParser>(new Opm::EclipseGridParser(f, si)); }
static void deck_cornerpoint(Rng& r, const std::string& dir)
{
    int nx = r.i(1, 4), ny = r.i(1, 4), nz = r.i(1, 4); CP c; GridPtr ref; bool inclined = r.p(0.3); for (;;) { c = random_cp(r, nx, ny, nz, r.p(0.6), r.p(0.6)); if (inclined) c = tilt(r, c); ref = from_cp(c, 0.0); if (ref.g && ref->number_of_cells > 0) break; }
    bool field = r.p(0.3), dimens = r.p(0.4), both = r.p(0.2), conv = !field ? r.p(0.8) : true; double u = field && conv ? 0.3048 : 1;
    std::vector<dk::KW> ks; if (field) ks.push_back(dk::flag("FIELD")); else if (r.p(0.3)) ks.push_back(dk::flag("METRIC"));
    if (dimens || both) ks.push_back(dk::array_i("DIMENS", {nx, ny, nz})); if (!dimens || both) ks.push_back(specgrid(r, nx, ny, nz)); std::vector<dk::KW> g; g.push_back(dk::array_d("COORD", c.coord, 'L')); g.push_back(dk::array_d("ZCORN", c.zcorn, 'L')); if (c.use_act) g.push_back(dk::array_i("ACTNUM", c.actnum)); if (r.p(0.2)) g.push_back(dk::array_d("MAPAXES", {0, 100, 0, 0, 100, 0}, '1')); if (r.p(0.2)) g.push_back(dk::array_d("PORO", dvec(nx * ny * nz, 0.25), '1')); if (r.p(0.15)) { g.push_back(dk::array_d("DXV", dvec(nx, 1.0), 'L')); g.push_back(dk::array_d("DYV", dvec(ny, 1.0), 'L')); g.push_back(dk::array_d("DZV", dvec(nz, 1.0), 'L')); } r.shuffle(g); ks.insert(ks.end(), g.begin(), g.end());
    dk::CoutCatch cc; std::string ctx = cat("corner-point deck ", nx, "x", ny, "x", nz, field ? " FIELD" : "", c.use_act ? " ACTNUM" : "", inclined ? " inclined" : ""); ev("cornerpoint_decks"); sample(ctx);
    std::unique_ptr<Opm::EclipseGridParser> pp = parse(r, dir, ks, dk::wild(r), conv); Opm::EclipseGridParser& p = *pp;
    try {
        Opm::GridManager m(p); const UnstructuredGrid& G = *m.c_grid(); Data a = data(G), b = data(*ref);
        if (u == 1) CHK(a == b, "cp:differs", cat(ctx, ": ", diff(a, b)));
        else { bool top = a.fnp == b.fnp && a.fn == b.fn && a.fc == b.fc && a.cfp == b.cfp && a.cf == b.cf && a.ct == b.ct && a.gc == b.gc && a.dims == b.dims; CHK(top, "cp:topology", ctx + diff(a, b)); if (top) { for (size_t i = 0; i < a.xyz.size(); ++i) if (!NEAR(a.xyz[i], b.xyz[i] * u, 1e-13, scales(*ref).M * u, "cp:nodes", ctx)) break; for (int i = 0; i < a.nc; ++i) if (!NEAR(a.vol[i], b.vol[i] * u * u * u, 1e-9, 0, "cp:volumes", ctx)) break; } }
        // independent: active cells, their corners and (vertical pillars) volumes
        int k = 0; CHK(G.cartdims[0] == nx && G.cartdims[1] == ny && G.cartdims[2] == nz, "cp:cartdims", cat(ctx, " ", G.cartdims[0], " ", G.cartdims[1], " ", G.cartdims[2]));
        for (int kk = 0; kk < nz; ++kk) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { if (c.use_act && !c.actnum[c.cell(i, j, kk)]) continue;
            if (!CHK(k < G.number_of_cells && G.global_cell[k] == c.cell(i, j, kk), "cp:active", cat(ctx, " cell ", k, " of ", G.number_of_cells, " expected logical ", c.cell(i, j, kk)))) return;
            std::set<std::array<double, 3> > nodes; for (int q = G.cell_facepos[k]; q < G.cell_facepos[k + 1]; ++q) { int f = G.cell_faces[q]; for (int n = G.face_nodepos[f]; n < G.face_nodepos[f + 1]; ++n) { const double* x = G.node_coordinates + 3 * G.face_nodes[n]; nodes.insert({{x[0], x[1], x[2]}}); } }
            if (!inclined) { double dz = 0; for (int cj = 0; cj < 2; ++cj) for (int ci = 0; ci < 2; ++ci) { const double* pl = c.pil(i + ci, j + cj); for (int ck = 0; ck < 2; ++ck) { bool f = false; for (auto& n : nodes) f |= close(n[0], pl[0] * u, 1e-13, 0) && close(n[1], pl[1] * u, 1e-13, 0) && close(n[2], c.z(i, j, kk, ci, cj, ck) * u, 1e-13, 0); if (!CHK(f, "cp:corner", cat(ctx, " corner ", ci, cj, ck, " of cell ", i, ",", j, ",", kk, " is not a node of it"))) return; } dz += 0.25 * (c.z(i, j, kk, ci, cj, 1) - c.z(i, j, kk, ci, cj, 0)) * u; }
                double V = (c.pil(i + 1, j)[0] - c.pil(i, j)[0]) * (c.pil(i, j + 1)[1] - c.pil(i, j)[1]) * u * u * dz; NEAR(G.cell_volumes[k], V, 1e-8, 0, "cp:volume", cat(ctx, " volume of cell ", i, ",", j, ",", kk)); ev("deck_cells"); }
            ++k; }
        CHK(k == G.number_of_cells, "cp:count", cat(ctx, " ", G.number_of_cells, " cells, expected ", k));
    } catch (const std::exception&) { violate("cp:refused", ctx + " valid deck refused: " + cc.e.str().substr(0, 300)); }
}
static void deck_blocks(Rng& r, const std::string& dir)
{
    int n[3] = {r.i(1, 5), r.i(1, 5), r.i(1, 5)}; dvec h[3]; for (int d = 0; d < 3; ++d) { double s = r.logu(0.1, 100); bool uni = r.p(0.4); for (int i = 0; i < n[d]; ++i) h[d].push_back(uni ? s : s * r.u(0.2, 2)); }
    bool field = r.p(0.3), conv = field || r.p(0.8); double u = field ? 0.3048 : 1; int tops = r.i(0, 3); // 0 none 1 TOPS 2 planar DEPTHZ 3 rough DEPTHZ
    dvec x[3]; for (int d = 0; d < 3; ++d) { x[d].assign(1, 0); for (double v : h[d]) x[d].push_back(x[d].back() + v); } dvec dz((n[0] + 1) * (n[1] + 1), 0.0); double t0 = r.p(0.2) ? 0 : r.u(0, 3000), gx = r.u(-0.2, 0.2), gy = r.u(-0.2, 0.2);
    for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) dz[i + (n[0] + 1) * j] = tops == 0 ? 0 : tops == 1 ? t0 : tops == 2 ? t0 + gx * x[0][i] + gy * x[1][j] : t0 + r.u(0, 5);
    std::vector<dk::KW> ks, g; if (field) ks.push_back(dk::flag("FIELD")); if (r.p(0.5)) ks.push_back(dk::array_i("DIMENS", {n[0], n[1], n[2]})); else ks.push_back(specgrid(r, n[0], n[1], n[2]));
    const char* nm[] = {"DXV", "DYV", "DZV"}; for (int d = 0; d < 3; ++d) g.push_back(dk::array_d(nm[d], h[d], 'L')); if (tops == 1) g.push_back(dk::array_d("TOPS", dvec(r.p(0.5) ? n[0] * n[1] : n[0] * n[1] * n[2], t0), 'L')); if (tops >= 2) g.push_back(dk::array_d("DEPTHZ", dz, 'L')); if (r.p(0.1)) g.push_back(dk::array_i("ACTNUM", std::vector<int>(n[0] * n[1] * n[2], 1))); r.shuffle(g); ks.insert(ks.end(), g.begin(), g.end());
    dk::CoutCatch cc; std::string ctx = cat("block deck ", n[0], "x", n[1], "x", n[2], field ? " FIELD" : "", " tops kind ", tops); ev("block_decks"); std::unique_ptr<Opm::EclipseGridParser> pp = parse(r, dir, ks, dk::wild(r), conv); Opm::EclipseGridParser& p = *pp;
    try {
        Opm::GridManager m(p); const UnstructuredGrid& G = *m.c_grid(); int nc = n[0] * n[1] * n[2]; if (!CHK(G.dimensions == 3 && G.number_of_cells == nc && G.number_of_nodes == (n[0] + 1) * (n[1] + 1) * (n[2] + 1) && G.number_of_faces == (n[0] + 1) * n[1] * n[2] + n[0] * (n[1] + 1) * n[2] + n[0] * n[1] * (n[2] + 1), "block:counts", cat(ctx, " ", G.number_of_cells, " ", G.number_of_faces, " ", G.number_of_nodes))) return; CHK(G.cartdims[0] == n[0] && G.cartdims[1] == n[1] && G.cartdims[2] == n[2], "block:cartdims", ctx);
        for (int c = 0; c < nc; ++c) { int I[3] = {c % n[0], c / n[0] % n[1], c / n[0] / n[1]}; if (G.global_cell) CHK(G.global_cell[c] == c, "block:global", ctx);
            std::map<int, int> tags; for (int q = G.cell_facepos[c]; q < G.cell_facepos[c + 1]; ++q) { int f = G.cell_faces[q], t = G.cell_facetag ? G.cell_facetag[q] : -1, o = G.face_cells[2 * f] == c ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; tags[t]++; if (t < 0 || t > 5) continue; int J[3] = {I[0], I[1], I[2]}; J[t / 2] += t % 2 ? 1 : -1; bool out = J[t / 2] < 0 || J[t / 2] >= n[t / 2]; if (!CHK(o == (out ? -1 : J[0] + n[0] * (J[1] + n[1] * J[2])), "block:neighbour", cat(ctx, " cell ", c, " tag ", t, " neighbour ", o))) return; }
            if (!CHK(tags.size() == 6 && G.cell_facepos[c + 1] - G.cell_facepos[c] == 6, "block:tags", cat(ctx, " cell ", c))) return;
            std::set<int> ns; for (int q = G.cell_facepos[c]; q < G.cell_facepos[c + 1]; ++q) { int f = G.cell_faces[q]; for (int z = G.face_nodepos[f]; z < G.face_nodepos[f + 1]; ++z) ns.insert(G.face_nodes[z]); } if (!CHK(ns.size() == 8, "block:nodes", cat(ctx, " cell ", c, " has ", ns.size(), " nodes"))) return;
            for (int q = 0; q < 8; ++q) { int a = q & 1, b = q >> 1 & 1, e = q >> 2; double X = x[0][I[0] + a] * u, Y = x[1][I[1] + b] * u, Z = (dz[I[0] + a + (n[0] + 1) * (I[1] + b)] + x[2][I[2] + e]) * u; bool f = false; for (int z : ns) { const double* v = G.node_coordinates + 3 * z; f |= close(v[0], X, 1e-12, x[0].back() * u) && close(v[1], Y, 1e-12, x[1].back() * u) && close(v[2], Z, 1e-12, x[2].back() * u); } if (!CHK(f, "block:corner", cat(ctx, " cell ", c, " lacks corner ", X, ",", Y, ",", Z))) return; }
            if (tops <= 2) NEAR(G.cell_volumes[c], h[0][I[0]] * h[1][I[1]] * h[2][I[2]] * u * u * u, 1e-8, 0, "block:volume", cat(ctx, " cell ", c)); ev("deck_cells"); }
    } catch (const std::exception&) { violate("block:refused", ctx + " valid deck refused: " + cc.e.str().substr(0, 300)); }
}
static void deck_bad(Rng& r, const std::string& dir)
{
    bool cp = r.p(0.5); int nx = r.i(1, 3), ny = r.i(1, 3), nz = r.i(1, 3), nc = nx * ny * nz; std::vector<dk::KW> ks; std::string what; int w = r.i(0, 9); std::vector<int> dims = {nx, ny, nz}; bool nodims = false; auto resize = [&](dvec v) { if (r.p(0.5) && v.size() > 1) v.resize(r.i(1, (int)v.size() - 1)); else v.resize(v.size() + r.i(1, 8), v.back()); return v; };
    if (cp) {
        CP c = random_cp(r, nx, ny, nz, r.p(0.5), true); dvec co = c.coord, z = c.zcorn; std::vector<int> a = c.actnum; bool hc = true, hz = true;
        switch (w) { case 0: co = resize(co); what = "COORD size"; break; case 1: z = resize(z); what = "ZCORN size"; break; case 2: { int m = a.size(); do m = r.i(1, nc + 4); while (m == nc); a.resize(m, 1); what = "ACTNUM size"; break; } case 3: nodims = true; what = "no dimensions"; break; case 4: hc = false; what = "no COORD"; break; case 5: hz = false; what = "no ZCORN"; break; case 6: { int d = r.i(0, 2); dims[d] += r.p(0.5) ? 1 : -1; what = cat("dimension ", d, " off"); break; } case 7: { int d = r.i(0, 2); dims[d] = -dims[d]; what = "negative dimension"; break; } case 8: dims[0] = -nx; dims[1] = -ny; what = "two negative dimensions"; break; default: if (r.p(0.5) || true) { dims[r.i(0, 2)] = 0; what = "zero dimension"; } }
        if (!nodims) ks.push_back(dk::array_i("DIMENS", dims)); if (hc) ks.push_back(dk::array_d("COORD", co, 'L')); if (hz) ks.push_back(dk::array_d("ZCORN", z, 'L')); ks.push_back(dk::array_i("ACTNUM", a));
    } else {
        dvec h[3] = {dvec(nx, 2.5), dvec(ny, 1.5), dvec(nz, 1.25)}; bool has[3] = {true, true, true}; dvec dz((nx + 1) * (ny + 1), 1000), tp; std::vector<int> act; int which = r.i(0, 2);
        switch (w) { case 0: case 1: h[which] = resize(h[which]); what = cat("size of block vector ", which); break; case 2: dz = resize(dz); what = "DEPTHZ size"; break; case 3: nodims = true; what = "no dimensions"; break; case 4: has[which] = false; what = "missing block vector"; break; case 5: dims[which] += 1; what = "dimension off"; break; case 6: dims[which] = 0; what = "zero dimension"; break; case 7: if (nc < 2) { dims[which] = 7; what = "dimension off"; break; } dz.clear(); tp.assign(nc, 1000); tp[r.i(0, nc - 1)] = 1001; what = "nonuniform TOPS"; break; case 8: act.assign(nc, 1); act[r.i(0, nc - 1)] = 0; what = "inactive cells"; break; default: dims.resize(2); what = "two dimensions"; }
        if (!nodims) ks.push_back(dk::array_i("DIMENS", dims)); const char* nm[] = {"DXV", "DYV", "DZV"}; for (int d = 0; d < 3; ++d) if (has[d]) ks.push_back(dk::array_d(nm[d], h[d], 'L')); if (!dz.empty()) ks.push_back(dk::array_d("DEPTHZ", dz, 'L')); if (!tp.empty()) ks.push_back(dk::array_d("TOPS", tp, 'L')); if (!act.empty()) ks.push_back(dk::array_i("ACTNUM", act));
    }
    ev("inconsistent_decks"); dk::CoutCatch cc; bool thrown = false; std::string ctx = cat(cp ? "corner-point" : "block", " deck ", nx, "x", ny, "x", nz, ": ", what); ev("bad_" + std::string(cp ? "cp" : "block"));
    try { std::unique_ptr<Opm::EclipseGridParser> pp = parse(r, dir, ks, dk::wild(r), true); Opm::EclipseGridParser& p = *pp; Opm::GridManager m(p); } catch (const std::exception&) { thrown = true; }
    CHK(thrown, "deck:accepted", ctx + " accepted");
}
static void inspector(Rng& r, const std::string& dir)
{
    int nx = r.i(1, 5), ny = r.i(1, 5), nz = r.i(1, 5), nc = nx * ny * nz; CP c = random_cp(r, nx, ny, nz, r.p(0.6), false); bool dimens = r.p(0.3); if (r.p(0.3)) for (double& z : c.zcorn) z += r.u(0, 0.1);
    std::vector<dk::KW> ks; ks.push_back(dimens ? dk::array_i("DIMENS", {nx, ny, nz}) : specgrid(r, nx, ny, nz)); ks.push_back(dk::array_d("COORD", c.coord, 'L')); ks.push_back(dk::array_d("ZCORN", c.zcorn, 'L')); dk::CoutCatch cc; std::unique_ptr<Opm::EclipseGridParser> pp = parse(r, dir, ks, dk::wild(r), true); Opm::EclipseGridParser& p = *pp; Opm::EclipseGridInspector in(p); ev("inspected_grids"); std::string ctx = cat("inspector ", nx, "x", ny, "x", nz);
    auto gs = in.gridSize(); CHK(gs[0] == nx && gs[1] == ny && gs[2] == nz, "inspect:size", ctx);
    double lo = *std::min_element(c.zcorn.begin(), c.zcorn.end()), hi = *std::max_element(c.zcorn.begin(), c.zcorn.end());
    for (int q = 0; q < nc; ++q) { auto l = in.cellIdxToLogicalCoords(q); int i = q % nx, j = q / nx % ny, k = q / nx / ny; ev("inspected_cells"); if (!CHK(l[0] == i && l[1] == j && l[2] == k, "inspect:logical", cat(ctx, " cell ", q, " -> ", l[0], ",", l[1], ",", l[2]))) return;
        double A = (c.pil(i + 1, j)[0] - c.pil(i, j)[0]) * (c.pil(i, j + 1)[1] - c.pil(i, j)[1]), dz = 0; for (int a = 0; a < 4; ++a) dz += 0.25 * (c.z(i, j, k, a & 1, a >> 1, 1) - c.z(i, j, k, a & 1, a >> 1, 0)); if (!NEAR(in.cellVolumeVerticalPillars(q), A * dz, 1e-12, A * hi, "inspect:volume", cat(ctx, " cell ", q)) || !CHK(in.cellVolumeVerticalPillars(i, j, k) == in.cellVolumeVerticalPillars(q), "inspect:overload", ctx)) return;
        auto z = in.cellZvals(i, j, k); for (int a = 0; a < 8; ++a) if (!CHK(z[a] == c.z(i, j, k, a & 1, a >> 1 & 1, a >> 2), "inspect:zvals", cat(ctx, " cell ", q, " corner ", a))) return;
        if (!dimens) { // mean dip over the cell's edges that do not touch the model's top or bottom
            double dx = c.pil(i + 1, j)[0] - c.pil(i, j)[0], dy = c.pil(i, j + 1)[1] - c.pil(i, j)[1], sx = 0, sy = 0; int mx = 0, my = 0; for (int b = 0; b < 2; ++b) for (int e = 0; e < 2; ++e) { double lim = e ? hi : lo, u = c.z(i, j, k, 0, b, e), v = c.z(i, j, k, 1, b, e); if (u != lim && v != lim) { sx += (v - u) / dx; ++mx; } u = c.z(i, j, k, b, 0, e); v = c.z(i, j, k, b, 1, e); if (u != lim && v != lim) { sy += (v - u) / dy; ++my; } }
            if (mx && my) { auto d = in.cellDips(q); NEAR(d.first, sx / mx, 1e-10, 1e-3, "inspect:dipx", ctx); NEAR(d.second, sy / my, 1e-10, 1e-3, "inspect:dipy", ctx); ev("dips"); auto d2 = in.cellDips(i, j, k); CHK(d2 == d, "inspect:dip-overload", ctx); } } }
    if (!dimens) { auto L = in.getGridLimits(); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (size_t q = 0; q < c.coord.size(); q += 3) { x0 = std::min(x0, c.coord[q]); x1 = std::max(x1, c.coord[q]); y0 = std::min(y0, c.coord[q + 1]); y1 = std::max(y1, c.coord[q + 1]); } CHK(L[0] == x0 && L[1] == x1 && L[2] == y0 && L[3] == y1 && L[4] == lo && L[5] == hi, "inspect:limits", cat(ctx, " ", vec(std::vector<double>(L.begin(), L.end())))); }
    if (r.p(0.3)) { // leaning pillars
        dvec co = c.coord; for (double& x : co) x += r.u(-3, 3); std::vector<dk::KW> k2; k2.push_back(specgrid(r, nx, ny, nz)); k2.push_back(dk::array_d("COORD", co, 'L')); k2.push_back(dk::array_d("ZCORN", c.zcorn, 'L')); std::unique_ptr<Opm::EclipseGridParser> p2 = parse(r, dir, k2, dk::wild(r), true); Opm::EclipseGridInspector in2(*p2); auto L = in2.getGridLimits(); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (size_t q = 0; q < co.size(); q += 3) { x0 = std::min(x0, co[q]); x1 = std::max(x1, co[q]); y0 = std::min(y0, co[q + 1]); y1 = std::max(y1, co[q + 1]); } CHK(L[0] == x0 && L[1] == x1 && L[2] == y0 && L[3] == y1 && L[4] == lo && L[5] == hi, "inspect:limits", cat(ctx, " leaning pillars ", vec(std::vector<double>(L.begin(), L.end())))); ev("limits_of_leaning_pillars"); }
    int bad[][3] = {{nx, 0, 0}, {0, ny, 0}, {0, 0, nz}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}; for (auto& b : bad) { bool th = false; try { in.cellVolumeVerticalPillars(b[0], b[1], b[2]); } catch (const std::exception&) { th = true; } CHK(th, "inspect:range", cat(ctx, " coordinates ", b[0], ",", b[1], ",", b[2], " accepted")); }
    bool th = false; try { in.cellVolumeVerticalPillars(nc + r.i(0, 5)); } catch (const std::exception&) { th = true; } CHK(th, "inspect:range", ctx + " cell index beyond the grid accepted");
}
static void chopper(Rng& r, const std::string& dir)
{
    int nx = r.i(1, 5), ny = r.i(1, 5), nz = r.i(1, 6), nc = nx * ny * nz; CP c = random_cp(r, nx, ny, nz, r.p(0.5), r.p(0.5)); bool inclined = r.p(0.3); if (inclined) c = tilt(r, c); auto ints = [&](int lo, int hi) { std::vector<int> v(nc); for (int& x : v) x = r.i(lo, hi); return v; }; auto dbls = [&]() { dvec v(nc); for (double& x : v) x = r.p(0.5) ? r.i(1, 9) * 0.5 : r.logu(1e-3, 1e3); return v; };
    std::map<std::string, dvec> D; std::map<std::string, std::vector<int> > I; for (const char* n : {"PORO", "PERMX", "PERMY", "PERMZ"}) if (r.p(0.5)) D[n] = dbls(); if (c.use_act) I["ACTNUM"] = c.actnum; if (r.p(0.5)) I["SATNUM"] = ints(1, 4);
    std::vector<dk::KW> ks; ks.push_back(specgrid(r, nx, ny, nz)); ks.push_back(dk::array_d("COORD", c.coord, 'L')); ks.push_back(dk::array_d("ZCORN", c.zcorn, 'L')); for (auto& q : D) ks.push_back(dk::array_d(q.first, q.second, '1')); for (auto& q : I) ks.push_back(dk::array_i(q.first, q.second));
    dk::CoutCatch cc; parse(r, dir, ks, dk::wild(r), false); Opm::CornerPointChopper ch(dir + "/DECK.DATA"); std::string ctx0 = cat("chopper ", nx, "x", ny, "x", nz, inclined ? " inclined" : "");
    CHK(ch.dimensions()[0] == nx && ch.dimensions()[1] == ny && ch.dimensions()[2] == nz, "chop:dims", ctx0);
    double lo = *std::min_element(c.zcorn.begin(), c.zcorn.end()), hi = *std::max_element(c.zcorn.begin(), c.zcorn.end()); int half = 4 * nx * ny; double top = *std::max_element(c.zcorn.begin(), c.zcorn.begin() + half), bot = *std::min_element(c.zcorn.end() - half, c.zcorn.end());
    CHK(ch.zLimits() == std::make_pair(top, bot) && ch.abszLimits() == std::make_pair(lo, hi), "chop:limits", ctx0);
    auto shoe = [&](int a, int b, int cmax, int d, int e, int f, double g, double h, double z) { try { ch.verifyInscribedShoebox(a, b, cmax, d, e, f, g, h, z); return true; } catch (const std::exception&) { return false; } };
    CHK(shoe(0, nx, nx, 0, ny, ny, lo, hi - lo, hi), "chop:shoebox", ctx0 + " whole model refused"); CHK(!shoe(-1, nx, nx, 0, ny, ny, lo, hi - lo, hi) && !shoe(0, nx + 1, nx, 0, ny, ny, lo, hi - lo, hi) && !shoe(0, nx, nx + 1, 0, ny, ny, lo, hi - lo, hi) && !shoe(0, nx, nx, -1, ny, ny, lo, hi - lo, hi) && !shoe(0, nx, nx, 0, ny + 1, ny, lo, hi - lo, hi) && !shoe(0, nx, nx, 0, ny, ny + 1, lo, hi - lo, hi) && !shoe(0, nx, nx, 0, ny, ny, lo - 1, hi - lo, hi) && !shoe(0, nx, nx, 0, ny, ny, lo, 2 * (hi - lo) + 1, hi) && !shoe(0, nx, nx, 0, ny, ny, lo, hi - lo, hi + 1), "chop:shoebox-bad", ctx0);
    for (int rep = 0, n = r.i(1, 3); rep < n; ++rep) {
        int i0 = r.i(0, nx - 1), i1 = r.i(i0 + 1, nx), j0 = r.i(0, ny - 1), j1 = r.i(j0 + 1, ny); double z0 = r.p(0.3) ? lo : r.u(lo, hi), z1 = r.p(0.3) ? hi : r.u(lo, hi); if (z0 > z1) std::swap(z0, z1); bool reset = !inclined && r.p(0.5); if (r.p(0.1)) { switch (r.i(0, 4)) { case 0: i0 = -1; break; case 1: i1 = nx + 1; break; case 2: i1 = i0; break; case 3: j1 = ny + 1; break; default: j1 = j0; } }
        double Z0 = std::max(z0, top), Z1 = std::min(z1, bot); bool valid = i0 >= 0 && i1 <= nx && i0 < i1 && j0 >= 0 && j1 <= ny && j0 < j1 && Z0 < Z1; std::string ctx = cat(ctx0, " box ", i0, "-", i1, " ", j0, "-", j1, " ", z0, "-", z1, " limits ", top, " ", bot, reset ? " reset" : ""); ev(valid ? "chops" : "refused_chops");
        bool th = false; try { ch.chop(i0, i1, j0, j1, z0, z1, reset); } catch (const std::exception&) { th = true; } CHK(th == !valid, valid ? "chop:refused" : "chop:accepted", ctx); if (th || !valid) continue;
        int k0 = nz, k1 = 0; for (int k = 0; k < nz; ++k) { double mn = *std::min_element(c.zcorn.begin() + 2 * half * k, c.zcorn.begin() + 2 * half * (k + 1)), mx = *std::max_element(c.zcorn.begin() + 2 * half * k, c.zcorn.begin() + 2 * half * (k + 1)); if (mx > Z0) k0 = std::min(k0, k); if (mn < Z1) k1 = std::max(k1, k + 1); }
        int m[3] = {i1 - i0, j1 - j0, k1 - k0}; CP e; e.nx = m[0]; e.ny = m[1]; e.nz = m[2]; e.use_act = false; e.coord.resize(6 * (m[0] + 1) * (m[1] + 1)); e.zcorn.resize(8 * m[0] * m[1] * m[2]); e.actnum.assign(m[0] * m[1] * m[2], 1); std::map<std::string, dvec> eD; std::map<std::string, std::vector<int> > eI;
        for (int j = 0; j <= m[1]; ++j) for (int i = 0; i <= m[0]; ++i) { const double* s = c.pil(i0 + i, j0 + j); double* t = e.pil(i, j); for (int q = 0; q < 6; ++q) t[q] = s[q]; if (reset) { const double* o = c.pil(i0, j0); t[0] -= o[0]; t[1] -= o[1]; t[3] -= o[0]; t[4] -= o[1]; t[2] = 0; t[5] = z1 - z0; } }
        for (int k = 0; k < m[2]; ++k) for (int j = 0; j < m[1]; ++j) for (int i = 0; i < m[0]; ++i) { int oc = c.cell(i + i0, j + j0, k + k0); for (auto& q : D) eD[q.first].push_back(q.second[oc]); for (auto& q : I) eI[q.first].push_back(q.second[oc]); for (int a = 0; a < 8; ++a) e.z(i, j, k, a & 1, a >> 1 & 1, a >> 2) = std::min(Z1, std::max(Z0, c.z(i + i0, j + j0, k + k0, a & 1, a >> 1 & 1, a >> 2))) - (reset ? Z0 : 0); }
        auto check = [&](const Opm::EclipseGridParser& s, const std::string& k) { auto& sg = s.getSPECGRID().dimensions; CHK(sg.size() == 3 && sg[0] == m[0] && sg[1] == m[1] && sg[2] == m[2], k + ":dims", cat(ctx, " ", vec(sg), " expected ", m[0], ",", m[1], ",", m[2])); auto F = [&](const char* n, const dvec& w) { const dvec& g = s.getFloatingPointValue(n); if (!CHK(g.size() == w.size(), k + ":" + n, cat(ctx, " size ", g.size(), " expected ", w.size()))) return; for (size_t q = 0; q < g.size(); ++q) if (!CHK(g[q] == w[q] || (g[q] == 0 && w[q] == 0), k + ":" + n, cat(ctx, " entry ", q, " ", g[q], " expected ", w[q]))) break; };
            F("COORD", e.coord); F("ZCORN", e.zcorn); for (const char* n : {"PORO", "PERMX", "PERMY", "PERMZ"}) { if (!CHK(s.hasField(n) == (eD.count(n) > 0), k + ":" + n, ctx + " presence")) continue; if (eD.count(n)) F(n, eD[n]); } for (const char* n : {"ACTNUM", "SATNUM"}) { if (!CHK(s.hasField(n) == (eI.count(n) > 0), k + ":" + n, ctx + " presence")) continue; if (eI.count(n)) CHK(s.getIntegerValue(n) == eI[n], k + ":" + n, ctx + " values"); } };
        CHK(ch.newDimensions()[0] == m[0] && ch.newDimensions()[1] == m[1] && ch.newDimensions()[2] == m[2], "chop:newdims", ctx); Opm::EclipseGridParser sub = ch.subparser(); check(sub, "chop"); std::string out = dir + "/cut.grdecl"; ch.writeGrdecl(out); Opm::EclipseGridParser back(out, false); check(back, "chop-file"); ev("chop_values", (long)e.zcorn.size());
        if (!inclined && !(I.count("ACTNUM") && std::count(eI["ACTNUM"].begin(), eI["ACTNUM"].end(), 1) == 0)) { // as a grid
            CP f = e; if (I.count("ACTNUM")) { f.use_act = true; f.actnum = eI["ACTNUM"]; } bool any = false; double V = 0; for (int k = 0; k < m[2]; ++k) for (int j = 0; j < m[1]; ++j) for (int i = 0; i < m[0]; ++i) { if (f.use_act && !f.actnum[f.cell(i, j, k)]) continue; double dz = 0; for (int a = 0; a < 4; ++a) dz += 0.25 * (f.z(i, j, k, a & 1, a >> 1, 1) - f.z(i, j, k, a & 1, a >> 1, 0)); V += dz * (f.pil(i + 1, j)[0] - f.pil(i, j)[0]) * (f.pil(i, j + 1)[1] - f.pil(i, j)[1]); any |= dz > 1e-9; }
            if (any) { Quiet q; Opm::GridManager gm(sub); double W = 0; for (int q2 = 0; q2 < gm.c_grid()->number_of_cells; ++q2) W += gm.c_grid()->cell_volumes[q2]; NEAR(W, V, 1e-3, 0, "chop:volume", ctx + " total volume of the cut grid"); ev("cut_grids"); } }
    }
    bool th = false; try { ch.writeGrdecl(r.p(0.5) ? dir : dir + "/none/x.grdecl"); } catch (const std::exception&) { th = true; } CHK(th, "chop:unwritable", ctx0 + " unwritable destination not reported");
}
// ---- VAG ----
static bool sameps(const Opm::PosStruct& a, const Opm::PosStruct& b) { return a.pos == b.pos && a.value == b.value; }
static bool samevag(const Opm::VAG& a, const Opm::VAG& b) { return a.number_of_vertices == b.number_of_vertices && a.number_of_volumes == b.number_of_volumes && a.number_of_faces == b.number_of_faces && a.number_of_edges == b.number_of_edges && a.vertices == b.vertices && sameps(a.volumes_to_faces, b.volumes_to_faces) && sameps(a.volumes_to_vertices, b.volumes_to_vertices) && sameps(a.faces_to_edges, b.faces_to_edges) && sameps(a.faces_to_vertices, b.faces_to_vertices) && a.edges == b.edges && a.faces_to_volumes == b.faces_to_volumes; }
struct Alloc { UnstructuredGrid* g; explicit Alloc(const UnstructuredGrid& o) : g(allocate_grid(3, o.number_of_cells, o.number_of_faces, o.face_nodepos[o.number_of_faces], o.cell_facepos[o.number_of_cells], o.number_of_nodes)) {} ~Alloc() { destroy_grid(g); } };
static void vag(Rng& r, const std::string& dir)
{
    (void)dir; GridPtr g; for (;;) { g = some_grid(r, 3); if (g->dimensions == 3) break; if (r.p(0.2)) { dk::CoutCatch cc; bool th = false; Opm::VAG v; try { Opm::unstructuredGridToVag(*g.g, v); } catch (const std::exception&) { th = true; } CHK(th, "vag:2d", "2-D grid accepted"); } }
    dk::CoutCatch cc; Quiet quiet; Opm::VAG v; if (r.p(0.3)) { GridPtr o; do o = some_grid(r, 3); while (o->dimensions != 3); Opm::unstructuredGridToVag(*o.g, v); } Opm::unstructuredGridToVag(*g.g, v); std::string ctx = cat("vag ", g->number_of_cells, " cells ", g->number_of_faces, " faces"); ev("vag_grids");
    // edges: one per distinct pair of consecutive face nodes
    std::set<std::pair<int, int> > E, got; for (int f = 0; f < g->number_of_faces; ++f) { int b = g->face_nodepos[f], m = g->face_nodepos[f + 1] - b; for (int k = 0; k < m; ++k) { int a = g->face_nodes[b + k] + 1, q = g->face_nodes[b + (k + 1) % m] + 1; E.insert(std::minmax(a, q)); } } bool dup = false; for (size_t k = 0; k + 1 < v.edges.size(); k += 2) dup |= !got.insert(std::minmax(v.edges[k], v.edges[k + 1])).second; CHK(!dup && got == E && v.number_of_edges == (int)E.size() && v.edges.size() == 2 * E.size(), "vag:edges", cat(ctx, " ", got.size(), " edges, expected ", E.size()));
    bool okf = v.faces_to_edges.pos.size() == (size_t)g->number_of_faces + 1; for (int f = 0; f < g->number_of_faces && okf; ++f) { std::multiset<std::pair<int, int> > a, b; int b0 = g->face_nodepos[f], m = g->face_nodepos[f + 1] - b0; for (int k = 0; k < m; ++k) { int x = g->face_nodes[b0 + k] + 1, y = g->face_nodes[b0 + (k + 1) % m] + 1; a.insert(std::minmax(x, y)); } for (int k = v.faces_to_edges.pos[f]; k < v.faces_to_edges.pos[f + 1]; ++k) { int e = v.faces_to_edges.value[k] - 1; if (e < 0 || e >= v.number_of_edges) { okf = false; break; } b.insert(std::minmax(v.edges[2 * e], v.edges[2 * e + 1])); } okf = okf && a == b; } CHK(okf, "vag:face-edges", ctx);
    bool okv = v.volumes_to_vertices.pos.size() == (size_t)g->number_of_cells + 1; for (int c = 0; c < g->number_of_cells && okv; ++c) { std::set<int> a; for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; for (int q = g->face_nodepos[f]; q < g->face_nodepos[f + 1]; ++q) a.insert(g->face_nodes[q] + 1); } std::vector<int> b(v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c], v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c + 1]); okv = b.size() == a.size() && std::set<int>(b.begin(), b.end()) == a; } CHK(okv, "vag:vertices", ctx);
    std::ostringstream os; if (r.p(0.5)) os.precision(r.i(1, 20)); Opm::writeVagFormat(os, v); std::string s = os.str(); nontrivial(hstr(s));
    Opm::VAG w; if (r.p(0.3)) { std::istringstream is(s); Opm::readVagGrid(is, w); } { std::istringstream is(s); Opm::readVagGrid(is, w); } CHK(samevag(v, w), "vag:file", ctx + " differs after writing and reading");
    Data a = data(*g); auto same_grid = [&](const UnstructuredGrid& b, const std::string& key) { Data d = data(b); bool top = d.d == 3 && d.nc == a.nc && d.nf == a.nf && d.nn == a.nn && d.fnp == a.fnp && d.fn == a.fn && d.fc == a.fc && d.cfp == a.cfp && d.cf == a.cf && d.xyz == a.xyz; if (!CHK(top, key + ":topology", ctx + " " + diff(d, a))) return; Scale sc = scales(b); for (int f = 0; f < a.nf; ++f) if (!NEAR(d.fa[f], a.fa[f], 1e-9, sc.A, key + ":area", cat(ctx, " face ", f))) return; for (size_t q = 0; q < a.fnrm.size(); ++q) if (!NEAR(d.fnrm[q], a.fnrm[q], 1e-9, sc.A, key + ":normal", cat(ctx, " entry ", q)) || !NEAR(d.fcen[q], a.fcen[q], 1e-8, sc.M + sc.L, key + ":fcen", ctx)) return; for (int c = 0; c < a.nc; ++c) if (!NEAR(d.vol[c], a.vol[c], 1e-9, sc.V, key + ":volume", cat(ctx, " cell ", c))) return; };
    { Alloc A(*g); Opm::vagToUnstructuredGrid(w, *A.g); same_grid(*A.g, "vag:grid"); CHK(A.g->cell_facetag == 0, "vag:tags", "tags in a format without tags"); ev("vag_roundtrips"); }
    for (int rep = 0; rep < 3; ++rep) { // cut at a token boundary or with numbers altered: reported while reading or converting, or else complete
        std::string c = s; size_t b; bool cut = r.p(0.6); if (cut) { do b = r.i(1, (int)s.size() - 1); while (!isspace((unsigned char)s[b])); c = s.substr(0, b); } else { do b = r.i(0, (int)s.size() - 1); while (!isdigit((unsigned char)s[b])); size_t e = b; while (b > 0 && !isspace((unsigned char)s[b - 1])) --b; while (e < s.size() && !isspace((unsigned char)s[e])) ++e; if (s.substr(b, e - b).find_first_of(".e-") != std::string::npos) continue; c = s.substr(0, b) + cat(r.p(0.5) ? -r.i(1, 5) : r.p(0.5) ? 1000000 + r.i(0, 99) : std::atoi(s.c_str() + b) + 1) + s.substr(e); }
        Opm::VAG x; bool thrown = false; ev("vag_corruptions"); Alloc A(*g); try { std::istringstream is(c); Opm::readVagGrid(is, x);
            // the caller allocates from the description, which must be the file's
            if (x.number_of_faces != a.nf || x.number_of_volumes != a.nc || x.number_of_vertices != a.nn || x.faces_to_vertices.value.size() != a.fn.size() || x.volumes_to_faces.value.size() != a.cf.size()) { if (x.number_of_faces >= 0 && x.number_of_faces < 100000 && x.number_of_volumes >= 0 && x.number_of_volumes < 100000 && x.number_of_vertices >= 0 && x.number_of_vertices < 100000) { UnstructuredGrid* h = allocate_grid(3, x.number_of_volumes, x.number_of_faces, x.faces_to_vertices.value.size(), x.volumes_to_faces.value.size(), x.number_of_vertices); struct D { UnstructuredGrid* g; ~D() { destroy_grid(g); } } del = {h}; Opm::vagToUnstructuredGrid(x, *h); } }
            else Opm::vagToUnstructuredGrid(x, *A.g);
        } catch (const std::exception&) { thrown = true; } if (thrown) ev("vag_corruptions_reported"); else if (cut) { bool complete = x.number_of_faces == a.nf && x.number_of_volumes == a.nc && x.number_of_vertices == a.nn && x.vertices == v.vertices && sameps(x.faces_to_vertices, v.faces_to_vertices) && sameps(x.volumes_to_faces, v.volumes_to_faces) && x.faces_to_volumes == v.faces_to_volumes; CHK(complete, "vag:half-built", cat(ctx, " cut to ", b, " of ", s.size(), " bytes gives an incomplete grid")); } }
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P03", [](long k, Rng& r) {
        std::string dir = "work"; mkdir(dir.c_str(), 0755); (void)k; int w = r.i(0, 99);
        if (w < 24) text_roundtrip(r, dir); else if (w < 44) text_corrupt(r, dir); else if (w < 58) deck_cornerpoint(r, dir); else if (w < 70) deck_blocks(r, dir); else if (w < 78) deck_bad(r, dir); else if (w < 85) inspector(r, dir); else if (w < 93) chopper(r, dir); else vag(r, dir);
    });
}
