// P36: the parallel loops (geometry of 3-D grids, gravity columns) against the same sources compiled without them, over team sizes and schedules.
#include "p36.hpp"
#include "p36_shim.hpp"
#include <iostream>
#include <sstream>
#include <opm/core/grid/ColumnExtract.hpp>
extern "C" {
#include <opm/core/grid/cpgpreprocess/geometry.h>
}
using namespace mon; using namespace gl;
struct CoutCatch { std::ostringstream o; std::streambuf* b; CoutCatch() { b = std::cout.rdbuf(o.rdbuf()); } ~CoutCatch() { std::cout.rdbuf(b); } };
static bool same(const double* a, const double* b, size_t n, size_t* at) { for (size_t i = 0; i < n; ++i) if (memcmp(a + i, b + i, 8) != 0) { *at = i; return false; } return true; }
static int team(Rng& r) { return r.pick(std::vector<int>{1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 13, 16}); }
struct Geo { dvec fn, fc, fa, cc, cv; explicit Geo(const UnstructuredGrid& g, double fill) : fn(g.number_of_faces * g.dimensions, fill), fc(fn), fa(g.number_of_faces, fill), cc(g.number_of_cells * g.dimensions, fill), cv(g.number_of_cells, fill) {} };

static void warp(Rng& r, UnstructuredGrid& g) { double h = 0; for (int f = 0; f < g.number_of_faces; ++f) h = std::max(h, g.face_areas[f]); h = std::sqrt(h) * r.u(0, 0.1); for (int i = 0; i < g.number_of_nodes * g.dimensions; ++i) g.node_coordinates[i] += r.u(-h, h); }

static void geometry(Rng& r)
{
    std::string kind; int mx = r.p(0.1) ? 9 : r.p(0.3) ? 6 : 4; GridPtr gp = random_grid(r, mx, &kind, r.p(0.1)); UnstructuredGrid& g = *gp.g; int d = g.dimensions; if (r.p(0.4)) { warp(r, g); ev("warped_grids"); }
    int* cn = g.cell_faces; auto faces = [&](bool ser, Geo& o) { (ser ? ser_face_geometry : compute_face_geometry)(d, g.node_coordinates, g.number_of_faces, g.face_nodepos, g.face_nodes, &o.fn[0], &o.fc[0], &o.fa[0]); (ser ? ser_cell_geometry : compute_cell_geometry)(d, g.node_coordinates, g.face_nodepos, g.face_nodes, g.face_cells, &o.fn[0], &o.fc[0], g.number_of_cells, g.cell_facepos, cn, &o.cc[0], &o.cv[0]); };
    Geo s(g, 1.25); shim::config(1, 1); faces(true, s); int runs = r.i(2, 4); uint64_t hh = hdbl(s.cv[0]);
    for (int k = 0; k < runs; ++k) {
        int t = team(r); Geo p(g, k & 1 ? -7.5 : 1e300); shim::config(t, r.next()); faces(false, p); ev("geometry_runs"); if (t > 1) ev("geometry_runs_parallel"); if (t > g.number_of_cells) ev("more_threads_than_cells"); hh = hcomb(hh, t);
        std::string c = cat(kind, " cells ", g.number_of_cells, " faces ", g.number_of_faces, " threads ", t, " run ", k); size_t at = 0;
        if (!CHK(same(&s.fn[0], &p.fn[0], s.fn.size(), &at), "face-normals", cat(c, " entry ", at, " serial ", s.fn[at], " parallel ", p.fn[at]))) return;
        if (!CHK(same(&s.fc[0], &p.fc[0], s.fc.size(), &at), "face-centroids", cat(c, " entry ", at, " serial ", s.fc[at], " parallel ", p.fc[at]))) return;
        if (!CHK(same(&s.fa[0], &p.fa[0], s.fa.size(), &at), "face-areas", cat(c, " entry ", at, " serial ", s.fa[at], " parallel ", p.fa[at]))) return;
        if (!CHK(same(&s.cc[0], &p.cc[0], s.cc.size(), &at), "cell-centroids", cat(c, " entry ", at, " serial ", s.cc[at], " parallel ", p.cc[at]))) return;
        if (!CHK(same(&s.cv[0], &p.cv[0], s.cv.size(), &at), "cell-volumes", cat(c, " entry ", at, " serial ", s.cv[at], " parallel ", p.cv[at]))) return;
        ev("values_compared", s.fn.size() + s.fc.size() + s.fa.size() + s.cc.size() + s.cv.size());
    }
    nontrivial(hh); sample(cat(kind, " geometry"));
}

static void construction(Rng& r) // grids as the library builds them
{
    CP c = random_cp(r, r.i(1, 5), r.i(1, 5), r.i(1, 5), r.p(0.6), r.p(0.4)); bool any = false; for (int a : c.actnum) any |= a; if (!any) return;
    int t = team(r); shim::config(t, r.next()); GridPtr a = from_cp(c); if (!a.g || a->number_of_cells == 0) { ev("empty_grids"); return; } const UnstructuredGrid& g = *a;
    Geo s(g, 0.5); shim::config(1, 1); UnstructuredGrid& m = *a.g; ser_face_geometry(3, m.node_coordinates, m.number_of_faces, m.face_nodepos, m.face_nodes, &s.fn[0], &s.fc[0], &s.fa[0]); ser_cell_geometry(3, m.node_coordinates, m.face_nodepos, m.face_nodes, m.face_cells, &s.fn[0], &s.fc[0], m.number_of_cells, m.cell_facepos, m.cell_faces, &s.cc[0], &s.cv[0]);
    std::string d = cat("corner-point cells ", g.number_of_cells, " threads ", t); size_t at = 0; ev("constructions");
    bool ok = CHK(same(&s.fn[0], g.face_normals, s.fn.size(), &at), "built-normals", cat(d, " entry ", at)) && CHK(same(&s.fc[0], g.face_centroids, s.fc.size(), &at), "built-centroids", cat(d, " entry ", at)) && CHK(same(&s.fa[0], g.face_areas, s.fa.size(), &at), "built-areas", cat(d, " entry ", at)) && CHK(same(&s.cc[0], g.cell_centroids, s.cc.size(), &at), "built-cell-centroids", cat(d, " entry ", at)) && CHK(same(&s.cv[0], g.cell_volumes, s.cv.size(), &at), "built-volumes", cat(d, " entry ", at)); (void)ok;
    nontrivial(hcomb(hdbl(g.cell_volumes[0]), g.number_of_cells)); sample(d);
}

static void columns(Rng& r)
{
    std::string kind; GridPtr gp(0); do { gp = random_grid(r, 5, &kind, false); } while (gp->dimensions != 3 || gp->number_of_cells > 300); const UnstructuredGrid& g = *gp; int nc = g.number_of_cells;
    MockIncomp m = random_mock(r, g, 2, false, 1.5, false, r.p(0.5)); dvec h = half_trans(g, m.perm); if (min_half(h) < 1e-8) { ev("degenerate_skipped"); return; } dvec pv(nc); for (int c = 0; c < nc; ++c) pv[c] = m.poro[c] * g.cell_volumes[c];
    double gv[3] = {0, 0, r.logu(0.05, 5)}; dvec sat = random_sat(r, m); dvec T(g.number_of_faces, 0.0); double rate = 1e-12; for (int c = 0; c < nc; ++c) for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) rate = std::max(rate, h[k] * gv[2] * std::fabs(m.rho[0] - m.rho[1]) / std::min(m.mu[0], m.mu[1]) / pv[c]); double dt = r.logu(0.01, 5) / rate;
    std::vector<std::vector<int>> cols; Opm::extractColumn(g, cols); double tol = r.pick(dvec{1e-4, 1e-8}); int maxit = r.p(0.2) ? r.i(1, 3) : 40; bool guess = r.p(0.5); bool broken = r.p(0.15);
    if (broken) { dt = 0; int k = r.i(0, (int)cols.size() - 1), n = r.p(0.3) ? 1 : r.p(0.3) ? (int)cols.size() : r.i(1, (int)cols.size()); for (int i = 0; i < n; ++i) for (int c : cols[(k + i) % cols.size()]) pv[c] = 0; ev("singular_columns"); } // no equation at all in these columns
    Opm::SimpleFluid2pWrappingProps fl(m); dvec ref = sat; std::string rep; bool ok = true; shim::config(1, 1);
    { CoutCatch cc; try { Quiet z; SerModel mod(fl, g, pv, gv, guess); mod.initGravityTrans(g, h); ser_columns(mod, g, tol, maxit, cols, dt, ref); } catch (const std::exception&) { ok = false; } rep = cc.o.str(); }
    ev(ok ? "serial_converged" : "serial_refused"); int runs = r.i(2, 4); std::string c0 = cat(kind, " cells ", nc, " columns ", cols.size(), " dt ", dt, broken ? " singular" : "");
    for (int k = 0; k < runs; ++k) {
        int t = team(r); shim::config(t, r.next()); dvec s = sat; std::string rp; bool pk = true; { CoutCatch cc; try { Quiet z; Model mod(fl, g, pv, gv, guess); mod.initGravityTrans(g, h); Opm::GravityColumnSolver<Model> gs(mod, g, tol, maxit); gs.solve(cols, dt, s); } catch (const std::exception&) { pk = false; } rp = cc.o.str(); }
        ev("column_runs"); if (t > 1) ev("column_runs_parallel"); std::string c = cat(c0, " threads ", t, " run ", k); size_t at = 0;
        if (!CHK(pk == ok, "column-outcome", cat(c, " serial ", ok ? "solved" : "failed", ", parallel ", pk ? "solved" : "failed"))) return;
        if (!CHK(same(&ref[0], &s[0], s.size(), &at), "column-saturations", cat(c, " entry ", at, " serial ", ref[at], " parallel ", s[at]))) return;
        if (!CHK(rp == rep, "column-reports", cat(c, " serial: ", rep.substr(0, 300), " parallel: ", rp.substr(0, 300)))) return; ev("values_compared", s.size());
    }
    uint64_t hh = 9; for (double x : sat) hh = hcomb(hh, hdbl(x)); nontrivial(hh); sample(c0);
}

int main(int argc, char** argv)
{
    return run(argc, argv, "P36", [](long, Rng& r) { shim::Stats a = shim::stats(); int w = r.i(0, 9); if (w < 4) geometry(r); else if (w < 6) construction(r); else columns(r); shim::Stats b = shim::stats(); ev("parallel_regions", b.teams - a.teams); if (shim::active()) { ev("chunks_dispatched", b.chunks - a.chunks); ev("chunk_owner_changes", b.switches - a.switches); } }, 300);
}
