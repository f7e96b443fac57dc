// P15: rock data map to the right cells and tensor entries; compressibility follows its relation or table.
#include "config.h"
#include "gridlib.hpp"
#include "deck.hpp"
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/props/rock/RockBasic.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace mon; using namespace gl; typedef std::vector<double> dvec;
static void deckrock(Rng& r)
{
    std::string kind; GridPtr g = random_grid(r, 5, &kind, false); int nc = g->number_of_cells; size_t ng = (size_t)g->cartdims[0] * g->cartdims[1] * g->cartdims[2]; Opm::RockFromDeck rock; int rounds = r.i(1, 3);
    for (int round = 0; round < rounds; ++round) {
        static const char* NM[9] = {"PERMX", "PERMXY", "PERMXZ", "PERMYX", "PERMY", "PERMYZ", "PERMZX", "PERMZY", "PERMZ"}; bool has[9] = {}; dvec v[9]; int mode = r.i(0, 5);
        if (mode == 0) ; else if (mode <= 2) { int n = r.i(1, 3); while (n--) has[4 * r.i(0, 2)] = true; } else { for (int q = 0; q < 9; ++q) has[q] = r.p(q % 4 == 0 ? 0.85 : 0.3); }
        bool text = r.p(0.5); if (text) has[2] = has[3] = has[7] = false; // the parser reads only one of each symmetric pair
        Opm::EclipseGridParser p; dvec poro; bool hp = r.p(0.8); double unit = text ? 9.869232667160130e-16 : 1; std::string names; bool neg = false, unsym = false;
        auto val = [&]() { double x = r.p(0.1) ? 0 : r.logu(1e-3, 1e4); if (r.p(0.05)) x = -x; return x; };
        for (int q = 0; q < 9; ++q) if (has[q]) { v[q].resize(ng); for (auto& x : v[q]) x = val(); names += std::string(NM[q]) + " "; } if (hp) { poro.resize(ng); for (auto& x : poro) x = r.u(); }
        if (text) { std::vector<dk::KW> ks; for (int q = 0; q < 9; ++q) if (has[q]) ks.push_back(dk::array_d(NM[q], v[q], 'K')); if (hp) ks.push_back(dk::array_d("PORO", poro, '1')); r.shuffle(ks); std::istringstream is(dk::render(r, dk::plain(), ks) + "\n"); dk::CoutCatch c; p.read(is, true); ev("decks_read"); }
        else { for (int q = 0; q < 9; ++q) if (has[q]) p.setFloatingPointField(NM[q], v[q]); if (hp) p.setFloatingPointField("PORO", poro); }
        bool ok = true; int cnt = 0; for (int q = 0; q < 9; ++q) { cnt += has[q]; if (q % 4 && has[q]) ok = ok && has[4 * (q / 3)] && has[4 * (q % 3)]; } bool thrown = false; std::string ctx = cat(kind, " components ", names, text ? "(read)" : "(set)", round ? " used object" : ""); (void)neg; (void)unsym;
        try { dk::CoutCatch c; rock.init(p, *g); } catch (const std::exception&) { thrown = true; } if (!CHK(thrown == !ok, ok ? "refused-valid" : "accepted-invalid", ctx)) return; if (!ok) { ev("invalid_sets_refused"); continue; }
        ev(cat("components_", std::min(cnt, 4))); if (round) ev("used_objects"); CHK(rock.numDimensions() == 3 && rock.numCells() == nc, "size", ctx); const double *K = rock.permeability(), *P = rock.porosity();
        // which written field each tensor entry comes from; symmetric pairs written differently agree with one of the two
        int nd = has[0] + has[4] + has[8]; size_t moved = 0;
        for (int c = 0; c < nc; ++c) {
            int gc = g->global_cell ? g->global_cell[c] : c; if (gc != c) ++moved; double e = hp ? poro[gc] : 1.0; if (!CHK(P[c] == e, "porosity", cat("cell ", c, " global ", gc, " ", P[c], " expected ", e, " ", ctx))) break; ev("cells");
            bool fine = true; for (int i = 0; i < 3 && fine; ++i) for (int j = 0; j < 3; ++j) {
                double k = K[9 * c + 3 * i + j]; std::string w = cat("cell ", c, " global ", gc, " entry ", i, j, " ", k); if (!(fine = CHK(k == K[9 * c + 3 * j + i], "symmetry", cat(w, " other ", K[9 * c + 3 * j + i], " ", ctx)))) break;
                dvec cand; int a = 3 * i + j, b = 3 * j + i; if (i == j) { int src = a; if (!has[a]) { if (!nd) src = -1; else if (nd == 1) src = has[0] ? 0 : has[4] ? 4 : 8; else if (a == 0) src = has[4] ? 4 : 8; /* PERMY before PERMZ */ else if (a == 4) src = has[0] ? 0 : 8; else src = has[0] ? 0 : 4; ev("copied_diagonals"); } cand.push_back(src < 0 ? 0 : std::max(v[src][gc] * unit, 0.0)); } else { if (has[a]) cand.push_back(v[a][gc] * unit); if (has[b]) cand.push_back(v[b][gc] * unit); if (cand.empty()) cand.push_back(0); else ev("cross_entries"); }
                bool hit = false; for (double x : cand) hit = hit || close(k, x, text ? 1e-13 : 0, 0); if (!(fine = CHK(hit, i == j ? "diagonal" : "cross", cat(w, " expected ", vec(cand), " ", ctx)))) break; ev("tensor_entries"); if (i == j) CHK(k >= 0, "negative-diagonal", w); }
            if (!fine) break;
        }
        if (moved) ev("renumbered_grids"); nontrivial(hcomb(hstr(ctx), hdbl(nc ? K[0] + P[nc - 1] : 0)));
    }
}
// through the grid and property facades a simulator uses
static void facade(Rng& r)
{
    int nx = r.i(1, 5), ny = r.i(1, 5), nz = r.i(1, 4); size_t n = (size_t)nx * ny * nz; CP c = random_cp(r, nx, ny, nz, r.p(0.5), r.p(0.7)); std::vector<dk::KW> ks; { dk::B b("SPECGRID", 'S'); b.in(nx).in(ny).in(nz).in(1).grp(); b.str("F", false).end(); ks.push_back(b.k); } ks.push_back(dk::array_d("COORD", c.coord, 'L')); ks.push_back(dk::array_d("ZCORN", c.zcorn, 'L')); if (c.use_act) ks.push_back(dk::array_i("ACTNUM", c.actnum));
    dvec poro(n), kx(n), kz(n); for (auto& x : poro) x = r.u(); for (auto& x : kx) x = r.logu(1, 1e4); for (auto& x : kz) x = r.logu(1, 1e4); bool z = r.p(0.5); ks.push_back(dk::array_d("PORO", poro, '1')); ks.push_back(dk::array_d("PERMX", kx, 'K')); if (z) ks.push_back(dk::array_d("PERMZ", kz, 'K')); r.shuffle(ks);
    std::istringstream is(dk::render(r, dk::plain(), ks) + "\nOIL\nWATER\nDENSITY\n 800 1000 1 /\nPVTW\n 1 1 0 1 0 /\nPVCDO\n 1 1 0 1 0 /\nSWOF\n 0 0 1 0\n 1 1 0 0 /\nMETRIC\n"); dk::CoutCatch q; Opm::EclipseGridParser p; p.read(is, true); Opm::GridManager gm(p); const UnstructuredGrid& g = *gm.c_grid(); if (!g.number_of_cells) return; Opm::IncompPropertiesFromDeck props(p, g); const double md = 9.869232667160130e-16; ev("facades"); CHK(props.numDimensions() == 3 && props.numCells() == g.number_of_cells, "facade-size", "");
    for (int i = 0; i < g.number_of_cells; ++i) { int gc = g.global_cell ? g.global_cell[i] : i; CHK(props.porosity()[i] == poro[gc], "facade-porosity", cat("cell ", i, " global ", gc)); const double* K = props.permeability() + 9 * i; double e[9] = {kx[gc] * md, 0, 0, 0, kx[gc] * md, 0, 0, 0, (z ? kz : kx)[gc] * md}; for (int a = 0; a < 9; ++a) CHK(close(K[a], e[a], 1e-13, 0), "facade-permeability", cat("cell ", i, " global ", gc, " entry ", a, " ", K[a], " expected ", e[a])); ev("facade_cells"); if (c.use_act) CHK(c.actnum[gc] != 0, "inactive-cell-used", cat(gc)); }
    nontrivial(hdbl(props.permeability()[0]));
}
static void basic(Rng& r)
{
    Opm::RockBasic b; CHK(true, "x", ""); for (int k = r.i(1, 3); k--;) { int d = r.i(1, 3), n = r.i(1, 40); double po = r.u(), pe = r.logu(1e-18, 1e-10); b.init(d, n, po, pe); CHK(b.numDimensions() == d && b.numCells() == n, "basic-size", ""); for (int c = 0; c < n; ++c) { CHK(b.porosity()[c] == po, "basic-porosity", ""); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) CHK(b.permeability()[c * d * d + i * d + j] == (i == j ? pe : 0), "basic-permeability", cat("cell ", c, " ", i, j)); ev("basic_cells"); } }
}
static void compress(Rng& r)
{
    std::unique_ptr<Opm::RockCompressibility> rc; int kind = r.i(0, 3); dvec P, M; double pref = 100e5, comp = 0; dk::CoutCatch q; std::string ctx; static const char* kn[] = {"none", "parameters", "ROCK", "ROCKTAB"}; bool field = r.p(0.4); double up = field ? dk::field().pre : 1e5;
    if (kind == 1) { Opm::parameter::ParameterGroup g; char b[40]; if (r.p(0.7)) { pref = r.u(1, 600); snprintf(b, sizeof b, "%.17g", pref); g.insertParameter("rock_compressibility_pref", b); pref *= 1e5; } if (r.p(0.8)) { comp = r.p(0.1) ? 0 : r.logu(1e-7, 1e-2); snprintf(b, sizeof b, "%.17g", comp); g.insertParameter("rock_compressibility", b); comp /= 1e5; } rc.reset(new Opm::RockCompressibility(g)); }
    else { std::ostringstream o; o.precision(17); if (field) o << "FIELD\n"; int reg = r.i(1, 3);
        if (kind >= 2 && (kind == 2 || r.p(0.3))) { o << "ROCK\n"; for (int i = 0; i < reg; ++i) { double a = r.u(1, 600), b = r.p(0.1) ? 0 : r.logu(1e-7, 1e-2); if (i == 0 && kind == 2) { pref = a * up; comp = b / up; } o << a << " " << b << " /\n"; } }
        if (kind == 3) { o << "ROCKTAB\n"; for (int i = 0; i < reg; ++i) { int n = r.i(2, 9); dvec p = dk::increasing(r, n, 1, 800), m(n); for (auto& x : m) x = r.u(0.5, 1.5); std::sort(m.begin(), m.end()); for (int k = 0; k < n; ++k) o << p[k] << " " << m[k] << " " << r.u() << "\n"; o << "/\n"; if (i == 0) { P = p; M = m; for (auto& x : P) x *= up; } } }
        o << "OIL\n"; std::istringstream is(o.str()); Opm::EclipseGridParser p; p.read(is, true); rc.reset(new Opm::RockCompressibility(p)); ctx = o.str(); }
    ctx = cat(kn[kind], " pref ", pref, " comp ", comp, " ") + ctx; ev(cat("compressibility_", kn[kind])); CHK(rc->isActive() == (!P.empty() || comp != 0), "active", ctx);
    for (int k = 0; k < 30; ++k) {
        double p; if (P.empty()) p = r.p(0.1) ? pref : r.u(0, 1000e5); else p = r.p(0.3) ? P[r.i(0, (int)P.size() - 1)] : r.u(P.front() - 0.1 * (P.back() - P.front()), P.back() + 0.1 * (P.back() - P.front())); double m = rc->poroMult(p), c = rc->rockComp(p); ev("pressures"); nontrivial(hdbl(m + p));
        if (P.empty()) { double x = comp * (p - pref); if (!CHK(close(m, 1 + x + 0.5 * x * x, 1e-14, 1), "multiplier", cat("at ", p, " ", m, " expected ", 1 + x + 0.5 * x * x, " ", ctx))) return; if (!CHK(close(c, comp, 1e-15, 0), "compressibility", cat("at ", p, " ", c, " ", ctx))) return; if (comp != 0 && std::fabs(x) < 0.01) { double h = 0.001 / comp, d = (rc->poroMult(p + h) - rc->poroMult(p - h)) / (2 * h) / m; CHK(close(c, d, 2e-4, 0), "compressibility-is-derivative", cat("at ", p, " ", c, " difference quotient ", d, " ", ctx)); ev("derivatives"); } continue; }
        size_t s = 0; while (s + 2 < P.size() && p >= P[s + 1]) ++s; double sl = (M[s + 1] - M[s]) / (P[s + 1] - P[s]), e = M[s] + sl * (p - P[s]); if (!CHK(close(m, e, 1e-10, 1), "table-multiplier", cat("at ", p, " ", m, " expected ", e, " ", ctx))) return; bool node = false; for (double x : P) node = node || std::fabs(p - x) < 1e-9 * P.back(); double sl2 = sl; if (node) { size_t s2 = 0; while (s2 + 2 < P.size() && p > P[s2 + 1] * (1 + 1e-12)) ++s2; if (s2 > 0 && std::fabs(p - P[s2]) < 1e-9 * P.back()) --s2; sl2 = (M[s2 + 1] - M[s2]) / (P[s2 + 1] - P[s2]); size_t s3 = std::min(s2 + 1, P.size() - 2); double sl3 = (M[s3 + 1] - M[s3]) / (P[s3 + 1] - P[s3]); CHK(close(c * m, sl, 1e-7, 0) || close(c * m, sl2, 1e-7, 0) || close(c * m, sl3, 1e-7, 0), "table-compressibility-node", cat("at ", p, " ", c, " ", ctx)); ev("table_nodes"); } else { CHK(close(c * e, sl, 1e-7, 0), "table-compressibility", cat("at ", p, " ", c, " slope ", sl, " multiplier ", e, " ", ctx)); ev("table_points"); }
    }
}
static void one(long k, Rng& r) { switch (k % 4) { case 0: case 1: deckrock(r); break; case 2: if (r.p(0.6)) facade(r); else basic(r); break; default: compress(r); } }
int main(int argc, char** argv) { return mon::run(argc, argv, "P15", one); }
