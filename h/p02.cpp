#include <set>
// P02: corner-point processing against an independent column-overlap oracle.
#include "gridlib.hpp"
using namespace gl;
struct M3 { double a[3][3]; V3 operator*(V3 v) const { V3 r; for (int i = 0; i < 3; ++i) r[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; return r; } };
static M3 id() { M3 m = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; return m; }
static M3 mm(const M3& x, const M3& y) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.a[i][j] = 0; for (int k = 0; k < 3; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; } return r; }
static double det(const M3& m) { return dot(mk(m.a[0][0], m.a[0][1], m.a[0][2]), cross(mk(m.a[1][0], m.a[1][1], m.a[1][2]), mk(m.a[2][0], m.a[2][1], m.a[2][2]))); }
static V3 outward(const M3& m, V3 n) // |det| * m^-T * n  (cofactor matrix, sign fixed so outward stays outward)
{
    V3 r0 = mk(m.a[0][0], m.a[0][1], m.a[0][2]), r1 = mk(m.a[1][0], m.a[1][1], m.a[1][2]), r2 = mk(m.a[2][0], m.a[2][1], m.a[2][2]);
    V3 c0 = cross(r1, r2), c1 = cross(r2, r0), c2 = cross(r0, r1); double s = det(m) < 0 ? -1 : 1;
    return mk(s * dot(c0, n), s * dot(c1, n), s * dot(c2, n));
}
struct Base { CP c; bool planar; std::vector<double> px, py; double PX(int i, int j) const { return px[i + (c.nx + 1) * j]; } double PY(int i, int j) const { return py[i + (c.nx + 1) * j]; } std::string desc; double minsep; };

static double overlap(double tA0, double tA1, double bA0, double bA1, double tB0, double tB1, double bB0, double bB1)
{
    double L[4][2] = {{tA0, tA1}, {bA0, bA1}, {tB0, tB1}, {bB0, bB1}};
    std::vector<double> s; s.push_back(0); s.push_back(1);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { double d0 = L[i][0] - L[j][0], d1 = L[i][1] - L[j][1]; if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) s.push_back(d0 / (d0 - d1)); }
    std::sort(s.begin(), s.end());
    auto f = [&](double t) { double v[4]; for (int i = 0; i < 4; ++i) v[i] = L[i][0] * (1 - t) + L[i][1] * t; return std::max(0.0, std::min(v[1], v[3]) - std::max(v[0], v[2])); };
    double a = 0; for (size_t k = 0; k + 1 < s.size(); ++k) a += (s[k + 1] - s[k]) * 0.5 * (f(s[k]) + f(s[k + 1]));
    return a;
}
static bool active(const CP& c, int i, int j, int k)
{
    if (c.use_act && !c.actnum[c.cell(i, j, k)]) return false;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) if (c.z(i, j, k, a, b, 1) != c.z(i, j, k, a, b, 0)) return true;
    return false;
}
static Base make(Rng& r)
{
    Base B; CP& c = B.c; int m = r.p(0.15) ? 8 : 4;
    c.nx = r.i(1, m); c.ny = r.i(1, m); c.nz = r.i(1, r.p(0.2) ? 12 : 5);
    const int nx = c.nx, ny = c.ny, nz = c.nz;
    std::vector<double> x = coords(r, nx, 0.5, 2), y = coords(r, ny, 0.5, 2);
    bool jit = r.p(0.5);
    double hx = 1e300, hy = 1e300; for (int i = 0; i < nx; ++i) hx = std::min(hx, x[i + 1] - x[i]); for (int j = 0; j < ny; ++j) hy = std::min(hy, y[j + 1] - y[j]);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { B.px.push_back(x[i] + (jit ? r.u(-0.2, 0.2) * hx : 0)); B.py.push_back(y[j] + (jit ? r.u(-0.2, 0.2) * hy : 0)); }
    c.coord.assign(6 * (size_t)(nx + 1) * (ny + 1), 0); c.zcorn.assign(8 * (size_t)nx * ny * nz, 0); c.actnum.assign((size_t)nx * ny * nz, 1);
    bool faults = r.p(0.7), tilt = r.p(0.5), crossing = faults && r.p(0.5), wedge = r.p(0.4), pinch = r.p(0.4), gaps = r.p(0.3), holes = r.p(0.5);
    B.planar = r.p(0.75);
    c.use_act = holes || r.p(0.3);
    double gx = tilt ? r.u(-0.4, 0.4) : 0, gy = tilt ? r.u(-0.4, 0.4) : 0, base = r.p(0.5) ? 0 : r.u(0, 2000);
    double cx = 0.5 * (x[0] + x[nx]), cy = 0.5 * (y[0] + y[ny]);
    std::vector<double> th(nz), tgx(nz, 0), tgy(nz, 0); for (int k = 0; k < nz; ++k) { th[k] = 0.25 * r.i(1, 8); if (pinch && r.p(0.3)) th[k] = 0; }
    std::vector<double> gap(nz, 0); if (gaps) for (auto& g : gap) g = r.p(0.3) ? 0.25 * r.i(1, 4) : 0;
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        double thr = faults && r.p(0.6) ? 0.25 * r.i(-8, 8) : 0, cgx = gx, cgy = gy;
        if (crossing && r.p(0.6)) { cgx += r.u(-1, 1); cgy += r.u(-1, 1); if (r.p(0.5)) thr += r.u(-1, 1); }
        double zt[2][2];
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) zt[a][b] = base + thr + cgx * (B.PX(i + a, j + b) - cx) + cgy * (B.PY(i + a, j + b) - cy);
        for (int k = 0; k < nz; ++k) {
            double t[2][2]; double tk = th[k]; if (pinch && r.p(0.1)) tk = 0;
            for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) t[a][b] = tk;
            if (wedge && tk > 0 && r.p(0.4)) { // thickness falls linearly to exactly zero at one side
                int side = r.i(0, 3); double q[4][2] = {{B.PX(i, j), B.PY(i, j)}, {B.PX(i + 1, j), B.PY(i + 1, j)}, {B.PX(i, j + 1), B.PY(i, j + 1)}, {B.PX(i + 1, j + 1), B.PY(i + 1, j + 1)}};
                static const int E[4][2] = {{0, 2}, {1, 3}, {0, 1}, {2, 3}}; const double *e0 = q[E[side][0]], *e1 = q[E[side][1]];
                for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { int id = a + 2 * b; if (id == E[side][0] || id == E[side][1]) t[a][b] = 0; else t[a][b] = std::fabs((e1[0] - e0[0]) * (q[id][1] - e0[1]) - (e1[1] - e0[1]) * (q[id][0] - e0[0])) / std::hypot(e1[0] - e0[0], e1[1] - e0[1]) * tk; }
            }
            if (!B.planar && tk > 0) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double am = std::min(0.3 * tk, 0.2 * std::min(hx, hy) / nz); t[a][b] = (t[a][b] > 0) ? (r.p(0.15) && tk < 0.2 * std::min(hx, hy) ? 0.0 : t[a][b] + r.u(0, 1) * am) : 0.0; }
            for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { c.z(i, j, k, a, b, 0) = zt[a][b]; zt[a][b] += t[a][b]; c.z(i, j, k, a, b, 1) = zt[a][b]; zt[a][b] += gap[k]; }
        }
    }
    if (c.use_act) for (auto& a : c.actnum) a = holes ? r.p(0.75) : 1;
    B.desc = cat(nx, "x", ny, "x", nz, faults ? " faults" : "", crossing ? " crossing" : "", wedge ? " wedge" : "", pinch ? " pinch" : "", gaps ? " gaps" : "", holes ? " holes" : "", tilt ? " tilt" : "", jit ? " skewed" : "", B.planar ? "" : " warped");
    bool any = false;
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) any |= active(c, i, j, k);
    if (!any) { c.actnum[0] = 1; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double d = 1 - (c.z(0, 0, 0, a, b, 1) - c.z(0, 0, 0, a, b, 0)); for (int k = 0; k < nz; ++k) for (int q = 0; q < 2; ++q) if (k + q > 0) c.z(0, 0, k, a, b, q) += d; } }
    // depths that differ by rounding noise only are made identical (the coincidence tolerance is zero)
    for (int pj = 0; pj <= ny; ++pj) for (int pi = 0; pi <= nx; ++pi) {
        std::vector<double*> zz; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { int i = pi - a, j = pj - b; if (i < 0 || j < 0 || i >= nx || j >= ny) continue; for (int k = 0; k < nz; ++k) for (int q = 0; q < 2; ++q) zz.push_back(&c.z(i, j, k, a, b, q)); }
        std::sort(zz.begin(), zz.end(), [](double* u, double* v) { return *u < *v; });
        for (size_t u = 1; u < zz.size(); ++u) if (*zz[u] - *zz[u - 1] < 1e-9) *zz[u] = *zz[u - 1];
    }
    // depths of inactive cells are irrelevant
    if (c.use_act && r.p(0.5)) for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (!c.actnum[c.cell(i, j, k)]) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int q = 0; q < 2; ++q) c.z(i, j, k, a, b, q) = base + r.u(-3, 3);
    return B;
}
static void check(const Base& B, const CP& in, const M3& T, double tol, double rt, const std::string& what)
{
    const CP& c = B.c; const int nx = c.nx, ny = c.ny, nz = c.nz; const std::string K = "p02";
    struct grdecl d = in.decl();
    GridPtr gp(create_grid_cornerpoint(&d, tol)); const UnstructuredGrid* g = gp.g;
    if (!CHK(g != 0, K + ":null", what)) return;
    std::vector<int> loc(nx * ny * nz, -1); int na = 0;
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (active(c, i, j, k)) loc[c.cell(i, j, k)] = na++;
    if (!CHK(g->number_of_cells == na, K + ":active-count", cat(what, " active ", g->number_of_cells, " expected ", na))) return;
    if (!CHK(g->global_cell && g->cartdims[0] == nx && g->cartdims[1] == ny && g->cartdims[2] == nz && g->dimensions == 3, K + ":dims", what)) return;
    for (size_t q = 0; q < loc.size(); ++q) if (loc[q] >= 0 && !CHK(g->global_cell[loc[q]] == (int)q, K + ":active-set", cat(what, " local ", loc[q], " is ", g->global_cell[loc[q]], " expected ", q))) return;
    if (!CHK(g->cell_facetag != 0, K + ":notag", what)) return;
    if (!check_grid(*g, K, B.planar, rt)) { violate(K + ":case", what); return; }
    for (int f = 0; f < g->number_of_faces; ++f) {
        std::set<int> seen(g->face_nodes + g->face_nodepos[f], g->face_nodes + g->face_nodepos[f + 1]);
        ev("face node cycles");
        if (!CHK((int)seen.size() == g->face_nodepos[f + 1] - g->face_nodepos[f], K + ":repeated-node", cat(what, " face ", f, " lists ", g->face_nodepos[f + 1] - g->face_nodepos[f], " nodes but only ", seen.size(), " different ones"))) return;
    }
    Scale s = scales(*g);
    const double at = rt * 100 * s.A, adet = std::fabs(det(T));
    // observed summed outward area vectors per (cell, tag, neighbour)
    typedef std::map<std::pair<int, int>, V3> Tab; std::vector<Tab> obs(na);
    for (int q = 0; q < na; ++q) for (int h = g->cell_facepos[q]; h < g->cell_facepos[q + 1]; ++h) {
        int f = g->cell_faces[h], o = g->face_cells[2 * f] == q ? g->face_cells[2 * f + 1] : g->face_cells[2 * f];
        V3 n = mul(pt(g->face_normals + 3 * f, 3), g->face_cells[2 * f] == q ? 1 : -1);
        Tab::iterator it = obs[q].insert(std::make_pair(std::make_pair(g->cell_facetag[h], o), mk(0, 0, 0))).first; it->second = add(it->second, n);
        if (o >= 0 && !CHK((g->face_cells[2 * f] == q) == (g->cell_facetag[h] % 2 == 1), K + ":face-direction", cat(what, " cell ", q, " tag ", g->cell_facetag[h]))) return;
    }
    std::vector<Tab> expct(na);
    auto side = [&](int q, int tag, int o, V3 n, double amount) { if (amount <= 0) return; Tab::iterator it = expct[q].insert(std::make_pair(std::make_pair(tag, o), mk(0, 0, 0))).first; it->second = add(it->second, mul(outward(T, n), amount)); };
    for (int dir = 0; dir < 2; ++dir) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int hi = 0; hi < 2; ++hi) {
        // side hi of column (i,j) in direction dir: pillars P (low) and Q (high) of that side
        int ai = dir == 0 ? hi : 0, aj = dir == 0 ? 0 : hi, bi = dir == 0 ? hi : 1, bj = dir == 0 ? 1 : hi;
        double ex = B.PX(i + bi, j + bj) - B.PX(i + ai, j + aj), ey = B.PY(i + bi, j + bj) - B.PY(i + ai, j + aj);
        V3 n = dir == 0 ? mk(ey, -ex, 0) : mk(-ey, ex, 0); if (!hi) n = mul(n, -1); // outward per unit depth integral
        int ni = i + (dir == 0 ? (hi ? 1 : -1) : 0), nj = j + (dir == 1 ? (hi ? 1 : -1) : 0); bool inside = ni >= 0 && ni < nx && nj >= 0 && nj < ny;
        for (int k = 0; k < nz; ++k) { int q = loc[c.cell(i, j, k)]; if (q < 0) continue;
            double t0 = c.z(i, j, k, ai, aj, 0), t1 = c.z(i, j, k, bi, bj, 0), b0 = c.z(i, j, k, ai, aj, 1), b1 = c.z(i, j, k, bi, bj, 1), full = 0.5 * (b0 - t0 + b1 - t1), used = 0;
            if (inside) for (int kk = 0; kk < nz; ++kk) { int o = loc[c.cell(ni, nj, kk)]; if (o < 0) continue;
                int oai = dir == 0 ? 1 - hi : 0, oaj = dir == 0 ? 0 : 1 - hi, obi = dir == 0 ? 1 - hi : 1, obj = dir == 0 ? 1 : 1 - hi;
                double a = overlap(t0, t1, b0, b1, c.z(ni, nj, kk, oai, oaj, 0), c.z(ni, nj, kk, obi, obj, 0), c.z(ni, nj, kk, oai, oaj, 1), c.z(ni, nj, kk, obi, obj, 1));
                used += a; side(q, 2 * dir + hi, o, n, a); if (a > 0) ev("side_overlaps"); }
            double rest = full - used; if (rest > 0) { side(q, 2 * dir + hi, -1, n, rest); }
        }
    }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        std::vector<int> ks; for (int k = 0; k < nz; ++k) if (loc[c.cell(i, j, k)] >= 0) ks.push_back(k);
        auto va = [&](int k, int q) { V3 p[2][2]; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) p[a][b] = mk(B.PX(i + a, j + b), B.PY(i + a, j + b), c.z(i, j, k, a, b, q)); return mul(cross(sub(p[1][1], p[0][0]), sub(p[0][1], p[1][0])), 0.5); };
        for (size_t u = 0; u < ks.size(); ++u) {
            int q = loc[c.cell(i, j, ks[u])], up = -1, dn = -1;
            auto touch = [&](int k1, int k2) { for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) if (c.z(i, j, k1, a, b, 1) != c.z(i, j, k2, a, b, 0)) return false; return true; };
            if (u > 0 && touch(ks[u - 1], ks[u])) up = loc[c.cell(i, j, ks[u - 1])];
            if (u + 1 < ks.size() && touch(ks[u], ks[u + 1])) { dn = loc[c.cell(i, j, ks[u + 1])]; if (ks[u + 1] != ks[u] + 1) ev("connections_across_collapsed"); }
            side(q, 4, up, mul(va(ks[u], 0), -1), 1); side(q, 5, dn, va(ks[u], 1), 1);
        }
    }
    for (int q = 0; q < na; ++q) {
        for (auto& e : expct[q]) { Tab::iterator it = obs[q].find(e.first); V3 o = it == obs[q].end() ? mk(0, 0, 0) : it->second;
            if (!CHK(norm(sub(o, e.second)) <= at, K + ":interface", cat(what, " cell ", q, " (global ", g->global_cell[q], ") side ", e.first.first, " neighbour ", e.first.second, " area vector ", o[0], ",", o[1], ",", o[2], " expected ", e.second[0], ",", e.second[1], ",", e.second[2]))) return;
            if (norm(e.second) > at * 10 && !CHK(it != obs[q].end(), K + ":missing-interface", what)) return;
            ev("interfaces_compared"); }
        for (auto& o : obs[q]) if (!expct[q].count(o.first)) if (!CHK(norm(o.second) <= at, K + ":extra-interface", cat(what, " cell ", q, " (global ", g->global_cell[q], ") side ", o.first.first, " neighbour ", o.first.second, " area ", norm(o.second)))) return;
        if (B.planar) { // exact moments of the wedge between two planes over the footprint
            int gc = g->global_cell[q], i = gc % nx, j = (gc / nx) % ny, k = gc / (nx * ny); double vol = 0; V3 mom = mk(0, 0, 0);
            static const int TRI[2][3] = {{0, 1, 3}, {0, 3, 2}};
            for (int t = 0; t < 2; ++t) { double X[3], Y[3], Z0[3], Z1[3]; for (int u = 0; u < 3; ++u) { int a = TRI[t][u] % 2, b = TRI[t][u] / 2; X[u] = B.PX(i + a, j + b); Y[u] = B.PY(i + a, j + b); Z0[u] = c.z(i, j, k, a, b, 0); Z1[u] = c.z(i, j, k, a, b, 1); }
                double A = 0.5 * std::fabs((X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]));
                for (int u = 0; u < 3; ++u) { int v = (u + 1) % 3; double mx = 0.5 * (X[u] + X[v]), my = 0.5 * (Y[u] + Y[v]), m0 = 0.5 * (Z0[u] + Z0[v]), m1 = 0.5 * (Z1[u] + Z1[v]), h = m1 - m0; vol += A / 3 * h; mom = add(mom, mul(mk(mx * h, my * h, 0.5 * (m1 + m0) * h), A / 3)); } }
            if (!NEAR(g->cell_volumes[q], vol * adet, rt * 10, s.V, K + ":cell-volume", cat(what, " cell ", q))) return;
            V3 ce = T * mul(mom, 1 / vol), go = pt(g->cell_centroids + 3 * q, 3);
            if (vol * adet > 1e4 * rt * s.V) if (!CHK(norm(sub(ce, go)) <= rt * 1000 * (s.M + s.L) * (1 + s.V / (vol * adet) * 0.01), K + ":cell-centroid", cat(what, " cell ", q, " centroid ", go[0], ",", go[1], ",", go[2], " expected ", ce[0], ",", ce[1], ",", ce[2]))) return;
            ev("cell_moments_compared");
        }
    }
}
static CP transform(const Base& B, const M3& T, Rng& r)
{
    // T keeps vertical lines straight and horizontal planes horizontal: apply to two points per pillar, scale depths
    CP c = B.c; double zs = T.a[2][2]; for (auto& z : c.zcorn) z *= zs;
    double lo = 1e300, hi = -1e300; for (double z : B.c.zcorn) { lo = std::min(lo, z); hi = std::max(hi, z); }
    bool flat = T.a[0][2] == 0 && T.a[1][2] == 0 && r.p(0.1); // vertical pillar given by coincident end depths
    for (int j = 0; j <= c.ny; ++j) for (int i = 0; i <= c.nx; ++i) { double* p = c.pil(i, j); double z0 = lo - 1, z1 = flat ? z0 : hi + r.u(0.5, 2); V3 a = T * mk(B.PX(i, j), B.PY(i, j), z0), b = T * mk(B.PX(i, j), B.PY(i, j), z1); for (int q = 0; q < 3; ++q) { p[q] = a[q]; p[3 + q] = b[q]; } }
    return c;
}
static void onecase(long, Rng& r)
{
    Base B = make(r);
    M3 T = id();
    std::string tr;
    double zs = 1;
    if (r.p(0.3)) { M3 m = id(); double a = r.u(0, 6.28); m.a[0][0] = std::cos(a); m.a[0][1] = -std::sin(a); m.a[1][0] = std::sin(a); m.a[1][1] = std::cos(a); T = mm(m, T); tr += " rotated"; }
    if (r.p(0.3)) { M3 m = id(); m.a[1][1] = -1; T = mm(m, T); tr += " mirrored"; ev("lefthanded_inputs"); }
    if (r.p(0.3)) { M3 m = id(); m.a[2][2] = -1; T = mm(m, T); zs = -1; tr += " negz"; ev("negative_depth_inputs"); }
    if (r.p(0.4)) { M3 m = id(); m.a[0][2] = r.u(-0.5, 0.5); m.a[1][2] = r.u(-0.5, 0.5); T = mm(m, T); tr += " sloped"; }
    CP in = transform(B, T, r);
    (void)zs;
    check(B, in, T, 0.0, 1e-10, B.desc + tr);
    nontrivial(hcomb(hstr(B.desc + tr), hdbl(B.c.zcorn.back()))); sample(B.desc + tr);
    if (B.planar) { // coincidence tolerance: perturbation far below tol, distinct depths far above it
        bool sep = true; double lo = 1e300; for (int pj = 0; pj <= B.c.ny && sep; ++pj) for (int pi = 0; pi <= B.c.nx && sep; ++pi) { std::vector<double> zz;
            for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { int i = pi - a, j = pj - b; if (i < 0 || j < 0 || i >= B.c.nx || j >= B.c.ny) continue; for (int k = 0; k < B.c.nz; ++k) for (int q = 0; q < 2; ++q) if (!B.c.use_act || B.c.actnum[B.c.cell(i, j, k)]) zz.push_back(B.c.z(i, j, k, a, b, q)); }
            std::sort(zz.begin(), zz.end()); for (size_t u = 1; u < zz.size(); ++u) if (zz[u] > zz[u - 1]) { lo = std::min(lo, zz[u] - zz[u - 1]); if (zz[u] - zz[u - 1] < 1e-3) sep = false; } }
        if (sep && T.a[2][2] == 1) { CP p = in; // keep order along pillars: perturb per (pillar value) by raising with depth index
            for (int j = 0; j < p.ny; ++j) for (int i = 0; i < p.nx; ++i) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double e = r.u(0, 1e-8), last = -1e300; for (int k = 0; k < p.nz; ++k) for (int q = 0; q < 2; ++q) { double& z = p.z(i, j, k, a, b, q); z += e + 1e-9 * r.u(); z = (!p.use_act || p.actnum[p.cell(i, j, k)]) ? std::max(z, last) : z; if (!p.use_act || p.actnum[p.cell(i, j, k)]) last = z; } }
            check(B, p, T, 1e-5, 3e-6, B.desc + tr + " tolerance"); ev("tolerance_cases"); }
    }
}
int main(int c, char** v) { return run(c, v, "p02", onecase); }
