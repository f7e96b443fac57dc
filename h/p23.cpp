// P23: gravity segregation in columns, incompressible and compressible: per-cell balance, direction, energy, conservation.
#include "config.h"
#define FLOW_NO_WELLS
#include "blackoil.hpp"
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
using namespace mon; using namespace gl;
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(fd, 2); close(fd); } };
typedef std::vector<std::vector<int>> Cols;

struct Problem {
    const UnstructuredGrid* g; const MockIncomp* rock; std::vector<double> mu; /* per cell and phase */ std::vector<double> ddens; /* density difference per cell */ std::vector<double> pv; double dt, tol, grav[3]; std::vector<double> T;
    double mob(int c, int p, double s) const { return rock->kr(c, p, s) / mu[2 * c + p]; }
    // drive of the pair (c above or below n): T (drho_c g.(x_c-x_f) + drho_n g.(x_f-x_n)), zero when not connected
    double drive(int c, int n) const
    {
        double s = 0; int d = g->dimensions;
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; if (g->face_cells[2 * f] != n && g->face_cells[2 * f + 1] != n) continue; double a = 0, b = 0; for (int q = 0; q < d; ++q) { a += grav[q] * (g->cell_centroids[d * c + q] - g->face_centroids[d * f + q]); b += grav[q] * (g->face_centroids[d * f + q] - g->cell_centroids[d * n + q]); } s += T[f] * (ddens[c] * a + ddens[n] * b); }
        return s;
    }
};
// water volume rate from c to n for drive G (positive: water moves from n to c)
static double exchange(const Problem& P, int c, int n, double G, double sc, double sn) { double w, o; if (G < 0) { w = P.mob(c, 0, sc); o = P.mob(n, 1, 1 - sn); } else { w = P.mob(n, 0, sn); o = P.mob(c, 1, 1 - sc); } return w + o > 0 ? -G * w * o / (w + o) : 0; }

static bool judge(const Problem& P, const Cols& cols, const std::vector<double>& s0, const std::vector<double>& s, bool clamp, const std::string& d)
{
    std::vector<char> in(P.g->number_of_cells, 0);
    for (const auto& col : cols) {
        int n = col.size(); std::vector<double> G(n > 0 ? n - 1 : 0); for (int i = 0; i + 1 < n; ++i) { G[i] = P.drive(col[i], col[i + 1]); }
        double moved = 0, e0 = 0, e1 = 0, etol = 0, width = 0; ev("columns");
        for (int i = 0; i < n; ++i) {
            int c = col[i]; in[c] = 1; double w = s[2 * c], lo = P.rock->smin_[2 * c], hi = P.rock->smax_[2 * c], e = 2 * P.tol, dtpv = P.dt / P.pv[c], mag = 0; ev("cells");
            if (!CHK(s[2 * c + 1] == 1 - w, "sat-sum", cat(d, " cell ", c))) return false;
            for (int q = -1; q <= 1; q += 2) { int j = i + q; if (j < 0 || j >= n) continue; mag += std::fabs(q < 0 ? G[i - 1] : G[i]) * std::max(P.mob(c, 0, 1), P.mob(c, 1, 1)); }
            double dl = 2 * P.tol + 1e-14 * (1 + dtpv * mag), noise = 1e-13 * (1 + dtpv * mag);
            double bt = clamp ? 1e-12 : dl; if (!CHK(w >= lo - bt && w <= hi + bt, "bounds", cat(d, " cell ", c, " s ", w, " range ", lo, " ", hi, " s0 ", s0[2 * c]))) return false;
            // r(t; neighbours) = t - s0 + dt/pv sum of exchange with neighbours: increases in t, decreases with the neighbours' saturations
            auto res = [&](double t, double en) { double r = t - s0[2 * c]; for (int q = -1; q <= 1; q += 2) { int j = i + q; if (j < 0 || j >= n) continue; double Gij = q > 0 ? G[i] : -G[i - 1]; r += dtpv * exchange(P, c, col[j], Gij, t, s[2 * col[j]] + en); } return r; };
            bool above = res(w + dl, -e) >= -noise, below = res(w - dl, e) <= noise;
            if (!CHK(above && below, "balance", cat(d, " column cell ", i, "/", n, " s0 ", s0[2 * c], " s ", w, " residual ", res(w, 0), " dt/pv ", dtpv, " tol ", P.tol))) return false;
            width += P.pv[c] * (res(w + dl, -e) - res(w - dl, e) + noise);
            moved += P.pv[c] * (w - s0[2 * c]); if (std::fabs(w - s0[2 * c]) > 100 * P.tol) ev("changed_cells");
            if (i + 1 < n) { // the denser phase does not rise through the lower face of this cell (moved: gain of water above it)
                double dir = G[i]; // positive drive: water moves from the lower to the upper cell
                if (dir < 0) { if (!CHK(moved <= width, "direction", cat(d, " water gained above interface ", i, ": ", moved, " though it should sink; tol ", width))) return false; ev("sinking_interfaces"); }
                else if (dir > 0) { if (!CHK(moved >= -width, "direction", cat(d, " water lost above interface ", i, ": ", moved, " though it should rise; tol ", width))) return false; ev("rising_interfaces"); }
                else { if (!CHK(std::fabs(moved) <= width, "no-exchange", cat(d, " water moved through interface ", i, " without drive: ", moved))) return false; ev("idle_interfaces"); }
            }
            (void)e0; (void)e1; (void)etol;
        }
        if (!CHK(std::fabs(moved) <= width, "column-volume", cat(d, " column of ", n, " gained ", moved, " tol ", width))) return false;
    }
    for (int c = 0; c < P.g->number_of_cells; ++c) if (!in[c]) { ev("cells_outside"); if (!CHK(s[2 * c] == s0[2 * c], "outside", cat(d, " cell ", c, " outside the columns changed"))) return false; }
    return true;
}
static double energy(const Problem& P, const std::vector<double>& s) { double e = 0; int d = P.g->dimensions; for (int c = 0; c < P.g->number_of_cells; ++c) { double gz = 0; for (int q = 0; q < d; ++q) gz += P.grav[q] * P.g->cell_centroids[d * c + q]; e -= P.pv[c] * P.ddens[c] * s[2 * c] * gz; } return e; }

static void one(long, Rng& r)
{
    std::string kind; bool si = r.p(0.5), compr = r.p(0.4); GridPtr g(0); { do { g = random_grid(r, r.p(0.2) ? 8 : 5, &kind, false); } while (g->dimensions != 3); if (r.p(0.04)) { int nx = r.i(1, 3), nz = r.i(30, 140); g = GridPtr(create_grid_hexa3d(nx, 1, nz, r.u(0.5, 2), r.u(0.5, 2), r.u(0.05, 1))); kind = cat("tall ", nx, "x1x", nz); ev("tall_columns"); } if (r.p(0.25)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); kind += " renumbered"; } if (r.p(0.3)) { g = refaced(*g, r, r.p(0.5)); kind += " refaced"; ev("refaced"); } }
    int nc = g->number_of_cells; double pref = si ? 2e7 : 10, psc = si ? 5e6 : 1; MockBlackoil m = random_blackoil(r, *g, 2, si, 2, false, pref, psc, compr ? 1 : 0);
    if (r.p(0.5)) { MockIncomp t = random_mock(r, *g, 2, si, 2, false, true); m.rock.smin_ = t.smin_; m.rock.smax_ = t.smax_; }
    if (r.p(0.08)) for (auto& k : m.rock.perm) if (r.p(0.2)) k = 0;
    Problem P; P.g = &*g; P.rock = &m.rock; P.pv.resize(nc); for (int i = 0; i < nc; ++i) P.pv[i] = m.rock.poro[i] * g->cell_volumes[i]; P.grav[0] = P.grav[1] = 0; P.grav[2] = si ? 9.80665 : r.logu(0.1, 10); if (r.p(0.1)) P.grav[2] = -P.grav[2];
    std::vector<double> h = half_trans(*g, m.rock.perm); P.T.assign(g->number_of_faces, 0.0); for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) P.T[g->cell_faces[k]] += 1 / h[k]; for (auto& t : P.T) t = 1 / t;
    std::vector<double> p(nc); for (auto& x : p) x = compr ? pref + psc * r.u(-0.5, 0.5) : pref; P.mu.resize(2 * nc); P.ddens.resize(nc); std::vector<double> A(4 * nc), rho(2 * nc);
    for (int i = 0; i < nc; ++i) m.amat(p[i], &A[4 * i], 0); if (compr) { m.density(nc, &A[0], &rho[0]); for (int i = 0; i < nc; ++i) { P.ddens[i] = rho[2 * i] - rho[2 * i + 1]; for (int q = 0; q < 2; ++q) P.mu[2 * i + q] = m.mu(q, p[i]); } } else for (int i = 0; i < nc; ++i) { P.ddens[i] = m.rock.rho[0] - m.rock.rho[1]; for (int q = 0; q < 2; ++q) P.mu[2 * i + q] = m.rock.mu[q]; }
    Cols cols; Opm::extractColumn(*g, cols);
    // step size relative to the fastest exchange
    double rate = 0; size_t longest = 0; for (auto& c : cols) { longest = std::max(longest, c.size()); for (size_t i = 0; i + 1 < c.size(); ++i) rate = std::max(rate, std::fabs(P.drive(c[i], c[i + 1])) * std::max(P.mob(c[i], 0, 1), P.mob(c[i], 1, 1)) / std::min(P.pv[c[i]], P.pv[c[i + 1]])); }
    double cfl = r.p(0.1) ? r.logu(1e-3, 0.02) : r.logu(1e-2, 100); P.dt = rate > 0 ? cfl / rate : 1; P.tol = std::max(r.pick(std::vector<double>{1e-5, 1e-7, 1e-9, 1e-10}), 1e-13 * cfl); int maxit = r.p(0.5) ? 300 : 2000;
    std::vector<double> s0 = random_sat(r, m.rock); bool seg = r.p(0.15);
    if (seg) for (auto& c : cols) { // heavier phase below, one mixed cell
        int cut = r.i(0, (int)c.size()); for (size_t i = 0; i < c.size(); ++i) { double G = i + 1 < c.size() ? P.drive(c[i], c[i + 1]) : i > 0 ? P.drive(c[i - 1], c[i]) : -1; bool down = G <= 0; double v = ((int)i < cut) == down ? m.rock.smin_[2 * c[i]] : m.rock.smax_[2 * c[i]]; if ((int)i == cut) v = r.u(m.rock.smin_[2 * c[i]], m.rock.smax_[2 * c[i]]); s0[2 * c[i]] = v; s0[2 * c[i] + 1] = 1 - v; }
        bool uniform = true; for (size_t i = 0; i + 1 < c.size(); ++i) if ((P.drive(c[i], c[i + 1]) > 0) != (P.drive(c[0], c[1]) > 0)) uniform = false; if (!uniform) seg = false; }
    std::string d = cat(kind, " cells ", nc, compr ? " compressible" : "", " longest ", longest, " cfl ", cfl, " tol ", P.tol, seg ? " segregated" : "", si ? " SI" : "");
    std::vector<double> q(g->number_of_faces, 0.0), zero(nc, 0.0); int steps = r.i(1, 4); std::vector<double> cur = s0, pvk = P.pv; bool diffeq = true; for (double x : P.ddens) if (x != 0) diffeq = false; if (diffeq) ev("equal_density_problems");
    std::unique_ptr<Opm::TransportSolverTwophaseReorder> ti; std::unique_ptr<Opm::TransportSolverCompressibleTwophaseReorder> tc; Opm::TwophaseState st; std::vector<double> s = s0, z(2 * nc); Cols use = cols;
    if (compr) {
        tc.reset(new Opm::TransportSolverCompressibleTwophaseReorder(*g, m, P.tol, maxit)); tc->initGravity(P.grav); for (int i = 0; i < nc; ++i) { z[2 * i] = A[4 * i] * s[2 * i]; z[2 * i + 1] = A[4 * i + 3] * s[2 * i + 1]; }
        std::vector<double> sx = random_sat(r, m.rock), zx = z; bool other = r.p(0.4); if (other) for (int i = 0; i < nc; ++i) { zx[2 * i] = A[4 * i] * sx[2 * i]; zx[2 * i + 1] = A[4 * i + 3] * sx[2 * i + 1]; } std::vector<double>& a = other ? sx : s; std::vector<double>& b = other ? zx : z; { Quiet qq; tc->solve(&q[0], &p[0], &P.pv[0], &P.pv[0], &zero[0], 1.0, a, b); } s = s0; // the gravity step starts from the saturations it is given
        if (r.p(0.3)) { use.clear(); for (auto& c : cols) if (r.p(0.7)) use.push_back(c); r.shuffle(use); }
    } else { ti.reset(new Opm::TransportSolverTwophaseReorder(*g, m.rock, P.grav, P.tol, maxit)); st.init(*g, 2); st.saturation() = s0; st.faceflux() = q; if (r.p(0.3)) { Opm::TwophaseState o; o.init(*g, 2); o.saturation() = random_sat(r, m.rock); o.faceflux() = q; std::vector<double> pv2 = P.pv; for (auto& x : pv2) x *= r.u(0.5, 2); try { Quiet qq; ti->solveGravity(&pv2[0], P.dt * r.u(), o); } catch (const std::exception&) {} ev("used_objects"); } }
    for (int k = 0; k < steps; ++k) {
        bool ok = true; try { Quiet qq; if (compr) tc->solveGravity(use, P.dt, s, z); else { ti->solveGravity(&P.pv[0], P.dt, st); s = st.saturation(); } } catch (const std::exception&) { ok = false; }
        if (!ok) { ev("not_converged"); CHK(longest > 1, "refused", cat(d, " nothing to do, yet refused")); CHK(cfl > 0.02, "easy-step-refused", d); return; }
        if (cfl <= 0.02 && longest > 1) ev("easy_steps_solved");
        ev("steps"); if (compr) ev("compressible_steps"); if (!CHK((int)s.size() == 2 * nc && P.pv == pvk, "inputs", d)) return;
        if (!judge(P, use, cur, s, !compr, cat(d, " step ", k))) return;
        if (compr) for (int i = 0; i < nc; ++i) if (!NEAR(z[2 * i], A[4 * i] * s[2 * i], 1e-13, A[4 * i], "surface-volume", cat(d, " water of cell ", i)) || !NEAR(z[2 * i + 1], A[4 * i + 3] * s[2 * i + 1], 1e-13, A[4 * i + 3], "surface-volume", cat(d, " oil of cell ", i))) return;
        if (seg || diffeq) { ev(seg ? "segregated_steps" : "equal_density_steps"); for (int i = 0; i < nc; ++i) if (!CHK(std::fabs(s[2 * i] - cur[2 * i]) <= 4 * P.tol + 1e-13, "unchanged", cat(d, " cell ", i, " ", cur[2 * i], " -> ", s[2 * i]))) return; }
        if (!compr) { double e0 = energy(P, cur), e1 = energy(P, s), t = 0; for (int i = 0; i < nc; ++i) t += P.pv[i] * std::fabs(P.ddens[i] * P.grav[2] * g->cell_centroids[3 * i + 2]) * (20 * P.tol + 1e-12) * (1 + cfl); CHK(e1 <= e0 + t, "energy", cat(d, " potential energy rose from ", e0, " to ", e1)); ev("energy_checks"); }
        if (k == 0) { bool okb = true; std::vector<double> sb = s0, zb(2 * nc, 0.0); try { Quiet qq; if (compr) { Opm::TransportSolverCompressibleTwophaseReorder t2(*g, m, P.tol, maxit); t2.initGravity(P.grav); std::vector<double> sx = s0, zx(2 * nc); for (int i = 0; i < nc; ++i) { zx[2 * i] = A[4 * i] * sx[2 * i]; zx[2 * i + 1] = A[4 * i + 3] * sx[2 * i + 1]; } t2.solve(&q[0], &p[0], &P.pv[0], &P.pv[0], &zero[0], 1.0, sx, zx); t2.solveGravity(use, P.dt, sb, zb); } else { Opm::TransportSolverTwophaseReorder t2(*g, m.rock, P.grav, P.tol, maxit); Opm::TwophaseState o; o.init(*g, 2); o.saturation() = s0; o.faceflux() = q; t2.solveGravity(&P.pv[0], P.dt, o); sb = o.saturation(); } } catch (const std::exception&) { okb = false; }
            if (CHK(okb, "repeat", cat(d, " fresh solver fails"))) { double w = 0; for (int i = 0; i < nc; ++i) w = std::max(w, std::fabs(sb[2 * i] - s[2 * i])); if (!compr) CHK(w == 0, "repeat", cat(d, " fresh solver differs by ", w)); else { double tt = 0, diff = 0, lim = 0; (void)tt; for (int i = 0; i < nc; ++i) { diff += P.pv[i] * std::fabs(sb[2 * i] - s[2 * i]); lim += P.pv[i] * (8 * P.tol + 1e-12) * (1 + 4 * cfl * 10); } CHK(diff <= lim, "repeat", cat(d, " fresh solver differs by ", diff, " limit ", lim)); } ev("repeated"); } }
        cur = s;
    }
    uint64_t hh = 7; for (double x : s) hh = hcomb(hh, hdbl(x)); nontrivial(hh); sample(cat(d, " s ", vec(s, 8)));
}
int main(int argc, char** argv) { return run(argc, argv, "p23", one); }
