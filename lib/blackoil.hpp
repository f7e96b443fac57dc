// Mock black-oil fluid: smooth analytic properties with exact derivatives; the specification against which the compressible solvers are monitored.
#pragma once
#include "flow.hpp"
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/simulator/BlackoilState.hpp>

namespace gl {
struct MockBlackoil : public Opm::BlackoilPropertiesInterface {
    MockIncomp rock; int np; double p0; std::vector<double> b, c, muc; double rs, rsp, rv, rvp, psc; // 1/B = b (1+x+x^2/2), x = c (p-p0); phase mu = mu (1+y+y^2/2), y = muc (p-p0); dissolution between the last two phases
    mutable long calls = 0;
    int numDimensions() const { return rock.d; }
    int numCells() const { return rock.nc; }
    const double* porosity() const { return &rock.poro[0]; }
    const double* permeability() const { return &rock.perm[0]; }
    int numPhases() const { return np; }
    double mu(int ph, double p) const { double y = muc[ph] * (p - p0); return rock.mu[ph] * (1 + y + 0.5 * y * y); }
    void amat(double p, double* A, double* dA) const
    {
        std::fill(A, A + np * np, 0.0); if (dA) std::fill(dA, dA + np * np, 0.0);
        for (int q = 0; q < np; ++q) { double x = c[q] * (p - p0), e = b[q] * (1 + x + 0.5 * x * x); A[q + np * q] = e; if (dA) dA[q + np * q] = c[q] * b[q] * (1 + x); }
        if (np >= 2) { int o = np - 2, g = np - 1; double th = std::tanh((p - p0) / psc), dth = (1 - th * th) / psc, R = rs + rsp * psc * th, V = rv + rvp * psc * th; double bo = A[o + np * o], bg = A[g + np * g]; A[g + np * o] = R * bo; A[o + np * g] = V * bg; if (dA) { dA[g + np * o] = rsp * psc * dth * bo + R * dA[o + np * o]; dA[o + np * g] = rvp * psc * dth * bg + V * dA[g + np * g]; } }
    }
    void viscosity(const int n, const double* p, const double*, const int*, double* m, double* dm) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { m[np * i + q] = mu(q, p[i]); if (dm) dm[np * i + q] = rock.mu[q] * muc[q] * (1 + muc[q] * (p[i] - p0)); } }
    void matrix(const int n, const double* p, const double*, const int*, double* A, double* dA) const { ++calls; for (int i = 0; i < n; ++i) amat(p[i], A + (size_t)np * np * i, dA ? dA + (size_t)np * np * i : 0); }
    void density(const int n, const double* A, double* rho) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { rho[np * i + q] = 0; for (int k = 0; k < np; ++k) rho[np * i + q] += A[(size_t)np * np * i + q * np + k] * rock.rho[k]; } }
    const double* surfaceDensity() const { return &rock.rho[0]; }
    void relperm(const int n, const double* s, const int* cells, double* k, double* dk) const { rock.relperm(n, s, cells, k, dk); }
    void capPress(const int n, const double* s, const int* cells, double* pc, double* dpc) const { rock.capPress(n, s, cells, pc, dpc); }
    void satRange(const int n, const int* cells, double* lo, double* hi) const { rock.satRange(n, cells, lo, hi); }
    bool incompressible() const { for (int q = 0; q < np; ++q) if (c[q] != 0) return false; return rsp == 0 && rvp == 0; }
};

// psc: the pressure variation over which properties change appreciably
inline MockBlackoil random_blackoil(Rng& r, const UnstructuredGrid& g, int np, bool si, double spread, bool tensor, double pref, double psc, int kind) // kind 0 incompressible, 1 compressible, 2 with dissolution
{
    MockBlackoil m; m.rock = random_mock(r, g, np, si, spread, tensor); m.np = np; m.p0 = pref; m.psc = psc; m.rs = m.rsp = m.rv = m.rvp = 0;
    for (int q = 0; q < np; ++q) { m.b.push_back(r.logu(0.5, 2)); m.c.push_back(kind == 0 ? 0 : r.u(0.02, 0.3) / psc); m.muc.push_back(kind == 0 || r.p(0.4) ? 0 : r.u(-0.2, 0.2) / psc); }
    if (kind == 2 && np >= 2) { m.rs = r.u(0.05, 0.5); m.rsp = r.u(0, 0.02) / psc; if (r.p(0.5)) { m.rv = r.u(0.02, 0.2); m.rvp = r.u(-0.01, 0.01) / psc; } }
    return m;
}
} // namespace gl
