// P16: sparse matrices, tables and linear solves against dense models and residuals.
#include "config.h"
#include <set>
#include "mon.hpp"
extern "C" {
#include <opm/core/linalg/sparse_sys.h>
}
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/linalg/LinearSolverFactory.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>
#include <opm/core/transport/implicit/JacobianSystem.hpp>
#include <opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp>
#include <opm/core/transport/implicit/CSRMatrixUmfpackSolver.hpp>
#include <iostream>
#include <iterator>
using namespace mon;
typedef std::vector<std::vector<double>> Dense;
static double val(Rng& r) { int w = r.i(0, 9); return w == 0 ? 0.0 : w == 1 ? r.logu(1e-12, 1e12) * (r.p(0.5) ? 1 : -1) : r.u(-1, 1); }

// many unknowns: rows sorted, every entry found again
static void large(Rng& r)
{
    int m = (int)r.logu(1000, 60000); CSRMatrix* A = csrmatrix_new_count_nnz(m); if (!CHK(A != 0, "large-construct", cat(m))) return; std::vector<std::vector<int>> st_(m); long nnz = 0;
    for (int i = 0; i < m; ++i) { std::set<int> q; q.insert(i); int k = r.i(0, 3); for (int t = 0; t < k; ++t) q.insert(r.i(0, m - 1)); st_[i].assign(q.begin(), q.end()); r.shuffle(st_[i]); A->ia[i + 1] = (int)q.size(); nnz += q.size(); }
    size_t n = csrmatrix_new_elms_pushback(A); bool ok = CHK((long)n == nnz, "large-nnz", cat(m)); if (ok) { for (int i = 0; i < m; ++i) for (int j : st_[i]) A->ja[A->ia[i + 1]++] = j; csrmatrix_sortrows(A);
        for (int i = 0; i < m && ok; ++i) { std::sort(st_[i].begin(), st_[i].end()); ok = CHK(A->ia[i + 1] - A->ia[i] == (int)st_[i].size() && std::equal(st_[i].begin(), st_[i].end(), A->ja + A->ia[i]), "large-sortrows", cat("m ", m, " row ", i)); for (size_t t = 0; t < st_[i].size() && ok; ++t) ok = CHK(csrmatrix_elm_index(i, st_[i][t], A) == (size_t)A->ia[i] + t, "large-elm-index", cat("m ", m, " row ", i, " column ", st_[i][t])); } }
    csrmatrix_delete(A); ev("large_matrices"); nontrivial(hcomb(m, nnz));
}
static void container(Rng& r)
{
    int m = r.i(1, r.p(0.1) ? 60 : 12); double den = r.pick(std::vector<double>{0.05, 0.2, 0.5, 1}); std::vector<std::vector<int>> st_(m); int nnz = 0;
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if ((i == j && r.p(0.9)) || r.p(den)) st_[i].push_back(j), ++nnz;
    if (!nnz) { st_[0].push_back(0); ++nnz; }
    for (auto& x : st_) r.shuffle(x);
    bool known = r.p(0.3); CSRMatrix* A = known ? csrmatrix_new_known_nnz(m, nnz) : csrmatrix_new_count_nnz(m); uint64_t h = hcomb(m, nnz); std::string d = cat("m ", m, " nnz ", nnz, known ? " known" : " counted");
    if (!CHK(A && (int)A->m == m, "construct", d)) return;
    if (known) { CHK((int)A->nnz == nnz, "known-nnz", d); int p = 0; for (int i = 0; i < m; ++i) { A->ia[i] = p; for (int j : st_[i]) A->ja[p++] = j; } A->ia[m] = p; }
    else {
        for (int i = 0; i <= m; ++i) CHK(A->ia[i] == 0, "count-init", d);
        for (int i = 0; i < m; ++i) A->ia[i + 1] = (int)st_[i].size();
        size_t n = csrmatrix_new_elms_pushback(A); if (!CHK((int)n == nnz && (int)A->nnz == nnz, "pushback-nnz", cat(d, " returned ", n))) { csrmatrix_delete(A); return; }
        int p = 0; bool ok = CHK(A->ia[0] == 0, "pushback-start", d); for (int i = 0; i < m; ++i) { ok = ok && CHK(A->ia[i + 1] == p, "pushback-start", cat(d, " row ", i, " starts at ", A->ia[i + 1], " expected ", p)); p += (int)st_[i].size(); }
        if (!ok) { csrmatrix_delete(A); return; }
        std::vector<std::pair<int, int>> ins; for (int i = 0; i < m; ++i) for (int j : st_[i]) ins.push_back(std::make_pair(i, j)); r.shuffle(ins); for (auto& e : ins) A->ja[A->ia[e.first + 1]++] = e.second; // any insertion order
        CHK(A->ia[m] == nnz, "pushback-end", d);
    }
    for (int i = 0; i < m; ++i) for (int j : st_[i]) h = hcomb(h, i * 97 + j);
    csrmatrix_sortrows(A); ev("sorted_matrices");
    for (int i = 0; i < m; ++i) { std::vector<int> want = st_[i], got(A->ja + A->ia[i], A->ja + A->ia[i + 1]); std::sort(want.begin(), want.end()); if (!CHK(got == want, "sortrows", cat(d, " row ", i, " ", vec(got), " expected ", vec(want)))) { csrmatrix_delete(A); return; } }
    csrmatrix_zero(A); for (int k = 0; k < nnz; ++k) CHK(A->sa[k] == 0.0, "zero", d);
    Dense D(m, std::vector<double>(m, 0.0)); int nadd = r.i(0, 4 * nnz);
    for (int t = 0; t < nadd; ++t) { int i = r.i(0, m - 1); if (st_[i].empty()) continue; int j = r.pick(st_[i]); double v = val(r); size_t k = csrmatrix_elm_index(i, j, A); if (!CHK(k >= (size_t)A->ia[i] && k < (size_t)A->ia[i + 1] && A->ja[k] == j, "elm-index", cat(d, " (", i, ",", j, ") -> ", k))) { csrmatrix_delete(A); return; } A->sa[k] += v; D[i][j] += v; ev("contributions"); }
    for (int i = 0; i < m; ++i) for (int k = A->ia[i]; k < A->ia[i + 1]; ++k) CHK(A->sa[k] == D[i][A->ja[k]], "accumulate", cat(d, " (", i, ",", A->ja[k], ")"));
    if (r.p(0.4)) {
        csrmatrix_write(A, "A.txt"); FILE* f = fopen("A.txt", "r"); if (CHK(f != 0, "write-file", d)) { long i, j; double v; int n = 0; Dense seen(m, std::vector<double>(m, 0.0)); while (fscanf(f, "%ld %ld %lf", &i, &j, &v) == 3) { ++n; if (CHK(i >= 1 && i <= m && j >= 1 && j <= m, "write-index", cat(d, " ", i, " ", j))) { CHK(v == D[i - 1][j - 1], "write-value", cat(d, " (", i, ",", j, ") ", v)); seen[i - 1][j - 1] += 1; } } CHK(n == nnz && feof(f), "write-count", cat(d, " wrote ", n)); for (int a = 0; a < m; ++a) for (int b : st_[a]) CHK(seen[a][b] == 1, "write-once", d); fclose(f); }
        std::vector<double> x(r.i(0, 20)); for (auto& q : x) q = val(r); vector_write(x.size(), x.data(), "v.txt"); f = fopen("v.txt", "r"); if (CHK(f != 0, "write-file", d)) { size_t n = 0; double v; while (fscanf(f, "%lf", &v) == 1) { CHK(n < x.size() && v == x[n], "write-vector", d); ++n; } CHK(n == x.size(), "write-vector", cat(n, " of ", x.size())); fclose(f); }
        csrmatrix_write(A, "missing-dir/A.txt"); vector_write(x.size(), x.data(), "missing-dir/v.txt"); vector_zero(x.size(), x.data()); for (double q : x) CHK(q == 0, "vector-zero", d); ev("written");
    }
    nontrivial(h); csrmatrix_delete(A); csrmatrix_delete(0);
}
struct Csr { int n; std::vector<int> ia, ja; std::vector<double> sa; };
static Csr random_system(Rng& r, int n, bool& singular)
{
    Csr A; A.n = n; int w = r.i(0, 5); double den = r.pick(std::vector<double>{0.03, 0.15, 0.5}); singular = r.p(0.15);
    std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; if (w == 1) r.shuffle(pm);
    std::vector<std::map<int, double>> R(n);
    if (w == 2) { for (int i = 0; i < n; ++i) { double s = r.logu(1e-3, 1); R[i][i] += s; if (i + 1 < n) { double t = r.logu(1e-8, 1e3); R[i][i] += t; R[i + 1][i + 1] += t; R[i][i + 1] -= t; R[i + 1][i] -= t; } } } // pressure-like
    else if (w == 3) { for (int i = 0; i < n; ++i) { R[i][i] = r.u(1, 2); for (int j = 0; j < i; ++j) if (r.p(den)) R[i][j] = r.u(-1, 1) / n; } for (int i = n - 1; i >= 0 && r.p(0.5); --i) R[i][0] += 0.1; } // triangular
    else for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) if (j != pm[i] && r.p(den)) { double v = val(r); if (std::fabs(v) > 10 || std::fabs(v) < 1e-3) v = r.p(0.3) ? 0.0 : r.u(-1, 1); R[i][j] = v; s += std::fabs(v); } R[i][pm[i]] = (s + r.u(0.1, 2)) * (r.p(0.5) ? 1 : -1); if (w == 4) { double sc = r.logu(1e-12, 1e12); for (auto& e : R[i]) e.second *= sc; } }
    if (singular) { int z = r.i(0, n - 1), k = r.i(0, 2); if (k == 0) { for (auto& e : R[z]) e.second = 0; } else if (k == 1) for (auto& row : R) { auto it = row.find(z); if (it != row.end()) it->second = 0; } else { R[z].clear(); } bool any = false; for (auto& row : R) any |= !row.empty(); if (!any) R[z][z] = 0; }
    A.ia.push_back(0); for (auto& row : R) { std::vector<std::pair<int, double>> v(row.begin(), row.end()); if (r.p(0.3)) r.shuffle(v); for (auto& e : v) { A.ja.push_back(e.first); A.sa.push_back(e.second); } A.ia.push_back((int)A.ja.size()); }
    A.ja.shrink_to_fit(); A.sa.shrink_to_fit(); return A;
}
static void residual(const Csr& A, const std::vector<double>& b, const std::vector<double>& x, const std::string& d)
{
    for (int i = 0; i < A.n; ++i) { double s = -b[i], m = std::fabs(b[i]); for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) { s += A.sa[k] * x[A.ja[k]]; m += std::fabs(A.sa[k] * x[A.ja[k]]); } if (!CHK(std::fabs(s) <= 1e-10 * m, "residual", cat(d, " row ", i, " residual ", s, " row scale ", m))) return; }
    ev("solutions_checked");
}
static void solve(Rng& r)
{
    int n = r.i(1, r.p(0.1) ? 120 : 25); bool sing; Csr A = random_system(r, n, sing); std::vector<double> xs(n), b(n, 0.0), x(n); for (auto& v : xs) v = r.u(-1, 1) * (r.p(0.1) ? 1e6 : 1);
    if (r.p(0.05)) std::fill(xs.begin(), xs.end(), 0.0);
    for (int i = 0; i < n; ++i) { for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) b[i] += A.sa[k] * xs[A.ja[k]]; } for (auto& v : x) v = r.p(0.5) ? 0 : std::nan("");
    Csr A0 = A; std::vector<double> b0 = b; std::string d = cat("n ", n, " nnz ", A.ja.size(), sing ? " singular" : ""); int w = r.i(0, 4); Opm::LinearSolverInterface::LinearSolverReport rep; rep.converged = !sing;
    if (w == 0) { Opm::LinearSolverUmfpack s; rep = s.solve(n, (int)A.ja.size(), A.ia.data(), A.ja.data(), A.sa.data(), b.data(), x.data()); }
    else if (w == 1) { Opm::LinearSolverFactory s; rep = s.solve(n, (int)A.ja.size(), A.ia.data(), A.ja.data(), A.sa.data(), b.data(), x.data()); }
    else if (w == 2) { CSRMatrix M = {(size_t)n, A.ja.size(), A.ia.data(), A.ja.data(), A.sa.data()}; Opm::parameter::ParameterGroup p; if (r.p(0.5)) p.insertParameter("linsolver", "umfpack"); Opm::LinearSolverFactory s(p); s.setTolerance(1e-8); (void)s.getTolerance(); const Opm::LinearSolverInterface& li = s; rep = li.solve(&M, b.data(), x.data()); }
    else { CSRMatrix M = {(size_t)n, A.ja.size(), A.ia.data(), A.ja.data(), A.sa.data()}; Opm::ImplicitTransportLinAlgSupport::CSRMatrixUmfpackSolver s; if (w == 3) s.solve(&M, b.data(), x.data()); else s.solve(M, b, x); }
    d += cat(" via ", w); CHK(A.ia == A0.ia && A.ja == A0.ja && A.sa == A0.sa && b == b0, "inputs-changed", d); ev("solves");
    if (w <= 2) CHK(rep.converged == !sing, sing ? "singular-reported-converged" : "nonsingular-reported-failed", d);
    if (sing) { ev("singular_systems"); } else residual(A, b, x, d); // a failed solve's solution vector is unspecified
    uint64_t h = n; for (double v : A.sa) h = hcomb(h, hdbl(v)); nontrivial(h);
}
static void factory(Rng& r)
{
    std::string nm = r.pick(std::vector<std::string>{"istl", "agmg", "foo", "", "UMFPACK", "umfpack "}); Opm::parameter::ParameterGroup p; p.insertParameter("linsolver", nm); bool threw = false; try { Opm::LinearSolverFactory s(p); } catch (const std::exception&) { threw = true; } ev("factory_refusals"); CHK(threw, "factory-accepts", nm);
}
static void blocks(Rng& r)
{
    int nd = r.i(1, 3), m = r.i(1, 9); Opm::ImplicitTransportDefault::MatrixBlockAssembler<CSRMatrix> as; int reps = r.i(1, 2);
    for (int q = 0; q < reps; ++q) {
        std::vector<std::vector<int>> st_(m); size_t nnz = 0; for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) if (i == j || r.p(0.3)) st_[i].push_back(j); r.shuffle(st_[i]); nnz += st_[i].size(); }
        as.setSize(nd, m, m, r.p(0.5) ? nnz : 0); for (int i = 0; i < m; ++i) as.createBlockRow(i, st_[i], nd); as.finalizeStructure();
        int N = nd * m; Dense D(N, std::vector<double>(N, 0.0)), S = D; for (int i = 0; i < m; ++i) for (int j : st_[i]) for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) S[i * nd + a][j * nd + b] = 1;
        for (int z = 0; z < 2; ++z) {
            if (z) { Opm::ImplicitTransportDefault::MatrixZero<CSRMatrix>::zero(as.matrix()); for (auto& x : D) std::fill(x.begin(), x.end(), 0.0); }
            int nadd = r.i(1, 40); for (int t = 0; t < nadd; ++t) { int i = r.i(0, m - 1), j = r.pick(st_[i]); std::vector<double> B(nd * nd); for (auto& v : B) v = val(r); as.assembleBlock(nd, i, j, B); for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) D[i * nd + a][j * nd + b] += B[b * nd + a]; ev("blocks_assembled"); }
            const CSRMatrix& M = as.matrix(); if (!CHK((int)M.m == N && (int)M.nnz == (int)nnz * nd * nd, "block-size", cat("m ", M.m, " nnz ", M.nnz))) return;
            for (int i = 0; i < N; ++i) { int cnt = 0, prev = -1; for (int j = 0; j < N; ++j) cnt += (int)S[i][j]; if (!CHK(M.ia[i + 1] - M.ia[i] == cnt, "block-row", cat("row ", i))) return; for (int k = M.ia[i]; k < M.ia[i + 1]; ++k) { if (!CHK(M.ja[k] > prev && M.ja[k] < N && S[i][M.ja[k]] == 1, "block-column", cat("row ", i, " col ", M.ja[k]))) return; prev = M.ja[k]; if (!CHK(M.sa[k] == D[i][M.ja[k]], "block-value", cat("nd ", nd, " (", i, ",", M.ja[k], ") ", M.sa[k], " expected ", D[i][M.ja[k]]))) return; } }
        }
    }
    nontrivial(hcomb(hcomb(nd, m), r.next()));
}
static void tables(Rng& r)
{
    typedef Opm::SparseTable<int> T; T t; std::vector<std::vector<int>> m; int nop = r.i(1, 40); auto data = [&] { std::vector<int> d; for (auto& x : m) d.insert(d.end(), x.begin(), x.end()); return d; };
    for (int o = 0; o < nop; ++o) {
        int w = r.i(0, 11);
        if (w < 6) { std::vector<int> row(r.i(0, 5)); for (int& x : row) x = r.i(-9, 9); t.appendRow(row.begin(), row.end()); m.push_back(row); }
        else if (w == 6) { t.clear(); m.clear(); }
        else if (w == 7 && !m.empty()) { int i = r.i(0, (int)m.size() - 1); T::mutable_row_type row = t[i]; if (CHK(row.size() == m[i].size(), "table-row", "size") && !m[i].empty()) { int k = r.i(0, (int)m[i].size() - 1); row[k] = m[i][k] = 77; } }
        else if (w == 8) { std::vector<int> sz(r.i(1, 5)), d; m.clear(); for (int& s : sz) { s = r.i(0, 4); m.push_back(std::vector<int>(s)); for (int& x : m.back()) x = r.i(-9, 9); } d = data(); if (r.p(0.5)) t.assign(d.begin(), d.end(), sz.begin(), sz.end()); else { T u(d.begin(), d.end(), sz.begin(), sz.end()); t.swap(u); } }
        else if (w == 9) { std::vector<int> sz(r.i(1, 4), r.i(1, 3)), d(r.i(0, 20)); int tot = std::accumulate(sz.begin(), sz.end(), 0); if ((int)d.size() == tot) continue; bool threw = false; try { T u(d.begin(), d.end(), sz.begin(), sz.end()); } catch (const std::exception&) { threw = true; } CHK(threw, "table-mismatch-accepted", ""); std::vector<int> none; threw = false; try { T u(none.begin(), none.end(), none.begin(), none.end()); } catch (const std::exception&) { threw = true; } CHK(threw, "table-no-rows-accepted", ""); ev("table_refusals"); }
        else if (w == 10) { t.reserve(r.i(0, 50), r.i(0, 100)); }
        else { std::vector<int> sz(r.i(1, 5)); m.clear(); for (int& s : sz) { s = r.i(0, 4); } t.clear(); t.allocate(sz.begin(), sz.end()); for (size_t i = 0; i < sz.size(); ++i) { m.push_back(std::vector<int>(sz[i])); for (int k = 0; k < sz[i]; ++k) { m[i][k] = r.i(-9, 9); t[(int)i][k] = m[i][k]; } } }
        std::vector<int> d = data(); T c(t); const T& ct = t; ev("table_states");
        if (!CHK(t.size() == (int)m.size() && t.empty() == m.empty() && t.dataSize() == (int)d.size() && c == t, "table-size", cat("op ", w, " size ", t.size(), " expected ", m.size()))) return;
        for (size_t i = 0; i < m.size(); ++i) { T::row_type row = ct[(int)i]; if (!CHK(t.rowSize((int)i) == (int)m[i].size() && (size_t)row.size() == m[i].size() && std::equal(m[i].begin(), m[i].end(), row.begin()), "table-row", cat("op ", w, " row ", i))) return; }
        for (size_t i = 0; i < d.size(); ++i) CHK(t.data((int)i) == d[i], "table-data", ""); if (!d.empty() && !m.empty()) { size_t lr = 0; while (m[lr].empty()) ++lr; c[(int)lr][0] += 1; CHK(!(c == t), "table-equality", ""); }
    }
    int n = r.i(0, 20); Opm::SparseVector<double> v(n); std::map<int, double> mv; int last = -1; while (last + 1 < n && r.p(0.8)) { last = r.i(last + 1, std::min(n - 1, last + 4)); double x = r.u(-1, 1); v.addElement(x, last); mv[last] = x; }
    std::vector<double> vd; std::vector<int> vi; for (auto& e : mv) { vi.push_back(e.first); vd.push_back(e.second); } Opm::SparseVector<double> v2(n, vd.begin(), vd.end(), vi.begin(), vi.end()); CHK(v == v2, "vector-equality", "");
    CHK(v.size() == n && v.empty() == (n == 0) && v.nonzeroSize() == (int)mv.size(), "vector-size", ""); for (int i = 0; i < n; ++i) CHK(v.element(i) == (mv.count(i) ? mv[i] : 0.0), "vector-element", cat("index ", i)); for (int k = 0; k < (int)vi.size(); ++k) CHK(v.nonzeroIndex(k) == vi[k] && v.nonzeroElement(k) == vd[k], "vector-nonzero", ""); ev("vectors");
    Opm::SparseVector<double> v3(v); v3.clear(); CHK(v3.empty() && v3.nonzeroSize() == 0 && v == v2, "vector-clear", "");
}
int main(int c, char** v) { return run(c, v, "p16", [](long, Rng& r) { for (int q = 0; q < 4; ++q) { container(r); solve(r); } blocks(r); tables(r); if (r.p(0.1)) factory(r); if (r.p(0.01)) large(r); }); }
