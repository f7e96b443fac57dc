// P34, second workload: allocation failures in hybridised and multiscale solvers, partitions, coarse topology and the linearised compressible solver.
#include "config.h"
#include "p34.hpp"
#define FLOW_NO_WELLS
#include "flow.hpp"
extern "C" {
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/pressure/mimetic/hybsys_global.h>
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/msmfem/hash_set.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
}
using namespace mon; using namespace gl; using oom::put; using oom::Inst;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static std::string dump(const CSRMatrix* A) { std::string o = cat(A->m, " ", A->nnz, ";"); put(o, A->ia, A->m + 1); put(o, A->ja, A->ia[A->m]); return o; }
static bool dense_solve(int n, VD& A, VD& b)
{
    for (int k = 0; k < n; ++k) { int q = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A[(size_t)i * n + k]) > std::fabs(A[(size_t)q * n + k])) q = i; if (A[(size_t)q * n + k] == 0) return false; if (q != k) { for (int j = 0; j < n; ++j) std::swap(A[(size_t)k * n + j], A[(size_t)q * n + j]); std::swap(b[k], b[q]); } for (int i = k + 1; i < n; ++i) { double m = A[(size_t)i * n + k] / A[(size_t)k * n + k]; for (int j = k; j < n; ++j) A[(size_t)i * n + j] -= m * A[(size_t)k * n + j]; b[i] -= m * b[k]; } }
    for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) b[k] -= A[(size_t)k * n + j] * b[j]; b[k] /= A[(size_t)k * n + k]; } return true;
}
extern "C" void local_solve(CSRMatrix* A, double* b, double* x) { int n = (int)A->m; VD D((size_t)n * n, 0.0), y(b, b + n); for (int i = 0; i < n; ++i) for (int k = A->ia[i]; k < A->ia[i + 1]; ++k) D[(size_t)i * n + A->ja[k]] += A->sa[k]; if (!dense_solve(n, D, y)) std::fill(y.begin(), y.end(), 0.0); std::copy(y.begin(), y.end(), x); }

struct LW { VI pos, cells; well_t W; };
static std::shared_ptr<LW> lwells(Rng& r, int nc) { std::shared_ptr<LW> l(new LW); l->pos.push_back(0); int nw = r.i(1, 3); for (int w = 0; w < nw; ++w) { VI p = random_perm(r, nc); int k = r.i(1, std::min(nc, 4)); for (int i = 0; i < k; ++i) l->cells.push_back(p[i]); l->pos.push_back((int)l->cells.size()); } l->W.number_of_wells = nw; l->W.well_connpos = &l->pos[0]; l->W.well_cells = &l->cells[0]; return l; }

static void one(long k, Rng& r)
{
    (void)k; int w = r.i(0, 13); std::string kind; GridPtr gp = any_grid(r, 3, 3, &kind); UnstructuredGrid* g = gp.g; int nc = g->number_of_cells, nf = g->number_of_faces; auto lw = r.p(0.6) ? lwells(r, nc) : std::shared_ptr<LW>(); well_t* W = lw ? &lw->W : 0; std::string desc = kind + (W ? " wells" : "");
    int mx = 0; for (int c = 0; c < nc; ++c) mx = std::max(mx, g->cell_facepos[c + 1] - g->cell_facepos[c]); VI p(nc); int nb = r.i(1, std::min(nc, 5)); for (auto& x : p) x = r.i(0, nb - 1); auto P = std::make_shared<VI>(p); VI N(g->face_cells, g->face_cells + 2 * nf);
    auto nothing = [] { return std::string(); };
    if (w <= 1) { bool unsym = w == 1; std::shared_ptr<fsh_data*> h(new fsh_data*(0)); if (unsym) { W = 0; } oom::probe(r, unsym ? "cfsh" : "ifsh", desc, [&](Inst& I) { *h = 0; I.run = [=] { *h = unsym ? cfsh_construct(g, W) : ifsh_construct(g, W); return *h != 0; }; I.given = nothing; I.result = [=] { return cat((*h)->max_ngconn, " ", (*h)->sum_ngconn2, ";") + dump((*h)->A); }; I.dispose = [=] { fsh_destroy(*h); *h = 0; }; }); }
    else if (w == 2) { bool uns = r.p(0.5); std::shared_ptr<hybsys*> h(new hybsys*(0)); int nt = g->cell_facepos[nc]; oom::probe(r, uns ? "hybsys_unsymm" : "hybsys_symm", cat(mx, " ", nc, " ", nt), [&](Inst& I) { *h = 0; I.run = [=] { *h = uns ? hybsys_allocate_unsymm(mx, nc, nt) : hybsys_allocate_symm(mx, nc, nt); return *h != 0; }; I.given = nothing; I.result = [=] { hybsys_init(mx, *h); return std::string("ok"); }; I.dispose = [=] { hybsys_free(*h); *h = 0; }; }); }
    else if (w == 3 && lw) { std::shared_ptr<int*> cp(new int*(0)), cw(new int*(0)); oom::probe(r, "cell_wells", desc, [&](Inst& I) { *cp = *cw = 0; I.run = [=] { return allocate_cell_wells(nc, W, &*cp, &*cw) > 0; }; I.given = nothing; I.result = [=] { derive_cell_wells(nc, W, *cp, *cw); std::string o; put(o, *cp, nc + 1); put(o, *cw, 2 * W->well_connpos[W->number_of_wells]); return o; }; I.dispose = [=] { deallocate_cell_wells(*cp, *cw); *cp = *cw = 0; }; }); }
    else if (w == 4 && lw) { bool uns = r.p(0.5); std::shared_ptr<VI> pos(new VI(nc + 1, 0)); for (int x : lw->cells) (*pos)[x + 1]++; for (int c = 0; c < nc; ++c) (*pos)[c + 1] += (*pos)[c]; std::shared_ptr<hybsys_well*> h(new hybsys_well*(0)); oom::probe(r, uns ? "hybsys_well_unsymm" : "hybsys_well_symm", desc, [&](Inst& I) { *h = 0; I.run = [=] { *h = uns ? hybsys_well_allocate_unsymm(mx, nc, &(*pos)[0]) : hybsys_well_allocate_symm(mx, nc, &(*pos)[0]); return *h != 0; }; I.given = [=] { std::string o; put(o, &(*pos)[0], nc + 1); return o; }; I.result = [] { return std::string("ok"); }; I.dispose = [=] { hybsys_well_free(*h); *h = 0; }; }); }
    else if (w == 5) { std::shared_ptr<CSRMatrix*> A(new CSRMatrix*(0)); oom::probe(r, "hybsys_globconn", desc, [&](Inst& I) { *A = 0; I.run = [=] { *A = hybsys_define_globconn(g, W); return *A != 0; }; I.given = nothing; I.result = [=] { return dump(*A); }; I.dispose = [=] { csrmatrix_delete(*A); *A = 0; }; }); }
    else if (w == 6) { int np = r.i(1, 3); std::shared_ptr<cfs_tpfa_data*> h(new cfs_tpfa_data*(0)); oom::probe(r, "cfs_tpfa", desc, [&](Inst& I) { *h = 0; I.run = [=] { *h = cfs_tpfa_construct(g, W, np); return *h != 0; }; I.given = nothing; I.result = [=] { return dump((*h)->A); }; I.dispose = [=] { cfs_tpfa_destroy(*h); *h = 0; }; }); }
    else if (w == 7) { int d = g->dimensions; VI cd(d), ix(nc); long tot = 1; for (int q = 0; q < d; ++q) { tot *= std::max(1, g->cartdims[q]); } if (tot < nc) return; bool ok = true; for (int q = 0; q < d; ++q) { ok = ok && g->cartdims[q] > 0; cd[q] = ok ? r.i(1, g->cartdims[q]) : 1; } for (int c = 0; c < nc; ++c) { ix[c] = g->global_cell ? g->global_cell[c] : c; ok = ok && ix[c] >= 0 && ix[c] < tot; } if (!ok) return; oom::probe(r, "partition_uniform", desc, [&](Inst& I) { *P = p; I.run = [=] { return partition_unif_idx(d, nc, g->cartdims, &cd[0], &ix[0], &(*P)[0]) == nc; }; I.given = [=] { return vec(*P, 999); }; I.result = I.given; I.dispose = [] {}; }); }
    else if (w == 8) { for (auto& x : p) x = 3 * x + 1; oom::probe(r, "partition_compress", desc, [&](Inst& I) { *P = p; std::shared_ptr<int> m(new int(0)); I.run = [=] { *m = partition_compress(nc, &(*P)[0]); return *m >= 0; }; I.given = [=] { return vec(*P, 999); }; I.result = [=] { return cat(*m, vec(*P, 999)); }; I.dispose = [] {}; }); }
    else if (w == 9) { std::shared_ptr<int*> a(new int*(0)), b(new int*(0)); oom::probe(r, "partition_inverse", desc, [&](Inst& I) { *a = *b = 0; I.run = [=] { return partition_allocate_inverse(nc, nb - 1, &*a, &*b) == nc; }; I.given = [=] { return cat(*a == 0, *b == 0); }; I.result = [=] { partition_invert(nc, &p[0], *a, *b); std::string o; put(o, *b, nc); return o; }; I.dispose = [=] { partition_deallocate_inverse(*a, *b); *a = *b = 0; }; }); }
    else if (w == 10) { oom::probe(r, "partition_split", desc, [&](Inst& I) { *P = p; std::shared_ptr<int> m(new int(0)); I.run = [=] { *m = partition_split_disconnected(nc, nf, &N[0], &(*P)[0]); return *m >= 0; }; I.given = [=] { return vec(*P, 999) + vec(N, 9999); }; I.result = [=] { return cat(*m, I.given()); }; auto gv = I.given; I.result = [=] { return cat(*m, gv()); }; I.dispose = [] {}; }); }
    else if (w == 11) { int en = r.p(0.7) ? r.i(1, 20) : 0; std::shared_ptr<coarse_topology*> t(new coarse_topology*(0)); oom::probe(r, "coarse_topology", cat(desc, " blocks ", nb, " expecting ", en), [&](Inst& I) { *t = 0; I.run = [=] { *t = coarse_topology_create(nc, nf, en, &p[0], &N[0]); return *t != 0; }; I.given = [=] { return vec(p, 999) + vec(N, 9999); }; I.result = [=] { coarse_topology& c = **t; std::string o = cat(c.nblocks, " ", c.nfaces, ";"); put(o, c.neighbours, 2 * c.nfaces); put(o, c.blkfacepos, c.nblocks + 1); put(o, c.blkfaces, c.blkfacepos[c.nblocks]); if (c.subfacepos) { put(o, c.subfacepos, c.nfaces + 1); put(o, c.subfaces, c.subfacepos[c.nfaces]); } else o += "no fine faces"; return o; }; I.dispose = [=] { coarse_topology_destroy(*t); *t = 0; }; }); }
    else if (w == 12) { int n = r.i(1, 12), m = r.i(1, 40); VI keys(m); for (auto& x : keys) x = r.i(0, 500); std::shared_ptr<hash_set*> s(new hash_set*(0)); auto show = [=] { std::set<int> e; for (size_t i = 0; i < (*s)->m; ++i) if ((*s)->s[i] != -1) e.insert((*s)->s[i]); return cat(hash_set_count_elms(*s), " ", vec(VI(e.begin(), e.end()), 999)); };
        if (r.p(0.3)) oom::probe(r, "hash_set_create", cat(n), [&](Inst& I) { *s = 0; I.run = [=] { *s = hash_set_allocate(n); return *s != 0; }; I.given = nothing; I.result = show; I.dispose = [=] { hash_set_deallocate(*s); *s = 0; }; });
        else oom::probe(r, "hash_set_insert", cat(n, " ", vec(keys)), [&](Inst& I) { *s = hash_set_allocate(n); I.keeps = true; std::shared_ptr<int> at(new int(0)); I.run = [=] { for (; *at < m; ++*at) { std::string before; if (hash_set_insert(keys[*at], *s) == -1) return false; } return true; }; I.given = nothing; I.result = show; I.dispose = [=] { hash_set_deallocate(*s); *s = 0; }; }); }
    else { if (nc > 40 || nb < 2) return; UF all(nc); join_faces(*g, all); for (int c = 1; c < nc; ++c) if (all.find(c) != all.find(0)) return; VD z(1); auto q = std::make_shared<VI>(p); partition_split_disconnected(nc, nf, &N[0], &(*q)[0]); partition_compress(nc, &(*q)[0]); if (*std::max_element(q->begin(), q->end()) < 1) return; int d = g->dimensions; auto K = std::make_shared<VD>(nc * d * d, 0.0); for (int c = 0; c < nc; ++c) for (int i = 0; i < d; ++i) (*K)[c * d * d + i * (d + 1)] = r.logu(0.1, 10); auto src = std::make_shared<VD>(nc, 0.0), mob = std::make_shared<VD>(nc, 1.0); (*src)[0] = 1; int other = 0; for (int c = 0; c < nc; ++c) if ((*q)[c] != (*q)[0]) other = c; (*src)[other] = -1; std::shared_ptr<ifsh_ms_data*> h(new ifsh_ms_data*(0));
        oom::probe(r, "ifsh_ms", cat(desc, " blocks ", vec(*q)), [&](Inst& I) { *h = 0; I.run = [=] { *h = ifsh_ms_construct(g, &(*q)[0], &(*K)[0], &(*src)[0], &(*mob)[0], local_solve); return *h != 0; }; I.given = [=] { return vec(*q, 999) + vec(*K, 9999) + vec(*src, 999) + vec(*mob, 999); }; I.result = [=] { ifsh_ms_assemble(&(*src)[0], &(*mob)[0], *h); std::string o = dump((*h)->A); put(o, (*h)->A->sa, (*h)->A->ia[(*h)->A->m]); put(o, (*h)->b, (*h)->A->m); return o; }; I.dispose = [=] { ifsh_ms_destroy(*h); *h = 0; }; }, 120); }
}
int main(int argc, char** argv) { return mon::run(argc, argv, "p34l", one, 60); }
