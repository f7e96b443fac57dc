// P34: allocation failures at every point of the C interfaces for grids, wells, side conditions, matrices and solver objects.
#include "config.h"
#include "p34.hpp"
#include "polygrid.hpp"
#include "flow.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#define BC_PRESSURE COMPR_BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_bc.h>
#undef BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/call_umfpack.h>
extern "C" {
#include <opm/core/transport/implicit/transport_source.h>
}
using namespace mon; using namespace gl; using oom::put; using oom::Inst;
typedef std::vector<int> VI; typedef std::vector<double> VD;

static std::string dump(const UnstructuredGrid* g)
{
    std::string o; int d = g->dimensions; o += cat(d, " ", g->number_of_cells, " ", g->number_of_faces, " ", g->number_of_nodes, " ", g->cartdims[0], " ", g->cartdims[1], " ", d == 3 ? g->cartdims[2] : 0, ";"); size_t nc = g->number_of_cells, nf = g->number_of_faces, nhf = g->cell_facepos[nc];
    put(o, g->face_nodepos, nf + 1); put(o, g->face_nodes, g->face_nodepos[nf]); put(o, g->face_cells, 2 * nf); put(o, g->cell_facepos, nc + 1); put(o, g->cell_faces, nhf); put(o, g->cell_facetag, nhf); put(o, g->global_cell, nc);
    put(o, g->node_coordinates, (size_t)d * g->number_of_nodes); put(o, g->face_centroids, d * nf); put(o, g->face_normals, d * nf); put(o, g->face_areas, nf); put(o, g->cell_centroids, d * nc); put(o, g->cell_volumes, nc); return o;
}
static std::string dump(const Wells* W, std::vector<std::string>* names = 0)
{
    std::string o; int nw = W->number_of_wells, np = W->number_of_phases; o += cat(nw, " ", np, ";"); put(o, W->well_connpos, nw + 1); int n = W->well_connpos[nw];
    if (nw) { put(o, W->type, nw); put(o, W->depth_ref, nw); put(o, W->comp_frac, nw * np); } if (n) { put(o, W->well_cells, n); put(o, W->WI, n); }
    for (int w = 0; w < nw; ++w) { const WellControls* c = W->ctrls[w]; o += cat("c", c->num, " ", c->current, ";"); if (c->num) { put(o, c->type, c->num); put(o, c->target, c->num); put(o, c->distr, c->num * np); } if (names) names->push_back(W->name[w] ? W->name[w] : "(none)"); }
    return o;
}
static std::string dump(const FlowBoundaryConditions* b) { std::string o; put(o, b->cond_pos, b->nbc + 1); if (b->nbc) { put(o, b->type, b->nbc); put(o, b->value, b->nbc); } if (b->cond_pos[b->nbc]) put(o, b->face, b->cond_pos[b->nbc]); return o; }
static std::string dump(const CSRMatrix* A, bool values) { std::string o = cat(A->m, " ", A->nnz, ";"); put(o, A->ia, A->m + 1); if (A->ja) put(o, A->ja, A->ia[A->m]); if (values && A->sa) put(o, A->sa, A->ia[A->m]); return o; }

static void quietly(const std::function<void()>& f) { f(); }

// ---- grids
static void grids(Rng& r)
{
    int w = r.i(0, 7); uint64_t seed = r.next(); std::string desc; std::shared_ptr<UnstructuredGrid*> out(new UnstructuredGrid*(0)); std::function<UnstructuredGrid*()> call; const char* nm[] = {"cart2d", "cart3d", "hexa3d", "tensor2d", "tensor3d", "empty", "allocate", "read"}; bool filled = true;
    int nx = r.i(1, 4), ny = r.i(1, 4), nz = r.i(1, 3); double dx = r.u(0.1, 3), dy = r.u(0.1, 3), dz = r.u(0.1, 3); VD x = coords(r, nx), y = coords(r, ny), z = coords(r, nz), top((nx + 1) * (ny + 1)); for (auto& t : top) t = r.u(-1, 1); bool depth = r.p(0.5);
    desc = cat(nm[w], " ", nx, "x", ny, "x", nz); std::string file = "p34_grid.txt"; std::vector<size_t> al; (void)seed;
    if (w == 0) call = [=] { return create_grid_cart2d(nx, ny, dx, dy); };
    else if (w == 1) call = [=] { return create_grid_cart3d(nx, ny, nz); };
    else if (w == 2) call = [=] { return create_grid_hexa3d(nx, ny, nz, dx, dy, dz); };
    else if (w == 3) call = [=] { return create_grid_tensor2d(nx, ny, &x[0], &y[0]); };
    else if (w == 4) { desc += depth ? " with top depths" : ""; call = [=] { return create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], depth ? &top[0] : 0); }; }
    else if (w == 5) { filled = false; call = [] { return create_grid_empty(); }; }
    else if (w == 6) { filled = false; call = [=] { return allocate_grid(nz % 2 ? 3 : 2, nx, 2 * nx + 1, 8 * nx, 4 * nx, 3 * nx); }; }
    else {
        std::string kind; GridPtr g = random_grid(r, 3, &kind); bool tag = g->cell_facetag && r.p(0.6), map = g->global_cell && r.p(0.6); desc += " " + kind; std::ostringstream o; o.precision(17); const UnstructuredGrid& G = *g.g; int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces;
        o << d << "\n" << nc << " " << nf << " " << G.number_of_nodes << "\n" << G.face_nodepos[nf] << " " << G.cell_facepos[nc] << "\n" << tag << " " << map << "\n"; for (int i = 0; i < d; ++i) o << G.cartdims[i] << " "; o << "\n";
        auto ps = [&](const double* p, size_t n) { for (size_t i = 0; i < n; ++i) o << p[i] << (i % 7 == 6 ? "\n" : " "); o << "\n"; }; auto is = [&](const int* p, size_t n) { for (size_t i = 0; i < n; ++i) o << p[i] << (i % 9 == 8 ? "\n" : " "); o << "\n"; };
        ps(G.node_coordinates, (size_t)d * G.number_of_nodes); is(G.face_nodepos, nf + 1); is(G.face_nodes, G.face_nodepos[nf]); is(G.face_cells, 2 * nf); ps(G.face_areas, nf); ps(G.face_centroids, (size_t)d * nf); ps(G.face_normals, (size_t)d * nf); is(G.cell_facepos, nc + 1);
        if (tag) { for (int i = 0; i < G.cell_facepos[nc]; ++i) o << G.cell_faces[i] << " " << G.cell_facetag[i] << "\n"; } else is(G.cell_faces, G.cell_facepos[nc]);
        if (map) is(G.global_cell, nc); ps(G.cell_volumes, nc); ps(G.cell_centroids, (size_t)d * nc); FILE* f = fopen(file.c_str(), "w"); if (!f) return; fputs(o.str().c_str(), f); fclose(f); call = [=] { return read_grid(file.c_str()); };
    }
    oom::probe(r, std::string("grid_") + nm[w], desc, [&](Inst& I) { *out = 0; I.run = [=] { *out = call(); return *out != 0; }; I.given = [=] { std::string o; put(o, &x[0], x.size()); put(o, &y[0], y.size()); put(o, &z[0], z.size()); put(o, &top[0], top.size()); return o; }; I.result = [=] { return filled ? dump(*out) : cat((*out)->dimensions, " ", (*out)->number_of_cells, " ", (*out)->number_of_faces, " ", (*out)->number_of_nodes); }; I.dispose = [=] { if (*out) destroy_grid(*out); *out = 0; }; });
    if (w == 7) ::unlink(file.c_str());
}

// ---- wells
struct WSpec { WellType t; double depth; VD frac, wi; VI cells; std::string name; bool nofrac, nowi, noname; struct C { WellControlType t; double v; VD d; bool nod; }; std::vector<C> c; int cur; };
static WSpec wspec(Rng& r, int np) { WSpec s; s.t = r.p(0.5) ? INJECTOR : PRODUCER; s.depth = r.u(0, 9); int n = r.p(0.1) ? 0 : r.i(1, 5); for (int i = 0; i < n; ++i) { s.cells.push_back(r.i(0, 99)); s.wi.push_back(r.u(0, 1)); } for (int i = 0; i < np; ++i) s.frac.push_back(r.u(0, 1)); s.name = r.p(0.2) ? "" : cat("WELL", r.i(0, 9999)); s.nofrac = r.p(0.15); s.nowi = r.p(0.15); s.noname = r.p(0.15); int nc = r.i(0, 4); for (int i = 0; i < nc; ++i) { WSpec::C c; c.t = r.p(0.5) ? BHP : r.p(0.5) ? RESERVOIR_RATE : SURFACE_RATE; c.v = r.u(-9, 9); for (int k = 0; k < np; ++k) c.d.push_back(r.u(0, 1)); c.nod = r.p(0.15); s.c.push_back(c); } s.cur = nc ? r.i(-nc, nc - 1) : -1; return s; }
static bool add(const WSpec& s, Wells* W) { return add_well(s.t, s.depth, (int)s.cells.size(), s.nofrac ? 0 : &s.frac[0], s.cells.data(), s.nowi ? 0 : s.wi.data(), s.noname ? 0 : s.name.c_str(), W) != 0; }
static bool ctl(const WSpec& s, int w, Wells* W) { for (auto& c : s.c) if (!append_well_controls(c.t, c.v, c.nod ? 0 : &c.d[0], w, W)) return false; set_current_control(w, s.cur, W); return true; }
static std::string dump_named(const Wells* W, const std::vector<WSpec>& v) { std::vector<std::string> n; std::string o = dump(W, &n); for (size_t i = 0; i < n.size() && i < v.size(); ++i) CHK(n[i] == "(none)" || (!v[i].noname && n[i] == v[i].name), "wells:name", cat("well ", i, " is called ", n[i], " expected ", v[i].name)); return o; }
static void wells(Rng& r)
{
    int np = r.i(1, 3), have = r.i(0, 5), w = r.i(0, 4), rw = r.p(0.3) ? 0 : r.i(0, 8), rp = r.p(0.3) ? 0 : r.i(0, 20); std::vector<WSpec> v; for (int i = 0; i < have + 1; ++i) v.push_back(wspec(r, np)); std::shared_ptr<Wells*> W(new Wells*(0)), W2(new Wells*(0));
    std::string desc = cat(np, " phases, ", have, " wells, room for ", rw, " and ", rp);
    auto setup = [=](Inst& I) { *W = create_wells(np, rw, rp); *W2 = 0; I.setup_ok = *W != 0; for (int i = 0; i < have && I.setup_ok; ++i) I.setup_ok = add(v[i], *W) && ctl(v[i], i, *W); };
    auto drop = [=] { destroy_wells(*W); destroy_wells(*W2); *W = *W2 = 0; };
    if (w == 0) oom::probe(r, "wells_create", desc, [&](Inst& I) { *W = *W2 = 0; I.run = [=] { *W = create_wells(np, rw, rp); return *W != 0; }; I.given = [] { return ""; }; I.result = [=] { return dump(*W); }; I.dispose = drop; });
    else if (w == 1) oom::probe(r, "wells_add", desc, [&](Inst& I) { setup(I); I.keeps = true; I.run = [=] { return add(v[have], *W); }; I.given = [=] { return dump_named(*W, v); }; I.result = I.given; I.dispose = drop; });
    else if (w == 2 && have) { int k = r.i(0, have - 1); WSpec s = wspec(r, np); if (s.c.empty()) return; s.c.resize(1); oom::probe(r, "wells_controls", desc, [&](Inst& I) { setup(I); I.keeps = true; I.run = [=] { auto& c = s.c[0]; return append_well_controls(c.t, c.v, c.nod ? 0 : &c.d[0], k, *W) != 0; }; I.given = [=] { return dump_named(*W, v); }; I.result = I.given; I.dispose = drop; }); }
    else if (w == 3) oom::probe(r, "wells_clone", desc, [&](Inst& I) { setup(I); I.run = [=] { *W2 = clone_wells(*W); return *W2 != 0; }; I.given = [=] { return dump_named(*W, v); }; I.result = [=] { return dump_named(*W2, v); }; I.dispose = drop; });
    else oom::probe(r, "wells_history", desc, [&](Inst& I) { *W = create_wells(np, rw, rp); *W2 = 0; std::shared_ptr<int> stage(new int(0)); I.keeps = true; // several calls in a row: what failed is repeated where it stopped
        I.run = [=] { while (*stage < 2 * have) { int i = *stage / 2; if (*stage % 2 == 0) { if (!add(v[i], *W)) return false; } else { for (int c = (*W)->ctrls[i]->num; c < (int)v[i].c.size(); ++c) if (!append_well_controls(v[i].c[c].t, v[i].c[c].v, v[i].c[c].nod ? 0 : &v[i].c[c].d[0], i, *W)) return false; set_current_control(i, v[i].cur, *W); } ++*stage; } return true; };
        I.given = [] { return ""; }; I.result = [=] { return dump_named(*W, v); }; I.dispose = drop; });
}

// ---- side conditions and sources
static void containers(Rng& r)
{
    int w = r.i(0, 8), have = r.i(0, 9), np = r.i(1, 3), room = r.p(0.4) ? 0 : r.i(0, 8); std::vector<VI> f; VD val, sat; std::vector<int> ty; for (int i = 0; i <= have; ++i) { VI a(w == 1 || w == 2 ? r.i(1, 9) : 1); for (auto& x : a) x = r.i(0, 99); f.push_back(a); val.push_back(r.u(-9, 9)); ty.push_back(r.i(0, 2)); for (int k = 0; k < 3; ++k) sat.push_back(r.u(0, 1)); } std::string desc = cat("holding ", have, " room ", room, " phases ", np);
    if (w <= 2) {
        std::shared_ptr<FlowBoundaryConditions*> B(new FlowBoundaryConditions*(0)); auto one = [=](int i) { return w == 1 || w == 2 ? flow_conditions_append_multi((FlowBCType)ty[i], f[i].size(), &f[i][0], val[i], *B) != 0 : flow_conditions_append((FlowBCType)ty[i], f[i][0], val[i], *B) != 0; }; auto drop = [=] { flow_conditions_destroy(*B); *B = 0; };
        if (r.p(0.25)) oom::probe(r, "conditions_create", desc, [&](Inst& I) { *B = 0; I.run = [=] { *B = flow_conditions_construct(room); return *B != 0; }; I.given = [] { return ""; }; I.result = [=] { return dump(*B); }; I.dispose = drop; });
        else oom::probe(r, "conditions_append", desc, [&](Inst& I) { *B = flow_conditions_construct(room); I.setup_ok = *B != 0; for (int i = 0; i < have && I.setup_ok; ++i) I.setup_ok = one(i); I.keeps = true; I.run = [=] { return one(have); }; I.given = [=] { return dump(*B); }; I.result = I.given; I.dispose = drop; });
    } else if (w <= 4) {
        std::shared_ptr<compr_src*> S(new compr_src*(0)); auto drop = [=] { compr_src_deallocate(*S); *S = 0; }; auto show = [=] { std::string o = cat((*S)->nsrc, ";"); if ((*S)->nsrc) { put(o, (*S)->cell, (*S)->nsrc); put(o, (*S)->flux, (*S)->nsrc); put(o, (*S)->saturation, (*S)->nsrc * np); } return o; };
        if (r.p(0.25)) oom::probe(r, "sources_create", desc, [&](Inst& I) { *S = 0; I.run = [=] { *S = compr_src_allocate(np, room); return *S != 0; }; I.given = [] { return ""; }; I.result = show; I.dispose = drop; });
        else oom::probe(r, "sources_append", desc, [&](Inst& I) { *S = compr_src_allocate(np, room); I.setup_ok = *S != 0; for (int i = 0; i < have && I.setup_ok; ++i) I.setup_ok = append_compr_source_term(f[i][0], np, val[i], &sat[3 * i], *S) > 0; I.keeps = true; I.run = [=] { return append_compr_source_term(f[have][0], np, val[have], &sat[3 * have], *S) > 0; }; I.given = show; I.result = show; I.dispose = drop; });
    } else if (w <= 6) {
        std::shared_ptr<compr_bc*> B(new compr_bc*(0)); auto drop = [=] { compr_bc_deallocate(*B); *B = 0; }; auto show = [=] { std::string o = cat((*B)->nbc, ";"); if ((*B)->nbc) { put(o, (*B)->type, (*B)->nbc); put(o, (*B)->face, (*B)->nbc); put(o, (*B)->press, (*B)->nbc); put(o, (*B)->flux, (*B)->nbc); put(o, (*B)->saturation, (*B)->nbc * np); } return o; };
        if (r.p(0.25)) oom::probe(r, "compr_conditions_create", desc, [&](Inst& I) { *B = 0; I.run = [=] { *B = compr_bc_allocate(np, room); return *B != 0; }; I.given = [] { return ""; }; I.result = show; I.dispose = drop; });
        else oom::probe(r, "compr_conditions_append", desc, [&](Inst& I) { *B = compr_bc_allocate(np, room); I.setup_ok = *B != 0; auto one = [=](int i) { return compr_bc_append((compr_bc_type)(ty[i] % 2), f[i][0], np, val[i], -val[i], &sat[3 * i], *B) > 0; }; for (int i = 0; i < have && I.setup_ok; ++i) I.setup_ok = one(i); I.keeps = true; I.run = [=] { return one(have); }; I.given = show; I.result = show; I.dispose = drop; });
    } else {
        std::shared_ptr<TransportSource*> S(new TransportSource*(0)); auto drop = [=] { destroy_transport_source(*S); *S = 0; }; auto show = [=] { std::string o = cat((*S)->nsrc, ";"); if ((*S)->nsrc) { put(o, (*S)->cell, (*S)->nsrc); put(o, (*S)->pressure, (*S)->nsrc); put(o, (*S)->flux, (*S)->nsrc); put(o, (*S)->saturation, 2 * (*S)->nsrc); put(o, (*S)->surfvolume, 2 * (*S)->nsrc); } return o; }; auto one = [=](int i) { return append_transport_source(f[i][0], 2, 1.0 + i, val[i], &sat[3 * i], &sat[3 * i], *S) > 0; };
        if (r.p(0.25)) oom::probe(r, "transport_sources_create", desc, [&](Inst& I) { *S = 0; I.run = [=] { *S = create_transport_source(room, 2); return *S != 0; }; I.given = [] { return ""; }; I.result = show; I.dispose = drop; });
        else oom::probe(r, "transport_sources_append", desc, [&](Inst& I) { *S = create_transport_source(room, 2); I.setup_ok = *S != 0; for (int i = 0; i < have && I.setup_ok; ++i) I.setup_ok = one(i); I.keeps = true; I.run = [=] { return one(have); }; I.given = show; I.result = show; I.dispose = drop; });
    }
}

// ---- matrices and solver objects
static void solvers(Rng& r)
{
    int w = r.i(0, 5); std::string kind; GridPtr gp = any_grid(r, 3, 3, &kind); UnstructuredGrid* g = gp.g; int nc = g->number_of_cells; std::string desc = kind;
    if (w <= 1) {
        int m = r.i(1, 8); VI cnt(m); for (auto& x : cnt) x = r.i(0, 4); int nnz = r.i(0, 20); std::shared_ptr<CSRMatrix*> A(new CSRMatrix*(0)); auto drop = [=] { csrmatrix_delete(*A); *A = 0; }; desc = cat("rows ", m, " entries ", nnz);
        if (w == 0) { bool known = r.p(0.5); oom::probe(r, known ? "matrix_known" : "matrix_count", desc, [&](Inst& I) { *A = 0; I.run = [=] { *A = known ? csrmatrix_new_known_nnz(m, nnz) : csrmatrix_new_count_nnz(m); return *A != 0; }; I.given = [] { return ""; }; I.result = [=] { std::string o = cat((*A)->m, " ", (*A)->nnz, ";"); if (!known) put(o, (*A)->ia, m + 1); return o; }; I.dispose = drop; }); }
        else oom::probe(r, "matrix_elements", desc, [&](Inst& I) { *A = csrmatrix_new_count_nnz(m); I.setup_ok = *A != 0; if (*A) for (int i = 0; i < m; ++i) (*A)->ia[i + 1] = cnt[i]; int tot = 0; for (int c : cnt) tot += c; if (!tot) I.setup_ok = false; I.keeps = true; I.retry = false; I.run = [=] { return csrmatrix_new_elms_pushback(*A) > 0; }; I.given = [] { return ""; }; I.result = [=] { std::string o = cat((*A)->nnz, ";"); put(o, (*A)->ia, m + 1); return o; }; I.dispose = drop; });
        return;
    }
    int np = r.i(1, 3); Wells* W = 0; if (r.p(0.7)) { W = create_wells(np, 0, 0); int nw = r.i(1, 3); for (int i = 0; i < nw; ++i) { VI c = random_perm(r, nc); c.resize(r.i(1, std::min(nc, 4))); VD wi(c.size(), 1.0), fr(np, 1.0 / np), di(np, 1.0); add_well(i % 2 ? INJECTOR : PRODUCER, 0, (int)c.size(), &fr[0], &c[0], &wi[0], "W", W); append_well_controls(BHP, 1.0, &di[0], i, W); set_current_control(i, 0, W); } desc += cat(" ", nw, " wells"); } WellsPtr wp(W); std::string g0 = dump(g), w0 = W ? dump(W) : ""; auto given = [=] { return dump(g) + (W ? dump(W) : ""); };
    if (w <= 3) {
        std::shared_ptr<ifs_tpfa_data*> h(new ifs_tpfa_data*(0)); VD trans(g->number_of_faces), src(nc, 0.0), gp0(g->cell_facepos[nc], 0.0), tm(nc, 1.0), om(nc, 0.0), wdp(W ? W->well_connpos[W->number_of_wells] : 1, 0.0); for (auto& t : trans) t = r.logu(0.1, 10); src[0] = 1; src[nc - 1] -= 1;
        oom::probe(r, "ifs_tpfa", desc, [&](Inst& I) { *h = 0; I.run = [=] { *h = ifs_tpfa_construct(g, W); return *h != 0; }; I.given = given;
            I.result = [=]() mutable { ifs_tpfa_forces F; memset(&F, 0, sizeof F); F.src = &src[0]; if (W) { F.W = W; F.totmob = &tm[0]; F.wdp = &wdp[0]; } bool ok = ifs_tpfa_assemble(g, &F, &trans[0], &gp0[0], *h) != 0; std::string o = cat(ok, ";") + dump((*h)->A, true); put(o, (*h)->b, (*h)->A->m); return o; };
            I.dispose = [=] { ifs_tpfa_destroy(*h); *h = 0; }; });
    } else if (w == 4) {
        std::shared_ptr<cfs_tpfa_res_data*> h(new cfs_tpfa_res_data*(0)); cfs_tpfa_res_wells cw; cw.W = W; cw.data = 0; cfs_tpfa_res_wells* pw = W ? &cw : 0;
        oom::probe(r, "cfs_tpfa_res", desc, [&](Inst& I) { *h = 0; I.run = [=] { *h = cfs_tpfa_res_construct(g, pw, np); return *h != 0; }; I.given = given; I.result = [=] { return dump((*h)->J, false); }; I.dispose = [=] { cfs_tpfa_res_destroy(*h); *h = 0; }; });
    } else {
        std::shared_ptr<compr_quantities_gen*> q(new compr_quantities_gen*(0)); int nf = g->number_of_faces; oom::probe(r, "compr_quantities", cat(nc, " ", nf, " ", np), [&](Inst& I) { *q = 0; I.run = [=] { *q = compr_quantities_gen_allocate(nc, nf, np); return *q != 0; }; I.given = [] { return ""; };
            I.result = [=] { compr_quantities_gen& c = **q; size_t n2 = (size_t)np * np; for (size_t i = 0; i < n2 * nc; ++i) c.Ac[i] = c.dAc[i] = 1; for (size_t i = 0; i < n2 * nf; ++i) c.Af[i] = 1; for (size_t i = 0; i < (size_t)np * nf; ++i) c.phasemobf[i] = 1; for (int i = 0; i < nc; ++i) c.voldiscr[i] = 1; return cat(c.nphases); };
            I.dispose = [=] { compr_quantities_gen_deallocate(*q); *q = 0; }; });
    }
    CHK(dump(g) == g0 && (!W || dump(W) == w0), "given-modified", desc);
}
static void one(long k, Rng& r) { (void)k; quietly([&] { int w = r.i(0, 9); if (w < 2) grids(r); else if (w < 5) wells(r); else if (w < 7) containers(r); else solvers(r); }); }
int main(int argc, char** argv) { return mon::run(argc, argv, "p34", one, 60); }
