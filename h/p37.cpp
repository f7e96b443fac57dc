// P37: boundary-condition and source containers against list models; side conditions against an independent side selection.
#include "polygrid.hpp"
#include <opm/core/pressure/FlowBCManager.hpp>
#define BC_PRESSURE COMPR_BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_bc.h>
#undef BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_source.h>
extern "C" {
#include <opm/core/transport/implicit/transport_source.h>
}
#include <iostream>
using namespace mon; using namespace gl;
struct Cond { FlowBCType t; double v; std::vector<int> f; };
static bool same(const FlowBoundaryConditions* b, const std::vector<Cond>& m, const std::string& d)
{
    ev("container_comparisons");
    if (!CHK(b->nbc == m.size(), "bc-count", cat(d, " holds ", b->nbc, " expected ", m.size()))) return false;
    size_t pos = 0; if (!CHK(b->cond_pos[0] == 0, "bc-pos", d)) return false;
    for (size_t k = 0; k < m.size(); ++k) {
        if (!CHK(b->type[k] == m[k].t && (b->value[k] == m[k].v || m[k].t == BC_NOFLOW), "bc-content", cat(d, " condition ", k, " type ", b->type[k], " value ", b->value[k], " expected ", m[k].t, " ", m[k].v))) return false;
        if (!CHK(b->cond_pos[k + 1] == pos + m[k].f.size(), "bc-pos", cat(d, " condition ", k, " ends at ", b->cond_pos[k + 1], " expected ", pos + m[k].f.size()))) return false;
        for (size_t q = 0; q < m[k].f.size(); ++q) if (!CHK(b->face[pos + q] == m[k].f[q], "bc-faces", cat(d, " condition ", k, " face ", q, " is ", b->face[pos + q], " expected ", m[k].f[q]))) return false;
        pos += m[k].f.size();
    }
    return true;
}
static void raw_bc(Rng& r)
{
    FlowBoundaryConditions* b = flow_conditions_construct(r.p(0.5) ? 0 : r.i(1, 12)); std::vector<Cond> m; if (!CHK(b != 0, "bc-construct", "null")) return; same(b, m, "fresh"); bool many = r.p(0.01); int nop = many ? r.i(300, 3000) : r.i(1, 60); if (many) ev("long_sequences"); uint64_t h = 7;
    for (int o = 0; o < nop; ++o) {
        int w = many && !r.p(0.002) ? r.i(1, 19) : r.i(0, 19); FlowBCType t = (FlowBCType)r.i(0, 2); double v = r.p(0.1) ? 0 : r.u(-1e5, 1e5);
        if (w == 0) { flow_conditions_clear(b); m.clear(); ev("clears"); }
        else if (w < 12) { int f = r.i(0, 100000); CHK(flow_conditions_append(t, f, v, b), "bc-append", "failed"); m.push_back(Cond{t, v, {f}}); ev("appends"); }
        else { int n = r.p(0.1) ? 0 : r.i(1, r.p(0.2) ? 60 : 6); std::vector<int> f(n); for (int& x : f) x = r.i(0, 1000); std::vector<int> c = f; c.shrink_to_fit(); CHK(flow_conditions_append_multi(t, n, c.data(), v, b), "bc-append", "failed"); m.push_back(Cond{t, v, f}); for (int& x : c) x = -99; ev("multi_appends"); }
        h = hcomb(h, w * 4 + t); if (many && o % 97 && o + 1 < nop) continue; if (!same(b, m, cat("after op ", o))) break;
    }
    nontrivial(h); flow_conditions_destroy(b); flow_conditions_destroy(0);
}
// Independent: outer faces of cells in the extreme layer whose tag names that side.
static std::vector<int> side_faces(const UnstructuredGrid& g, int side)
{
    std::vector<int> out; int dim = side / 2, stride = 1; for (int q = 0; q < dim; ++q) stride *= g.cartdims[q];
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) continue; int c = a >= 0 ? a : b; int gc = g.global_cell ? g.global_cell[c] : c; int co = gc / stride % g.cartdims[dim]; if (co != (side % 2 ? g.cartdims[dim] - 1 : 0)) continue; for (int k = g.cell_facepos[c]; k < g.cell_facepos[c + 1]; ++k) if (g.cell_faces[k] == f && g.cell_facetag[k] == side) out.push_back(f); }
    std::sort(out.begin(), out.end()); return out;
}
static void manager(Rng& r)
{
    std::string kind; GridPtr g = random_grid(r, 5, &kind); if (r.p(0.3)) { g = renumber(*g, random_perm(r, g->number_of_cells), &r); kind += " renumbered"; }
    if (r.p(0.2)) { double z = r.logu(1e-14, 1e8); for (int f = 0; f < g->number_of_faces; ++f) g->face_areas[f] *= z; ev("scaled_grids"); }
    bool notag = r.p(0.08); if (notag) { free(g->cell_facetag); g->cell_facetag = 0; kind += " untagged"; }
    Opm::FlowBCManager mgr; std::vector<Cond> m; uint64_t h = hstr(kind); int nop = r.i(1, 14); same(mgr.c_bcs(), m, "fresh manager");
    for (int o = 0; o < nop; ++o) {
        int w = r.i(0, 9); double v = r.p(0.1) ? 0 : r.u(-1e5, 1e5); std::string d = cat(kind, " op ", o, " kind ", w); h = hcomb(h, w);
        if (w == 0) { mgr.clear(); m.clear(); ev("manager_clears"); }
        else if (w <= 3) { FlowBCType t = (FlowBCType)r.i(0, 2); int f = r.i(0, g->number_of_faces - 1); mgr.append(t, f, v); m.push_back(Cond{t, v, {f}}); ev("manager_appends"); }
        else {
            int side = r.i(0, 5); bool press = w <= 6; h = hcomb(h, side); bool bad = notag || side >= 2 * g->dimensions, threw = false;
            try { if (press) mgr.pressureSide(*g, (Opm::FlowBCManager::Side)side, v); else mgr.fluxSide(*g, (Opm::FlowBCManager::Side)side, v); } catch (const std::exception&) { threw = true; }
            if (!CHK(threw == bad, bad ? "bad-side-accepted" : "side-refused", cat(d, " side ", side, " dims ", g->dimensions))) return;
            if (bad) { ev("refused"); if (!same(mgr.c_bcs(), m, d + " after refusal")) return; continue; }
            std::vector<int> want = side_faces(*g, side); const FlowBoundaryConditions* b = mgr.c_bcs(); ev(press ? "pressure_sides" : "flux_sides"); ev("side_faces", (long)want.size());
            size_t first = m.size(), pos = 0; for (auto& c : m) pos += c.f.size();
            size_t nnew = b->nbc - first, fnew = b->cond_pos[b->nbc] - pos;
            if (!CHK(b->nbc >= first && fnew == want.size() && (press ? nnew >= 1 || want.empty() : nnew == want.size()), "side-size", cat(d, " side ", side, " added ", nnew, " conditions with ", fnew, " faces, expected ", want.size(), " faces"))) return;
            std::vector<int> got(b->face + pos, b->face + pos + fnew); std::vector<int> s = got; std::sort(s.begin(), s.end());
            if (!CHK(s == want, "side-faces", cat(d, " side ", side, " faces ", vec(s), " expected ", vec(want)))) return;
            double tot = 0, sum = 0; for (int f : want) tot += g->face_areas[f];
            for (size_t k = first; k < b->nbc; ++k) {
                std::vector<int> fs(b->face + b->cond_pos[k], b->face + b->cond_pos[k + 1]);
                CHK(b->type[k] == (press ? BC_PRESSURE : BC_FLUX_TOTVOL), "side-type", cat(d, " type ", b->type[k]));
                if (press) CHK(b->value[k] == v, "side-value", cat(d, " value ", b->value[k], " expected ", v)); else if (CHK(fs.size() == 1, "side-size", d)) { NEAR(b->value[k], v * g->face_areas[fs[0]] / tot, 1e-12, std::fabs(v) * 1e-3, "side-value", cat(d, " face ", fs[0])); sum += b->value[k]; }
                m.push_back(Cond{b->type[k], b->value[k], fs});
            }
            if (!press && !want.empty()) NEAR(sum, v, 1e-11, 0, "side-total", d);
        }
        if (!same(mgr.c_bcs(), m, d)) return;
    }
    nontrivial(h);
}
struct Src { int c, t; double p, v; std::vector<double> s, z; };
template <class S> static void sources(Rng& r, int kind)
{
    int np = r.i(1, 4), n0 = r.i(-2, 5); uint64_t h = hcomb(kind, np); std::vector<Src> m; std::string nm[] = {"compr_src", "compr_bc", "transport_source"};
    compr_src* a = 0; compr_bc* b = 0; TransportSource* t = 0;
    if (r.p(0.05)) { int z = r.i(-2, 0); CHK(compr_src_allocate(z, n0) == 0 && compr_bc_allocate(z, n0) == 0 && create_transport_source(n0, z) == 0, "src-no-phases", cat("np ", z)); }
    if (kind == 0) a = compr_src_allocate(np, n0); else if (kind == 1) b = compr_bc_allocate(np, n0); else t = create_transport_source(n0, np);
    if (!CHK(a || b || t, "src-construct", nm[kind])) return; bool many = r.p(0.01); if (many) ev("long_sequences"); int nop = many ? r.i(300, 3000) : r.i(1, 70); bool ok = true;
    for (int o = 0; o < nop && ok; ++o) {
        int w = many && !r.p(0.002) ? r.i(1, 24) : r.i(0, 24);
        if (w == 0) { if (a) clear_compr_source_term(a); else if (b) compr_bc_clear(b); else clear_transport_source(t); m.clear(); ev("source_clears"); }
        else {
            int use = w <= 2 ? np + r.pick(std::vector<int>{-1, 1, 2}) : np; Src s; s.c = r.i(0, 1 << 20); s.t = r.i(0, 1); s.p = r.u(0, 1e7); s.v = r.u(-1, 1); for (int k = 0; k < use; ++k) { s.s.push_back(r.u()); s.z.push_back(r.u()); }
            std::vector<double> cs(s.s.begin(), s.s.end()), cz(s.z.begin(), s.z.end());
            int rc = a ? append_compr_source_term(s.c, use, s.v, cs.data(), a) : b ? compr_bc_append(s.t ? BC_RESV : COMPR_BC_PRESSURE, s.c, use, s.p, s.v, cs.data(), b) : append_transport_source(s.c, use, s.p, s.v, cs.data(), cz.data(), t);
            std::fill(cs.begin(), cs.end(), -77); std::fill(cz.begin(), cz.end(), -77);
            if (use == np) { m.push_back(s); ok &= CHK(rc == 1 || (rc > 0), "src-append", cat(nm[kind], " returned ", rc)); ev("source_appends"); }
            else { ok &= CHK(kind == 0 ? rc == 0 : rc <= 0, "src-mismatch", cat(nm[kind], " accepted ", use, " phases for ", np, ": ", rc)); ev("source_refusals"); }
        }
        h = hcomb(h, w); if (many && o % 97 && o + 1 < nop) continue; ev("container_comparisons");
        int n = a ? a->nsrc : b ? b->nbc : t->nsrc, ph = a ? a->nphases : b ? b->nphases : t->nphase;
        ok = ok && CHK(n == (int)m.size() && ph == np, "src-count", cat(nm[kind], " holds ", n, " expected ", m.size()));
        for (int k = 0; k < n && ok; ++k) {
            const int* c = a ? a->cell : b ? b->face : t->cell; const double* fl = a ? a->flux : b ? b->flux : t->flux; const double* sa = a ? a->saturation : b ? b->saturation : t->saturation;
            ok &= CHK(c[k] == m[k].c && fl[k] == m[k].v, "src-content", cat(nm[kind], " entry ", k, " of ", n, " np ", np, ": ", c[k], " ", fl[k], " expected ", m[k].c, " ", m[k].v));
            for (int q = 0; q < np; ++q) ok &= CHK(sa[k * np + q] == m[k].s[q] && (!t || t->surfvolume[k * np + q] == m[k].z[q]), "src-composition", cat(nm[kind], " entry ", k, " phase ", q));
            if (b) ok &= CHK(b->press[k] == m[k].p && b->type[k] == (m[k].t ? BC_RESV : COMPR_BC_PRESSURE), "src-content", cat("compr_bc entry ", k)); if (t) ok &= CHK(t->pressure[k] == m[k].p, "src-content", cat("pressure of entry ", k));
        }
    }
    nontrivial(h); if (a) compr_src_deallocate(a); if (b) compr_bc_deallocate(b); if (t) destroy_transport_source(t); compr_src_deallocate(0); compr_bc_deallocate(0); destroy_transport_source(0);
}
int main(int c, char** v) { return run(c, v, "p37", [](long, Rng& r) { raw_bc(r); manager(r); manager(r); for (int k = 0; k < 3; ++k) sources<int>(r, k); }); }
