// P10: histories of the well container checked against an independent model after every operation.
#include "mon.hpp"
#include <opm/core/wells.h>
#include <memory>
using namespace mon;
struct MC { int type; double target; std::vector<double> distr; bool dknown; };
struct MW { int type; double dref; std::vector<double> cf; std::vector<int> cells; std::vector<double> wi; bool named; std::string name; std::vector<MC> c; int cur; size_t hw; };
struct Model { int np; std::vector<MW> w; };
struct Obj { Wells* W; Model m; };
static std::string hist;
static bool compare(const Obj& o, const char* op)
{
    const Wells* W = o.W; const Model& m = o.m;
    struct Ctx { const char* op; } cx = {op};
#define ctx cat("after ", cx.op, " history: ", hist.size() > 1500 ? hist.substr(hist.size() - 1500) : hist)
    bool r = true;
    r &= CHK(W->number_of_wells == (int)m.w.size(), "p10:count", cat("number of wells ", W->number_of_wells, " expected ", m.w.size(), " ", ctx));
    r &= CHK(W->number_of_phases == m.np, "p10:phases", ctx);
    if (!r) return false;
    int pos = 0;
    r &= CHK(W->well_connpos[0] == 0, "p10:connpos", ctx);
    for (size_t w = 0; w < m.w.size() && r; ++w) {
        const MW& e = m.w[w];
        
#define c2 cat("well ", w, " ", ctx)

        r &= CHK(W->type[w] == e.type, "p10:type", c2);
        r &= CHK(W->depth_ref[w] == e.dref, "p10:depth", cat(W->depth_ref[w], " expected ", e.dref, " ", c2));
        for (int p = 0; p < m.np; ++p) r &= CHK(W->comp_frac[w * m.np + p] == e.cf[p], "p10:compfrac", cat(W->comp_frac[w * m.np + p], " expected ", e.cf[p], " ", c2));
        r &= CHK(W->well_connpos[w + 1] == pos + (int)e.cells.size(), "p10:connpos", c2);
        if (!r) return false;
        for (size_t k = 0; k < e.cells.size(); ++k) {
            r &= CHK(W->well_cells[pos + k] == e.cells[k], "p10:cells", c2);
            r &= CHK(W->WI[pos + k] == e.wi[k], "p10:wi", cat(W->WI[pos + k], " expected ", e.wi[k], " ", c2));
        }
        pos += (int)e.cells.size();
        r &= CHK((W->name[w] != 0) == e.named, "p10:name", c2);
        if (r && e.named) r &= CHK(e.name == W->name[w], "p10:name", c2);
        const WellControls* c = W->ctrls[w];
        r &= CHK(c != 0, "p10:ctrl-null", c2);
        if (!r) return false;
        r &= CHK(c->num == (int)e.c.size(), "p10:ctrl-num", c2);
        r &= CHK(c->current == e.cur, "p10:ctrl-current", cat(c->current, " expected ", e.cur, " ", c2));
        if (!r) return false;
        for (size_t k = 0; k < e.c.size(); ++k) {
            r &= CHK(c->type[k] == e.c[k].type, "p10:ctrl-type", c2);
            r &= CHK(c->target[k] == e.c[k].target, "p10:ctrl-target", cat(c->target[k], " expected ", e.c[k].target, " ctrl ", k, " ", c2));
            if (e.c[k].dknown) for (int p = 0; p < m.np; ++p) r &= CHK(c->distr[k * m.np + p] == e.c[k].distr[p], "p10:ctrl-distr", cat(c->distr[k * m.np + p], " expected ", e.c[k].distr[p], " ctrl ", k, " phase ", p, " ", c2));
        }
    }
    ev("container_comparisons");
    return r;
}
static bool disjoint(const Obj& a, const Obj& b)
{
    const Wells *A = a.W, *B = b.W;
    bool sh = A == B || (A->type && A->type == B->type) || A->well_connpos == B->well_connpos || (A->WI && A->WI == B->WI) || (A->comp_frac && A->comp_frac == B->comp_frac) || (A->data == B->data) || (A->ctrls && A->ctrls == B->ctrls);
    for (int w = 0; !sh && w < std::min(A->number_of_wells, B->number_of_wells); ++w) sh |= A->ctrls[w] == B->ctrls[w] || (A->name[w] && A->name[w] == B->name[w]) || (A->ctrls[w]->target && A->ctrls[w]->target == B->ctrls[w]->target);
    return CHK(!sh, "p10:shared-storage", "two containers share storage");
}
static void onecase(long k, Rng& r)
{
    hist.clear();
    std::vector<Obj> pool;
    int nops = st().tier == "thorough" ? r.i(5, 160) : r.i(5, 90);
    std::string kinds;
    uint64_t hh = 7;
    bool bad = false;
    for (int op = 0; op < nops && !bad; ++op) {
        int x = pool.empty() ? 0 : r.i(0, 99);
        const char* name = "?";
        size_t touched = 0;
        if (x < 5 || pool.empty()) {
            if (pool.size() >= 5) continue;
            int np = r.i(1, 3), nw = r.p(0.5) ? 0 : r.i(0, 6), nperf = r.p(0.5) ? 0 : r.i(0, 20);
            Obj o; o.W = create_wells(np, nw, nperf); o.m.np = np;
            hist += cat("create(", np, ",", nw, ",", nperf, ");");
            if (!CHK(o.W != 0, "p10:create-failed", hist)) return;
            pool.push_back(o); touched = pool.size() - 1; name = "create"; ev("op_create");
        } else if (x < 35) {
            touched = r.i(0, (int)pool.size() - 1); Obj& o = pool[touched];
            MW w; w.type = r.p(0.5) ? INJECTOR : PRODUCER; w.dref = r.p(0.1) ? -1.0 : r.u(-100, 4000);
            int np = o.m.np, nperf = r.p(0.15) ? 0 : r.p(0.1) ? r.i(20, 200) : r.i(1, 9);
            bool cf = r.p(0.8), wi = r.p(0.8);
            w.named = r.p(0.85); w.name = r.p(0.05) ? "" : r.p(0.1) ? std::string(r.i(20, 300), 'x') : cat("W", r.i(0, 99));
            w.cur = -1; w.hw = 0;
            for (int p = 0; p < np; ++p) w.cf.push_back(cf ? r.u() : 0.0);
            for (int q = 0; q < nperf; ++q) { w.cells.push_back(r.i(0, 1000)); w.wi.push_back(wi ? r.u(0, 10) : 0.0); }
            // exact-size heap arguments, scribbled over after the call
            std::unique_ptr<double[]> acf(new double[np]), awi(new double[std::max(nperf, 1)]); std::unique_ptr<int[]> ac(new int[std::max(nperf, 1)]);
            std::copy(w.cf.begin(), w.cf.end(), acf.get()); std::copy(w.wi.begin(), w.wi.end(), awi.get()); std::copy(w.cells.begin(), w.cells.end(), ac.get());
            std::vector<char> nm(w.name.begin(), w.name.end()); nm.push_back(0);
            int okk = add_well((WellType)w.type, w.dref, nperf, cf ? acf.get() : 0, nperf || r.p(0.5) ? ac.get() : 0, wi ? awi.get() : 0, w.named ? nm.data() : 0, o.W);
            hist += cat("#", touched, ".add(", w.type, ",perf=", nperf, ",cf=", cf, ",wi=", wi, ");");
            for (int p = 0; p < np; ++p) acf[p] = -7; for (int q = 0; q < nperf; ++q) { ac[q] = -7; awi[q] = -7; } std::fill(nm.begin(), nm.end() - 1, 'z');
            if (!CHK(okk != 0, "p10:add-failed", hist)) return;
            o.m.w.push_back(w); name = "add_well"; ev("op_add_well");
        } else if (x < 65) {
            touched = r.i(0, (int)pool.size() - 1); Obj& o = pool[touched]; if (o.m.w.empty()) continue;
            int wi = r.i(0, (int)o.m.w.size() - 1); MW& w = o.m.w[wi];
            MC c; c.type = r.i(0, 2); static const int T[3] = {BHP, RESERVOIR_RATE, SURFACE_RATE}; c.type = T[c.type]; c.target = r.u(-1e3, 1e3);
            bool d = r.p(0.8); std::unique_ptr<double[]> ad(new double[o.m.np]);
            for (int p = 0; p < o.m.np; ++p) { c.distr.push_back(d ? r.u(0, 1) : 0.0); ad[p] = c.distr[p]; }
            c.dknown = d || w.c.size() >= w.hw; // an unset distribution in a reused slot is unspecified
            int okk = append_well_controls((WellControlType)c.type, c.target, d ? ad.get() : 0, wi, o.W);
            hist += cat("#", touched, ".ctrl(", wi, ",", c.type, ");");
            if (!CHK(okk != 0, "p10:append-failed", hist)) return;
            for (int p = 0; p < o.m.np; ++p) ad[p] = -9;
            w.c.push_back(c); w.hw = std::max(w.hw, w.c.size()); name = "append"; ev("op_append_control");
        } else if (x < 80) {
            touched = r.i(0, (int)pool.size() - 1); Obj& o = pool[touched]; if (o.m.w.empty()) continue;
            int wi = r.i(0, (int)o.m.w.size() - 1); MW& w = o.m.w[wi]; if (w.c.empty()) continue;
            int c = r.i(0, (int)w.c.size() - 1); if (r.p(0.3)) { c = ~c; ev("op_shut"); }
            set_current_control(wi, c, o.W); w.cur = c; hist += cat("#", touched, ".cur(", wi, ",", c, ");"); name = "set_current"; ev("op_set_current");
        } else if (x < 86) {
            touched = r.i(0, (int)pool.size() - 1); Obj& o = pool[touched]; if (o.m.w.empty()) continue;
            int wi = r.i(0, (int)o.m.w.size() - 1); MW& w = o.m.w[wi];
            clear_well_controls(wi, o.W); w.c.clear();
            w.cur = o.W->ctrls[wi]->current; // selection is meaningless without controls; must only stay a value a copy can carry
            hist += cat("#", touched, ".clear(", wi, ");"); name = "clear"; ev("op_clear");
        } else if (x < 94) {
            if (pool.size() >= 5) continue;
            size_t s = r.i(0, (int)pool.size() - 1); Obj o; o.m = pool[s].m; hist += cat("clone(#", s, ");");
            o.W = clone_wells(pool[s].W);
            if (!CHK(o.W != 0, "p10:clone-failed", hist)) return;
            for (auto& w : o.m.w) w.hw = w.c.size();
            pool.push_back(o); touched = pool.size() - 1; name = "clone"; ev("op_clone");
            for (size_t j = 0; j + 1 < pool.size(); ++j) bad |= !disjoint(pool[j], pool.back());
        } else {
            if (pool.size() < 2) continue;
            size_t s = r.i(0, (int)pool.size() - 1); destroy_wells(pool[s].W); pool.erase(pool.begin() + s); hist += cat("destroy(#", s, ");"); name = "destroy"; ev("op_destroy");
        }
        hh = hcomb(hh, hstr(name)); hh = hcomb(hh, touched);
        for (auto& o : pool) bad |= !compare(o, name);
    }
    if (clone_wells(0) != 0) violate("p10:clone-null", "clone of nothing is something");
    for (auto& o : pool) destroy_wells(o.W);
    destroy_wells(0);
    nontrivial(hh); sample(hist.substr(0, 600)); (void)k;
}
int main(int c, char** v)
{
    return run(c, v, "p10", onecase, 30);
}
