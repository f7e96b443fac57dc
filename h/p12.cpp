// P12: group controls split targets by guide rates; limit checks change the right well or group and nothing else; reinjection matches production.
#include "config.h"
#include "wellsdeck.hpp"
using namespace gl; using namespace wd;
struct Grp { std::string name; int parent; std::string pmode, imode, proc; double plim[5]; double ilim[2]; int itype; double rein, vrep; std::string pcur, icur; };
static const char* PM[] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV"}; static const char* IM[] = {"RATE", "RESV"};
struct W12 { Well w; int grp; double guide; bool has; int gtype; double gtarget; int gdistr[3]; int gidx; int cur; bool shut; }; // has: carries a group control
struct M { std::vector<Grp> g; std::vector<W12> w; Phases P; std::string text; bool under(int w, int a) const { for (int k = this->w[w].grp; k >= 0; k = g[k].parent) if (k == a) return true; return false; } };
static int pmi(const std::string& m) { for (int k = 0; k < 5; ++k) if (m == PM[k]) return k; return -1; }
static void pdistr(const Phases& P, int mode, int d[3]) { d[0] = d[1] = d[2] = 0; for (int p = 0; p < 3; ++p) if (P.used[p] && (mode == 4 || (mode == 0 && p == 1) || (mode == 1 && p == 0) || (mode == 2 && p == 2) || (mode == 3 && p < 2))) d[P.pos[p]] = 1; }
static double prate(const Phases& P, int mode, const double* res, const double* surf) { int d[3]; pdistr(P, mode, d); double s = 0; for (int p = 0; p < P.np; ++p) s += d[p] * (mode == 4 ? res[p] : surf[p]); return s; }
static bool pok(const Phases& P, int mode) { return mode == 0 || mode == 4 || (mode == 1 && P.used[0]) || (mode == 2 && P.used[2]) || (mode == 3 && P.used[0]); }
static M model(Rng& r, const dk::Units& U, bool field)
{
    M m; m.P = random_phases(r); const Phases& P = m.P; int ng = r.p(0.2) ? 1 : r.i(1, 7), nw = r.i(1, 9); bool forest = r.p(0.3); std::vector<std::string> pool; for (int k = 1; k <= 7; ++k) pool.push_back(cat(k % 2 ? "G" : "PLAT", k)); if (r.p(0.7)) r.shuffle(pool);
    for (int k = 0; k < ng; ++k) { Grp g; g.name = k == 0 ? "FIELD" : pool[k - 1]; g.parent = k == 0 || (forest && r.p(0.3)) ? -1 : r.i(0, k - 1); g.pmode = g.imode = "NONE"; g.proc = "NONE"; for (auto& x : g.plim) x = -1; for (auto& x : g.ilim) x = -1; g.itype = 0; g.rein = g.vrep = 0; m.g.push_back(g); }
    for (int k = 0; k < nw; ++k) { W12 w; w.w.name = cat(r.p(0.5) ? "W" : "WELL", k); w.w.inj = r.p(0.45); w.grp = r.i(0, ng - 1); for (int t = 0; t < 5 && w.grp + 1 < ng && r.p(0.5); ++t) w.grp = r.i(w.grp, ng - 1); w.guide = 1; w.has = false; w.gidx = -1; w.cur = -1; w.shut = false; m.w.push_back(w); }
    // groups: active modes never below one another; limits anywhere
    for (int s = 0; s < 2; ++s) for (int k = 0; k < ng; ++k) { Grp& g = m.g[k]; bool held = false; for (int a = g.parent; a >= 0; a = m.g[a].parent) { const std::string& x = s ? m.g[a].imode : m.g[a].pmode; held |= x != "NONE" && x != "FLD"; } std::string& md = s ? g.imode : g.pmode; md = r.p(0.3) ? "FLD" : "NONE"; if (held || !r.p(0.45)) continue; if (s) { static const char* c[] = {"RATE", "RESV", "REIN", "VREP"}; md = c[r.i(0, 3)]; } else { int q; do q = r.i(0, 4); while (q == 2 || !pok(P, q)); md = PM[q]; } }
    std::string spec, comp; std::vector<std::string> ls, lc, li, lp, lg, lo, gi, gp, gt; for (int k = 0; k < nw; ++k) { W12& w = m.w[k]; ls.push_back(line(r, std::vector<std::string>{q(r, w.w.name), q(r, m.g[w.grp].name), cat(k % 3 + 1), cat(k / 3 + 1), "1000", "OIL"}, std::vector<std::string>())); lc.push_back(cat(" ", w.w.name, " ", k % 3 + 1, " ", k / 3 + 1, " 1 ", r.i(1, 2), " OPEN 1* 10 /\n")); double grup = 0.6; (w.w.inj ? li : lp).push_back(r.p(grup) ? control(r, w.w, P, U, w.w.name, true, "GRUP", 0.4) : control(r, w.w, P, U, w.w.name, true, 0, 0.4)); w.shut = w.w.shut; for (int z = r.p(0.12) ? r.i(1, 2) : 0; z > 0; --z) { w.shut = r.p(0.4); lo.push_back(cat(" ", q(r, w.w.name), w.shut ? " SHUT /\n" : " OPEN /\n")); ev("welopen"); } if (r.p(0.5)) { w.guide = ng == 1 && r.p(0.2) ? 0.0 : r.p(0.3) ? (double)r.i(1, 5) : r.logu(0.01, 100); lg.push_back(" " + q(r, w.w.name) + " YES " + g17(w.guide) + (w.w.inj ? " RAT /\n" : " OIL /\n")); } }
    for (int k = 0; k < ng; ++k) { Grp& g = m.g[k]; if (g.parent >= 0) gt.push_back(" " + g.name + " " + q(r, m.g[g.parent].name) + " /\n"); static const char* ty[] = {"WATER", "OIL", "GAS"};
        bool lim = r.p(0.4); int pm = pmi(g.pmode); static const char* pr[] = {"NONE", "RATE", "WELL"}; if (pm >= 0 || lim || g.pmode == "FLD") { g.proc = pr[r.i(0, 5) % 3]; if (r.p(0.5)) g.proc = r.p(0.5) ? "RATE" : "WELL"; std::string it; for (int t = 0; t < 5; ++t) { bool on = t == pm || (pok(P, t) && lim && r.p(0.4)); if (on) g.plim[t] = t != pm && r.p(0.1) ? 0.0 : r.logu(1, 1e5); if (t < 4) it += on ? g17(g.plim[t]) + " " : "1* "; } if (g.plim[4] < 0 && r.p(0.3)) gp.push_back(cat(" ", g.name, " ", r.p(0.2) && g.pmode == "NONE" ? "1*" : g.pmode, " ", it, g.proc, " /\n")); else gp.push_back(cat(" ", g.name, " ", g.pmode, " ", it, g.proc, r.p(0.5) ? " 6* " : " YES 1* 1 1* 'X' 2 ", g.plim[4] < 0 ? "1*" : g17(g.plim[4]), " /\n")); const char* dm = "qqgqr"; for (int t = 0; t < 5; ++t) if (g.plim[t] >= 0) g.plim[t] *= dk::factor(U, dm[t]); } else g.pmode = "NONE";
        lim = r.p(0.4); bool im = g.imode != "NONE" && g.imode != "FLD"; if (im || lim || g.imode == "FLD") { do g.itype = r.i(0, 2); while (!P.used[g.itype]); if (g.imode == "RATE" || (lim && r.p(0.5))) g.ilim[0] = g.imode != "RATE" && r.p(0.1) ? 0.0 : r.logu(1, 1e5); if (g.imode == "RESV" || (lim && r.p(0.5))) g.ilim[1] = g.imode != "RESV" && r.p(0.1) ? 0.0 : r.logu(1, 1e5); if (g.imode == "REIN" || r.p(0.2)) g.rein = r.p(0.2) ? 1.0 : r.u(0, 1.5); if (g.imode == "VREP" || r.p(0.2)) g.vrep = r.p(0.2) ? 1.0 : r.u(0, 1.5); gi.push_back(cat(" ", q(r, g.name), " ", ty[g.itype], " ", g.imode, " ", g.ilim[0] < 0 ? "1*" : g17(g.ilim[0]), " ", g.ilim[1] < 0 ? "1*" : g17(g.ilim[1]), " ", g17(g.rein), " ", g17(g.vrep), " /\n")); if (g.ilim[0] >= 0) g.ilim[0] *= dk::factor(U, g.itype == 2 ? 'g' : 'q'); if (g.ilim[1] >= 0) g.ilim[1] *= dk::factor(U, 'r'); } else g.imode = "NONE"; g.pcur = g.pmode; g.icur = g.imode; }
    m.text = head(r, P, field); std::vector<std::string> ks; if (!gt.empty()) { r.shuffle(gt); ks.push_back(kw(r, "GRUPTREE", gt)); } if (!gp.empty()) ks.push_back(kw(r, "GCONPROD", gp)); if (!gi.empty()) ks.push_back(kw(r, "GCONINJE", gi)); if (!lg.empty()) ks.push_back(kw(r, "WGRUPCON", lg)); if (!li.empty()) ks.push_back(kw(r, "WCONINJE", li)); if (!lp.empty()) ks.push_back(kw(r, "WCONPROD", lp)); ks.push_back(kw(r, "WELSPECS", ls)); ks.push_back(kw(r, "COMPDAT", lc)); if (!lo.empty()) ks.push_back(kw(r, "WELOPEN", lo)); r.shuffle(ks); for (auto& s : ks) m.text += s; m.text += "TSTEP\n 1 /\n"; return m;
}
static std::string show(const Wells& W, int w) { const WellControls& c = *W.ctrls[w]; std::string s = W.name[w]; for (int k = 0; k < c.num; ++k) { s += cat(" [", c.type[k] == BHP ? "BHP" : c.type[k] == SURFACE_RATE ? "SURF" : "RESV", " ", c.target[k]); if (c.type[k] != BHP) for (int p = 0; p < W.number_of_phases; ++p) s += cat(p ? "," : " distr ", c.distr[W.number_of_phases * k + p]); s += "]"; } return s + cat(" current ", c.current); }
static std::string show(const Wells& W) { std::string s; for (int w = 0; w < W.number_of_wells; ++w) s += "\n  " + show(W, w); return s; }
// the wells' lists agree with the model: own limits untouched, at most one group control, right selection
static bool agree(const Wells& W, M& m, const std::string& pre, const std::string& ctx)
{
    bool ok = true; for (size_t k = 0; k < m.w.size() && ok; ++k) {
        W12& x = m.w[k]; const WellControls& c = *W.ctrls[k]; int np = m.P.np, own = (int)x.w.ctl.size(); std::string cx = cat("\nwell ", show(W, (int)k), "\n own limits ", own, x.has ? cat(" group control type ", x.gtype, " target ", x.gtarget) : std::string(), " expected current ", x.cur, x.shut ? " shut" : "", ctx); ev("well_states");
        if (!CHK(c.num == own + (x.has ? 1 : 0), pre + ":control-count", cx)) return false; for (int a = 0; a < own; ++a) { const Ctl& d = x.w.ctl[a]; ok &= CHK((int)c.type[a] == d.type && (d.anyval || close(c.target[a], d.target, 1e-12, 0)), pre + ":own-limit-changed", cx); }
        if (x.has) { x.gidx = own; ok &= CHK((int)c.type[own] == x.gtype, pre + ":group-control-type", cx); ok &= CHK(close(c.target[own], x.gtarget, 1e-11, 0), pre + ":group-target", cat(c.target[own], " expected ", x.gtarget, cx)); for (int p = 0; p < np; ++p) ok &= CHK(c.distr[np * own + p] == x.gdistr[p], pre + ":group-phase-weights", cx); ev("group_targets"); }
        if (x.shut) { ok &= CHK(c.current < 0, pre + ":shut-well-opened", cx); ev("shut_wells"); } else if (x.cur >= 0) ok &= CHK(c.current == x.cur, pre + ":selected-control", cx); else ok &= CHK(c.current < 0, pre + ":selected-control", cx);
    } return ok;
}
// share target among the wells below group a; forced: every well of the kind, otherwise those under group control
static bool share(M& m, int a, bool inj, bool forced, int type, double target, const int d[3])
{
    double G = 0; std::vector<int> in; for (size_t k = 0; k < m.w.size(); ++k) { W12& x = m.w[k]; if (x.w.inj != inj || !m.under((int)k, a) || !(forced || x.w.mode == "GRUP")) continue; in.push_back((int)k); G += x.guide; } if (!(G > 0)) return false;
    for (int k : in) { W12& x = m.w[k]; x.has = true; x.gtype = type; x.gtarget = target * x.guide / G; for (int p = 0; p < 3; ++p) x.gdistr[p] = d[p]; x.cur = (int)x.w.ctl.size(); } if (in.size() > 1) ev("split_targets"); ev("targets_applied"); return true;
}
static bool anyof(const M& m, int a, bool inj, bool grup) { for (size_t k = 0; k < m.w.size(); ++k) if (m.w[k].w.inj == inj && m.under((int)k, a) && (!grup || m.w[k].w.mode == "GRUP") && m.w[k].guide > 0) return true; return false; }
// total of the group's targets equals its target
static void sums(const Wells& W, const M& m, int a, bool inj, bool forced, double target, const std::string& pre, const std::string& ctx) { double s = 0; for (size_t k = 0; k < m.w.size(); ++k) if (m.w[k].w.inj == inj && m.under((int)k, a) && (forced || m.w[k].w.mode == "GRUP")) s += W.ctrls[k]->target[m.w[k].w.ctl.size()]; ev("sum_checks"); CHK(close(s, target, 1e-10, 0), pre + ":targets-do-not-sum", cat("group ", m.g[a].name, " sum ", s, " target ", target, ctx)); }
// the same hierarchy built in code, node by node, over a Wells of our own
typedef std::unique_ptr<Wells, void (*)(Wells*)> WP;
struct Built { WP W; Opm::WellCollection C; Built() : W((Wells*)0, destroy_wells) {} };
static std::unique_ptr<Built> built(Rng& r, const M& m, const Wells& D, const std::string& ctx)
{
    std::unique_ptr<Built> b(new Built); const Phases& P = m.P; int np = P.np, nw = (int)m.w.size(), ng = (int)m.g.size(); Opm::PhaseUsage pu; pu.num_phases = np; for (int p = 0; p < 3; ++p) { pu.phase_used[p] = P.used[p]; pu.phase_pos[p] = P.pos[p]; }
    b->W.reset(create_wells(np, r.p(0.5) ? nw : 0, r.p(0.5) ? D.well_connpos[nw] : 0)); if (!CHK(bool(b->W), "built:create", ctx)) return std::unique_ptr<Built>();
    for (int k = 0; k < nw; ++k) { const W12& x = m.w[k]; const WellControls& c = *D.ctrls[k]; int b0 = D.well_connpos[k]; if (!CHK(add_well(x.w.inj ? INJECTOR : PRODUCER, D.depth_ref[k], D.well_connpos[k + 1] - b0, D.comp_frac + k * np, D.well_cells + b0, D.WI + b0, x.w.name.c_str(), b->W.get()), "built:add-well", ctx)) return std::unique_ptr<Built>(); int cur = -1;
        for (int a = 0; a < (int)x.w.ctl.size(); ++a) { if (!CHK(append_well_controls(c.type[a], c.target[a], c.distr + a * np, k, b->W.get()), "built:append", ctx)) return std::unique_ptr<Built>(); if (x.w.ctl[a].mode == x.w.mode) cur = a; }
        set_current_control(k, cur >= 0 && x.shut ? ~cur : cur, b->W.get()); }
    std::vector<std::tr1::shared_ptr<Opm::WellsGroupInterface> > N(ng + nw);
    for (int a = 0; a < ng; ++a) { const Grp& G = m.g[a]; typedef Opm::ProductionSpecification PS; typedef Opm::InjectionSpecification IS; PS ps; IS is; static const PS::ControlMode pm[] = {PS::ORAT, PS::WRAT, PS::GRAT, PS::LRAT, PS::RESV}; int q = pmi(G.pmode); ps.control_mode_ = q >= 0 ? pm[q] : G.pmode == "FLD" ? PS::FLD : PS::NONE; ps.procedure_ = G.proc == "WELL" ? PS::WELL : G.proc == "RATE" ? PS::RATE : PS::NONE_P; double* lim[] = {&ps.oil_max_rate_, &ps.water_max_rate_, &ps.gas_max_rate_, &ps.liquid_max_rate_, &ps.reservoir_flow_max_rate_}; for (int t = 0; t < 5; ++t) if (G.plim[t] >= 0) *lim[t] = G.plim[t];
        is.control_mode_ = G.imode == "RATE" ? IS::RATE : G.imode == "RESV" ? IS::RESV : G.imode == "REIN" ? IS::REIN : G.imode == "VREP" ? IS::VREP : G.imode == "FLD" ? IS::FLD : IS::NONE; is.injector_type_ = G.itype == 0 ? IS::WATER : G.itype == 1 ? IS::OIL : IS::GAS; if (G.ilim[0] >= 0) is.surface_flow_max_rate_ = G.ilim[0]; if (G.ilim[1] >= 0) is.reservoir_flow_max_rate_ = G.ilim[1]; is.reinjection_fraction_target_ = G.rein; is.voidage_replacment_fraction_ = G.vrep; N[a].reset(new Opm::WellsGroup(G.name, ps, is, pu)); }
    for (int k = 0; k < nw; ++k) { const W12& x = m.w[k]; Opm::ProductionSpecification ps; Opm::InjectionSpecification is; if (x.w.inj) { is.guide_rate_ = x.guide; ps.guide_rate_ = 0; is.control_mode_ = x.w.mode == "GRUP" ? Opm::InjectionSpecification::GRUP : x.w.mode == "BHP" ? Opm::InjectionSpecification::BHP : Opm::InjectionSpecification::RATE; } else { ps.guide_rate_ = x.guide; is.guide_rate_ = 0; ps.control_mode_ = x.w.mode == "GRUP" ? Opm::ProductionSpecification::GRUP : x.w.mode == "BHP" ? Opm::ProductionSpecification::BHP : Opm::ProductionSpecification::ORAT; } Opm::WellNode* n = new Opm::WellNode(x.w.name, ps, is, pu); if (x.shut) n->setShut(); N[ng + k].reset(n); }
    // groups in any order in which parents precede their children; wells in the order of the Wells, between the groups
    int ga = 0, wk = 0; while (ga < ng || wk < nw) { bool well = wk < nw && m.w[wk].grp < ga && (ga == ng || r.p(0.4)); std::tr1::shared_ptr<Opm::WellsGroupInterface>& n = N[well ? ng + wk : ga]; int pa = well ? m.w[wk].grp : m.g[ga].parent; if (pa < 0) b->C.addChild(n); else b->C.addChild(n, m.g[pa].name); well ? ++wk : ++ga; }
    { dk::CoutCatch q; std::tr1::shared_ptr<Opm::WellsGroupInterface> n(new Opm::WellsGroup("LOST", Opm::ProductionSpecification(), Opm::InjectionSpecification(), pu)); bool thrown = false; try { b->C.addChild(n, "NOSUCH"); } catch (const std::exception&) { thrown = true; } CHK(thrown && b->C.findNode("LOST") == 0, "built:unknown-parent-accepted", ctx); }
    const Opm::WellCollection& CC = b->C; bool ok = CHK((int)CC.getLeafNodes().size() == nw, "built:leaf-count", ctx); for (int k = 0; k < nw && ok; ++k) ok = CHK(CC.getLeafNodes()[k] == N[ng + k].get(), "built:leaf-order", ctx);
    for (int a = 0; a < ng + nw && ok; ++a) { int pa = a < ng ? m.g[a].parent : m.w[a - ng].grp, cnt = a >= ng; if (a < ng) for (int k = 0; k < nw; ++k) cnt += m.under(k, a); const std::string& nm = a < ng ? m.g[a].name : m.w[a - ng].w.name; std::string cx = "\nnode " + nm + ctx; ok &= CHK(CC.findNode(nm) == N[a].get() && b->C.findNode(nm) == N[a].get() && N[a]->name() == nm && N[a]->isLeafNode() == (a >= ng), "built:find-node", cx); ok &= CHK(N[a]->getParent() == (pa < 0 ? 0 : N[pa].get()), "built:parent", cx); ok &= CHK(N[a]->numberOfLeafNodes() == cnt, "built:leaf-nodes-below", cx); ev("nodes_built"); }
    if (!ok) return std::unique_ptr<Built>();
    b->C.setWellsPointer(b->W.get()); { dk::CoutCatch q; try { b->C.applyGroupControls(); } catch (const std::exception& e) { CHK(false, "built:refused", cat(q.e.str(), ctx)); return std::unique_ptr<Built>(); } } ev("hierarchies_built"); return b;
}
static void test(Rng& r)
{
    bool field = r.p(0.3); dk::Units U = field ? dk::field() : dk::metric(); M m = model(r, U, field); const Phases& P = m.P; int np = P.np, nw = (int)m.w.size(), ng = (int)m.g.size(); std::string ctx = "\ndeck:\n" + m.text; bool allin = true; for (auto& w : m.w) allin &= !w.w.inj; (void)allin; GridPtr g(create_grid_cart3d(3, 3, 2));
    const int ones[3] = {1, 1, 1}; bool refuse = false; for (int a = 0; a < ng; ++a) { int pm = pmi(m.g[a].pmode); if (pm >= 0 && !anyof(m, a, false, true)) refuse = true; if ((m.g[a].imode == "RATE" || m.g[a].imode == "RESV") && !anyof(m, a, true, true)) refuse = true; }
    Opm::EclipseGridParser deck; std::unique_ptr<Opm::WellsManager> wm; { dk::CoutCatch q; std::istringstream is(m.text); try { deck.read(is, true); } catch (const std::exception& e) { CHK(false, "deck-refused", cat(e.what(), q.e.str(), ctx)); return; } try { wm.reset(new Opm::WellsManager(deck, *g, 0)); } catch (const std::exception& e) { ev("refused"); CHK(refuse, "refused", cat(e.what(), q.e.str(), ctx)); return; } }
    Wells* Wp = const_cast<Wells*>(wm->c_wells()); std::unique_ptr<Built> bt; if (!refuse && r.p(0.35)) { bt = built(r, m, *Wp, ctx); if (!bt) return; Wp = bt->W.get(); ctx = "\n(hierarchy built in code)" + ctx; } Wells& W = *Wp; ev("hierarchies"); nontrivial(hstr(m.text)); sample(m.text); if (refuse) { for (int k = 0; k < nw; ++k) for (int a = 0; a < W.ctrls[k]->num; ++a) CHK(std::isfinite(W.ctrls[k]->target[a]), "no-guide-rate:target-not-finite", show(W) + ctx); ev("nothing_to_control"); return; }
    // ---- after construction ----
    for (auto& x : m.w) { x.cur = -1; for (size_t a = 0; a < x.w.ctl.size(); ++a) if (x.w.ctl[a].mode == x.w.mode) x.cur = (int)a; }
    // the order of a well's own controls in the list is that of the model
    for (int a = 0; a < ng; ++a) { int pm = pmi(m.g[a].pmode); if (pm >= 0) { int d[3]; pdistr(P, pm, d); share(m, a, false, false, pm == 4 ? RESERVOIR_RATE : SURFACE_RATE, -m.g[a].plim[pm], d); } if (m.g[a].imode == "RATE") share(m, a, true, false, SURFACE_RATE, m.g[a].ilim[0], ones); if (m.g[a].imode == "RESV") share(m, a, true, false, RESERVOIR_RATE, m.g[a].ilim[1], ones); }
    std::string c0 = "\nwells:" + show(W) + ctx; if (!agree(W, m, "apply", c0)) return; for (int a = 0; a < ng; ++a) { int pm = pmi(m.g[a].pmode); if (pm >= 0) sums(W, m, a, false, false, -m.g[a].plim[pm], "apply", c0); if (m.g[a].imode == "RATE") sums(W, m, a, true, false, m.g[a].ilim[0], "apply", c0); if (m.g[a].imode == "RESV") sums(W, m, a, true, false, m.g[a].ilim[1], "apply", c0); }
    // ---- rates, reinjection, limits ----
    int steps = r.i(1, 8); dvec bhp(nw), res(nw * np), surf(nw * np); std::string hist;
    for (int st = 0; st < steps; ++st) {
        double scale = r.logu(1e-6, 1e2) * (r.p(0.5) ? 1 : 1e-4); for (int k = 0; k < nw; ++k) { W12& x = m.w[k]; double lo = 1e300, hi = 0; for (auto& c : x.w.ctl) if (c.type == BHP && !c.anyval) lo = hi = c.target; bhp[k] = hi > 0 && r.p(0.6) ? (x.w.inj ? hi * r.u(0.1, 1) : lo * r.u(1, 3)) : r.logu(1e5, 1e8); if (hi > 0 && r.p(0.1)) bhp[k] = hi; if (x.w.inj && hi == 0) bhp[k] = 1e6; if (!x.w.inj && hi == 0) bhp[k] = std::max(bhp[k], 1e6); for (int p = 0; p < np; ++p) { double a = x.shut || r.p(0.1) ? 0 : scale * r.logu(1e-3, 1) * (x.w.inj ? 1 : -1); surf[k * np + p] = a; res[k * np + p] = a * r.u(0.8, 1.4); if (x.w.inj && p != P.pos[x.w.itype]) surf[k * np + p] = res[k * np + p] = 0; } if (!x.shut && r.p(0.15)) for (auto& c : x.w.ctl) if (c.type == SURFACE_RATE && c.distr[0] + c.distr[1] + c.distr[2] == 1) for (int p = 0; p < np; ++p) if (c.distr[p]) { surf[k * np + p] = c.target; ev("rates_at_limit"); } }
        if (r.p(0.3)) { // a group just above or below one of its limits
            int a = r.i(0, ng - 1), t = r.i(0, 6); const Grp& G = m.g[a]; bool inj = t > 4; double lim = inj ? G.ilim[t - 5] : pok(P, t) ? G.plim[t] : -1, s = 0; if (lim > 0) { for (int k = 0; k < nw; ++k) if (m.w[k].w.inj == inj && m.under(k, a)) { if (inj) for (int p = 0; p < np; ++p) s += (t == 5 ? surf : res)[k * np + p]; else s -= prate(P, t, &res[k * np], &surf[k * np]); }
                if (s > 0) { double f = lim / s * (1 + (r.p(0.5) ? 1 : -1) * r.logu(1e-6, 1e-1)); for (int k = 0; k < nw; ++k) if (m.w[k].w.inj == inj && m.under(k, a)) for (int p = 0; p < np; ++p) { surf[k * np + p] *= f; res[k * np + p] *= f; } ev("groups_near_limit"); } } }
        std::string rates = cat("\nstep ", st, " bhp ", vec(bhp), " surface ", vec(surf), " reservoir ", vec(res)); hist += rates; std::string before = show(W);
        if (r.p(0.4)) { // explicit reinjection
            // a group inside a reinjecting group may hold a control of its own by now: which of the two rules is not stated
            bool mixed = false; for (int a = 0; a < ng; ++a) if (m.g[a].icur != "NONE" && m.g[a].icur != "FLD") for (int b = m.g[a].parent; b >= 0; b = m.g[b].parent) mixed |= m.g[b].icur == "REIN" || m.g[b].icur == "VREP"; if (mixed) { ev("contested_groups"); return; }
            bool none = false; for (int a = 0; a < ng; ++a) { Grp& G = m.g[a]; if ((G.icur == "REIN" || G.icur == "VREP") && !anyof(m, a, true, true)) none = true; } bool thrown = false; { dk::CoutCatch q; try { if (bt) bt->C.applyExplicitReinjectionControls(res, surf); else wm->applyExplicitReinjectionControls(res, surf); } catch (const std::exception& e) { thrown = true; } } if (none) { ev("reinjection_without_injectors"); for (int k = 0; k < nw; ++k) for (int a = 0; a < W.ctrls[k]->num; ++a) CHK(std::isfinite(W.ctrls[k]->target[a]), "reinjection:target-not-finite", show(W) + hist + ctx); return; } if (!CHK(!thrown, "reinjection:refused", hist + ctx)) return;
            std::vector<std::pair<int, double> > tot; for (int a = 0; a < ng; ++a) { Grp& G = m.g[a]; bool held = false; for (int b = G.parent; b >= 0; b = m.g[b].parent) held |= m.g[b].icur != "NONE" && m.g[b].icur != "FLD"; if (held) continue; if (G.icur != "REIN" && G.icur != "VREP") continue; double prod = 0; for (int k = 0; k < nw; ++k) if (!m.w[k].w.inj && m.under(k, a)) { if (G.icur == "REIN") prod -= surf[k * np + P.pos[G.itype]]; else for (int p = 0; p < np; ++p) prod -= res[k * np + p]; } double t = prod * (G.icur == "REIN" ? G.rein : G.vrep); share(m, a, true, false, G.icur == "REIN" ? SURFACE_RATE : RESERVOIR_RATE, t, ones); tot.push_back(std::make_pair(a, t)); ev("reinjections"); if (G.parent >= 0) ev("reinjections_in_subgroups"); }
            if (!agree(W, m, "reinjection", "\nwells:" + show(W) + "\nbefore:" + before + hist + ctx)) return; for (auto& q2 : tot) sums(W, m, q2.first, true, false, q2.second, "reinjection", hist + ctx); before = show(W);
        }
        for (int rep = 0; rep < 3; ++rep) {
        if (rep) for (int k = 0; k < nw; ++k) if (m.w[k].shut) for (int p = 0; p < np; ++p) surf[k * np + p] = res[k * np + p] = 0; std::string bef = show(W), cx0 = hist + cat("\ncheck ", rep, " surface ", vec(surf)) + "\nbefore:" + bef;
        // what is exceeded
        std::set<std::pair<int, int> > wv; struct GV { int a; bool inj; int mode; }; std::vector<GV> gv; bool close_call = false;
        for (int k = 0; k < nw; ++k) { W12& x = m.w[k]; if (x.shut || (x.cur < 0)) { if (!x.shut && x.cur < 0) close_call = true; continue; } for (int c = 0; c < (int)x.w.ctl.size(); ++c) { if (c == x.cur) continue; double tg = W.ctrls[k]->target[c]; if (x.w.ctl[c].type == BHP) { if (x.w.inj ? bhp[k] > tg : bhp[k] < tg) wv.insert(std::make_pair(k, c)); continue; } double s = 0; for (int p = 0; p < np; ++p) s += x.w.ctl[c].distr[p] * (x.w.ctl[c].type == SURFACE_RATE ? surf : res)[k * np + p]; double ex = std::fabs(s) - std::fabs(tg); if (x.w.ctl[c].type == RESERVOIR_RATE && std::fabs(ex) < 1e-5 * std::fabs(tg)) { if (ex != 0) close_call = true; continue; } if (ex > 0) wv.insert(std::make_pair(k, c)); } }
        for (int a = 0; a < ng; ++a) { Grp& G = m.g[a]; double sp[5] = {0, 0, 0, 0, 0}, si[2] = {0, 0}; for (int k = 0; k < nw; ++k) if (m.under(k, a)) { if (m.w[k].w.inj) for (int p = 0; p < np; ++p) { si[0] += surf[k * np + p]; si[1] += res[k * np + p]; } else for (int t = 0; t < 5; ++t) if (pok(P, t)) sp[t] += prate(P, t, &res[k * np], &surf[k * np]); } for (int t = 0; t < 2; ++t) if (G.ilim[t] >= 0 && G.icur != IM[t]) { if (std::fabs(si[t] - G.ilim[t]) < 1e-9 * G.ilim[t]) close_call = true; if (si[t] > G.ilim[t]) gv.push_back(GV{a, true, t}); } for (int t = 0; t < 5; ++t) if (G.plim[t] >= 0 && G.pcur != PM[t]) { if (std::fabs(-sp[t] - G.plim[t]) < 1e-9 * G.plim[t]) close_call = true; if (-sp[t] > G.plim[t]) gv.push_back(GV{a, false, t}); } }
        if (close_call) { ev("no_verdict"); return; } bool met = false, thrown = false; std::string err; { dk::CoutCatch q; try { met = bt ? bt->C.conditionsMet(bhp, res, surf) : wm->conditionsMet(bhp, res, surf); } catch (const std::exception& e) { thrown = true; err = q.e.str() + q.o.str(); } }
        std::string cx = "\nafter:" + show(W) + cx0 + cat("\nresult ", met, thrown ? " exception " : "", err, " exceeded wells ", wv.size(), " groups ", gv.size()) + ctx; ev("limit_checks");
        if (wv.empty() && gv.empty()) { if (!CHK(!thrown && met, "limits:violation-reported", cx)) return; if (!agree(W, m, "limits-satisfied", cx)) return; ev("all_satisfied"); break; }
        // a forced injection split needs someone to share: no guide rate means nothing can be done
        if (thrown) { bool excuse = false; for (auto& v : gv) excuse |= !anyof(m, v.a, v.inj, false); CHK(excuse, "limits:refused", cx); return; }
        bool quiet = true; for (int k = 0; k < nw; ++k) quiet &= show(W, k) == [&]() { size_t p = bef.find(cat("\n  ", W.name[k], " ")); size_t e = bef.find("\n", p + 1); return bef.substr(p + 3, (e == std::string::npos ? bef.size() : e) - p - 3); }();
        if (!CHK(!met || [&]() { for (auto& v : gv) if (v.inj || m.g[v.a].proc != "NONE") return false; return wv.empty(); }(), "limits:violation-missed", cx)) return;
        if (quiet) { // only groups whose procedure is to do nothing, or changes that leave the wells as they are
            bool may = false; for (auto& v : gv) may |= (!v.inj && m.g[v.a].proc == "NONE") || !anyof(m, v.a, v.inj, false); if (!may) { bool same = false; for (auto& v : gv) { M c = m; if (!v.inj && m.g[v.a].proc == "WELL") continue; int d[3]; pdistr(P, v.mode, d); v.inj ? share(c, v.a, true, true, v.mode ? RESERVOIR_RATE : SURFACE_RATE, c.g[v.a].ilim[v.mode], ones) : share(c, v.a, false, true, v.mode == 4 ? RESERVOIR_RATE : SURFACE_RATE, -c.g[v.a].plim[v.mode], d); bool eq = true; for (int k = 0; k < nw; ++k) eq &= c.w[k].has == m.w[k].has && c.w[k].cur == m.w[k].cur && c.w[k].gtype == m.w[k].gtype && (!c.w[k].has || close(c.w[k].gtarget, m.w[k].gtarget, 1e-12, 0)); same |= eq; } CHK(same, "limits:violation-ignored", cx); ev("unclear_changes"); return; } ev("do_nothing_procedures"); return; }
        // exactly one change, and it answers one of the violations
        bool found = false; for (auto& v : wv) { W12& x = m.w[v.first]; if (W.ctrls[v.first]->current == v.second && x.cur != v.second) { int keep = x.cur; x.cur = v.second; bool all = true; for (int k = 0; k < nw && all; ++k) all = W.ctrls[k]->current == m.w[k].cur || m.w[k].shut || m.w[k].cur < 0; if (all) { found = true; ev("well_switches"); break; } x.cur = keep; } }
        if (!found) for (auto& v : gv) { Grp& G = m.g[v.a]; bool cand = false; M c = m; if (v.inj) { if (!share(c, v.a, true, true, v.mode ? RESERVOIR_RATE : SURFACE_RATE, G.ilim[v.mode], ones)) continue; for (int b = 0; b < ng; ++b) { bool below = false; for (int q2 = c.g[b].parent; q2 >= 0; q2 = c.g[q2].parent) below |= q2 == v.a; if (below && anyof(m, b, true, false)) c.g[b].icur = "FLD"; } c.g[v.a].icur = IM[v.mode]; }
            else if (G.proc == "WELL") { int worst = -1; double most = 0; for (int k = 0; k < nw; ++k) if (!m.w[k].w.inj && m.under(k, v.a)) { double q2 = -prate(P, v.mode, &res[k * np], &surf[k * np]); if (q2 > most) { most = q2; worst = k; } } if (worst < 0) continue; c.w[worst].shut = true; }
            else if (G.proc == "RATE") { int d[3]; pdistr(P, v.mode, d); if (!share(c, v.a, false, true, v.mode == 4 ? RESERVOIR_RATE : SURFACE_RATE, -G.plim[v.mode], d)) continue; for (int b = 0; b < ng; ++b) { bool below = false; for (int q2 = c.g[b].parent; q2 >= 0; q2 = c.g[q2].parent) below |= q2 == v.a; if (below && anyof(m, b, false, false)) c.g[b].pcur = "FLD"; } c.g[v.a].pcur = PM[v.mode]; }
            else continue;
            cand = true; for (int k = 0; k < nw && cand; ++k) { const WellControls& a = *W.ctrls[k]; const W12& x = c.w[k]; int own = (int)x.w.ctl.size(); cand = a.num == own + (x.has ? 1 : 0) && (x.shut ? a.current < 0 : a.current == x.cur); if (cand && x.has) cand = close(a.target[own], x.gtarget, 1e-11, 0) && (int)a.type[own] == x.gtype; for (int p = 0; cand && x.has && p < np; ++p) cand = a.distr[np * own + p] == x.gdistr[p]; } if (cand) { m = c; found = true; ev(v.inj ? "group_injection_switches" : G.proc == "WELL" ? "worst_well_shut" : "group_production_switches"); if (G.parent >= 0) ev("subgroup_actions"); break; } }
        if (!CHK(found, wv.empty() ? "limits:wrong-group-action" : gv.empty() ? "limits:wrong-well-switch" : "limits:wrong-action", cx)) return; if (!agree(W, m, "limits", cx)) return;
        }
    }
}
int main(int argc, char** argv) { return run(argc, argv, "p12", [](long, Rng& r) { test(r); }, 60); }
