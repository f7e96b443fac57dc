// Input decks: a model of keyword data, a renderer with arbitrary meaning-preserving layout, and extractors of what the parser holds.
#pragma once
#include "mon.hpp"
#include <sstream>
#include <iostream>
#include <memory>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>

namespace dk {
using namespace mon;
typedef std::vector<double> dvec;
// dim: 1 none, i integer-like, L length, P pressure, C 1/pressure, V viscosity, D density, Y polymer density, K permeability, q liquid rate, g gas rate, r reservoir rate, O liquid volume factor,
// G gas volume factor, S gas-liquid ratio, v liquid-gas ratio, T time, X transmissibility, u default in deck units (sign and emptiness only after conversion), x not compared
struct Val { bool str; double d; std::string s; char dim; };
inline Val vd(double d, char dim = '1') { Val v; v.str = false; v.d = d; v.dim = dim; return v; }
inline Val vs(const std::string& s) { Val v; v.str = true; v.d = 0; v.s = s; v.dim = 's'; return v; }
typedef std::vector<Val> Row; typedef std::vector<Row> Rows;
struct Tok { char k; double d; std::string s; int grp; char dim; bool quote; }; // k: n number, i integer, s string, * default
typedef std::vector<Tok> Rec;
struct KW { std::string name; char shape; std::vector<Rec> recs; Rows exp; double rtol = 0; }; // shape: A S one record, R records closed by /, M records up to the next keyword, P tables of records, E lines, T title, N flag

struct B {
    KW k; Rec cur; Row row; int g = 0; B(const std::string& n, char sh) { k.name = n; k.shape = sh; }
    Tok tok(char t, double d, const std::string& s, char dim, bool q) { Tok x; x.k = t; x.d = d; x.s = s; x.grp = g; x.dim = dim; x.quote = q; return x; }
    B& num(double v, char dim) { cur.push_back(tok('n', v, "", dim, false)); row.push_back(vd(v, dim)); return *this; }
    B& in(int v) { cur.push_back(tok('i', v, "", 'i', false)); row.push_back(vd(v, 'i')); return *this; }
    B& str(const std::string& s, bool q = true) { cur.push_back(tok('s', 0, s, 's', q)); row.push_back(vs(s)); ++g; return *this; }
    B& raw(const std::string& s, bool q = true) { cur.push_back(tok('s', 0, s, 's', q)); ++g; return *this; } // not kept by the parser
    B& def(double v, char dim) { cur.push_back(tok('*', 0, "", dim, false)); row.push_back(vd(v, dim)); return *this; }
    B& defs(const std::string& s) { cur.push_back(tok('1', 0, s, 's', false)); row.push_back(vs(s)); ++g; return *this; }
    B& omit(double v, char dim) { row.push_back(vd(v, dim)); return *this; }
    B& omits(const std::string& s) { row.push_back(vs(s)); return *this; }
    B& end() { k.recs.push_back(cur); k.exp.push_back(row); cur.clear(); row.clear(); ++g; return *this; }
    B& grp() { ++g; return *this; }
};

// ---- layout ----
struct Layout { double comment = 0, nl = 0, repeat = 0, blank = 0, unknown = 0, include = 0, attach = 0, quote = 0.5, trail = 0, exotic = 0; };
inline Layout plain() { Layout l; l.repeat = 0; l.quote = 1; return l; }
inline Layout wild(Rng& r) { Layout l; l.comment = r.p(0.3) ? 0 : r.u(0, 0.4); l.nl = r.p(0.2) ? 0 : r.u(0, 0.9); l.repeat = r.p(0.2) ? 0 : r.u(0.2, 1); l.blank = r.u(0, 0.5); l.unknown = r.p(0.4) ? 0 : r.u(0, 0.5); l.include = r.p(0.5) ? 0 : r.u(0, 0.4); l.attach = r.u(); l.quote = r.u(); l.trail = r.p(0.5) ? 0 : r.u(); l.exotic = r.u(0, 0.5); return l; }

inline std::string comment(Rng& r) { static const char* c[] = {"--", "-- a comment", "--comment", "-- 1 2 3 /", "-- it's a / slash", "-- PORO", "---------", "-- 5*3.0 'W1' WELSPECS /", "--\t/", "-- 'unbalanced", "-- a -- b"}; return c[r.i(0, 10)]; }
inline std::string fmt(Rng& r, const Tok& t, const Layout& L)
{
    char b[64];
    if (t.k == 'i') { snprintf(b, sizeof b, "%d", (int)t.d); return b; }
    if (r.p(L.exotic)) { bool whole = t.d == std::floor(t.d) && std::fabs(t.d) < 1e9; int w = r.i(0, 4); if (whole && w == 0) { snprintf(b, sizeof b, "%.0f.", t.d); return b; } if (whole && w == 1) { snprintf(b, sizeof b, "%.1f", t.d); return b; } if (w == 2) { snprintf(b, sizeof b, "%.16E", t.d); return b; } if (w == 3) { snprintf(b, sizeof b, "%.16e", t.d); return b; } if (t.d > 0 && t.d < 1 && t.d > 1e-3) { snprintf(b, sizeof b, "%.17f", t.d); if (std::strtod(b, 0) == t.d) return w == 4 ? std::string(b + 1) : std::string(b); } }
    snprintf(b, sizeof b, "%.15g", t.d); if (std::strtod(b, 0) != t.d) snprintf(b, sizeof b, "%.17g", t.d); return b;
}
inline bool istext(const Tok& t) { return t.k == 's'; }
struct Out { std::string s; bool bol = true; void put(const std::string& x) { s += x; bol = !x.empty() && x[x.size() - 1] == '\n'; } };
inline void sep(Rng& r, const Layout& L, Out& o) // between two tokens of a record
{
    if (r.p(L.comment * 0.3)) { o.put(" " + comment(r) + "\n"); while (r.p(0.2)) o.put(std::string(r.i(0, 3), ' ') + comment(r) + "\n"); if (r.p(0.5)) o.put("  "); return; }
    if (r.p(L.nl * 0.5)) { o.put("\n"); while (r.p(L.blank)) o.put(r.p(0.5) ? "\n" : "  \n"); while (r.p(L.comment * 0.3)) o.put(std::string(r.i(0, 3), ' ') + comment(r) + "\n"); if (r.p(0.5)) o.put(std::string(r.i(1, 4), ' ')); return; }
    o.put(r.p(0.9) ? " " : r.p(0.5) ? "\t" : "   ");
}
inline void record(Rng& r, const Layout& L, Out& o, const Rec& rec, bool slash = true, bool title_safe = false)
{
    (void)title_safe; size_t n = rec.size(); bool lastnum = false;
    for (size_t i = 0; i < n;) {
        const Tok& t = rec[i]; if (i) sep(r, L, o); else if (r.p(0.3)) o.put(std::string(r.i(1, 3), ' '));
        if (t.k == 's') { o.put(t.quote && r.p(L.quote) ? "'" + t.s + "'" : t.s); ++i; lastnum = false; continue; }
        if (t.k == '1') { o.put(t.s != "?" && r.p(L.repeat * 0.4) ? "*" : "1*"); ++i; lastnum = false; continue; }
        size_t j = i + 1; while (j < n && rec[j].k == t.k && rec[j].grp == t.grp && (t.k == '*' || rec[j].d == t.d)) ++j; int run = (int)(j - i); if (run > 1) { if (!r.p(L.repeat)) run = 1; else if (r.p(0.3)) run = r.i(1, run); }
        if (t.k == '*') { o.put(cat(run, "*")); lastnum = false; } else { if (run > 1 || (t.grp < 1000 && r.p(L.repeat * 0.05))) o.put(cat(run, "*")); o.put(fmt(r, t, L)); lastnum = true; } i += run;
    }
    if (!slash) return; if (n == 0) { if (r.p(0.5)) o.put(" "); } else if (lastnum && r.p(L.attach)) ; else sep(r, L, o); o.put("/"); if (r.p(L.trail)) o.put(r.p(0.5) ? " trailing text" : r.p(0.5) ? "  " + comment(r) : std::string("-- x")); o.put("\n");
}
inline void gap(Rng& r, const Layout& L, Out& o) { while (r.p(L.blank)) o.put(r.p(0.5) ? "\n" : " \t\n"); while (r.p(L.comment)) o.put(std::string(r.p(0.3) ? 2 : 0, ' ') + comment(r) + "\n"); }
inline void keyword(Rng& r, const Layout& L, Out& o, const KW& k)
{
    if (!o.bol) o.put("\n"); o.put(k.name); if (k.shape != 'T' && r.p(L.comment)) o.put("  " + comment(r)); else if (r.p(0.2)) o.put("  "); o.put("\n");
    if (k.shape == 'N') return; if (k.shape == 'T') { o.put(k.recs[0][0].s + "\n"); return; } gap(r, L, o);
    if (k.shape == 'P') { for (size_t i = 0; i < k.recs.size(); ++i) { if (k.recs[i].empty()) { o.put(r.p(0.3) ? " /\n" : "/\n"); gap(r, L, o); continue; } record(r, L, o, k.recs[i]); gap(r, L, o); } return; }
    if (k.shape == 'E') { for (size_t i = 0; i < k.recs.size(); ++i) { if (k.recs[i].empty()) { o.put(r.p(0.3) ? " /\n" : "/\n"); gap(r, L, o); continue; } record(r, L, o, k.recs[i], false); o.put("\n"); gap(r, L, o); } o.put(r.p(0.3) ? "  /\n" : "/\n"); return; }
    for (size_t i = 0; i < k.recs.size(); ++i) { record(r, L, o, k.recs[i]); gap(r, L, o); }
    if (k.shape == 'R') { o.put(r.p(0.3) ? "  /" : "/"); if (r.p(L.trail)) o.put(" end of " + k.name); o.put("\n"); }
}
inline std::string unknown_name(Rng& r) { for (;;) { std::string n(1, (char)('A' + r.i(0, 25))); int m = r.i(2, 7); for (int i = 0; i < m; ++i) n += r.p(0.2) ? (char)('0' + r.i(0, 9)) : (char)('A' + r.i(0, 25)); if (Opm::EclipseGridParser::classifyKeyword(n) == Opm::Unknown && n != "LAB") return n; } }
inline void unknown(Rng& r, const Layout& L, Out& o, std::set<std::string>* names) { static const char* known[] = {"NOECHO", "ECHO", "WATER", "OIL", "PROPS", "SCHEDULE", "RUNSPEC", "NSTACK", "COORDSYS", "MAPUNITS", "BOX"}; if (!o.bol) o.put("\n"); std::string n = r.p(0.5) ? unknown_name(r) : std::string(known[r.i(0, 10)]); if (names) names->insert(n); o.put(n + "\n"); if (r.p(0.6)) { int m = r.i(1, 4); for (int i = 0; i < m; ++i) { o.put(r.p(0.5) ? " 1 2.5 3*7 'ABC' " : r.p(0.5) ? "  'PORO' 12 " : "7 OPEN SHUT 1* "); o.put(r.p(0.3) ? "\n" : "/\n"); } if (r.p(0.5)) o.put("/\n"); gap(r, L, o); } }

// Renders keywords in the given order; contiguous ranges may move to include files written below dir ("" = current directory).
struct Files { int n = 0; std::string dir; std::set<std::string> unknown; };
inline void body(Rng& r, const Layout& L, Out& o, const std::vector<KW>& ks, size_t a, size_t b, Files& F, int depth)
{
    for (size_t i = a; i < b;) {
        gap(r, L, o); if (r.p(L.unknown)) unknown(r, L, o, &F.unknown);
        if (depth < 3 && r.p(L.include)) { size_t e = i + r.i(1, (int)std::min<size_t>(4, b - i)); Out sub; body(r, L, sub, ks, i, e, F, depth + 1); if (r.p(0.3) && !sub.s.empty() && ks[e - 1].shape != 'N') sub.s.erase(sub.s.size() - 1); std::string f = cat("part", F.n++, r.p(0.5) ? ".inc" : ".INC"); spit(F.dir.empty() ? f : F.dir + "/" + f, sub.s); if (!o.bol) o.put("\n"); o.put("INCLUDE\n"); gap(r, L, o); o.put(std::string(r.p(0.5) ? "  " : "") + (r.p(0.5) ? "'" + f + "'" : f) + (r.p(0.8) ? " /\n" : "\n/\n")); ev("include_files"); i = e; continue; }
        keyword(r, L, o, ks[i]); ++i;
    }
}
inline std::string render(Rng& r, const Layout& L, const std::vector<KW>& ks, Files* F = 0) { Files f; Layout l = L; if (!F) { l.include = 0; F = &f; } Out o; body(r, l, o, ks, 0, ks.size(), *F, 0); gap(r, l, o); if (r.p(0.2) && !o.bol) o.put("\n"); return o.s; }

// ---- what the parser holds, as rows ----
inline void table(Rows& R, const std::vector<std::vector<std::vector<double> > >& t, const char* dims) { for (auto& m : t) { Row w; size_t nc = m.size(); for (size_t i = 0; nc && i < m[0].size(); ++i) for (size_t c = 0; c < nc; ++c) w.push_back(vd(m[c].at(i), dims[c])); R.push_back(w); } }
inline void pvt(Rows& R, const std::vector<std::vector<std::vector<double> > >& t) { for (size_t a = 0; a < t.size(); ++a) for (auto& rec : t[a]) { Row w; w.push_back(vd((double)a)); for (double x : rec) w.push_back(vd(x)); R.push_back(w); } }
inline void plainrows(Rows& R, const std::vector<dvec>& t) { for (auto& m : t) { Row w; for (double x : m) w.push_back(vd(x)); R.push_back(w); } }
inline Row rowd(const dvec& v) { Row w; for (double x : v) w.push_back(vd(x)); return w; }
inline Rows rows(const Opm::EclipseGridParser& p, const std::string& n)
{
    Rows R; Opm::FieldType t = Opm::EclipseGridParser::classifyKeyword(n);
    if (t == Opm::Integer) { Row w; for (int x : p.getIntegerValue(n)) w.push_back(vd(x)); R.push_back(w); return R; }
    if (t == Opm::FloatingPoint) { R.push_back(rowd(p.getFloatingPointValue(n))); return R; }
    if (n == "SPECGRID") { auto& f = p.getSPECGRID(); Row w; for (int x : f.dimensions) w.push_back(vd(x)); w.push_back(vd(f.numres)); w.push_back(vs(std::string(1, f.qrdial))); R.push_back(w); }
    else if (n == "FAULTS") for (auto& f : p.getFAULTS().faults) { Row w; w.push_back(vs(f.fault_name)); for (int x : f.ijk_coord) w.push_back(vd(x)); w.push_back(vs(f.face)); R.push_back(w); }
    else if (n == "MULTFLT") for (auto& f : p.getMULTFLT().multflts) R.push_back(Row{vs(f.fault_name), vd(f.transmis_multiplier), vd(f.diffusivity_multiplier)});
    else if (n == "TITLE") R.push_back(Row{vs(p.getTITLE().title)});
    else if (n == "START") { auto d = p.getSTART().date; R.push_back(Row{vd(d.day()), vd(d.month()), vd(d.year())}); }
    else if (n == "GRUPTREE") for (auto& f : p.getGRUPTREE().tree) R.push_back(Row{vs(f.first), vs(f.second)});
    else if (n == "DENSITY") plainrows(R, p.getDENSITY().densities_);
    else if (n == "PVDG") table(R, p.getPVDG().pvdg_, "111"); else if (n == "PVDO") table(R, p.getPVDO().pvdo_, "111"); else if (n == "ROCKTAB") table(R, p.getROCKTAB().rocktab_, "111");
    else if (n == "SGOF") table(R, p.getSGOF().sgof_, "1111"); else if (n == "SWOF") table(R, p.getSWOF().swof_, "1111");
    else if (n == "PVTG") pvt(R, p.getPVTG().pvtg_); else if (n == "PVTO") pvt(R, p.getPVTO().pvto_);
    else if (n == "PVTW") plainrows(R, p.getPVTW().pvtw_); else if (n == "PVCDO") plainrows(R, p.getPVCDO().pvcdo_); else if (n == "ROCK") plainrows(R, p.getROCK().rock_compressibilities_);
    else if (n == "EQUIL") for (auto& e : p.getEQUIL().equil) R.push_back(rowd(dvec{e.datum_depth_, e.datum_depth_pressure_, e.water_oil_contact_depth_, e.oil_water_cap_pressure_, e.gas_oil_contact_depth_, e.gas_oil_cap_pressure_, (double)e.live_oil_table_index_, (double)e.wet_gas_table_index_, (double)e.N_}));
    else if (n == "PLYVISC") { auto& f = p.getPLYVISC(); Row w; for (size_t i = 0; i < f.concentration_.size(); ++i) { w.push_back(vd(f.concentration_[i])); w.push_back(vd(f.factor_.at(i))); } R.push_back(w); }
    else if (n == "PLYADS") { auto& f = p.getPLYADS(); Row w; for (size_t i = 0; i < f.local_concentration_.size(); ++i) { w.push_back(vd(f.local_concentration_[i])); w.push_back(vd(f.adsorbed_concentration_.at(i))); } R.push_back(w); }
    else if (n == "PLYROCK") R.push_back(rowd(p.getPLYROCK().plyrock_)); else if (n == "PLYMAX") R.push_back(rowd(p.getPLYMAX().plymax_)); else if (n == "TLMIXPAR") R.push_back(rowd(p.getTLMIXPAR().tlmixpar_)); else if (n == "TSTEP") R.push_back(rowd(p.getTSTEP().tstep_));
    else if (n == "WPOLYMER") for (auto& w : p.getWPOLYMER().wpolymer_) R.push_back(Row{vs(w.well_), vd(w.polymer_concentration_), vd(w.salt_concentration_), vs(w.polymer_group_), vs(w.salt_group_)});
    else if (n == "ENDSCALE") { auto& e = p.getENDSCALE(); R.push_back(Row{vs(e.dir_switch_), vs(e.revers_switch_), vd(e.n_tab_), vd(e.n_node_)}); }
    else if (n == "SCALECRS") R.push_back(Row{vs(p.getSCALECRS().scalecrs_)});
    else if (n == "ENPTVD" || n == "ENKRVD") { auto& T = n == "ENPTVD" ? p.getENPTVD().table_ : p.getENKRVD().table_; for (size_t j = 0; j < T.at(0).size(); ++j) for (size_t k = 0; k < T[0][j].size(); ++k) { Row w; w.push_back(vd((double)j)); for (size_t i = 0; i < 5; ++i) w.push_back(vd(T.at(i).at(j).at(k))); R.push_back(w); } auto& M = n == "ENPTVD" ? p.getENPTVD().mask_ : p.getENKRVD().mask_; Row w; for (bool b : M) w.push_back(vd(b)); R.push_back(w); }
    else if (n == "WELSPECS") for (auto& w : p.getWELSPECS().welspecs) R.push_back(Row{vs(w.name_), vs(w.group_), vd(w.I_), vd(w.J_), vd(w.datum_depth_BHP_), vs(w.pref_phase_)});
    else if (n == "COMPDAT") for (auto& w : p.getCOMPDAT().compdat) R.push_back(Row{vs(w.well_), vd(w.grid_ind_.at(0)), vd(w.grid_ind_.at(1)), vd(w.grid_ind_.at(2)), vd(w.grid_ind_.at(3)), vs(w.open_shut_flag_), vd(w.sat_table_number_), vd(w.connect_trans_fac_), vd(w.diameter_)});
    else if (n == "WCONINJE") for (auto& w : p.getWCONINJE().wconinje) R.push_back(Row{vs(w.well_), vs(w.injector_type_), vs(w.open_shut_flag_), vs(w.control_mode_), vd(w.surface_flow_max_rate_), vd(w.reservoir_flow_max_rate_), vd(w.BHP_limit_), vd(w.THP_limit_), vd(w.VFP_table_number_), vd(w.concentration_)});
    else if (n == "WCONPROD") for (auto& w : p.getWCONPROD().wconprod) R.push_back(Row{vs(w.well_), vs(w.open_shut_flag_), vs(w.control_mode_), vd(w.oil_max_rate_), vd(w.water_max_rate_), vd(w.gas_max_rate_), vd(w.liquid_max_rate_), vd(w.reservoir_flow_max_rate_), vd(w.BHP_limit_), vd(w.THP_limit_), vd(w.VFP_table_number_), vd(w.artif_lift_quantity_)});
    else if (n == "WELTARG") for (auto& w : p.getWELTARG().weltarg) R.push_back(Row{vs(w.well_), vs(w.control_change_), vd(w.new_value_)});
    else if (n == "WELOPEN") for (auto& w : p.getWELOPEN().welopen) R.push_back(Row{vs(w.well_), vs(w.openshutflag_)});
    else if (n == "GCONINJE") for (auto& w : p.getGCONINJE().gconinje) R.push_back(Row{vs(w.group_), vs(w.injector_type_), vs(w.control_mode_), vd(w.surface_flow_max_rate_), vd(w.resv_flow_max_rate_), vd(w.reinjection_fraction_target_), vd(w.voidage_replacement_fraction_)});
    else if (n == "GCONPROD") for (auto& w : p.getGCONPROD().gconprod) R.push_back(Row{vs(w.group_), vs(w.control_mode_), vd(w.oil_max_rate_), vd(w.water_max_rate_), vd(w.gas_max_rate_), vd(w.liquid_max_rate_), vs(w.procedure_), vd(w.resv_max_rate_)});
    else if (n == "WGRUPCON") for (auto& w : p.getWGRUPCON().wgrupcon) R.push_back(Row{vs(w.well_), vd(w.available_for_group_control_), vd(w.guide_rate_), vs(w.phase_)});
    return R;
}
inline std::string show(const Row& r) { std::string s; for (auto& v : r) s += v.str ? "'" + v.s + "' " : cat(v.d, " "); return s; }
inline std::string show(const Rows& R) { std::string s; for (auto& r : R) s += show(r) + "| "; return s.substr(0, 900); }

// ---- units, from their definitions ----
struct Units { double len, tim, den, pol, pre, vis, perm, ls, lr, gs, gr; };
inline Units metric() { Units u = {1, 86400, 1, 1, 1e5, 1e-3, 9.869232667160130e-16, 1, 1, 1, 1}; return u; }
inline Units field() { double ft = 0.3048, lb = 0.45359237, in = 0.0254, stb = 42 * 231 * in * in * in; Units u = {ft, 86400, lb / (ft * ft * ft), lb / stb, lb * 9.80665 / (in * in), 1e-3, 9.869232667160130e-16, stb, stb, 1000 * ft * ft * ft, stb}; return u; }
inline Units si() { Units u = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; return u; }
inline double factor(const Units& u, char d)
{
    switch (d) { case 'L': return u.len; case 'P': return u.pre; case 'C': return 1 / u.pre; case 'V': return u.vis; case 'D': return u.den; case 'Y': return u.pol; case 'K': return u.perm; case 'q': return u.ls / u.tim; case 'g': return u.gs / u.tim; case 'r': return u.lr / u.tim; case 'O': return u.lr / u.ls; case 'G': return u.gr / u.gs; case 'S': return u.gs / u.ls; case 'v': return u.ls / u.gs; case 'T': return u.tim; case 'X': return u.vis * u.lr / (u.tim * u.pre); default: return 1; }
}
// u != 0: parser values are expected in SI while the rows hold deck values
inline bool compare(const KW& k, const Rows& got, const Units* u, const std::string& pre, const std::string& ctx)
{
    if (!CHK(got.size() == k.exp.size(), pre + ":" + k.name + ":records", cat(ctx, " got ", got.size(), " records, expected ", k.exp.size(), " got ", show(got), " expected ", show(k.exp)))) return false; bool ok = true;
    for (size_t i = 0; i < got.size() && ok; ++i) { if (!CHK(got[i].size() == k.exp[i].size(), pre + ":" + k.name + ":items", cat(ctx, " record ", i, " got ", show(got[i]), " expected ", show(k.exp[i])))) return false;
        double big = 0; for (auto& x : k.exp[i]) if (!x.str) big = std::max(big, std::fabs(x.d));
        for (size_t j = 0; j < got[i].size(); ++j) { const Val &g = got[i][j], &e = k.exp[i][j]; bool same; if (e.dim == 'x') continue; if (e.str || g.str) same = e.str && g.str && g.s == e.s; else if (e.dim == 'u' && u) same = e.d < 0 ? g.d < 0 && (e.d > -1e10 || g.d < -1e9) : e.d == 0 ? g.d == 0 : g.d > 0; else if (!u) same = k.rtol > 0 ? close(g.d, e.d, k.rtol, 1e-3 * big) : g.d == e.d; else same = close(g.d, e.d * factor(*u, e.dim), 1e-12 + k.rtol, k.rtol > 0 ? 1e-3 * big * factor(*u, e.dim) : 0);
            ev("values"); if (!CHK(same, pre + ":" + k.name + cat(":item", std::min<size_t>(j, 15)), cat(ctx, " record ", i, " item ", j, " got ", show(got[i]), " expected ", show(k.exp[i]), u ? cat(" times ", factor(*u, e.dim)) : ""))) { ok = false; break; } } }
    return ok;
}

// ---- keyword generators ----
inline double num(Rng& r) { switch (r.i(0, 6)) { case 0: return r.i(0, 9); case 1: return r.i(1, 5000); case 2: return r.i(1, 99) * 0.01; case 3: return r.logu(1e-6, 1e6); case 4: return r.u(); case 5: return r.u(0, 500); default: return r.i(0, 3) * 0.25; } }
inline double pos(Rng& r) { double x; do x = num(r); while (x <= 0); return x; }
inline double any(Rng& r) { double x = num(r); return r.p(0.2) && x != 1 ? -x : x; }
inline std::string name(Rng& r, const char* pre) { static const char* suf[] = {"", "1", "2", "3", "-A", "_B", "INJ", "PROD10", "x", "7a"}; return std::string(pre) + suf[r.i(0, 9)]; }
inline dvec increasing(Rng& r, int n, double lo, double hi) { dvec v(n); for (auto& x : v) x = r.u(lo, hi); std::sort(v.begin(), v.end()); for (int i = 1; i < n; ++i) if (!(v[i] > v[i - 1])) v[i] = v[i - 1] + (hi - lo) * 1e-3; return v; }
inline KW flag(const std::string& n) { B b(n, 'N'); return b.k; }
inline KW array_i(const std::string& n, const std::vector<int>& v) { B b(n, 'A'); for (int x : v) b.in(x); b.end(); return b.k; }
inline KW array_d(const std::string& n, const dvec& v, char dim) { B b(n, 'A'); for (double x : v) b.num(x, dim); b.end(); return b.k; }
inline char array_dim(const std::string& n) { static const std::set<std::string> len = {"COORD", "ZCORN", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS"}; if (len.count(n)) return 'L'; if (n.compare(0, 4, "PERM") == 0) return 'K'; if (n == "PRESSURE") return 'P'; if (n == "RS") return 'S'; return '1'; }
inline dvec runs(Rng& r, int n, bool neg) { dvec v; while ((int)v.size() < n) { double x = neg ? any(r) : num(r); int m = r.p(0.5) ? 1 : r.i(1, 12); for (int i = 0; i < m && (int)v.size() < n; ++i) v.push_back(x); } return v; }
static const char* const INTS[] = {"ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "WELLDIMS", "TABDIMS", "FIPNUM", "GRIDFILE"};
static const char* const FLTS[] = {"COORD", "ZCORN", "PERMX", "PERMY", "PERMZ", "PERMXX", "PERMYY", "PERMZZ", "PERMXY", "PERMYZ", "PERMZX", "PORO", "MULTPV", "PRESSURE", "SGAS", "SWAT", "SOIL", "RS", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS", "MAPAXES", "SWCR", "SWL", "SWU", "SOWCR", "KRW", "KRWR", "KRO", "KRORW", "BULKMOD", "YOUNGMOD", "LAMEMOD", "SHEARMOD", "POISSONMOD", "PWAVEMOD"};
static const char* const SPEC[] = {"SPECGRID", "FAULTS", "MULTFLT", "TITLE", "START", "DENSITY", "PVDG", "PVDO", "PVTG", "PVTO", "PVTW", "SGOF", "SWOF", "ROCK", "ROCKTAB", "EQUIL", "PVCDO", "PLYVISC", "PLYROCK", "PLYADS", "PLYMAX", "TLMIXPAR", "ENDSCALE", "SCALECRS", "ENPTVD", "ENKRVD", "GRUPTREE", "WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "GCONINJE", "GCONPROD", "WGRUPCON", "WPOLYMER", "TSTEP"};
static const char* const MONTHS[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JLY", "AUG", "SEP", "OCT", "NOV", "DEC"};
inline void extras(Rng& r, B& b) { static const char* x[] = {"STD", "SHUT", "YES", "SEG", "0", "3.5", "1*", "Z", "-1", "2*"}; int n = r.p(0.6) ? 0 : r.i(1, 4); for (int i = 0; i < n; ++i) b.raw(x[r.i(0, 9)], false); }
// an optional number: given, defaulted, or (once `cut`) left out
struct Opt { Rng& r; B& b; bool cut = false; double pd; Opt(Rng& r_, B& b_, double pd_) : r(r_), b(b_), pd(pd_) {} void num(double v, char dim, double dv, char ddim) { if (cut) b.omit(dv, ddim); else if (r.p(pd)) b.def(dv, ddim); else b.num(v, dim); } void maybe_cut(double q) { if (r.p(q)) cut = true; } };

inline KW special(Rng& r, const std::string& n)
{
    const std::string N = n; int m = r.i(1, 4);
    if (N == "SPECGRID") { B b(N, 'S'); for (int q = 0; q < 3; ++q) b.in(r.p(0.3) ? r.i(1, 2) : r.i(1, 60)); int w = r.i(0, 3); if (w == 0) b.omit(1, 'i').omits("F"); else if (w == 1) b.in(r.i(1, 3)).omits("F"); else { if (w == 2) b.in(1); else b.def(1, 'i'); b.grp(); b.str(r.p(0.5) ? "F" : "T", false); } b.end(); return b.k; }
    if (N == "FAULTS") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "F"), false); for (int j = 0; j < 6; ++j) b.in(r.i(1, 20)); b.grp(); b.str(std::string(1, "XYZIJK"[r.i(0, 5)]), false); b.end(); } return b.k; }
    if (N == "MULTFLT") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "F"), false); int w = r.i(0, 3); if (w == 0) b.num(num(r), '1').num(num(r), '1'); else if (w == 1) b.num(num(r), '1').omit(1, '1'); else if (w == 2) b.def(1, '1').num(num(r), '1'); else b.omit(1, '1').omit(1, '1'); b.end(); } return b.k; }
    if (N == "TITLE") { static const char* t[] = {"A title", "3*4 -- not a comment / at all", "METRIC FIELD", "x", "PORO", "Case 'A'  with  spaces"}; B b(N, 'T'); b.str(t[r.i(0, 5)], false); b.end(); return b.k; }
    if (N == "START") { B b(N, 'S'); int mo = r.i(1, 12), d = r.i(1, 28), y = r.i(1900, 2100); b.in(d).grp(); b.raw(mo == 7 && r.p(0.5) ? "JUL" : MONTHS[mo - 1]); b.row.push_back(vd(mo)); b.in(y).end(); return b.k; }
    if (N == "GRUPTREE") { B b(N, 'R'); std::map<std::string, std::string> mp; for (int i = 0; i < m; ++i) { std::string c = name(r, "G"), p = name(r, "P"); mp[c] = p; b.str(c).str(p).end(); } b.k.exp.clear(); for (auto& q : mp) b.k.exp.push_back(Row{vs(q.first), vs(q.second)}); return b.k; }
    if (N == "DENSITY") { B b(N, 'M'); for (int i = 0; i < m; ++i) { Opt o(r, b, 0); b.num(pos(r), 'D'); o.pd = 0.15; o.num(pos(r), 'D', -1e100, 'u'); o.maybe_cut(0.1); o.num(pos(r), 'D', -1e100, 'u'); b.end(); } return b.k; }
    if (N == "PVDG" || N == "PVDO" || N == "ROCKTAB") { B b(N, 'M'); char f = N == "PVDG" ? 'G' : N == "PVDO" ? 'O' : '1'; for (int i = 0; i < m; ++i) { int k = r.i(1, 6); dvec p = increasing(r, k, 1, 500); for (int j = 0; j < k; ++j) b.num(p[j], 'P').num(pos(r), f).num(pos(r), N == "ROCKTAB" ? '1' : 'V'); b.end(); } return b.k; }
    if (N == "PVTG" || N == "PVTO") { B b(N, 'P'); bool g = N == "PVTG"; int nt = r.i(1, 2); std::vector<Rec> recs; Rows ex; for (int t = 0; t < nt; ++t) { int k = r.i(1, 4); for (int j = 0; j < k; ++j) { b.row.push_back(vd(t)); b.num(num(r), g ? 'P' : 'S'); int q = r.i(1, 3); for (int l = 0; l < q; ++l) b.num(num(r), g ? 'v' : 'P').num(pos(r), g ? 'G' : 'O').num(pos(r), 'V'); b.end(); } b.k.recs.push_back(Rec()); } return b.k; }
    if (N == "PVTW" || N == "PVCDO") { B b(N, 'M'); for (int i = 0; i < m; ++i) { b.num(num(r), 'P').num(pos(r), 'O').num(pos(r), 'C').num(pos(r), 'V'); if (r.p(0.7)) b.num(num(r), 'C'); else b.omit(0, 'C'); b.end(); } return b.k; }
    if (N == "ROCK") { B b(N, 'M'); for (int i = 0; i < m; ++i) b.num(num(r), 'P').num(pos(r), 'C').end(); return b.k; }
    if (N == "SGOF" || N == "SWOF") {
        B b(N, 'M'); b.k.rtol = 1e-11; const char dm[] = {'1', '1', '1', 'P'};
        for (int i = 0; i < m; ++i) { int k = r.i(2, 7); dvec s = increasing(r, k, 0, 1), c[4]; bool given[4][8]; c[0] = s; for (int q = 1; q < 4; ++q) { c[q] = runs(r, k, q == 3); for (auto& x : c[q]) if (x == -1) x = 0.5; bool all = r.p(0.05); for (int j = 0; j < k; ++j) given[q][j] = all ? false : j == 0 || j == k - 1 || !r.p(0.15); }
            for (int q = 1; q < 4; ++q) { if (!given[q][0]) { for (auto& x : c[q]) x = 0; continue; } for (int j = 1; j < k; ++j) if (!given[q][j]) { int a = j - 1, e = j; while (!given[q][e]) ++e; c[q][j] = c[q][a] + (c[q][e] - c[q][a]) * (s[j] - s[a]) / (s[e] - s[a]); if (a >= 0 && !given[q][a]) { int a0 = a; while (!given[q][a0]) --a0; c[q][j] = c[q][a0] + (c[q][e] - c[q][a0]) * (s[j] - s[a0]) / (s[e] - s[a0]); } } }
            for (int j = 0; j < k; ++j) { b.num(s[j], '1'); for (int q = 1; q < 4; ++q) { if (given[q][j]) b.num(c[q][j], dm[q]); else b.def(c[q][j], dm[q]); } } b.end(); }
        return b.k; }
    if (N == "EQUIL") { B b(N, 'S'); Opt o(r, b, 0.15); const char* d = "LPLPLP"; for (int i = 0; i < 9; ++i) { if (i > 1) o.maybe_cut(0.08); if (i < 6) o.num(num(r), d[i], 0, d[i]); else o.num(r.i(0, 20), '1', 0, '1'); } b.end(); return b.k; }
    if (N == "PLYVISC" || N == "PLYADS") { B b(N, 'A'); int k = r.i(1, 5); for (int i = 0; i < k; ++i) b.num(num(r), 'Y').num(num(r), '1'); b.end(); return b.k; }
    if (N == "PLYROCK") { B b(N, 'S'); Opt o(r, b, 0); o.num(num(r), '1', -1, 'x'); o.num(num(r), '1', -1, 'x'); o.num(num(r), 'Y', -1, 'x'); o.pd = 0.3; o.maybe_cut(0.2); o.num(r.i(1, 2), '1', 1, '1'); o.pd = 0; o.num(num(r), '1', -1, 'x'); b.end(); return b.k; }
    if (N == "PLYMAX") { B b(N, 'S'); b.num(num(r), 'Y').num(num(r), 'Y').end(); return b.k; }
    if (N == "TLMIXPAR") { B b(N, 'S'); double w = num(r); b.num(w, '1'); if (r.p(0.5)) b.num(num(r), '1'); else if (r.p(0.5)) b.def(w, '1'); else b.omit(w, '1'); b.end(); return b.k; }
    if (N == "ENDSCALE") { B b(N, 'S'); int w = r.i(0, 4); const char* d[] = {"NODIR", "DIRECT"}; const char* v[] = {"REVERS", "IRREVERS"}; if (w == 0) b.omits("NODIR"); else b.str(d[r.i(0, 1)]); if (w <= 1) b.omits("REVERS"); else b.str(v[r.i(0, 1)]); if (w <= 2) b.omit(1, 'i'); else b.in(r.i(1, 5)); b.grp(); if (w <= 3) b.omit(20, 'i'); else b.in(r.i(1, 50)); b.end(); return b.k; }
    if (N == "SCALECRS") { B b(N, 'S'); int w = r.i(0, 4); const char* t[] = {"YES", "Y", "NO", "N"}; if (w == 4) b.omits("NO"); else { b.raw(t[w]); b.row.push_back(vs(w < 2 ? "YES" : "NO")); } b.end(); return b.k; }
    if (N == "ENPTVD" || N == "ENKRVD") {
        bool e = N == "ENPTVD"; B b(N, 'E'); b.k.rtol = 1e-11; int nt = r.i(1, 2), nc = e ? 9 : 8; static const int use_e[] = {1, 2, 3, 7}, use_k[] = {1, 3, 4, 7}; const int* use = e ? use_e : use_k; bool mask[4] = {false, false, false, false};
        for (int t = 0; t < nt; ++t) { int k = r.i(2, 5); dvec z = increasing(r, k, 0, 3000), c[4]; bool on[4]; for (int q = 0; q < 4; ++q) { on[q] = r.p(0.7); mask[q] = mask[q] || on[q]; c[q].resize(k); for (auto& x : c[q]) x = on[q] ? r.u() : -1; }
            for (int j = 0; j < k; ++j) { Row ex; ex.push_back(vd(t)); ex.push_back(vd(z[j], 'L')); b.num(z[j], 'L'); for (int a = 1; a < nc; ++a) { int q = -1; for (int h = 0; h < 4; ++h) if (use[h] == a) q = h; if (q >= 0 && on[q]) { bool mid = j > 0 && j < k - 1 && r.p(0.2); if (mid) { b.def(0, '1'); c[q][j] = -2; } else b.num(c[q][j], '1'); } else b.def(-1, '1'); } for (int q = 0; q < 4; ++q) ex.push_back(vd(c[q][j])); b.row = ex; b.end(); }
            for (int q = 0; q < 4; ++q) for (int j = 0; j < k; ++j) if (c[q][j] == -2) { int a = j - 1, f = j; while (c[q][a] == -2) --a; while (c[q][f] == -2) ++f; b.k.exp[b.k.exp.size() - k + j][2 + q].d = c[q][a] + (c[q][f] - c[q][a]) * (z[j] - z[a]) / (z[f] - z[a]); }
            b.k.recs.push_back(Rec()); }
        Row w; for (bool x : mask) w.push_back(vd(x)); b.k.exp.push_back(w); return b.k; }
    if (N == "WELSPECS") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "W")).str(name(r, "G")); Opt o(r, b, 0); b.in(r.i(1, 50)).in(r.i(1, 50)); o.pd = 0.3; o.num(pos(r), 'L', -1, 'u'); b.grp(); static const char* ph[] = {"OIL", "WATER", "GAS", "LIQ"}; b.str(ph[r.i(0, 3)]); extras(r, b); b.end(); } return b.k; }
    if (N == "COMPDAT") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "W")); Opt o(r, b, 0.2); if (r.p(0.2)) { b.def(0, 'i').def(0, 'i'); } else b.in(r.i(1, 50)).in(r.i(1, 50)); b.in(r.i(1, 50)).in(r.i(1, 50)).grp(); if (r.p(0.15)) b.defs("OPEN"); else b.str(r.p(0.5) ? "OPEN" : r.p(0.5) ? "SHUT" : "AUTO"); o.maybe_cut(0.1); if (o.cut) b.omit(-1, 'u'); else if (r.p(0.3)) b.def(-1, 'u'); else b.in(r.i(0, 5)); o.pd = 0.3; o.maybe_cut(0.1); o.num(num(r), 'X', 0, 'X'); o.maybe_cut(0.2); o.num(pos(r), 'L', 0, 'L'); b.grp(); if (!o.cut) extras(r, b); b.end(); } return b.k; }
    if (N == "WCONINJE") { B b(N, 'R'); for (int i = 0; i < m; ++i) { static const char* ty[] = {"WATER", "OIL", "GAS"}; static const char* md[] = {"RATE", "RESV", "BHP", "GRUP", "THP"}; b.str(name(r, "W") + (r.p(0.1) ? "*" : "")); int t = r.i(0, 2); b.str(ty[t]); if (r.p(0.15)) b.defs("OPEN"); else b.str(r.p(0.5) ? "OPEN" : "SHUT"); b.str(md[r.i(0, 4)]); Opt o(r, b, 0.3); o.num(pos(r), t == 2 ? 'g' : 'q', -1e20, 'u'); o.maybe_cut(0.1); o.num(pos(r), 'r', -1e20, 'u'); o.maybe_cut(0.1); o.num(pos(r), 'P', 6891, 'u'); o.maybe_cut(0.3); o.num(pos(r), 'P', -1e20, 'u'); if (o.cut || r.p(0.3)) { o.cut ? b.omit(0, 'i') : b.def(0, 'i'); } else b.in(r.i(0, 9)); o.maybe_cut(0.3); o.num(num(r), t == 2 ? 'v' : 'S', 0, '1'); b.grp(); if (!o.cut) extras(r, b); b.end(); } return b.k; }
    if (N == "WCONPROD") { B b(N, 'R'); for (int i = 0; i < m; ++i) { static const char* md[] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "GRUP", "THP"}; b.str(name(r, "W") + (r.p(0.1) ? "*" : "")); if (r.p(0.15)) b.defs("OPEN"); else b.str(r.p(0.5) ? "OPEN" : "SHUT"); b.str(md[r.i(0, 7)]); Opt o(r, b, 0.4); const char* d = "qqgqrPP"; for (int q = 0; q < 7; ++q) { if (q) o.maybe_cut(0.06); o.num(pos(r), d[q], q < 5 ? -1e20 : q == 5 ? 1.0 : 0.0, 'u'); } if (o.cut || r.p(0.3)) { o.cut ? b.omit(0, 'i') : b.def(0, 'i'); } else b.in(r.i(0, 9)); o.maybe_cut(0.3); o.num(num(r), '1', 0, '1'); if (!o.cut) { int q = r.i(0, 5); Row keep = b.row; for (int a = 0; a < q; ++a) { if (r.p(0.5)) b.num(num(r), '1'); else b.def(0, '1'); } b.row = keep; b.grp(); if (q == 5) extras(r, b); } b.end(); } return b.k; }
    if (N == "WELTARG") { B b(N, 'R'); for (int i = 0; i < m; ++i) { static const char* c[] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "THP"}; const char* d = "qqgqrPP"; int w = r.i(0, 6); b.str(name(r, "W")).str(c[w]).num(num(r), d[w]).end(); } return b.k; }
    if (N == "WELOPEN") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "W")).str(r.p(0.5) ? "OPEN" : "SHUT"); if (r.p(0.3)) b.raw("0", false).raw("1*", false); b.end(); } return b.k; }
    if (N == "GCONINJE") { B b(N, 'R'); for (int i = 0; i < m; ++i) { static const char* ty[] = {"WATER", "OIL", "GAS"}; static const char* md[] = {"RATE", "RESV", "REIN", "VREP", "NONE", "FLD"}; int t = r.i(0, 2); b.str(name(r, "G")).str(ty[t]).str(md[r.i(0, 5)]); Opt o(r, b, 0.3); o.num(pos(r), t == 2 ? 'g' : 'q', -1e20, 'u'); o.maybe_cut(0.2); o.num(pos(r), 'r', -1e20, 'u'); o.maybe_cut(0.2); o.num(num(r), '1', 0, 'x'); o.maybe_cut(0.2); o.num(num(r), '1', 0, 'x'); b.grp(); if (!o.cut) extras(r, b); b.end(); } return b.k; }
    if (N == "GCONPROD") {
        B b(N, 'R'); for (int i = 0; i < m; ++i) { static const char* md[] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV", "NONE", "FLD"}; b.str(name(r, "G")); if (r.p(0.15)) b.defs("NONE"); else b.str(md[r.i(0, 6)]); Opt o(r, b, 0.3); const char* d = "qqgq"; for (int q = 0; q < 4; ++q) { if (q) o.maybe_cut(0.06); o.num(pos(r), d[q], -1e20, 'u'); } b.grp(); if (o.cut) { b.omits("NONE").omit(-1e20, 'u').end(); continue; }
            int w = r.i(0, 3); static const char* pr[] = {"NONE", "WELL", "RATE", "CON"}; if (w == 0) { b.omits("NONE").omit(-1e20, 'u').end(); continue; } b.str(pr[r.i(0, 3)]); int upto = w == 1 ? r.i(0, 6) : 6; for (int q = 0; q < upto;) { int s = r.p(0.6) ? r.i(1, upto - q) : 1; if (r.p(0.7)) b.raw(cat(s, "*"), false); else { s = 1; b.raw(r.p(0.5) ? "YES" : "NONE", false); } q += s; } if (w == 1) b.omit(-1e20, 'u'); else if (w == 2) { Tok t = b.tok('n', pos(r), "", 'r', false); b.cur.push_back(t); b.row.push_back(vd(t.d, 'r')); b.grp(); if (r.p(0.2)) b.raw("NONE", false); } else b.defs("?"), b.row.back() = vd(-1e20, 'u'); b.end(); }
        return b.k; }
    if (N == "WGRUPCON") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "W")); bool y = r.p(0.6); if (r.p(0.15)) { b.cur.push_back(b.tok('1', 0, "", 's', false)); ++b.g; y = true; } else b.raw(y ? "YES" : "NO"); b.row.push_back(vd(y)); static const char* ph[] = {"OIL", "WATER", "GAS", "LIQ", "RES"}; int w = r.i(0, 3); if (w == 0) b.omit(0, 'x').omits(""); else { Opt o(r, b, 0.2); o.num(num(r), '1', 0, 'x'); b.grp(); if (w == 1) b.omits(""); else b.str(ph[r.i(0, 4)]); if (w == 3) extras(r, b); } b.end(); } return b.k; }
    if (N == "WPOLYMER") { B b(N, 'R'); for (int i = 0; i < m; ++i) { b.str(name(r, "W")).num(num(r), 'Y').num(num(r), 'Y').grp(); int w = r.i(0, 2); if (w == 0) b.omits("").omits(""); else if (w == 1) b.str(name(r, "PG")).omits(""); else b.str(name(r, "PG")).str(name(r, "SG")); b.end(); } return b.k; }
    if (N == "TSTEP") return array_d(N, runs(r, r.i(1, 12), false), 'T');
    violate("generator", "no generator for " + N); return flag("ECHO");
}
// repeat counts are not available where single values are extracted one by one
inline bool norepeat(const std::string& n) { return n == "WELTARG" || n == "WPOLYMER" || n == "ENDSCALE" || n == "START" || n == "GCONPROD"; }
struct CoutCatch { std::ostringstream o, e; std::streambuf *b, *c; CoutCatch() : b(std::cout.rdbuf(o.rdbuf())), c(std::cerr.rdbuf(e.rdbuf())) {} ~CoutCatch() { std::cout.rdbuf(b); std::cerr.rdbuf(c); } };
} // namespace dk
