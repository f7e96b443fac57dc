// Well descriptions and the deck text that states them.
#pragma once
#include "deck.hpp"
#include "gridlib.hpp"
#include <opm/core/wells.h>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>

namespace wd {
using namespace mon;
typedef std::vector<double> dvec;
struct Ctl { int type; double target; int distr[3]; std::string mode; bool anyval; };
struct Perf { int cell; double wi; };
struct Well { std::string name, group; int i, j; double datum; bool inj; int itype; std::vector<Perf> perfs; std::vector<Ctl> ctl; std::string mode; bool shut, controlled; Well() : i(0), j(0), datum(-1), inj(false), itype(0), shut(false), controlled(false) {} };
struct Phases { int used[3], pos[3], np; };
inline Phases phases(int w, int o, int g) { Phases p; p.used[0] = w; p.used[1] = o; p.used[2] = g; p.np = 0; for (int i = 0; i < 3; ++i) { p.pos[i] = p.np; p.np += p.used[i]; } return p; }
inline Phases random_phases(Rng& r) { int w = r.i(0, 2); return w == 0 ? phases(1, 1, 0) : w == 1 ? phases(0, 1, 1) : phases(1, 1, 1); }
inline std::string g17(double x) { char b[40]; snprintf(b, sizeof b, "%.15g", x); if (std::strtod(b, 0) != x) snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string q(Rng& r, const std::string& s) { return r.p(0.5) ? "'" + s + "'" : s; }
// items: empty string = default; trailing defaults may be left out, runs of defaults grouped
inline std::string line(Rng& r, std::vector<std::string> lead, std::vector<std::string> items)
{
    std::string s = r.p(0.5) ? " " : ""; for (auto& x : lead) s += x + (r.p(0.1) ? "\n   " : " ");
    size_t n = items.size(); if (r.p(0.8)) while (n && items[n - 1].empty()) --n;
    for (size_t k = 0; k < n;) { if (!items[k].empty()) { s += items[k++] + " "; continue; } size_t e = k; while (e < n && items[e].empty()) ++e; size_t m = r.p(0.5) ? e - k : 1; s += cat(m, "* "); k += m; }
    s += r.p(0.1) ? "/ -- note\n" : "/\n"; if (r.p(0.08)) s += "-- a comment line /\n"; return s;
}
inline std::string kw(Rng& r, const std::string& name, const std::vector<std::string>& lines) { std::string s = name + "\n"; if (r.p(0.1)) s += "-- records\n"; for (auto& l : lines) s += l; return s + "/\n" + (r.p(0.3) ? "\n" : ""); }
inline std::string head(Rng& r, const Phases& P, bool field) { std::vector<std::string> k; if (P.used[0]) k.push_back("WATER\n"); if (P.used[1]) k.push_back("OIL\n"); if (P.used[2]) k.push_back("GAS\n"); if (field) k.push_back("FIELD\n"); else if (r.p(0.5)) k.push_back("METRIC\n"); r.shuffle(k); std::string s; for (auto& x : k) s += x; return s; }

// Control record of a well: chooses limits and mode, returns the text line; w.ctl/w.mode/w.shut receive what it states (SI).
inline std::string control(Rng& r, Well& w, const Phases& P, const dk::Units& U, const std::string& as, bool allow_grup = true, const char* force = 0, double pgive = 0.45)
{
    w.ctl.clear(); w.controlled = true; std::vector<std::string> it; auto rate = [&](char d, int type, int a, int b, int c, const char* m, bool can) { int dd[3] = {a, b, c}; if (!can || !(r.p(pgive) || (force && std::string(force) == m))) { it.push_back(r.p(0.9) ? "" : "-1"); return; } double x = r.p(0.04) ? 0.0 : r.p(0.3) ? (double)r.i(1, 2000) : r.logu(0.01, 1e5); it.push_back(g17(x)); Ctl k; k.type = type; k.target = (w.inj ? 1 : -1) * x * dk::factor(U, d); k.distr[0] = k.distr[1] = k.distr[2] = 0; int t[3] = {a, b, c}; (void)dd; for (int p = 0; p < 3; ++p) if (P.used[p]) k.distr[P.pos[p]] = t[p]; k.mode = m; k.anyval = false; w.ctl.push_back(k); };
    auto bhp = [&]() { Ctl k; k.type = BHP; k.mode = "BHP"; k.anyval = false; k.distr[0] = k.distr[1] = k.distr[2] = 0; if (r.p(0.3)) { it.push_back(""); k.anyval = true; k.target = 0; w.ctl.push_back(k); return; } if (r.p(0.1) && !force) { it.push_back("0"); return; } double x = r.p(0.3) ? (double)r.i(1, 1000) : r.logu(0.1, 1e4); it.push_back(g17(x)); k.target = x * dk::factor(U, 'P'); w.ctl.push_back(k); };
    static const char* ty[] = {"WATER", "OIL", "GAS"}; std::vector<std::string> lead; lead.push_back(q(r, as)); bool shutv = r.p(0.25);
    if (w.inj) { do w.itype = r.i(0, 2); while (!P.used[w.itype]); lead.push_back(q(r, r.p(0.3) ? std::string(1, ty[w.itype][0]) + std::string(ty[w.itype] + 1) : ty[w.itype])); }
    w.shut = shutv; lead.push_back(shutv ? "SHUT" : r.p(0.3) ? "1*" : "OPEN"); size_t mpos = lead.size(); lead.push_back("");
    if (w.inj) { rate(w.itype == 2 ? 'g' : 'q', SURFACE_RATE, 1, 1, 1, "RATE", true); rate('r', RESERVOIR_RATE, 1, 1, 1, "RESV", true); }
    else { rate('q', SURFACE_RATE, 0, 1, 0, "ORAT", P.used[1]); rate('q', SURFACE_RATE, 1, 0, 0, "WRAT", P.used[0]); rate('g', SURFACE_RATE, 0, 0, 1, "GRAT", P.used[2]); rate('q', SURFACE_RATE, 1, 1, 0, "LRAT", P.used[0] && P.used[1]); rate('r', RESERVOIR_RATE, 1, 1, 1, "RESV", true); }
    bhp(); if (r.p(0.2)) it.push_back("");
    if (force) w.mode = force; else { std::vector<std::string> ms; for (auto& c : w.ctl) ms.push_back(c.mode); if (allow_grup) ms.push_back("GRUP"); if (ms.empty()) { w.mode = "RESV"; Ctl k; k.type = RESERVOIR_RATE; k.target = 0; for (int p = 0; p < 3; ++p) k.distr[p] = p < P.np; k.mode = "RESV"; k.anyval = false; w.ctl.push_back(k); it[w.inj ? 1 : 4] = "0"; } else w.mode = ms[r.i(0, (int)ms.size() - 1)]; }
    lead[mpos] = q(r, w.mode); return line(r, lead, it);
}
// the control list of well w in W, as a multiset, and which one is selected
inline bool check_controls(const Wells& W, int w, const Well& m, const Phases& P, const std::string& ctx, bool exact = true)
{
    const WellControls& c = *W.ctrls[w]; bool ok = true; std::string got; for (int k = 0; k < c.num; ++k) { got += cat(" [", c.type[k] == BHP ? "BHP" : c.type[k] == SURFACE_RATE ? "SURF" : "RESV", " ", c.target[k]); if (c.type[k] != BHP) for (int p = 0; p < P.np; ++p) got += cat(p ? "," : " distr ", c.distr[P.np * k + p]); got += "]"; } got += cat(" current ", c.current); std::string want; for (auto& k : m.ctl) want += cat(" [", k.mode, " ", k.anyval ? std::string("any") : g17(k.target), "]"); std::string cc = cat(" well ", m.name, " holds", got, " stated", want, " mode ", m.mode, m.shut ? " SHUT" : " OPEN", ctx);
    ok &= CHK(!exact || c.num == (int)m.ctl.size(), m.inj ? "inj-control-count" : "prod-control-count", cc); std::vector<int> used(c.num, 0); int sel = c.current < 0 ? ~c.current : c.current;
    for (auto& k : m.ctl) { int hit = -1; for (int a = 0; a < c.num && hit < 0; ++a) { if (used[a] || (int)c.type[a] != k.type) continue; if (!(k.anyval ? c.target[a] > 0 : close(c.target[a], k.target, 1e-12, 0))) continue; bool same = true; if (k.type != BHP) for (int p = 0; p < P.np; ++p) same &= c.distr[P.np * a + p] == k.distr[p]; if (same && !(k.mode == m.mode && a != sel && [&]() { for (int b = a + 1; b < c.num; ++b) if (b == sel && !used[b] && c.type[b] == c.type[a] && c.target[b] == c.target[a]) return true; return false; }())) hit = a; } ev("controls"); if (!CHK(hit >= 0, "control:" + k.mode, cat("no control states the limit ", k.mode, cc))) { ok = false; continue; } used[hit] = 1; if (k.mode == m.mode) ok &= CHK(sel == hit, "control-selected", cat("mode is control ", hit, cc)); }
    if (m.mode == "GRUP" && !m.shut) { ev("group_controlled"); return ok; } ok &= CHK((c.current < 0) == m.shut, m.shut ? "shut-well-open" : "open-well-shut", cc); ev(m.shut ? "shut_wells" : "open_wells"); return ok;
}
}
