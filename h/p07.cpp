// P07: metric and field decks are equivalent; every quantity is scaled by the factor of its dimension exactly once; no conversion means as written.
#include "config.h"
#include "deck.hpp"
#include <opm/core/utility/Units.hpp>
using namespace mon; using namespace dk;
static KW scaled(const KW& k, const Units& a, const Units& b) { KW c = k; for (auto& rec : c.recs) for (auto& t : rec) if (t.k == 'n') t.d = t.d * factor(a, t.dim) / factor(b, t.dim); return c; }
static std::vector<KW> fix(const std::vector<KW>& o) { bool bad = false; for (auto& k : o) if (norepeat(k.name)) bad = true; if (!bad) return o; std::vector<KW> q; for (auto& k : o) { KW c = k; if (norepeat(k.name)) for (auto& rec : c.recs) { int g = 0; for (auto& t : rec) if (t.k != '*') t.grp = 1000 + g++; } q.push_back(c); } return q; }
static bool same_units(const Opm::EclipseUnits& g, const Units& u, const std::string& key)
{
    double got[] = {g.length, g.time, g.density, g.polymer_density, g.pressure, g.compressibility, g.viscosity, g.permeability, g.liqvol_s, g.liqvol_r, g.gasvol_s, g.gasvol_r, g.transmissibility}, want[] = {u.len, u.tim, u.den, u.pol, u.pre, 1 / u.pre, u.vis, u.perm, u.ls, u.lr, u.gs, u.gr, factor(u, 'X')}; static const char* nm[] = {"length", "time", "density", "polymer_density", "pressure", "compressibility", "viscosity", "permeability", "liqvol_s", "liqvol_r", "gasvol_s", "gasvol_r", "transmissibility"}; bool ok = true;
    for (int i = 0; i < 13; ++i) { ev("unit_values"); ok = CHK(close(got[i], want[i], 1e-13, 0), key + ":" + nm[i], cat(got[i], " expected ", want[i])) && ok; } return ok;
}
struct Model { std::vector<KW> ks; std::vector<Rows> first; std::vector<char> infirst, insecond; size_t split; }; // ks in order; split: index of the TSTEP (or ks.size())
// all keywords of the parser against expectations (per epoch)
static void all(Opm::EclipseGridParser& p, const std::vector<KW>& ks, size_t split, const Units* u, const std::string& pre, const std::string& ctx)
{
    int ne = split + 1 < ks.size() ? 2 : 1; if (!CHK(p.numberOfEpochs() == ne, pre + ":epochs", ctx)) return;
    for (int e = 0; e < ne; ++e) {
        p.setCurrentEpoch(e); std::map<std::string, KW> want; std::vector<std::string> order; size_t upto = e == 0 ? std::min(split + 1, ks.size()) : ks.size();
        for (size_t i = 0; i < ks.size(); ++i) { bool sp = Opm::EclipseGridParser::classifyKeyword(ks[i].name) == Opm::SpecialField; if (i >= upto && sp) continue; if (ks[i].shape == 'N') continue; if (want.count(ks[i].name)) { KW& w = want[ks[i].name]; w.exp.insert(w.exp.end(), ks[i].exp.begin(), ks[i].exp.end()); } else { want[ks[i].name] = ks[i]; order.push_back(ks[i].name); } }
        for (auto& n : order) { if (!CHK(p.hasField(n), pre + ":missing:" + n, ctx)) continue; Rows got; try { CoutCatch q; got = rows(p, n); } catch (const std::exception& x) { CHK(false, pre + ":unavailable:" + n, cat(x.what(), "\n", ctx)); continue; } ev("kw_" + n); compare(want[n], got, u, pre, "epoch " + std::to_string(e) + " deck:\n" + ctx + "\n"); if (e) ev("second_epoch_keywords"); }
    }
    p.setCurrentEpoch(0);
}
static bool read(Opm::EclipseGridParser& p, Rng& r, const std::vector<KW>& ks, const Layout& L, bool conv, std::string& text)
{
    text = render(r, L, fix(ks)); CoutCatch q; try { if (r.p(0.5)) { std::istringstream is(text); p.read(is, conv); } else { spit("CASE.DATA", text); p = Opm::EclipseGridParser("CASE.DATA", conv); } } catch (const std::exception& e) { CHK(false, "refused", cat(e.what(), " ", q.e.str(), "\n", text)); return false; } return true;
}
static void constants()
{
    using namespace Opm::unit; using namespace Opm::prefix; double c[][2] = {{meter, 1}, {inch, 0.0254}, {feet, 0.3048}, {second, 1}, {minute, 60}, {hour, 3600}, {day, 86400}, {year, 31536000}, {gallon, 231 * 1.6387064e-5}, {stb, 0.158987294928}, {liter, 1e-3}, {kilogram, 1}, {pound, 0.45359237}, {Opm::unit::gravity, 9.80665}, {Newton, 1}, {lbf, 4.4482216152605}, {Pascal, 1}, {barsa, 1e5}, {atm, 101325}, {psia, 6894.757293168361}, {Pas, 1}, {Poise, 0.1}, {darcy, 9.869232667160130e-13}, {micro, 1e-6}, {milli, 1e-3}, {centi, 1e-2}, {deci, 0.1}, {kilo, 1e3}, {mega, 1e6}, {giga, 1e9}, {Opm::units::MILLIDARCY, 9.869232667160130e-16}, {Opm::units::VISCOSITY_UNIT, 1e-3}, {Opm::units::DAYS2SECONDS, 86400}, {Opm::units::FEET, 0.3048}, {Opm::units::WELL_INDEX_UNIT, 1e-3 / (86400 * 1e5)}};
    for (size_t i = 0; i < sizeof c / sizeof c[0]; ++i) { ev("constants"); CHK(close(c[i][0], c[i][1], i < 30 ? 1e-14 : 1e-6, 0), "constant", cat(i, ": ", c[i][0], " expected ", c[i][1])); }
}
static void one(long, Rng& r)
{
    constants(); { double q = r.p(0.5) ? r.logu(1e-12, 1e12) : -r.logu(1e-12, 1e12), u = r.logu(1e-15, 1e6); CHK(close(Opm::unit::convert::from(q, u), q * u, 1e-15, 0), "convert-from", cat(q, " ", u)); CHK(close(Opm::unit::convert::to(Opm::unit::convert::from(q, u), u), q, 1e-15, 0), "convert-roundtrip", cat(q, " ", u)); }
    std::vector<KW> ks; std::set<std::string> used; int n = r.i(1, 8);
    for (int i = 0; i < n; ++i) { std::string nm = r.p(0.05) ? INTS[r.i(0, 10)] : r.p(0.3) ? FLTS[r.i(0, 37)] : SPEC[r.i(0, 36)]; if (nm == "POISSONMOD" || !used.insert(nm).second) continue; auto t = Opm::EclipseGridParser::classifyKeyword(nm); if (t == Opm::Integer) { std::vector<int> v(r.i(1, 9)); for (auto& x : v) x = r.i(-3, 12); ks.push_back(array_i(nm, v)); } else if (t == Opm::FloatingPoint) ks.push_back(array_d(nm, runs(r, r.i(1, 12), true), array_dim(nm))); else ks.push_back(special(r, nm)); }
    static const char* SCHED[] = {"WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "GCONINJE", "GCONPROD", "WGRUPCON", "WPOLYMER"}; size_t split = ks.size();
    if (r.p(0.5)) { ks.push_back(special(r, "TSTEP")); if (r.p(0.7)) { int m = r.i(1, 3); for (int i = 0; i < m; ++i) ks.push_back(special(r, SCHED[r.i(0, 9)])); } }
    if (split < ks.size()) used.insert("TSTEP");
    // the same physics in two unit systems
    int fam[2] = {r.i(0, 2), 0}; fam[1] = fam[0] == 2 ? r.i(0, 1) : r.p(0.8) ? 2 : 1 - fam[0]; Units U[2] = {fam[0] == 2 ? field() : metric(), fam[1] == 2 ? field() : metric()}; bool early = r.p(0.6);
    Opm::EclipseGridParser p; std::string text; const char* famname[] = {"default", "METRIC", "FIELD"};
    for (int s = 0; s < 2; ++s) {
        std::vector<KW> o; size_t sp = split; if (s == 0) o = ks; else for (auto& k : ks) o.push_back(scaled(k, U[0], U[1]));
        if (fam[s]) { KW f = flag(fam[s] == 1 ? "METRIC" : "FIELD"); int at = early ? 0 : r.i(0, (int)split); o.insert(o.begin() + at, f); ++sp; }
        std::string pre = std::string(famname[fam[s]]) + (s ? ":other" : ""); Layout L = r.p(0.5) ? plain() : wild(r); L.unknown = 0; L.include = 0;
        if (s == 0) { // raw, then converted on request
            Opm::EclipseGridParser q; if (!read(q, r, o, L, false, text)) return; ev("decks_raw"); same_units(q.units(), U[0], pre + ":units"); all(q, o, sp, 0, pre + ":raw", text);
            q.setCurrentEpoch(r.i(0, q.numberOfEpochs() - 1)); { CoutCatch c; q.convertToSI(); } same_units(q.units(), si(), pre + ":units-after"); all(q, o, sp, &U[0], pre + ":later", text); q.setCurrentEpoch(r.i(0, q.numberOfEpochs() - 1)); { CoutCatch c; q.convertToSI(); } all(q, o, sp, &U[0], pre + ":twice", text); ev("decks_converted_later"); }
        if (!read(p, r, o, L, true, text)) return; ev(cat("decks_", famname[fam[s]])); nontrivial(hstr(text)); same_units(p.units(), si(), pre + ":units-after");
        // expectations of both decks: the values of the first one times its units
        std::vector<KW> want = o; if (s) { size_t j = 0; for (size_t i = 0; i < o.size(); ++i) if (o[i].shape != 'N') want[i].exp = ks[j++].exp; } all(p, want, sp, &U[0], pre, text); if (s) { ev("equivalent_pairs"); sample(text); }
    }
}
int main(int argc, char** argv) { return mon::run(argc, argv, "P07", one); }
