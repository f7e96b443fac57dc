// P06: the meaning of a deck does not depend on its layout; every value written is retrievable, defaults are as documented.
#include "config.h"
#include "deck.hpp"
#include <opm/core/grid/cpgpreprocess/preprocess.h>
using namespace mon; using namespace dk;
static bool parse(Opm::EclipseGridParser& p, Rng& r, const std::vector<KW>& ks, const Layout& L, std::string& text, std::set<std::string>& unk, int variant, bool usedp)
{
    Files F; std::string dir = variant == 1 ? "deckdir" : variant == 2 ? "/abs" : ""; if (variant == 2) { char b[4096]; if (!getcwd(b, sizeof b)) return false; dir = std::string(b) + "/other"; } if (!dir.empty()) mkdir(dir.c_str(), 0755); F.dir = dir; bool stream = L.include == 0 && (usedp || r.p(0.3));
    text = render(r, L, ks, &F); unk = F.unknown; std::string fn = (dir.empty() ? std::string() : dir + "/") + "CASE.DATA"; CoutCatch q;
    try { if (stream) { std::istringstream is(text); p.read(is, false); ev("streams"); } else { spit(fn, text); p = Opm::EclipseGridParser(fn, false); ev("files"); } } catch (const std::exception& e) { std::string err = q.e.str(), inc; for (int i = 0; i < F.n; ++i) inc += cat("\n[part", i, "]\n") + slurp((dir.empty() ? std::string() : dir + "/") + cat("part", i, ".inc")) + slurp((dir.empty() ? std::string() : dir + "/") + cat("part", i, ".INC")); CHK(false, "refused", cat(e.what(), " ", err, "\n", text, inc)); return false; }
    return true;
}
static void one(long, Rng& r)
{
    std::vector<KW> ks; std::set<std::string> used; int n = r.i(1, 8); bool tstep = r.p(0.4);
    for (int i = 0; i < n; ++i) { std::string nm = r.p(0.15) ? INTS[r.i(0, 10)] : r.p(0.3) ? FLTS[r.i(0, 37)] : SPEC[r.i(0, 36)]; if (!used.insert(nm).second) continue; Opm::FieldType t = Opm::EclipseGridParser::classifyKeyword(nm); if (t == Opm::Integer) { std::vector<int> v; int m = r.i(1, 40); bool big = r.p(0.02); if (big) ev("long_arrays"); while ((int)v.size() < m) { int x = r.i(-3, 12), k = big && r.p(0.5) ? r.i(100, 1500) : r.i(1, 9); for (int a = 0; a < k; ++a) v.push_back(x); } ks.push_back(array_i(nm, v)); } else if (t == Opm::FloatingPoint) { auto v = runs(r, r.i(1, 40), true); if (r.p(0.02)) { v.insert(v.begin() + r.i(0, (int)v.size() - 1), r.i(100, 1500), v[r.i(0, (int)v.size() - 1)]); ev("long_arrays"); } ks.push_back(array_d(nm, v, '1')); } else ks.push_back(special(r, nm)); }
    bool field = r.p(0.3); if (field) ks.push_back(flag("FIELD")); else if (r.p(0.3)) ks.push_back(flag("METRIC")); std::vector<KW> sorted = ks; std::string prev;
    for (int v = 0; v < 3; ++v) {
        std::vector<KW> o = sorted; if (v) r.shuffle(o); if (tstep) o.push_back(special(r, "TSTEP")); Layout L = v == 0 ? plain() : wild(r); Opm::EclipseGridParser p; std::string text; std::set<std::string> unk; bool usedp = v == 1 && r.p(0.3); if (usedp) { std::string tail = r.p(0.5) ? "" : "WELOPEN\n OLD SHUT /\n/\n"; std::istringstream is("FIELD\nPORO\n 3*0.1 /\nWELSPECS\n 'OLD' 'G' 1 1 1* OIL /\n/\nSTART\n 1 JAN 1990 /\nTSTEP\n 1 2 /\n" + tail); CoutCatch q; p.read(is, true); ev("used_parsers"); }
        // keywords whose items are read one at a time take no repeat counts
        { bool bad = false; for (auto& k : o) if (norepeat(k.name)) bad = true; if (bad) { std::vector<KW> q; for (auto& k : o) { KW c = k; if (norepeat(k.name)) for (auto& rec : c.recs) { int g = 0; for (auto& t : rec) if (t.k != '*') t.grp = 1000 + g++; } q.push_back(c); } o = q; } }
        // a schedule keyword given twice in one period adds its records
        std::vector<KW> w; for (auto& k : o) { if (v && k.shape == 'R' && k.name != "GRUPTREE" && k.recs.size() > 1 && r.p(0.3)) { KW a = k, b = k; size_t c = r.i(1, (int)k.recs.size() - 1); a.recs.resize(c); b.recs.erase(b.recs.begin(), b.recs.begin() + c); w.push_back(a); if (r.p(0.3)) { KW f = flag("ECHO"); unk.insert("ECHO"); w.push_back(f); } w.push_back(b); ev("keywords_given_twice"); } else w.push_back(k); }
        std::set<std::string> echo = unk; if (!parse(p, r, w, L, text, unk, r.i(0, 2), usedp)) return; unk.insert(echo.begin(), echo.end()); std::set<std::string> want; ev("decks"); nontrivial(hstr(text));
        for (auto& k : o) { want.insert(k.name); if (!CHK(p.hasField(k.name), "missing:" + k.name, text)) return; if (k.shape == 'N') continue; ev("kw_" + k.name); Rows got; try { CoutCatch q; got = rows(p, k.name); } catch (const std::exception& e) { CHK(false, "unavailable:" + k.name, cat(e.what(), "\n", text)); return; } compare(k, got, 0, v ? "layout" : "plain", "deck:\n" + text + "\n"); }
        for (auto& u : unk) { want.insert(u); CHK(p.hasField(u), "unknown-not-listed", u + "\n" + text); } auto names = p.fieldNames(); std::set<std::string> got(names.begin(), names.end()); for (auto& g : got) CHK(want.count(g), "extra-field", g + "\n" + text); for (auto& w : want) CHK(got.count(w), "field-not-listed", w + "\n" + text); CHK(names.size() == got.size() || !unk.empty(), "field-listed-twice", text);
        CHK(p.numberOfEpochs() == 1, "epochs", cat(p.numberOfEpochs(), "\n", text)); { std::vector<std::string> all(want.begin(), want.end()); CHK(p.hasFields(all), "has-fields", text); all.push_back("NOTTHERE"); CHK(!p.hasFields(all), "has-fields:absent", text); } if (!used.count("PORO")) { CHK(!p.hasField("PORO"), "stale-field", text); CoutCatch q; bool t = false; try { p.getFloatingPointValue("PORO"); } catch (const std::exception&) { t = true; } CHK(t, "absent-field-returned", text); } if (!used.count("WELSPECS")) CHK(!p.hasField("WELSPECS"), "stale-record", text);
        if (v == 1) sample(text); ev(v ? "relayouts" : "plain_decks"); if (!unk.empty()) ev("unknown_keywords", (long)unk.size());
    }
}
int main(int argc, char** argv) { return mon::run(argc, argv, "P06", one); }
