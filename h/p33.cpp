// P33: parameters are returned exactly as supplied, from any source, against an independent model of the parameter tree.
#include "config.h"
#include "mon.hpp"
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <iostream>
#include <climits>
#include <memory>
#include <set>
#include <sys/stat.h>
using namespace mon; using Opm::parameter::ParameterGroup;
typedef std::string S; typedef std::vector<S> SV;
struct Catch { std::ostringstream o, e; std::streambuf *a, *b; Catch() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Catch() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// ---- the model ----
struct M; typedef std::shared_ptr<M> MP;
struct M { bool grp; S val, type; std::map<S, MP> kids; M* parent; int used; S path; M(bool g) : grp(g), parent(0), used(0) {} }; // used: 0 never, 1 used, 2 only by a failing request
static MP leaf(const S& v, const S& t) { MP m(new M(false)); m->val = v; m->type = t; return m; }
static MP group(M* up, const S& name) { MP m(new M(true)); m->parent = up; m->path = up->path + "/" + name; return m; }
static SV parts(const S& n) { SV o(1); for (char c : n) if (c == '/') o.push_back(""); else o.back() += c; return o; }
static void assign(M* g, const S& name, const S& val) { SV p; for (auto& s : parts(name)) if (!s.empty()) p.push_back(s); for (size_t k = 0; k + 1 < p.size(); ++k) { MP& c = g->kids[p[k]]; if (!c) c = group(g, p[k]); g = c.get(); } g->kids[p.back()] = leaf(val, "cmdline"); }
// a group element that meets a group of the same name is merged into it, everything else replaces what was there
static void put(M* g, const S& name, MP d) { MP& c = g->kids[name]; if (c && c->grp && d->grp) { for (auto& k : d->kids) put(c.get(), k.first, k.second); } else { c = d; d->parent = g; } }
static bool is_param_over(M* g, const S& name) { SV p; for (auto& s : parts(name)) if (!s.empty()) p.push_back(s); for (size_t k = 0; k + 1 < p.size(); ++k) { auto it = g->kids.find(p[k]); if (it == g->kids.end()) return false; if (!it->second->grp) return true; g = it->second.get(); } return false; }
// ---- generators ----
static const char* NAMES[] = {"a", "b", "c", "x", "grid", "nx", "fluid", "density1", "use_deck", "output_dir", "deep", "Name", "p.q", "k_1", "long_parameter_name_with_many_parts"};
static S name(Rng& r) { return NAMES[r.i(0, 14)]; }
static const char* GROUPS[] = {"g1", "g2", "sub", "linsolver", "pressure", "inner"};
static S path(Rng& r) { S s; int d = r.p(0.5) ? 0 : r.i(1, 3); for (int k = 0; k < d; ++k) s += S(GROUPS[r.i(0, 5)]) + "/"; if (r.p(0.08)) s = "/" + s; if (r.p(0.04) && d) s += "/"; return s + (r.p(0.03) ? S(GROUPS[r.i(0, 5)]) : name(r)); }
static S spaced(Rng& r, const S& s) { return (r.p(0.1) ? r.p(0.5) ? " " : "\t " : "") + s + (r.p(0.1) ? "  " : ""); }
static S integer(Rng& r) { if (r.p(0.15)) { static const char* e[] = {"2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999", "0", "-0", "+7", "007", "00", "-1"}; return e[r.i(0, 10)]; } return cat(r.i(-100000, 100000)); }
static S real(Rng& r) { char b[64]; double x = r.p(0.5) ? r.u(-10, 10) : (r.p(0.5) ? -1 : 1) * r.logu(1e-300, 1e300); static const char* f[] = {"%.17g", "%g", "%.3f", "%e", "%.0f"}; int k = r.i(0, std::fabs(x) > 1e15 ? 1 : 4); if (r.p(0.1)) { static const char* e[] = {"1e400", "-1e400", "4.9e-324", "1.7976931348623157e308", "-0.0", ".5", "5.", "1E3", "+2.5e-3", "1e+05"}; return e[r.i(0, 9)]; } snprintf(b, sizeof b, f[k], x); return b; }
static S text(Rng& r, bool xml) { static const char* t[] = {"", "cartesian", "simple", "two words", "/abs/path/to", "rel/path.x", "3abc", "abc3", "12 34", "1.5.2", "1e", "-", "true ", "TRUE", "1.2.3", "caf\xc3\xa9", "it's", "say \"hi\"", "a;b,c", "#hash", "$HOME", "C:\\dir", "100%", "[1,2]"}; static const char* x[] = {"a=b", "http://x//y", "<tag>", "a & b", "&amp;", "a<b>c", "]]>", "tab\there"}; return xml && r.p(0.3) ? x[r.i(0, 7)] : t[r.i(0, 23)]; }
static S value(Rng& r, bool xml) { int k = r.i(0, 9); return k < 3 ? spaced(r, integer(r)) : k < 6 ? spaced(r, real(r)) : k < 8 ? r.p(0.5) ? "true" : "false" : text(r, xml); }
// ---- sources ----
static S esc(Rng& r, const S& v, char q) { S o; for (char c : v) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += r.p(0.5) ? "&gt;" : ">"; else if (c == q) o += q == '"' ? "&quot;" : "&apos;"; else if (r.p(0.02) && c > 32 && c < 127) o += r.p(0.5) ? cat("&#", (int)c, ";") : cat("&#x", std::hex, (int)c, ";"); else o += c; } return o; }
static S attr(Rng& r, const S& n, const S& v) { char q = r.p(0.7) ? '"' : '\''; return " " + n + (r.p(0.1) ? " = " : "=") + q + esc(r, v, q) + q; }
struct Src { Rng& r; int n; Src(Rng& q) : r(q), n(0) {} };
static S element(Src& s, const S& tag, SV at) { s.r.shuffle(at); S o = "<" + tag; for (auto& a : at) o += a; return o + (s.r.p(0.7) ? S(s.r.p(0.5) ? "/>" : " />") : ">" + S(s.r.p(0.3) ? " " : "") + "</" + tag + ">"); }
static S write_xml(Src& s, M* g, const S& dir, int depth);
static S body(Src& s, M* g, const S& dir, int depth)
{
    Rng& r = s.r; S o; int n = r.i(depth ? 0 : 1, 5); for (int k = 0; k < n; ++k) { if (r.p(0.15)) o += "<!-- <Parameter name=\"a\" type=\"int\" value=\"1\"/> -->\n"; o += S(depth * 2, ' '); int w = r.i(0, 9);
        if (w < 5 || depth > 2) { S nm = r.p(0.05) ? S(GROUPS[r.i(0, 5)]) : name(r), v, t; int y = r.i(0, 5); if (y == 0) { t = "int"; v = integer(r); } else if (y == 1) { t = "double"; v = real(r); } else if (y == 2) { t = "bool"; v = r.p(0.8) ? r.p(0.5) ? "true" : "false" : "maybe"; } else if (y == 3) { t = "string"; v = text(r, true); } else if (y == 4) { t = "file"; v = r.p(0.5) ? "data.grdecl" : "sub/data.txt"; } else { t = r.p(0.7) ? S("cmdline") : S("odd"); v = value(r, true); }
            SV at; at.push_back(attr(r, "name", nm)); at.push_back(attr(r, "type", t)); at.push_back(attr(r, "value", v)); if (r.p(0.1)) at.push_back(attr(r, "comment", "x < y")); o += element(s, "Parameter", at) + "\n"; if (t == "file") { v = dir.empty() ? v : dir + "/" + v; t = "string"; ev("file_parameters"); } put(g, nm, leaf(v, t)); ev("xml_parameters"); }
        else if (w < 8) { S nm = r.p(0.05) ? name(r) : S(GROUPS[r.i(0, 5)]); MP c = group(g, nm); S in = body(s, c.get(), dir, depth + 1); SV at(1, attr(r, "name", nm)); if (r.p(0.2)) at.push_back(attr(r, "value", "unused")); o += "<ParameterGroup"; for (auto& a : at) o += a; o += ">\n" + in + S(depth * 2, ' ') + "</ParameterGroup>\n"; if (g->kids.count(nm) && g->kids[nm]->grp) ev("merged_groups"); put(g, nm, c); ev("xml_groups"); }
        else if (s.n < 4) { S rel = (r.p(0.4) ? "inc/" : "") + cat("f", s.n++, ".xml"), sub = rel[0] == 'i' ? dir.empty() ? S("inc") : dir + "/inc" : dir; mkdir((dir.empty() ? S("inc") : dir + "/inc").c_str(), 0755); S full = dir.empty() ? rel : dir + "/" + rel; SV at(1, attr(r, "value", rel)); if (w == 8) { S x = write_xml(s, g, sub, depth + 1); spit(full, x); o += element(s, "MergeWithFile", at) + "\n"; ev("merged_files"); } else { S nm = GROUPS[r.i(0, 5)]; MP c = group(g, nm); S x = write_xml(s, c.get(), sub, depth + 1); spit(full, x); at.push_back(attr(r, "name", nm)); o += element(s, "ParameterGroupFromFile", at) + "\n"; put(g, nm, c); ev("groups_from_files"); } }
    }
    return o;
}
static S write_xml(Src& s, M* g, const S& dir, int depth) { Rng& r = s.r; S o; if (r.p(0.6)) o += r.p(0.5) ? "<?xml version=\"1.0\"?>\n" : "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; if (r.p(0.2)) o += "<!-- comment -->\n"; S root = r.p(0.7) ? "ParameterGroup" : "params"; o += "<" + root + (r.p(0.3) ? " name=\"root\"" : "") + ">\n"; o += body(s, g, dir, depth); return o + "</" + root + ">\n"; }
static S write_param(Rng& r, M* g)
{
    S o; int n = r.i(0, 7); for (int k = 0; k < n; ++k) { int w = r.i(0, 19); if (w == 0) { o += r.p(0.5) ? "// a comment\n" : "//x=3\n"; ev("comment_lines"); continue; } if (w == 1) { o += r.p(0.5) ? "\n" : "   \n"; ev("blank_lines"); continue; } if (w == 2) { o += "   // indented comment a=1\n"; ev("comment_lines"); continue; } if (w == 3) { o += "a=b=c\n"; continue; } if (w == 4) { o += "no assignment here\n"; ev("malformed_lines"); continue; }
        S p = path(r), v = value(r, false); if (is_param_over(g, p) || p.find("//") != S::npos) continue; o += p + "=" + v; if (r.p(0.08)) o += "// trailing comment"; o += "\n"; assign(g, p, v); ev("file_assignments"); }
    if (!o.empty() && r.p(0.1)) o.erase(o.size() - 1); return o;
}
// ---- oracle for conversions: 1 value, 0 refused, -1 no verdict ----
static S trim(const S& s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) ++a; while (b > a && isspace((unsigned char)s[b - 1])) --b; return s.substr(a, b - a); }
static int conv(const M& m, int& v) { if (m.grp || (m.type != "int" && m.type != "cmdline")) return 0; S t = trim(m.val); size_t k = 0; if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k; if (k == t.size()) return 0; for (size_t q = k; q < t.size(); ++q) if (!isdigit((unsigned char)t[q])) return 0; errno = 0; long long x = strtoll(t.c_str(), 0, 10); if (errno || x > INT_MAX || x < INT_MIN) return 0; v = (int)x; return 1; }
static int conv(const M& m, double& v) { if (m.grp || (m.type != "double" && m.type != "cmdline")) return 0; S t = trim(m.val); size_t k = 0; if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k; int d = 0; while (k < t.size() && isdigit((unsigned char)t[k])) { ++k; ++d; } if (k < t.size() && t[k] == '.') { ++k; while (k < t.size() && isdigit((unsigned char)t[k])) { ++k; ++d; } } if (!d) return 0; if (k < t.size() && (t[k] == 'e' || t[k] == 'E')) { ++k; if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k; size_t s = k; while (k < t.size() && isdigit((unsigned char)t[k])) ++k; if (s == k) return 0; } if (k != t.size()) return 0; v = strtod(t.c_str(), 0); return std::isfinite(v) ? (v != 0 && std::fabs(v) < 2.3e-308 ? -1 : 1) : 0; }
static int conv(const M& m, bool& v) { if (m.grp || (m.type != "bool" && m.type != "cmdline")) return 0; if (m.val != "true" && m.val != "false") return 0; v = m.val == "true"; return 1; }
static int conv(const M& m, S& v) { if (m.grp || (m.type != "string" && m.type != "cmdline")) return 0; v = m.val; return 1; }
// look up as documented: own group, then the enclosing ones; marks what is used. Returns 0 found / 1 absent / 2 must be refused
static int look(M* g, const S& nm, M*& out) { if (!g->used) g->used = 1; size_t s = nm.find('/'); S a = nm.substr(0, s), b = s == S::npos ? "" : nm.substr(s + 1); auto it = g->kids.find(a); if (it == g->kids.end()) return g->parent ? look(g->parent, nm, out) : 1; if (b.empty()) { out = it->second.get(); return 0; } if (!it->second->grp) return 2; it->second->used = 1; return look(it->second.get(), b, out); }
template <class T> static bool same(const T& a, const T& b) { return a == b; } template <> bool same(const double& a, const double& b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <class T> struct Tn; template <> struct Tn<int> { static const char* n() { return "int"; } }; template <> struct Tn<double> { static const char* n() { return "double"; } }; template <> struct Tn<bool> { static const char* n() { return "bool"; } }; template <> struct Tn<S> { static const char* n() { return "string"; } };
enum Out { OK, ABSENT, WRONG, UNMET, OTHER };
static const char* ON[] = {"value", "not found", "wrong type", "requirement failed", "other error"};
struct Always { template <class T> bool operator()(const T&) const { return true; } };
template <class T, class Rq, class Ok> static void request(Rng& r, const ParameterGroup& pg, M* g, const S& nm, const T& dflt, const Rq& rq, const Ok& ok, bool norq, const S& ctx)
{
    bool hasdef = r.p(0.5); int api = r.i(0, 2); T got = T(); Out o = OK; { Catch q; try { if (norq && api == 0) { if (hasdef) pg.get(nm.c_str(), got, dflt); else pg.get(nm.c_str(), got); } else if (norq && api == 1) got = hasdef ? pg.getDefault<T>(nm, dflt) : pg.get<T>(nm); else got = hasdef ? pg.getDefault<T>(nm, dflt, rq) : pg.get<T>(nm, rq); } catch (const ParameterGroup::NotFoundException&) { o = ABSENT; } catch (const ParameterGroup::WrongTypeException&) { o = WRONG; } catch (const ParameterGroup::RequirementFailedException<Rq>&) { o = UNMET; } catch (const ParameterGroup::RequirementFailedException<Opm::parameter::ParameterRequirementNone>&) { o = UNMET; } catch (const std::exception&) { o = OTHER; } }
    M* m = 0; int f = look(g, nm, m); Out want = OK; T w = T(); S cx = cat(hasdef ? "getDefault<" : "get<", Tn<T>::n(), ">(", nm, ")", ctx);
    if (f == 2) { CHK(o != OK, "parameter-used-as-group", cx); ev("parameter_used_as_group"); return; }
    if (f == 1) { if (!hasdef) want = ABSENT; else if (!ok(dflt)) want = UNMET; else w = dflt; ev(hasdef ? "defaults" : "absent"); }
    else { int c = conv(*m, w); if (c < 0) { if (m->used != 1) m->used = o == OK ? 1 : 2; return; } if (!c) want = WRONG; else if (!ok(w)) want = UNMET; if (want == OK) { m->used = 1; ev("values"); } else { if (!m->used) m->used = 2; ev(want == WRONG ? "refused_types" : "refused_requirements"); } if (m->parent != g) ev("nested_or_inherited"); }
    if (!CHK(o == want, want == OK ? "refused-valid" : o == OK ? want == WRONG ? "accepted-wrong-type" : want == UNMET ? "requirement-not-enforced" : "value-for-absent" : "wrong-error", cat(cx, " outcome ", ON[o], " expected ", ON[want], m && !m->grp ? cat(" data '", m->val, "' of type ", m->type) : S()))) return;
    if (o == OK) CHK(same(got, w), f == 1 ? "default-value" : "value", cat(cx, " = '", got, "' expected '", w, "'"));
}
struct Gt0 { template <class T> bool operator()(T x) const { return x > 0; } }; struct Lt0 { template <class T> bool operator()(T x) const { return x < 0; } }; struct Le0 { template <class T> bool operator()(T x) const { return !(x > 0); } }; struct Ge0 { template <class T> bool operator()(T x) const { return !(x < 0); } }; struct Ne0 { template <class T> bool operator()(T x) const { return x != 0; } }; struct Prob { bool operator()(double x) const { return x >= 0 && x <= 1; } }; struct Nonempty { bool operator()(const S& s) const { return !s.empty(); } }; struct Among { SV e; bool operator()(const S& s) const { return std::find(e.begin(), e.end(), s) != e.end(); } };
template <class A, class B> struct Both { A a; B b; template <class T> bool operator()(const T& x) const { return a(x) && b(x); } };
static void ask(Rng& r, const ParameterGroup& pg, M* g, const S& nm, const S& ctx)
{
    using namespace Opm::parameter; int di = r.i(-2, 2); double dd = r.i(-2, 2) * 0.75; S ds = r.p(0.3) ? "" : "dflt";
    switch (r.i(0, 17)) {
    case 0: case 1: request<int>(r, pg, g, nm, di, ParameterRequirementNone(), Always(), true, ctx); break;
    case 2: case 3: request<double>(r, pg, g, nm, dd, ParameterRequirementNone(), Always(), true, ctx); break;
    case 4: request<bool>(r, pg, g, nm, r.p(0.5), ParameterRequirementNone(), Always(), true, ctx); break;
    case 5: case 6: request<S>(r, pg, g, nm, ds, ParameterRequirementNone(), Always(), true, ctx); break;
    case 7: request<int>(r, pg, g, nm, di, ParameterRequirementPositive(), Gt0(), false, ctx); break;
    case 8: request<double>(r, pg, g, nm, dd, ParameterRequirementNegative(), Lt0(), false, ctx); break;
    case 9: request<double>(r, pg, g, nm, dd, ParameterRequirementNonPositive(), Le0(), false, ctx); break;
    case 10: request<int>(r, pg, g, nm, di, ParameterRequirementNonNegative(), Ge0(), false, ctx); break;
    case 11: request<int>(r, pg, g, nm, di, ParameterRequirementNonZero(), Ne0(), false, ctx); break;
    case 12: request<double>(r, pg, g, nm, dd, ParameterRequirementProbability(), Prob(), false, ctx); break;
    case 13: request<S>(r, pg, g, nm, ds, ParameterRequirementNonEmpty(), Nonempty(), false, ctx); break;
    case 14: { Among a; int n = r.i(1, 4); static const char* c[] = {"cartesian", "simple", "true", "", "dflt"}; for (int k = 0; k < n; ++k) a.e.push_back(c[r.i(0, 4)]); request<S>(r, pg, g, nm, ds, ParameterRequirementMemberOf(a.e), a, false, ctx); break; }
    case 15: request<double>(r, pg, g, nm, dd, ParameterRequirementAnd<ParameterRequirementNonNegative, ParameterRequirementProbability>(ParameterRequirementNonNegative(), ParameterRequirementProbability()), Both<Ge0, Prob>(), false, ctx); break;
    case 16: request<int>(r, pg, g, nm, di, ParameterRequirementAnd<ParameterRequirementNonZero, ParameterRequirementNonNegative>(ParameterRequirementNonZero(), ParameterRequirementNonNegative()), Both<Ne0, Ge0>(), false, ctx); break;
    default: request<double>(r, pg, g, nm, dd, ParameterRequirementPositive(), Gt0(), false, ctx);
    }
}
static void all(M* g, std::vector<M*>& gs, SV& names, const S& pre) { gs.push_back(g); for (auto& k : g->kids) { names.push_back(pre + k.first); if (k.second->grp) all(k.second.get(), gs, names, pre + k.first + "/"); } }
static void flat(const M* g, const S& pre, std::map<S, S>& o) { for (auto& k : g->kids) if (k.second->grp) flat(k.second.get(), pre + "/" + k.first, o); else o[pre + "/" + k.first] = k.second->val; }
static void usage(const ParameterGroup& pg, M* root, const S& ctx)
{
    for (int u = 0; u < 2; ++u) { S out; { Catch q; pg.displayUsage(u != 0); out = q.o.str(); } std::multiset<S> got; std::istringstream is(out); S l; while (std::getline(is, l)) got.insert(l); size_t n = 0;
        std::vector<std::pair<M*, S> > st(1, std::make_pair(root, S())); while (!st.empty()) { M* g = st.back().first; S p = st.back().second; st.pop_back(); if (g->used != 2) { bool want = (g->used == 1) == (u != 0); if (!(g->kids.count("") )) CHK((got.count(p) > 0) == want, "group-usage", cat("group '", p, "' ", want ? "not listed as " : "listed as ", u ? "used" : "unused", ctx)); } n += got.count(p); for (auto& k : g->kids) { if (k.second->grp) { st.push_back(std::make_pair(k.second.get(), p + "/" + k.first)); continue; } S full = p + "/" + k.first; size_t c = got.count(full); n += c; if (k.second->used == 2) continue; bool want = (k.second->used == 1) == (u != 0); CHK(c == (want ? 1u : 0u), "parameter-usage", cat("parameter ", full, want ? " not listed as " : " listed as ", u ? "used" : "unused", ctx)); ev(k.second->used ? "used_parameters" : "unused_parameters"); } }
        CHK(n == got.size(), "usage-extra", cat("listing has ", got.size(), " entries, ", n, " known\n", out, ctx)); }
    bool un = false, maybe = false; std::vector<M*> st(1, root); while (!st.empty()) { M* g = st.back(); st.pop_back(); if (g->used == 0) un = true; else if (g->used == 2) maybe = true; for (auto& k : g->kids) if (k.second->grp) st.push_back(k.second.get()); else if (k.second->used == 0) un = true; else if (k.second->used == 2) maybe = true; }
    if (un || !maybe) CHK(pg.anyUnused() == un, "anyUnused", cat(pg.anyUnused(), " expected ", un, ctx));
}
static void roundtrip(Rng& r, const ParameterGroup& pg, M* root, const S& ctx)
{
    std::map<S, S> want; flat(root, "", want); S t; { std::ostringstream o; pg.writeParamToStream(o); t = o.str(); } S file = "written.param"; { Catch q; try { pg.writeParam(file); } catch (const std::exception&) { CHK(false, "write-refused", ctx); return; } } CHK(slurp(file) == t, "file-differs-from-stream", ctx);
    std::map<S, S> got; std::istringstream is(t); S l; bool dup = false; size_t lines = 0; while (std::getline(is, l)) { ++lines; size_t e = l.find('='); if (!CHK(e != S::npos, "written-line", l + ctx)) continue; dup |= !got.insert(std::make_pair(l.substr(0, e), l.substr(e + 1))).second; } CHK(!dup, "written-twice", t + ctx);
    for (auto& w : want) { auto it = got.find(w.first); CHK(it != got.end() && it->second == w.second, "written-value", cat(w.first, " supplied '", w.second, "' written '", it == got.end() ? S("<missing>") : it->second, "'", ctx)); } for (auto& w : got) if (!want.count(w.first)) CHK(w.first.size() >= 6 && w.first.substr(w.first.size() - 6) == "/dummy", "written-extra", w.first + ctx);
    // reading it back yields the same set: every value that the file format can carry (no reserved characters, which are = // and line breaks)
    bool ok = true; for (auto& w : want) if (w.second.find('=') != S::npos || w.second.find("//") != S::npos || w.first.find("//") != S::npos) { ok = false; break; } if (!ok) { ev("unwritable_values"); return; } ev("roundtrips");
    ParameterGroup back; { Catch q; try { if (r.p(0.5)) back.readParam(file); else { const char* av[] = {"prog", "written.param"}; back = ParameterGroup(2, av); } } catch (const std::exception&) { CHK(false, "reread-refused", t + ctx); return; } } std::ostringstream o; back.writeParamToStream(o); CHK(o.str() == t, "rewritten-differs", cat("first\n", t, "second\n", o.str(), ctx)); back.disableOutput();
    for (auto& w : want) { S v; Catch q; try { v = back.get<S>(w.first.substr(1)); } catch (const std::exception&) { CHK(false, "reread-missing", w.first + ctx); continue; } CHK(v == w.second, "reread-value", cat(w.first, " '", v, "' expected '", w.second, "'", ctx)); ev("reread_values"); }
}
static void one(long k, Rng& r)
{
    (void)k; M model(true); Src src(r); SV argv(1, "prog"), fargs; std::vector<std::pair<S, S> > as; S ctx; mkdir("inc", 0755); mkdir("d", 0755);
    // files are read in order before the assignments, wherever they stand on the command line
    int nf = r.i(0, 3); for (int q = 0; q < nf; ++q) { bool xml = r.p(0.6); S dir = r.p(0.3) ? "d" : "", f = (dir.empty() ? S() : dir + "/") + cat("src", q, xml ? ".xml" : ".param"), t = xml ? write_xml(src, &model, dir, 0) : write_param(r, &model); spit(f, t); fargs.push_back(f); ctx += "\n--- " + f + "\n" + t; ev(xml ? "xml_files" : "param_files"); if (r.p(0.1)) fargs.push_back("ignored.txt"); }
    int na = r.i(0, 6); for (int q = 0; q < na; ++q) { S p = path(r), v = value(r, false); if (r.p(0.05)) v = "http://a//b"; if (is_param_over(&model, p)) continue; assign(&model, p, v); as.push_back(std::make_pair(p, v)); ev("command_line_assignments"); }
    { size_t a = 0, b = 0; while (a < fargs.size() || b < as.size()) if (b == as.size() || (a < fargs.size() && r.p(0.5))) argv.push_back(fargs[a++]); else { argv.push_back(as[b].first + "=" + as[b].second); ++b; if (r.p(0.03)) argv.push_back("x=y=z"); } } ctx += "\n--- arguments:"; for (size_t q = 1; q < argv.size(); ++q) ctx += " [" + argv[q] + "]"; sample(ctx);
    std::unique_ptr<ParameterGroup> pg; S err; { Catch q; try { if (r.p(0.5)) { std::vector<const char*> c; for (auto& s : argv) c.push_back(s.c_str()); c.push_back(0); pg.reset(new ParameterGroup((int)argv.size(), &c[0], argv.size() > 1 && r.p(0.5))); } else pg.reset(new ParameterGroup((int)argv.size(), argv, false)); } catch (const std::exception& e) { err = q.e.str() + e.what(); } } if (!CHK(pg.get() != 0, "refused", err + ctx)) return;
    if (r.p(0.3)) { int n = r.i(1, 4); Catch q; for (int z = 0; z < n; ++z) { S p = path(r), v = value(r, true); if (is_param_over(&model, p)) continue; pg->insertParameter(p, v); assign(&model, p, v); ctx += "\ninsertParameter " + p + " = " + v; ev("inserted"); } if (r.p(0.2)) { std::string f = "later.param", t = write_param(r, &model); spit(f, t); pg->readParam(f); ctx += "\nreadParam\n" + t; } if (r.p(0.3)) { S f = "later.xml", t = write_xml(src, &model, "", 0); spit(f, t); pg->readXML(f); ctx += "\nreadXML\n" + t; } }
    bool quiet = r.p(0.5); if (quiet) pg->disableOutput(); else if (r.p(0.3)) pg->enableOutput(); CHK(pg->isOutputEnabled() == !quiet, "output-flag", ctx);
    std::vector<M*> gs; SV names; all(&model, gs, names, ""); nontrivial(hstr(ctx)); if (r.p(0.3)) usage(*pg, &model, " (nothing requested)" + ctx);
    { for (auto& n : names) { bool h = false; try { h = pg->has(n); } catch (const std::exception&) { } CHK(h || n.find("//") != S::npos || n.empty() || n[n.size() - 1] == '/', "has", n + ctx); } for (int z = 0; z < 4; ++z) { S n = path(r); if (n[0] == '/' || n[n.size() - 1] == '/') continue; bool in = false; { M* g = &model; SV p = parts(n); for (size_t q = 0; g; ++q) { auto it = g->kids.find(p[q]); if (it == g->kids.end()) break; if (q + 1 == p.size()) { in = true; break; } g = it->second->grp ? it->second.get() : 0; } } bool h = false; try { h = pg->has(n); } catch (const std::bad_cast&) { h = false; } CHK(h == in, "has", cat(n, " ", h, " expected ", in, ctx)); ev("has_queries"); } }
    std::vector<std::pair<ParameterGroup, M*> > subs; int nq = r.i(3, 20); for (int z = 0; z < nq; ++z) {
        S nm = !names.empty() && r.p(0.7) ? names[r.i(0, (int)names.size() - 1)] : path(r); while (!nm.empty() && nm[0] == '/') nm.erase(0, 1); while (!nm.empty() && nm[nm.size() - 1] == '/') nm.erase(nm.size() - 1); if (nm.find("//") != S::npos || nm.empty()) continue;
        if (r.p(0.2)) { bool ok = true; ParameterGroup sub; { Catch q; try { sub = pg->getGroup(nm); } catch (const std::exception&) { ok = false; } } M* m = 0; int f = look(&model, nm, m); bool want = f == 0 && m->grp; CHK(ok == want, want ? "group-refused" : "group-for-parameter", nm + ctx); if (f == 0) { if (want) { m->used = 1; } else if (!m->used) m->used = 2; } if (ok && want) { ev("groups_fetched"); CHK(sub.path() == m->path, "group-path", cat(sub.path(), " expected ", m->path, ctx)); subs.push_back(std::make_pair(sub, m)); } continue; }
        if (!subs.empty() && r.p(0.4)) { std::pair<ParameterGroup, M*>& s = subs[r.i(0, (int)subs.size() - 1)]; if (r.p(0.5)) { std::vector<M*> g2; SV n2; all(s.second, g2, n2, ""); if (!n2.empty()) nm = n2[r.i(0, (int)n2.size() - 1)]; } else { size_t at = nm.rfind('/'); if (at != S::npos && r.p(0.6)) nm = nm.substr(at + 1); } if (nm.empty() || nm.find("//") != S::npos) continue; ask(r, s.first, s.second, nm, " in group " + s.second->path + ctx); ev("requests_in_groups"); }
        else ask(r, *pg, &model, nm, ctx);
    }
    usage(*pg, &model, ctx); if (r.p(0.5)) roundtrip(r, *pg, &model, ctx);
    // an unreadable source is reported
    if (r.p(0.15)) { int w = r.i(0, 5); S f = w < 2 ? w ? "missing.param" : "missing.xml" : "bad.xml"; const char* bad[] = {"<ParameterGroup><Unknown name=\"a\"/></ParameterGroup>", "<ParameterGroup><Parameter name=\"a\" type=\"int\" value=\"1\"></ParameterGroup>", "<ParameterGroup><MergeWithFile value=\"nowhere.xml\"/></ParameterGroup>", "<ParameterGroup><Parameter name=\"a\" type=\"int\" value=\"1\"/>"}; if (w >= 2) spit(f, bad[w - 2]); bool thrown = false; { Catch q; ParameterGroup g; try { if (w == 1) g.readParam(f); else g.readXML(f); } catch (const std::exception&) { thrown = true; } } CHK(thrown, "bad-source-accepted", w < 2 ? f : S(bad[w - 2])); ev("bad_sources"); }
}
int main(int argc, char** argv) { return run(argc, argv, "p33", one, 10); }
