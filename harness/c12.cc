// C12: set members can be given in any order, each at most once
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C12";
const char *vf_rule = "two kinds: (a) a flat set of keyword members, some followed by a value of its own, some optional blocks after it, typed in random orders, subsets, abbreviations and with repetitions, against the definition of the property; (b) a specification dense in nested sets, lines derived from it and their mutations against the reference matcher, and '?' at every word boundary against the unused members; non-trivial = a set with at least two words inside it was typed; distinct by (specification, line)";
void vf_init() { term_reset(); term_tty(false); }
struct Mem { std::string key, val; int vt; };   /* vt: 0 none, 1 int, 2 string, 3 choice */
static std::string join(const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += (s.empty() ? "" : " ") + x; return s; }
static void flat(Case &c) {
    static const std::vector<std::string> K = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"};
    int n = 2 + c.below(5), outer = c.below(3); std::vector<Mem> ms; std::string text = outer == 0 ? "cmd" : outer == 1 ? "cmd;" : "cmd sub"; bool deep = c.chance(25);
    text += deep ? "{ in @{\n" : "@{\n";
    for (int i = 0; i < n; i++) { Mem m; m.key = K[i]; m.vt = c.below(4); std::string v = m.vt == 1 ? sprintf_(" <n%d:int32>", i) : m.vt == 2 ? sprintf_(" <s%d:string>", i) : m.vt == 3 ? sprintf_(" <c%d:string choice:one|two>", i) : ""; text += "  " + m.key + v + ", cb" + std::to_string(i) + "(\"" + m.key + "\");\n"; ms.push_back(m); }
    text += deep ? "}}\n" : "}\n"; text += "other;\n";
    Real r; c.note("%s", text.c_str()); CHECK(c, r.load("treename=\"T\";\n" + text) == 0, "spec", "specification refused: %s", err_out.c_str()); r.active("T");
    for (int q = 1 + c.below(4); q > 0; q--) {
        std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[c.below(i)]); ord.resize(c.below(n + 1));
        int rep = -1; if (ord.size() && c.chance(30)) { rep = ord[c.below((uint32_t)ord.size())]; size_t at = 1 + c.below((uint32_t)ord.size()); size_t first = std::find(ord.begin(), ord.end(), rep) - ord.begin(); if (at <= first) at = first + 1; ord.insert(ord.begin() + (long)at, rep); }
        std::vector<std::string> w = {"cmd"}; std::vector<std::string> full = {"cmd"}; if (outer == 2) w.push_back("sub"); if (deep) w.push_back("in"); std::vector<std::pair<std::string, std::string>> want; for (auto &x : w) want.push_back({x, x});
        for (int i : ord) { std::string k = ms[i].key; if (c.chance(25) && k != "eps" && k != "eta" && k != "zeta") k = k.substr(0, 1 + c.below((uint32_t)k.size() - 1)); /* first letters differ except e- */ if (k[0] == 'e' && k.size() < 3) k = ms[i].key; w.push_back(k); want.push_back({ms[i].key, ms[i].key}); if (ms[i].vt) { std::string v = ms[i].vt == 1 ? std::to_string(c.range(-5, 99)) : ms[i].vt == 2 ? c.pickc({"x", "alpha", "beta", "zz"}) : c.pickc({"one", "two"}); w.push_back(v); want.push_back({sprintf_("%c%d", ms[i].vt == 1 ? 'n' : ms[i].vt == 2 ? 's' : 'c', i), v}); } }
        std::string line = join(w); c.note("'%s'%s", line.c_str(), rep >= 0 ? " (a member is repeated)" : "");
        Got g; real_match(r, "T", line, g);
        bool empty = ord.empty(), ok = rep < 0 && (!empty || (outer == 1 && !deep));
        CHECK(c, g.rc == 0, "error", "'%s': error", line.c_str());
        CHECK(c, (g.res == CG_MATCH) == ok, "accept", "'%s': %s (%s), expected it %s", line.c_str(), g.res == CG_MATCH ? "accepted" : "refused", g.reason.c_str(), ok ? "accepted" : "refused");
        if (empty && !ok) CHECK(c, g.reason == "Incomplete command", "reason", "'%s': refused as '%s'", line.c_str(), g.reason.c_str());
        if (ok) {
            CHECK(c, g.binds.size() == want.size() + 1, "values", "'%s' bound %s", line.c_str(), show_binds(g.binds).c_str());
            for (size_t i = 0; i < want.size(); i++) { auto &b = g.binds[i + 1]; CHECK(c, b.name == want[i].first && (b.v.t == CGV_INT32 ? std::to_string(b.v.i) : b.v.s) == want[i].second, "values", "'%s' bound %s", line.c_str(), show_binds(g.binds).c_str()); }
            r.calls.clear(); CHECK(c, cligen_eval(r.h, g.co, g.cvv) == 0, "eval", "evaluation failed");
            if (!empty) { int l = ord.back(); CHECK(c, r.calls.size() == 1 && r.calls[0].compare(0, 4 + ms[l].key.size(), "cb" + std::to_string(l) + "(" + ms[l].key) == 0, "callback", "'%s': called %s", line.c_str(), r.calls.empty() ? "nothing" : r.calls[0].c_str()); }
        }
        c.label(rep >= 0 ? "flat: repeated" : ok ? "flat: accepted" : "flat: empty"); if (ord.size() > 1) c.nontrivial(text + line);
        if (rep < 0 && c.flip()) {   /* unused members are what '?' offers */
            std::vector<Step> st = {{line + " "}, {"?"}}; std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); type_keys(r, st);
            std::set<std::string> got, exp; std::string o = hook_output(st[1].out, prompt); size_t p = 0; bool cr = false;
            while (p < o.size()) { size_t e = o.find('\n', p); if (e == std::string::npos) e = o.size(); std::string l = trim_line(o.substr(p, e - p), '\1'); if (l == "<cr>") cr = true; else if (!l.empty()) got.insert(l); p = e + 1; }
            for (int i = 0; i < n; i++) if (std::find(ord.begin(), ord.end(), i) == ord.end()) exp.insert(ms[i].key);
            if (empty && !deep && outer != 1) {} std::string gs, es; for (auto &x : got) gs += x + " "; for (auto &x : exp) es += x + " ";
            CHECK(c, got == exp, "offers", "help after '%s ' offers %s, unused members are %s", line.c_str(), gs.c_str(), es.c_str());
            CHECK(c, cr == ok, "offers", "help after '%s ' %s <cr>", line.c_str(), cr ? "offers" : "lacks");
        }
    }
}
void vf_case(Case &c) {
    term_reset();
    if (c.chance(40)) { flat(c); return; }
    Spec s; GenOpt o; o.alltypes = false; o.nvars = c.below(5); o.cbs = c.chance(20); o.sets = true; o.denseset = true; o.help = false; o.depth = 3; o.hide = c.chance(15); o.ranges = c.chance(30); o.rest = !o.ranges;
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s); std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); HelpOpt ho; cligen_terminal_width_set(r.h, 80);
    int n = 1 + c.below(8);
    for (int i = 0; i < n; i++) {
        std::string line = gen_line(c, m, "T"), tl = trim_line(line); if (tl.empty()) continue;
        Out out = m.match("T", tl); if (out.unspec) { c.label("unspecified"); continue; }
        c.note("line '%s' expected %s why %d: %s", line.c_str(), out.res == R_MATCH ? "match" : out.res == R_MULTI ? "multiple" : "none", out.why, show_binds(out.binds).c_str());
        Got g; real_match(r, "T", line, g); compare_match(c, out, g, line);
        if (out.setsused) { c.label(out.res == R_MATCH ? "set: accepted" : out.refused ? "set: repeated" : "set: refused"); if (out.words > 2) c.nontrivial(text + "\n" + line); }
        bool ok = out.setsused; for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') ok = false;
        if (ok) {
            if (c.flip()) line = line.substr(0, c.below((uint32_t)line.size() + 1)); if (c.flip()) line += " ";
            if (split_line(line).back().w.empty() && !line.empty() && line.back() == '"') continue;
            if (m.match("T", line, false).unspec || m.match("T", line).unspec) continue;
            bool tab = c.flip(); cligen_tabmode_set(r.h, CLIGEN_TABMODE_VARS); c.note("%s at '%s'", tab ? "TAB" : "help", line.c_str());
            std::vector<Step> st = {{line}, {tab ? "\t" : "?"}}; type_keys(r, st); if (tab && st[1].buf != line) continue;
            std::string want = "\n" + (tab ? columns_text(m, "T", line, ho) : help_text(m, "T", line, ho)), got = hook_output(st[1].out, prompt);
            CHECK(c, got == want, "offers", "%s at '%s' shows:%s\nexpected:%s", tab ? "TAB" : "help", line.c_str(), got.c_str(), want.c_str());
        }
    }
}
