// C27: dynamically expanded alternatives behave like declared keywords
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C27";
const char *vf_rule = "specifications with expansion functions (with arguments, several at one point, beside keywords and typed variables, translated, with callbacks) whose results are generated strings - blanks, tabs, question marks, backslashes, punctuation, letters outside ASCII, shared prefixes, prefixes of each other, duplicates, with all, some or no help texts, escaped as the library's escape functions say - and change between queries; lines are matched (full words, abbreviations, other words, ignoring case) against a reference matcher given the same results; what every call of a function received is compared with the specification and the line; results are typed in abbreviation, completed by TAB and entered, and must bind the original string; functions fail; non-trivial = a result was bound that needed escaping or was reached by abbreviation or completion; distinct by specification, results and line";
void vf_init() { term_reset(); term_tty(false); }
using Table = std::vector<std::pair<std::string, std::string>>;
struct Restore { decltype(expand_table) old = expand_table; ~Restore() { expand_table = old; } };
static std::string raw_word(Case &c, int style) {
    switch (style) {
    case 0: return c.str("abcde", 1, 6);
    case 1: { std::string s = c.str("ab c?\\", 1, 8); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s.empty() ? "q" : s; }
    case 2: return c.pickc({"eth0", "eth0/1", "eth 0", "eth", "lo0", "10.0.0.1", "a:b", "x?", "?", "\\", "a\\", "\\d", "c:\\temp dir", "why not?", "\xc3\xa5\xc3\xa4", "f(x)", "a|b", "x;y", "<v>", "{1}", "*", "-1", "a=b", "it's", "50%", "%s", "a\tb", "!", "~", "$HOME", "a,b", "tail ", "two  blanks", "c++", "[a]", "\\?", "\\\\"});
    default: { std::string s(1, "abcxyz0123"[c.below(10)]); for (int i = c.below(10); i > 0; i--) { static const char al[] = "abz019 -_./:?\\'*+|;,<>()[]{}=!$&@~^%\xc3"; s += al[c.below(sizeof al - 1)]; } for (size_t i = 0; i < s.size(); i++) if (s[i] == '\xc3') s.insert(++i, 1, "\xb6\xa4\x89"[c.below(3)]); return s; }
    }
}
static std::string offered(const std::string &raw) { if (cligen_escape_need(raw.c_str()) != 1) return raw; char *e = cligen_escape_do(raw.c_str()); std::string s = e ? e : ""; lib_free(e); return s; }
static bool keyable(const std::string &l, bool utf8) { if (!utf8) for (unsigned char ch : l) if (ch > 126) return false; if (!l.empty() && l.back() == '\xc3') return false; for (size_t i = 0; i < l.size(); i++) { unsigned char ch = (unsigned char)l[i]; if (ch < 32 || ch == 127) return false; } return true; }
static std::string keys_for(const std::string &l) { std::string k; for (char ch : l) { if (ch == '\\' || ch == '?') k += '\\'; k += ch; } return k; }
void vf_case(Case &c) {
    term_reset(); Restore restore;
    if (c.chance(5)) {   /* the escape functions themselves */
        std::string w = raw_word(c, c.below(4)); int need = cligen_escape_need(w.c_str()), want = w.find_first_of("? \t\\") != std::string::npos; CHECK(c, need == want, "need", "cligen_escape_need('%s') is %d", esc(w).c_str(), need); std::string q = "\""; for (char ch : w) { if (ch == '?' || ch == '\\') q += '\\'; q += ch; } q += '"';
        char *e = cligen_escape_do(w.c_str()); std::string got = e ? e : "(null)"; lib_free(e); CHECK(c, got == q, "escape", "cligen_escape_do('%s') is '%s', expected '%s'", esc(w).c_str(), esc(got).c_str(), esc(q).c_str()); CHECK(c, cligen_escape_need(q.c_str()) == 0, "again", "'%s' needs escaping again", esc(q).c_str()); c.label("escape function"); c.nontrivial(w); c.done(); }
    Spec s; GenOpt o; o.alltypes = c.chance(30); o.nvars = 1 + c.below(6); o.expand = true; o.choices = c.chance(30); o.sets = c.chance(20); o.help = c.chance(50); o.hide = c.chance(20); o.translate = c.chance(30); o.ranges = false; o.rest = c.chance(30); o.manycbs = false; o.depth = 2 + c.below(2);
    gen_vars(c, s, o); int nexp = 0; for (auto &v : s.vars) if (v.t == CGV_STRING && v.choice.empty() && v.pats.empty() && v.expand.empty() && c.chance(60)) { v.expand = "exp" + std::to_string(c.below(4)); if (c.chance(70)) for (int k = 1 + c.below(3); k > 0; k--) v.eargs.push_back(c.str("abx 1./", 1, 4)); }
    for (auto &v : s.vars) if (!v.expand.empty()) nexp++; if (!nexp) c.done();
    TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote(); std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str()); r.active("T"); Matcher m(s); m.caseignore = c.chance(10); cligen_caseignore_set(r.h, m.caseignore); cligen_prompt_set(r.h, (char *)"%~> "); cligen_terminal_width_set(r.h, 120); bool utf8 = c.flip(); cligen_utf8_set(r.h, utf8);
    std::map<std::string, Table> tab; std::map<std::string, std::string> raw; std::string trace = text;
    auto fill = [&]() {
        tab.clear(); raw.clear(); std::vector<std::string> pool; int style = c.below(4);
        for (auto &v : s.vars) if (!v.expand.empty()) {
            std::string key = show_cb(v.expand, v.eargs); if (tab.count(key)) continue; Table &tb = tab[key]; int n = c.below(c.chance(10) ? 12 : 5), helps = c.below(3); std::set<std::string> mine;
            for (int i = 0; i < n; i++) { std::string w = !pool.empty() && c.chance(20) ? c.pick(pool) : !pool.empty() && c.chance(20) ? c.pick(pool) + raw_word(c, style) : raw_word(c, style); if (w.find('"') != std::string::npos || w[0] == '#') continue; if (mine.count(w) && !c.chance(20)) continue; bool again = mine.count(w); mine.insert(w); pool.push_back(w); std::string of = offered(w), help = again || (helps == 2 && c.chance(10)) ? "" : helps == 0 || (helps == 1 && i > n / 2) ? "\1" : "help of " + std::to_string(i) + (c.chance(20) ? "\nsecond line" : "");
                if (again) { for (auto &p : tb) if (p.first == of) help = p.second; } if (help != "\1" && !tb.empty() && tb.back().second == "\1") help = "\1"; raw[of] = w; tb.push_back({of, help}); }
            c.note("%s gives:", key.c_str()); for (auto &p : tb) c.note("   '%s' = '%s' %s", esc(p.first).c_str(), esc(raw[p.first]).c_str(), p.second == "\1" ? "" : esc(p.second).c_str()); for (auto &p : tb) trace += p.first + "\n";
        } };
    auto look = [&](const std::string &fn, const std::vector<std::string> &a) { auto i = tab.find(show_cb(fn, a)); Table u; std::set<std::string> seen; if (i != tab.end()) for (auto &p : i->second) if (seen.insert(p.first).second) u.push_back(p); return u; };
    expand_table = look; std::string bad;
    r.on_expand = [&](const std::string &fn, const std::vector<std::string> &a, cvec *) { auto i = tab.find(show_cb(fn, a)); if (i == tab.end()) { bad = show_cb(fn, a); return Table(); } return i->second; };
    fill(); int n = 2 + c.below(8); bool nontriv = false;
    for (int q = 0; q < n; q++) {
        if (c.chance(25)) fill();
        std::string line = trim_line(gen_line(c, m, "T")); if (line.empty() || line.find('\n') != std::string::npos || (line.find('"') != std::string::npos && line.find("\\ ") != std::string::npos)) continue; Out want = m.match("T", line);
        c.note("line '%s'", esc(line).c_str()); trace += line + "\n"; r.ecalls.clear(); bad.clear(); 
        Got g; real_match(r, "T", line, g); CHECK(c, bad.empty(), "args", "expansion function called as %s, which is in no variable", bad.c_str());
        if (want.unspec) { c.label("unspecified"); continue; }
        compare_match(c, want, g, line);
        if (want.res == R_MATCH) {
            /* every call was given the values of the words before it */
            std::vector<Bind> vars; for (size_t i = 0; i < want.binds.size(); i++) if (i == 0 || !want.binds[i].konst) vars.push_back(want.binds[i]); std::set<std::string> pre; for (size_t k = 1; k <= vars.size(); k++) { std::vector<Bind> p(vars.begin(), vars.begin() + (long)k); pre.insert(show_binds(p)); }
            for (auto &e : r.ecalls) { size_t b = e.find(" {"); std::string got = e.substr(b + 2, e.size() - b - 3); CHECK(c, o.sets || pre.count(got), "values", "expansion function %s was given the values {%s}, the line binds {%s}", e.substr(0, b).c_str(), got.c_str(), show_binds(vars).c_str()); }
            auto toks = split_line(line); size_t ti = 0;
            for (size_t i = 1; i < want.binds.size(); i++, ti++) { auto &b = want.binds[i]; if (!b.vd || b.vd->expand.empty() || ti >= toks.size()) continue; std::string key = show_cb(b.vd->expand, b.vd->eargs); bool called = false; std::vector<Bind> before; for (size_t k = 0; k < i; k++) if (k == 0 || !want.binds[k].konst) before.push_back(want.binds[k]); std::string call = key + " {" + show_binds(before) + "}"; for (auto &e : r.ecalls) called = called || (o.sets ? e.compare(0, key.size(), key) == 0 : e == call); CHECK(c, called, "called", "a result was accepted but there was no call %s", call.c_str());
                c.label("result accepted"); if (b.vd->translate.empty()) for (auto &p : tab[key]) if (raw[p.first] == b.v.s && (p.first != b.v.s || toks[ti].w.size() < p.first.size())) { nontriv = true; c.label(p.first != b.v.s ? "escaped result" : "abbreviated result"); } }
        } else c.label("refused");
        if (!want.unspec && c.chance(8)) {   /* a failing function is reported; nothing else changes */
            r.on_expand = [&](const std::string &fn, const std::vector<std::string> &a, cvec *) { auto i = tab.find(show_cb(fn, a)); return i == tab.end() ? Table() : i->second; }; r.expand_fail = true; r.ecalls.clear(); Got g2; real_match(r, "T", line, g2); r.expand_fail = false;
            CHECK(c, r.ecalls.empty() || g2.rc < 0 || g2.res == CG_ERROR, "failing", "the expansion function failed, matching gives %d result %d", g2.rc, g2.res); c.label(r.ecalls.empty() ? "no function to fail" : "failing function"); Got g3; real_match(r, "T", line, g3); compare_match(c, want, g3, line);
            r.on_expand = [&](const std::string &fn, const std::vector<std::string> &a, cvec *) { auto i = tab.find(show_cb(fn, a)); if (i == tab.end()) { bad = show_cb(fn, a); return Table(); } return i->second; };
        }
        /* help lists the results with their help texts */
        if (c.chance(40)) {
            std::string l = line.substr(0, c.flip() ? line.size() : c.below((uint32_t)line.size() + 1)); if (c.chance(30)) l += " ";
            if (keyable(l, false) && !l.empty() && l.back() != '"' && l.back() != '\\' && l.find("\\ ") == std::string::npos && !m.match("T", l, false).unspec && !m.match("T", l).unspec) {
                HelpOpt ho; ho.width = 120; std::vector<Step> st = {{keys_for(l)}, {"?"}}; type_keys(r, st); int en = 0; std::string w = "\n" + help_text(m, "T", l, ho, &en), got = hook_output(st[1].out, "%~> "); CHECK(c, bad.empty(), "args", "expansion function called as %s, which is in no variable", bad.c_str());
                CHECK(c, got == w, "help", "help at '%s' shows:%s\nexpected:%s", esc(l).c_str(), got.c_str(), w.c_str()); c.label(en ? "help" : "help: nothing");
            }
        }
        /* completion: each result is reached from an abbreviation and, entered, binds the original string */
        auto toks = split_line(line); if (want.res != R_MATCH || !c.chance(60) || m.caseignore) continue; size_t k = c.below((uint32_t)toks.size()); std::string head; for (size_t i = 0; i < k; i++) head += toks[i].w + " "; Out at = m.match("T", head, false); if (at.unspec || !keyable(head, utf8) || trim_line(head + "x") != head + "x") continue;
        std::vector<const Alt *> res; for (auto &a : at.offers) if (a.cmd && a.derived && raw.count(a.text)) res.push_back(&a); if (res.empty()) continue; const Alt &a = *c.pick(res); const std::string orig = raw[a.text];
        for (size_t len = c.below((uint32_t)a.text.size() + 1); len <= a.text.size(); len++) {
            std::string typed = a.text.substr(0, len), l = head + typed; if (!keyable(l, utf8) || (!typed.empty() && typed.back() == '\\') || trim_line(l) != trim_line(l + "x").substr(0, trim_line(l).size())) continue; Out u = m.match("T", l, false); if (u.unspec || u.offers.size() != 1 || u.offers[0].text != a.text) continue; if (typed.size() > 1 && typed[0] == '"' && typed.back() == '"') continue;
            if (a.text[0] != '"' && typed.find_first_of(" \t") != std::string::npos) break;
            std::vector<Step> st = {{keys_for(l)}, {"\t"}, {"\n"}}; std::string entered; type_keys(r, st, &entered); CHECK(c, st[1].buf == head + a.text + " ", "complete", "TAB at '%s' gives '%s', should complete to '%s '", esc(l).c_str(), esc(st[1].buf).c_str(), esc(head + a.text).c_str());
            Out w2 = m.match("T", trim_line(entered)); Got g4; real_match(r, "T", trim_line(entered), g4); if (w2.unspec) break; compare_match(c, w2, g4, entered);
            if (w2.res == R_MATCH) { const VarDef *vd = w2.binds.back().vd; if (vd && vd->translate.empty() && !vd->expand.empty()) { CHECK(c, g4.binds.size() && g4.binds.back().v.s == orig, "original", "the result '%s' offered as '%s' binds '%s'", esc(orig).c_str(), esc(a.text).c_str(), g4.binds.empty() ? "" : esc(g4.binds.back().v.s).c_str()); c.label("completed and entered"); nontriv = true; } }
            else c.label("completed"); break;
        }
    }
    if (nontriv) c.nontrivial(trace);
}
