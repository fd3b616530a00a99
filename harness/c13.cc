// C13: TAB completion only inserts what every continuation shares
// LINK: val.cc spec.cc
#include "spec.h"
extern "C" { int gl_setwidth(int); }
extern "C" { int gl_setwidth(int); }
using namespace vf;
extern "C" const char *vf_property_id = "C13";
const char *vf_rule = "a specification is generated and TAB pressed at random points of lines derived from it (cursor at the end or inside, repeatedly, under every completion mode, with and without case sensitivity, with another delimiter); the line, the cursor and the listing are compared with the alternatives the specification offers; non-trivial = something was inserted or at least two alternatives were listed; distinct by (specification, line, cursor, mode)";
void vf_init() { term_reset(); term_tty(false); }
static std::string lower(std::string s) { for (auto &ch : s) ch = (char)tolower((unsigned char)ch); return s; }
/* what one completion of the text before the cursor adds */
static std::string complete1(Matcher &m, const std::string &head, int mode, char delim, bool &unspec) {
    Out o = m.match("T", head, false); if (o.unspec) unspec = true;
    auto toks = split_line(head); std::string tok = toks.back().w; bool closed = !toks.back().rest.empty() && toks.back().rest[0] == '"' && (tok.empty() || tok[0] != '"');
    std::vector<std::string> cmds; for (auto &a : o.offers) { if (a.cmd) cmds.push_back(a.text); else if (mode & CLIGEN_TABMODE_VARS) return ""; }
    if (cmds.empty()) return "";
    std::string lcp = cmds[0]; bool same = true;
    for (auto &x : cmds) { std::string a = m.caseignore ? lower(lcp) : lcp, b = m.caseignore ? lower(x) : x; if ((m.caseignore ? lower(cmds[0]) : cmds[0]) != b) same = false; size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; lcp = lcp.substr(0, k); }
    if (closed && lcp.size() > tok.size()) return "";
    return lcp.substr(tok.size()) + (same ? std::string(1, delim) : "");
}
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.cbs = c.chance(10); o.sets = c.chance(25); o.help = c.chance(30); o.hide = c.chance(40); o.shows = true; o.ranges = c.flip(); o.rest = !o.ranges;
    if (c.chance(25)) { o.names = {"a", "ab", "b"}; for (int k = 1 + c.below(5); k > 0; k--) o.names.push_back(c.str("lm", 1, 1) + std::string((size_t)(c.flip() ? 17 + c.below(6) : 10 + c.below(70)), 'o') + c.str("xy", 0, 1)); }
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s); m.caseignore = c.chance(20); cligen_caseignore_set(r.h, m.caseignore);
    std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); HelpOpt ho; if (c.flip()) ho.width = c.flip() ? 21 + c.below(90) : c.pick(std::vector<int>{21, 22, 40, 41, 42, 43, 62, 63, 64, 84, 132}); cligen_terminal_width_set(r.h, ho.width);
    int mode = c.below(8); cligen_tabmode_set(r.h, mode); char delim = ' '; if (c.chance(5)) { delim = '/'; cligen_delimiter_set(r.h, delim); }
    c.note("width %d", ho.width); c.note("mode %d%s delimiter '%c'", mode, m.caseignore ? " ignoring case" : "", delim);
    int n = 1 + c.below(8);
    for (int i = 0; i < n; i++) {
        std::string line = gen_line(c, m, "T"); bool ok = true; for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') ok = false;
        if (!ok) continue;
        if (c.chance(60)) line = line.substr(0, c.below((uint32_t)line.size() + 1)); if (c.chance(20)) line += " ";
        if (c.chance(1) && line.size() < 200) line.insert(0, std::string(c.range(100, 260) - (int)line.size() > 0 ? c.range(1, 260) : 0, ' '));
        size_t back = c.chance(75) ? 0 : c.below((uint32_t)line.size() + 1), pos = line.size() - back;
        std::string buf = line; int tabs = 1 + c.below(3);
        std::vector<Step> st = {{line + std::string(back, '\x02')}}; for (int k = 0; k < tabs; k++) st.push_back({"\t"}); st.push_back({"~"});
        std::vector<std::pair<std::string, std::string>> want; bool unspec = false;
        for (int k = 0; k < tabs && !unspec; k++) {
            for (int g = 0; g < 20; g++) { std::string ins = complete1(m, buf.substr(0, pos), mode, delim, unspec); buf.insert(pos, ins); pos += ins.size(); if (ins.empty() || !(mode & CLIGEN_TABMODE_STEPS)) break; }
            { auto tk = split_line(buf); if (tk.back().w.empty() && !buf.empty() && buf.back() == '"') unspec = true; }
            if (m.match("T", buf, false).unspec || m.match("T", buf).unspec) unspec = true;
            want.push_back({buf, "\n" + (mode & CLIGEN_TABMODE_COLUMNS ? help_text(m, "T", buf, ho) : columns_text(m, "T", buf, ho))});
        }
        if (unspec) { c.label("unspecified"); continue; }
        c.note("TAB at '%s|%s'", line.substr(0, line.size() - back).c_str(), line.substr(line.size() - back).c_str());
        type_keys(r, st);
        for (int k = 0; k < tabs; k++) {
            std::string got = hook_output(st[k + 1].out, prompt);
            CHECK(c, st[k + 1].buf == want[k].first, "line", "TAB number %d at '%s|%s' gives '%s', expected '%s'", k + 1, line.substr(0, line.size() - back).c_str(), line.substr(line.size() - back).c_str(), esc(st[k + 1].buf).c_str(), esc(want[k].first).c_str());
            CHECK(c, got == want[k].second, "list", "TAB number %d at '%s|%s' lists:%s\nexpected:%s", k + 1, line.substr(0, line.size() - back).c_str(), line.substr(line.size() - back).c_str(), got.c_str(), want[k].second.c_str());
        }
        std::string marked = buf; marked.insert(pos, "~");
        CHECK(c, st[tabs + 1].buf == marked, "cursor", "after TAB at '%s|%s' typing ~ gives '%s', expected '%s'", line.substr(0, line.size() - back).c_str(), line.substr(line.size() - back).c_str(), st[tabs + 1].buf.c_str(), marked.c_str());
        c.label(buf != line ? (back ? "inserted inside" : "inserted") : "unchanged");
        if (buf != line || want[0].second.size() > 50) c.nontrivial(text + "\n" + line + sprintf_("%zu %d", back, mode));
    }
    gl_setwidth(80);
}
