// C14: help lists exactly what can be typed next
// LINK: val.cc spec.cc
#include "spec.h"
extern "C" { int gl_setwidth(int); }
using namespace vf;
extern "C" const char *vf_property_id = "C14";
const char *vf_rule = "a specification with help texts (several lines), hidden statements, sets and choices is generated; at every kind of point of a line (complete word, part of a word, after a blank, in mutated lines) '?' is typed under random width, truncation and line settings and the listing compared with the alternatives the specification offers there; non-trivial = the listing has an entry; distinct by (specification, line, settings)";
void vf_init() { term_reset(); term_tty(false); }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.cbs = c.chance(20); o.sets = c.chance(25); o.help = c.chance(80); o.hide = c.flip(); o.shows = true; o.longhelp = c.flip(); o.ranges = c.flip(); o.rest = !o.ranges; /* a constrained rest variable sees the blank before the cursor: not specified */
    if (c.chance(25)) { o.names = {"a", "ab", "b"}; for (int k = 1 + c.below(5); k > 0; k--) o.names.push_back(c.str("lm", 1, 1) + std::string((size_t)(c.flip() ? 17 + c.below(6) : 10 + c.below(70)), 'o') + c.str("xy", 0, 1)); }
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s); m.caseignore = c.chance(15); cligen_caseignore_set(r.h, m.caseignore);
    std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str());
    HelpOpt ho; if (c.flip()) { ho.lines = c.below(3); ho.truncate = c.flip(); ho.width = c.flip() ? 80 : 30 + c.below(80); }
    cligen_terminal_width_set(r.h, ho.width); cligen_helpstring_lines_set(r.h, ho.lines); cligen_helpstring_truncate_set(r.h, ho.truncate);
    c.note("width %d lines %d truncate %d", ho.width, ho.lines, ho.truncate);
    int n = 1 + c.below(8);
    for (int i = 0; i < n; i++) {
        std::string line = gen_line(c, m, "T"); bool ok = true; for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') ok = false;
        if (!ok) continue;
        size_t k = c.flip() ? line.size() : c.below((uint32_t)line.size() + 1); line = line.substr(0, k); if (c.chance(30)) line += " ";
        if (split_line(line).back().w.empty() && !line.empty() && line.back() == '"') continue;   /* an empty quoted last word: not specified */
        if (m.match("T", line, false).unspec || m.match("T", line).unspec) { c.label("unspecified"); continue; }
        std::vector<Step> st = {{line}, {"?"}}; type_keys(r, st);
        int en = 0; std::string want = "\n" + help_text(m, "T", line, ho, &en), got = hook_output(st[1].out, prompt);
        c.note("help at '%s'", line.c_str());
        CHECK(c, got == want, "help", "help at '%s' shows:%s\nexpected:%s", line.c_str(), got.c_str(), want.c_str());
        CHECK(c, st[1].buf == line, "line", "help at '%s' changed the line to '%s'", line.c_str(), st[1].buf.c_str());
        c.label(en == 0 ? (want.size() > 1 ? "<cr> only" : "nothing") : want.find("  <cr>") == 1 ? "entries and <cr>" : "entries");
        if (en) c.nontrivial(text + "\n" + line + sprintf_("%d %d %d", ho.width, ho.lines, ho.truncate));
    }
    gl_setwidth(80);
}
