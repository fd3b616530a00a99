// C08: a specification accepts exactly the command lines it describes
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C08";
const char *vf_rule = "a specification is generated (sequences, groups, choices, options, nested blocks, keyword sets, typed variables with constraints), written with random layout, parsed, and lines derived from it (complete, mutated, abbreviated) are matched; non-trivial = the line has at least two words and the specification at least three nodes; distinct by (specification, line)";
void vf_init() { term_reset(); term_tty(false); }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(5); o.cbs = c.flip(); o.sets = c.chance(25); o.help = c.chance(30);
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s);
    int n = 1 + c.below(8);
    for (int i = 0; i < n; i++) {
        std::string line = gen_line(c, m, "T"), tl = trim_line(line); if (tl.empty()) continue;
        Out out = m.match("T", tl); if (out.unspec) { c.label("unspecified"); continue; }
        c.note("line '%s' expected %s why %d: %s", line.c_str(), out.res == R_MATCH ? "match" : out.res == R_MULTI ? "multiple" : "none", out.why, show_binds(out.binds).c_str());
        Got g; real_match(r, "T", line, g); compare_match(c, out, g, line);
        c.label(out.res == R_MATCH ? "accepted" : out.res == R_MULTI ? "several" : out.why == W_INCOMPLETE ? "incomplete" : "unknown");
        if (out.words > 1 && s.trees["T"]->root.kids.size() + s.vars.size() > 2) c.nontrivial(text + "\n" + line);
    }
}
