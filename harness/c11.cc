// C11: overlapping alternatives are resolved by documented preference
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C11";
const char *vf_rule = "a specification whose levels mix keywords, choices and variables of many types, constraints and explicit preferences is generated in two statement orders; words fitting several alternatives are matched under one of the four preference modes, interleaved with other lines, in both orders; non-trivial = at least one line where a matching alternative was passed over by preference or the result was ambiguous; distinct by (specification, mode, line)";
void vf_init() { term_reset(); term_tty(false); }
static void shuffle(Case &c, std::vector<Stmt> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below((uint32_t)i)]); for (auto &s : v) shuffle(c, s.kids); }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.nvars = 2 + c.below(7); o.cbs = false; o.help = false; o.prefs = c.flip(); o.width = 5; o.depth = 2; o.seqlen = 2; o.groups = c.flip(); o.options = false; o.sets = c.chance(15);
    if (c.flip()) { static const std::vector<std::vector<enum cv_type>> G = {{CGV_INT32, CGV_UINT32, CGV_INT8, CGV_UINT8, CGV_INT64, CGV_UINT64, CGV_INT16, CGV_UINT16, CGV_DEC64, CGV_STRING}, {CGV_STRING, CGV_BOOL, CGV_INTERFACE, CGV_REST, CGV_STRING, CGV_STRING}, {CGV_IPV4ADDR, CGV_IPV4PFX, CGV_IPV6ADDR, CGV_IPV6PFX, CGV_MACADDR, CGV_UUID, CGV_URL, CGV_TIME, CGV_STRING, CGV_REST}}; o.types = c.pick(G); }
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    Spec s2; s2.vars = s.vars; TreeText t2 = t; shuffle(c, t2.stmts); s2.texts.push_back(t2);
    std::string text = s.render(nullptr), text2 = s2.render(nullptr); c.note("%s", text.c_str());
    Real r2; CHECK(c, r2.load(text2) == 0, "spec", "specification refused:\n%s\n%s", text2.c_str(), err_out.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); r2.active("T"); Matcher m(s); bool nt = false;
    int n = 1 + c.below(8);
    for (int i = 0; i < n; i++) {
        m.prefmode = c.below(4); cligen_preference_mode_set(r.h, m.prefmode); cligen_preference_mode_set(r2.h, m.prefmode);
        std::string line = gen_line(c, m, "T"), tl = trim_line(line); if (tl.empty()) continue;
        Out out = m.match("T", tl); if (out.unspec) { c.label("unspecified"); continue; }
        c.note("mode %d line '%s'", m.prefmode, line.c_str());
        Got g; real_match(r, "T", line, g); compare_match(c, out, g, line);
        Got g2; real_match(r2, "T", line, g2);
        CHECK(c, g.res == g2.res && (g.res != CG_NOMATCH || g.reason == g2.reason || g.reason != "Incomplete command"), "order", "mode %d '%s': result %d (%s), with statements in another order %d (%s)\n%s", m.prefmode, line.c_str(), g.res, g.reason.c_str(), g2.res, g2.reason.c_str(), text2.c_str());
        if (g.res == CG_MATCH) CHECK(c, show_binds(g.binds) == show_binds(g2.binds), "order", "mode %d '%s': bound %s, with statements in another order %s\n%s", m.prefmode, line.c_str(), show_binds(g.binds).c_str(), show_binds(g2.binds).c_str(), text2.c_str());
        if (out.prefused) { nt = true; c.label("preference decided"); } if (out.res == R_MULTI) { nt = true; c.label("several"); } if (out.why == W_AMBIG && out.res == R_NONE) { nt = true; c.label("ambiguous"); }
    }
    if (nt) c.nontrivial(text);
}
