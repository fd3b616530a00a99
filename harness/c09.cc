// C09: unique abbreviations resolve to the full command; others are refused
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C09";
const char *vf_rule = "a specification with overlapping keywords is generated; every keyword of a complete line is replaced by each of its prefixes (and, in case-insensitive mode, by other letter case) and matched; non-trivial = at least one prefix shorter than its keyword was tried; distinct by (specification, line, mode)";
void vf_init() { term_reset(); term_tty(false); }
static std::string recase(Case &c, std::string s) { int k = c.below(3); for (auto &ch : s) { bool up = k == 0 ? true : k == 1 ? false : c.flip(); ch = (char)(up ? toupper((unsigned char)ch) : tolower((unsigned char)ch)); } return s; }
static std::string join(const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += (s.empty() ? "" : " ") + x; return s; }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = false; o.nvars = c.below(4); o.cbs = false; o.help = false; o.sets = c.chance(20); o.rest = false; o.ranges = c.chance(20);
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(nullptr); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s); m.caseignore = c.chance(35); cligen_caseignore_set(r.h, m.caseignore); if (m.caseignore) c.note("case-insensitive");
    auto one = [&](const std::string &line, const Out *full) {
        Out out = m.match("T", line); if (out.unspec) return;
        Got g; real_match(r, "T", line, g); c.note("  '%s'", line.c_str()); compare_match(c, out, g, line);
        if (full && out.res == R_MATCH) {   /* metamorphic: the shortened line binds what some complete line binds: keywords are bound in full */
            for (size_t i = 1; i < g.binds.size(); i++) if (g.binds[i].konst) CHECK(c, g.binds[i].name == g.binds[i].v.s, "keyword", "'%s': keyword bound as %s", line.c_str(), show_binds(g.binds).c_str());
        }
        c.label(out.res == R_MATCH ? "resolved" : out.res == R_MULTI ? "several" : out.why == W_AMBIG ? "ambiguous" : "refused");
    };
    int n = 1 + c.below(4); bool nt = false;
    for (int i = 0; i < n; i++) {
        std::vector<std::string> w = gen_walk(c, m, "T"); if (w.empty()) continue;
        std::string line = join(w); Out full = m.match("T", line); if (full.unspec) continue;
        one(line, nullptr);
        if (full.res != R_MATCH || full.binds.size() != w.size() + 1) continue;
        std::vector<std::string> fw = w; std::vector<bool> kw(w.size(), false);
        for (size_t k = 0; k < w.size(); k++) { auto &b = full.binds[k + 1]; if (b.konst || (b.vd && !b.vd->choice.empty())) { kw[k] = true; fw[k] = b.v.s; } }
        for (size_t k = 0; k < w.size(); k++) if (kw[k]) for (size_t l = 1; l <= fw[k].size(); l++) {
            auto x = fw; x[k] = fw[k].substr(0, l); if (l < fw[k].size()) nt = true;
            one(join(x), &full);
            if (m.caseignore) { x[k] = recase(c, x[k]); one(join(x), &full); }
        }
        if (kw.size() > 1) { auto x = fw; for (size_t k = 0; k < w.size(); k++) if (kw[k]) { x[k] = fw[k].substr(0, 1 + c.below((uint32_t)fw[k].size())); if (m.caseignore || c.chance(10)) x[k] = recase(c, x[k]); } one(join(x), &full); }
    }
    if (nt) c.nontrivial(text + (m.caseignore ? "i" : "s"));
}
