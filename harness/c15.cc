// C15: a tree reference behaves as the referenced tree written in place
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C15";
const char *vf_rule = "several trees that refer to each other (after words, in blocks, at the top of a tree, recursively, forwards, with callbacks, filters and labels) are generated; lines derived from them are matched, evaluated, completed and asked help for while switching between the trees, against the reference matcher, which treats a reference as the tree written in place; at the end every tree prints as it did at first; non-trivial = a word of an accepted line was matched through a reference; distinct by (specification, line)";
void vf_init() { term_reset(); term_tty(false); }
static std::map<std::string, std::string> renamed; static int asked, badasked;
static int resolver(cligen_handle, char *name, cvec *cvt, void *arg, char **namep) { asked++; if (arg != &renamed || !name) badasked++; auto i = renamed.find(name); if (i == renamed.end()) return 0; *namep = strdup(i->second.c_str()); return 1; }
static std::string dump(Real &r, const std::string &t) { return pt_dump(r.pt(t)); }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = c.chance(30); o.nvars = c.below(4); o.cbs = c.chance(70); o.manycbs = false; o.sets = c.chance(20); o.help = c.chance(30); o.refs = true; o.labels = c.chance(50); o.hide = c.chance(20); o.depth = 2; o.ranges = c.chance(30); o.rest = !o.ranges; o.translate = c.chance(15); o.names = {"a", "b", "ab", "abc", "show", "set", "x", "x1"};
    gen_vars(c, s, o); const std::vector<std::string> TN = c.flip() ? std::vector<std::string>{"T", "A", "B", "C"} : std::vector<std::string>{"T", "T1", "T12", "t"}; int nt = 2 + c.below(3); bool caseful = c.flip(), leftrec = c.chance(20);
    for (int i = 0; i < nt; i++) { o.names = caseful ? std::vector<std::string>{TN[i] + "1", TN[i] + "2", TN[i] + "12", "com", TN[i] + "x"} : o.names; o.reftrees = std::vector<std::string>(TN.begin(), TN.begin() + nt); o.topreftrees = std::vector<std::string>(TN.begin() + (leftrec ? 0 : i + 1), TN.begin() + nt); TreeText t; t.name = TN[i]; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); }
    if (c.flip()) std::reverse(s.texts.begin(), s.texts.end());
    s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    std::map<std::string, std::string> first; for (int i = 0; i < nt; i++) first[TN[i]] = dump(r, TN[i]);
    Matcher m(s); renamed.clear(); asked = badasked = 0;
    if (c.chance(20)) { /* the application chooses the trees */
        for (int i = 0; i < nt; i++) if (c.flip()) renamed[TN[i]] = TN[c.below(nt)]; m.resolve = renamed; cligen_tree_resolve_wrapper_set(r.h, resolver, &renamed); for (auto &x : renamed) c.note("references to %s give %s", x.first.c_str(), x.second.c_str()); }
    std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); HelpOpt ho; cligen_terminal_width_set(r.h, 80);
    int n = 1 + c.below(8); std::string tree = "T"; r.active(tree);
    for (int i = 0; i < n; i++) {
        if (c.chance(25)) { tree = TN[c.below(nt)]; r.active(tree); }
        std::string line = gen_line(c, m, tree), tl = trim_line(line); if (tl.empty()) continue;
        Out out = m.match(tree, tl); if (out.unspec) { c.label("unspecified"); continue; }
        c.note("tree %s line '%s' expected %s why %d: %s", tree.c_str(), line.c_str(), out.res == R_MATCH ? "match" : out.res == R_MULTI ? "multiple" : "none", out.why, show_binds(out.binds).c_str());
        Got g; real_match(r, tree, line, g); compare_match(c, out, g, line);
        if (g.res == CG_MATCH && !out.cbunspec) {
            r.calls.clear(); cligen_eval(r.h, g.co, g.cvv); std::string got, want; for (auto &x : r.calls) got += x + "\n"; for (auto &x : cb_strings(out.cbs)) want += x + " {" + show_binds(out.binds) + "}\n";
            CHECK(c, got == want, "callbacks", "'%s' in tree %s called:\n%sexpected:\n%s", line.c_str(), tree.c_str(), got.c_str(), want.c_str());
        }
        CHECK(c, !badasked, "resolver", "the function that chooses trees was called with wrong arguments");
        if (out.res == R_MATCH && out.viaref && !renamed.empty()) c.label("chosen by the application");
        if (out.res == R_MATCH && out.viaref) { c.label(out.overlap ? "through a reference, overlapping" : out.cbunspec ? "through a reference" : out.cbs.empty() ? "through a reference, no callback" : "through a reference, callback"); c.nontrivial(text + "\n" + tree + line); } else c.label(out.res == R_MATCH ? "accepted" : "refused");
        bool ok = c.flip(); for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') ok = false;
        if (ok) {
            if (c.flip()) line = line.substr(0, c.below((uint32_t)line.size() + 1)); if (c.flip()) line += " ";
            if (split_line(line).back().w.empty() && !line.empty() && line.back() == '"') continue;
            if (m.match(tree, line, false).unspec || m.match(tree, line).unspec) continue;
            bool tab = c.flip(); cligen_tabmode_set(r.h, CLIGEN_TABMODE_VARS); c.note("%s at '%s'", tab ? "TAB" : "help", line.c_str());
            std::vector<Step> st = {{line}, {tab ? "\t" : "?"}}; type_keys(r, st); if (tab && st[1].buf != line) continue;
            std::string want = "\n" + (tab ? columns_text(m, tree, line, ho) : help_text(m, tree, line, ho)), got = hook_output(st[1].out, prompt);
            CHECK(c, got == want, "offers", "%s at '%s' shows:%s\nexpected:%s", tab ? "TAB" : "help", line.c_str(), got.c_str(), want.c_str());
        }
    }
    for (int i = 0; i < nt; i++) { std::string now = dump(r, TN[i]); CHECK(c, now == first[TN[i]], "unchanged", "tree %s was:\n%s\nafter use it is:\n%s", TN[i].c_str(), first[TN[i]].c_str(), now.c_str()); }
}
