// C17: a printed specification parses back to the same specification
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" int co_print1(FILE *, cg_obj *, int);
extern "C" const char *vf_property_id = "C17";
const char *vf_rule = "specifications over every construct of the syntax (keywords with characters that need a backslash, variables of every type with ranges, lengths, fraction digits, patterns, choices, expansion and translation functions, preferences and shown names, help texts of several lines, callbacks with typed arguments, labels, hidden commands, local assignments, options, groups, blocks, sets, references, pipe trees), in random layout, printed by tree and object by object in parsable form and read back; every field of the trees is compared and the second print must be the first; non-trivial = the tree has a variable with options, a nested block and at least 8 objects; distinct by text";
void vf_init() { term_reset(); term_tty(false); }
static std::string capture(std::function<int(FILE *)> fn, int &rc) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); rc = fn(f); fclose(f); std::string s(b, n); free(b); return s; }
/* what the syntax expresses: hidden is a flag and a label, being written in brackets is not kept */
static std::string dump(Real &r, parse_tree *pt, cg_obj *up = nullptr, int ind = 0) {
    std::string s; for (int i = 0; pt && i < (int)pt_len_get(pt); i++) { cg_obj *co = pt_vec_i_get(pt, i); s += std::string(ind, ' '); if (!co) { s += "NULL\n"; continue; } uint32_t fl = co->co_flags; co->co_flags &= ~CO_FLAGS_OPTION; std::string d = co_dump(co); co->co_flags = fl;
        size_t p; for (const char *h : {"hide=int32 1,", ",hide=int32 1", "[hide=int32 1]"}) while ((p = d.find(h)) != std::string::npos) d.erase(p, strlen(h)); if (co->co_type == CO_EMPTY && !up) { s.resize(s.size() - ind); continue; } if (co->co_type == CO_EMPTY) { s += d + "\n"; continue; } s += d + (co_up(co) == up ? "" : " BADPARENT") + (co_sets_get(co) ? " sets" : "") + cbs_dump(co->co_callbacks) + "\n" + dump(r, co_pt_get(co), co, ind + 1); }
    return s;
}
static int objects(parse_tree *pt, int &vars, int &deep) { int n = 0; for (int i = 0; pt && i < (int)pt_len_get(pt); i++) { cg_obj *co = pt_vec_i_get(pt, i); if (!co || co->co_type == CO_EMPTY) continue; n++; if (co->co_type == CO_VARIABLE && (co->co_rangelen || co->co_choice || co->co_regex || co->co_expand_fn_str)) vars++; if (co_pt_get(co) && pt_len_get(co_pt_get(co)) > 1) deep++; n += objects(co_pt_get(co), vars, deep); } return n; }
/* constructs the generator of the other checks does not have: escaped keywords, typed arguments, local assignments */
static void spice(Case &c, std::vector<Stmt> &v, bool esc, bool lab, bool inner = false) {
    static const std::vector<std::string> names = {"a\\ b", "x\\;", "\\#c", "p\\,q", "\\[o\\]", "\\(g\\)", "\\{k\\}", "a\\|b", "\\<v>", "\\@r", "k\\=v", "q\"r\"", "~!$%^&*", "a:b", "r\xc3\xa4v", "a\\bc", "\\\tt", "x\\(\""};
    for (auto &st : v) { std::function<void(Item &)> f = [&](Item &i) { if (i.k == Item::ELEM && i.e.k == Elem::CMD && esc && c.chance(15)) i.e.name = c.pick(names); for (auto &alt : i.alts) for (auto &x : alt) f(x); }; for (auto &i : st.seq) f(i); for (auto &cb : st.cbs) for (auto &a : cb.args) if (c.chance(20) && a.first.empty()) { int k = c.below(5); if (k == 0) a = {"int32", std::to_string(c.range(-100, 100))}; else if (k == 1) a = {"bool", "true"}; else if (k == 2) a = {"ipv4addr", "10.0.0.1"}; else if (k == 3) a = {"uint64", "18446744073709551615"}; else a = {"string", "typed"}; }
        bool opt = false; std::function<void(const Item &)> g = [&](const Item &i) { if (i.k == Item::OPT) opt = true; for (auto &alt : i.alts) for (auto &x : alt) g(x); }; for (auto &i : st.seq) g(i);  /* an assignment is a global one when it reaches a command at the top */
        if (lab && inner && !opt && c.chance(20)) st.labels.push_back(c.pickc({"key=\"val\"", "k=\"a b;c\"", "k = \"\"", "s=\"q\\\"r\"", "n=\"12\""}));
        spice(c, st.kids, esc, lab && !opt, true); }
}
void vf_case(Case &c) {
    term_reset(); Spec s; GenOpt o; o.alltypes = true; o.nvars = c.below(8); o.expand = o.translate = o.prefs = o.shows = o.labels = o.hide = o.cbs = o.manycbs = o.multihelp = true; o.sets = c.flip(); o.help = c.chance(70); o.refs = true; o.reftrees = o.topreftrees = {"t2", "t3", "other"}; o.depth = c.range(1, 4); gen_vars(c, s, o); bool esc = c.chance(30);
    int nt = 1 + c.below(3); for (int i = 0; i < nt; i++) { TreeText t; t.name = i == 2 ? "|pipe" : "t" + std::to_string(i + 1); t.stmts = gen_stmts(c, s, o, o.depth, true); spice(c, t.stmts, esc, c.chance(30)); s.texts.push_back(t); }
    Real r; std::string all; bool nontrivial = false; int k = 0;
    for (auto &t : s.texts) {
        std::string head = t.name[0] == '|' ? "treename=\"" + t.name + "\";\n" : "", text = s.render_tree(&c, t); c.note("%s:\n%s", t.name.c_str(), text.c_str()); all += text;
        auto load = [&](const std::string &x, const char *what) -> parse_tree * { std::string name = head.empty() ? "tree" + std::to_string(k++) : t.name; std::vector<char> b; std::string full = "treename=\"" + name + "\";\n" + x; b.assign(full.begin(), full.end()); b.push_back(0); err_out.clear(); int before = 0; for (pt_head *ph = nullptr; (ph = cligen_ph_each(r.h, ph));) before++; int rc = clispec_parse_str(r.h, b.data(), (char *)what, nullptr, nullptr, nullptr); CHECK(c, rc == 0, what, "%s is refused:\n%s\n%s", what, x.c_str(), err_out.c_str()); pt_head *ph = cligen_ph_i(r.h, before); return ph ? cligen_ph_parsetree_get(ph) : nullptr; };
        parse_tree *p1 = load(text, "specification"); if (!p1) continue; std::string d1 = dump(r, p1); int rc; std::string out = capture([&](FILE *f) { return pt_print1(f, p1, 0); }, rc); CHECK(c, rc == 0, "retval", "printing fails");
        CHECK(c, dump(r, p1) == d1, "changed", "printing changed the tree");
        parse_tree *p2 = load(out, "printed specification"); std::string d2 = p2 ? dump(r, p2) : ""; if (d1 != d2) { size_t k = 0, l = 0; while (k < d1.size() && k < d2.size() && d1[k] == d2[k]) k++; l = d1.rfind('\n', k); c.note("first difference: %s\n---\n%s", d1.substr(l + 1, 200).c_str(), d2.substr(l + 1, 200).c_str()); } CHECK(c, d1 == d2, "different", "printed as:\n%s\nwhich is read as:\n%s\nexpected:\n%s", out.c_str(), d2.c_str(), d1.c_str());
        std::string out2 = capture([&](FILE *f) { return pt_print1(f, p2, 0); }, rc); CHECK(c, rc == 0 && out2 == out, "unstable", "printed as:\n%s\nand after reading it back as:\n%s", out.c_str(), out2.c_str());
        std::string each; for (int i = 0; i < (int)pt_len_get(p1); i++) if (cg_obj *co = pt_vec_i_get(p1, i)) { if (co->co_type == CO_EMPTY) continue; each += capture([&](FILE *f) { return co_print1(f, co, 0); }, rc); CHECK(c, rc == 0, "retval", "printing an object fails"); }
        parse_tree *p3 = load(each, "specification printed object by object"); std::string d3 = p3 ? dump(r, p3) : ""; CHECK(c, d1 == d3, "different", "objects printed as:\n%s\nwhich is read as:\n%s\nexpected:\n%s", each.c_str(), d3.c_str(), d1.c_str());
        int vars = 0, deep = 0, n = objects(p1, vars, deep); if (vars && deep && n >= 8) nontrivial = true; c.label(n < 3 ? "1-2 objects" : n < 10 ? "3-9 objects" : n < 50 ? "10-49 objects" : "50 objects or more");
    }
    if (nontrivial) c.nontrivial(all);
}
