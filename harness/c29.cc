// C29: trees and edit positions are kept and switched independently
// LINK: val.cc spec.cc
#include "spec.h"
extern "C" { int gl_setwidth(int); }
using namespace vf;
extern "C" const char *vf_property_id = "C29";
const char *vf_rule = "two command trees with commands that set, show, leave and reset the edit positions of one or two data trees (generated: nested keywords, values, choices, options, groups, optional words, hidden, several levels) beside ordinary references to the same trees with callbacks; long histories of lines (derived, abbreviated, mutated), position commands, switches of the active tree (also to a data tree itself, to none, to unknown names), registration of further trees and tree prompts; after every line the result, the bindings, the callbacks, the edit position of every tree and what is shown, and at random points help, are compared with a model; non-trivial = a line was accepted below an edit position; distinct by specification and history";
void vf_init() { term_reset(); term_tty(false); }
static Item cmd(const std::string &n) { Item i; i.k = Item::ELEM; i.e.k = Elem::CMD; i.e.name = n; return i; }
static Item refto(const std::string &n) { Item i; i.k = Item::ELEM; i.e.k = Elem::REF; i.e.name = n; return i; }
static Cb cb(const std::string &fn, const std::string &arg = "") { Cb c; c.fn = fn; if (!arg.empty()) c.args.push_back({"", arg}); return c; }
static std::string posname(const Spec &s, const Node *n) { std::string p; for (; n && n->up; n = n->up) p = "/" + (n->k == Elem::CMD ? n->name : "<" + s.vars[n->var].name + ":" + cv_type2str(s.vars[n->var].t) + ">") + p; return p; }
static std::string posname(cg_obj *co) { std::string p; for (; co; co = co_up(co)) p = "/" + (co->co_type == CO_VARIABLE ? std::string("<") + co->co_command + ":" + cv_type2str(co->co_vtype) + ">" : std::string(co->co_command ? co->co_command : "?")) + p; return p; }
static std::string show_tree(parse_tree *pt) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); pt_print1(f, pt, 1); fclose(f); std::string s(b, n); free(b); return s; }
static parse_tree *walk(parse_tree *pt, const Spec &s, const Node *n) { if (!n || !n->up) return pt; pt = walk(pt, s, n->up); for (int i = 0; pt && i < pt_len_get(pt); i++) { cg_obj *co = pt_vec_i_get(pt, i); if (!co) continue; if (n->k == Elem::CMD ? co->co_type == CO_COMMAND && n->name == co->co_command : n->k == Elem::VAR && co->co_type == CO_VARIABLE && s.vars[n->var].name == co->co_command && s.vars[n->var].t == co->co_vtype) return co_pt_get(co); } return nullptr; }
void vf_case(Case &c) {
    term_reset(); Spec s; GenOpt o; o.alltypes = c.chance(30); o.nvars = c.below(5); o.cbs = false; o.sets = c.chance(15); o.help = c.chance(30); o.hide = c.chance(15); o.ranges = c.chance(20); o.rest = false; o.depth = 3; o.topreftrees.clear(); o.names = {"a", "b", "ab", "abc", "x", "x1"};
    gen_vars(c, s, o); bool alike = c.flip(); std::vector<std::string> data = {alike ? "tr" : "T"}; if (c.flip()) data.push_back(alike ? "tree" : "U"); std::vector<std::string> mains = {"M", alike ? "Mt" : "N"}; const std::string M1 = mains[1];
    for (auto &mn : mains) {
        TreeText t; t.name = mn; bool second = mn == M1;
        for (auto &d : data) {
            auto block = [&](const std::string &word, const Cb *self, const std::vector<Cb> &inner) { Stmt st; st.seq = {cmd(word)}; st.term = self != nullptr; if (self) st.cbs = {*self}; st.block = true; Stmt in; in.seq = {refto(d)}; in.cbs = inner; st.kids = {in}; return st; };
            auto plain = [&](const std::string &word, const Cb &x) { Stmt st; st.seq = {cmd(word)}; st.cbs = {x}; return st; };
            auto seq = [&](const std::string &word, const std::vector<Cb> &x) { Stmt st; st.seq = {cmd(word), refto(d)}; st.cbs = x; return st; };
            Cb set = cb("cligen_wp_set", d); std::string sfx = data.size() > 1 ? d : "";
            t.stmts.push_back(block("edit" + sfx, c.chance(70) ? &set : nullptr, {set})); t.stmts.push_back(plain("up" + sfx, cb("cligen_wp_up", d))); t.stmts.push_back(plain("top" + sfx, cb("cligen_wp_top", d))); t.stmts.push_back(plain("show" + sfx, cb("cligen_wp_show", d)));
            if (c.chance(70)) t.stmts.push_back(seq("set" + sfx, {cb("cb0", second ? "n" : "m")})); if (c.chance(30)) t.stmts.push_back(seq("goto" + sfx, {cb("cb1"), set}));
        }
        if (c.chance(40)) { Stmt st; st.seq = {cmd("both")}; st.term = false; st.block = true; for (auto &d : data) { Stmt in; in.seq = {refto(d)}; in.cbs = {cb("cb2", d)}; st.kids.push_back(in); } t.stmts.push_back(st); }
        if (c.chance(30)) { GenOpt o2 = o; o2.cbs = true; o2.names = {"p", "q", "pp", "show"}; o2.sets = o2.hide = false; auto v = gen_stmts(c, s, o2, 1, true); t.stmts.insert(t.stmts.end(), v.begin(), v.end()); }
        s.texts.push_back(t);
    }
    bool self = c.chance(25); o.refs = self; o.reftrees = data; for (auto &d : data) { TreeText t; t.name = d; t.stmts = gen_stmts(c, s, o, 3, true); s.texts.push_back(t); } o.refs = false;
    if (c.chance(30)) std::reverse(s.texts.begin(), s.texts.end());
    s.denote(); std::string text = s.render(&c), trace = text; c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    Matcher m(s); std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); HelpOpt ho; cligen_terminal_width_set(r.h, 80);
    std::string tree = "M"; r.active(tree); std::map<std::string, std::string> prompts; std::vector<std::string> order; for (auto &t : s.texts) order.push_back(t.name); std::map<std::string, std::string> dumps; for (auto &t : order) dumps[t] = pt_dump(r.pt(t));
    auto state = [&]() {
        for (auto &t : s.trees) { pt_head *ph = cligen_ph_find(r.h, (char *)t.first.c_str()); CHECK(c, ph, "find", "tree %s is not found", t.first.c_str()); CHECK(c, t.first == cligen_ph_name_get(ph), "find", "tree %s found as %s", t.first.c_str(), cligen_ph_name_get(ph)); cg_obj *wp = cligen_ph_workpoint_get(ph); std::string got = posname(wp), want = posname(s, t.second->wp); CHECK(c, got == want, "position", "edit position of tree %s is '%s', expected '%s'", t.first.c_str(), got.c_str(), want.c_str());
            char *p = cligen_ph_prompt_get(ph); auto i = prompts.find(t.first); CHECK(c, i == prompts.end() ? p == nullptr : p && i->second == p, "prompt", "prompt of tree %s is %s", t.first.c_str(), p ? p : "none"); CHECK(c, (ph == cligen_ph_active_get(r.h)) == (t.first == tree), "active", "tree %s is%s active", t.first.c_str(), t.first == tree ? " not" : ""); }
        std::string l, w; pt_head *ph = nullptr; while ((ph = cligen_ph_each(r.h, ph)) != nullptr) l += std::string(cligen_ph_name_get(ph)) + " "; for (auto &t : order) w += t + " "; CHECK(c, l == w, "list", "trees are %s, expected %s", l.c_str(), w.c_str()); int k = (int)c.below((uint32_t)order.size()); ph = cligen_ph_i(r.h, k); CHECK(c, ph && order[k] == cligen_ph_name_get(ph), "index", "tree number %d is not %s", k, order[k].c_str()); CHECK(c, cligen_ph_i(r.h, (int)order.size()) == nullptr, "index", "a tree beyond the last");
    };
    state(); int n = 3 + c.below(25), extra = 0;
    for (int i = 0; i < n; i++) {
        switch (c.weighted({14, 2, 1, 1, 1, 3})) {
        case 1: { tree = c.pick(order); r.active(tree); c.note("tree %s", tree.c_str()); trace += "@" + tree; break; }
        case 2: if (c.chance(40)) { std::string no = c.flip() ? "nosuch" : c.flip() ? c.pick(order) + "x" : data[0].substr(0, data[0].size() - 1); c.note("no tree '%s'", no.c_str()); if (r.pt(no)) break; cligen_ph_active_set_byname(r.h, (char *)no.c_str()); CHECK(c, cligen_ph_active_get(r.h) == nullptr && cligen_pt_active_get(r.h) == nullptr, "inactive", "a tree is active after activating an unknown one");
                term_input(c.pickc({"edit\n", "a\t\n", "a ?\n"})); char *ln = nullptr, *reason = nullptr; int cbr = 0; cligen_result res = CG_ERROR; int rc = cliread_eval(r.h, &ln, &cbr, &res, &reason); CHECK(c, rc < 0, "inactive", "a line was evaluated without active tree: %d result %d", rc, res); if (reason) lib_free(reason); r.active(tree); c.label("no tree"); } break;
        case 3: { const std::string &t = c.pick(order); std::string p = c.pickc({"p> ", "", "%H> ", "long prompt "}); pt_head *ph = cligen_ph_find(r.h, (char *)t.c_str()); CHECK(c, ph, "find", "tree %s not found", t.c_str()); if (c.chance(20)) { cligen_ph_prompt_set(ph, nullptr); prompts.erase(t); } else { cligen_ph_prompt_set(ph, (char *)p.c_str()); prompts[t] = p; } break; }
        case 4: if (extra < 3) { TreeText t; t.name = (alike ? data[0].substr(0, 1) : "E") + std::to_string(extra++); GenOpt o2 = o; o2.cbs = true; o2.refs = true; o2.reftrees = data; o2.topreftrees = data; t.stmts = gen_stmts(c, s, o2, 1, true); std::string et = s.render_tree(&c, t); c.note("added: %s", et.c_str()); trace += et;
                s.trees[t.name].reset(new Tree); s.trees[t.name]->name = t.name; denote_into(&s.trees[t.name]->root, t.stmts, s.vars);
                if (c.flip()) CHECK(c, r.load(et, t.name.c_str()) == 0, "spec", "tree refused: %s", err_out.c_str());
                else { pt_head *ph = cligen_ph_add(r.h, (char *)t.name.c_str()); parse_tree *pt = pt_new(); std::vector<char> b(et.begin(), et.end()); b.push_back(0); CHECK(c, clispec_parse_str(r.h, b.data(), (char *)"spec", nullptr, pt, nullptr) == 0, "spec", "tree refused: %s", err_out.c_str()); r.resolve(pt); cligen_ph_parsetree_set(ph, pt); }
                order.push_back(t.name); dumps[t.name] = pt_dump(r.pt(t.name)); c.label("tree added"); } break;
        case 5: {   /* help at the position */
            std::string line = gen_line(c, m, tree); line = line.substr(0, c.below((uint32_t)line.size() + 1)); bool ok = true; for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\' || ch == '"') ok = false; if (!ok || m.match(tree, line, false).unspec || m.match(tree, line).unspec) break;
            std::vector<Step> st = {{line}, {"?"}}; type_keys(r, st); std::string w = "\n" + help_text(m, tree, line, ho), got = hook_output(st[1].out, prompt); c.note("help at '%s'", line.c_str()); CHECK(c, got == w, "help", "help at '%s' in %s shows:%s\nexpected:%s", line.c_str(), tree.c_str(), got.c_str(), w.c_str()); c.label("help"); break; }
        default: {
            std::string line = gen_line(c, m, tree); if (c.chance(70)) for (int k = 0; k < 4 && line.compare(0, 4, "edit") && line.compare(0, 3, "set") && line.compare(0, 4, "goto"); k++) line = gen_line(c, m, tree); if (c.chance(40) && line.find('"') == std::string::npos) { size_t e = line.find_first_of(" \t", line.find_first_not_of(" \t")); for (int k = c.below(3); k >= 0 && e != std::string::npos; k--) { size_t f = line.find_first_not_of(" \t", e); e = f == std::string::npos ? f : line.find_first_of(" \t", f); } if (e != std::string::npos) line.resize(e); }
            std::string tl = trim_line(line); if (c.chance(8) && (tree == "M" || tree == M1)) { const std::string &d = c.pick(data); line = tl = c.pickc({"up", "top", "show", "edit"}) + (data.size() > 1 ? d : ""); } if (tl.empty()) break;
            Out out = m.match(tree, tl); if (out.unspec || out.cbunspec) { c.label("unspecified"); break; }
            c.note("%s: '%s'", tree.c_str(), line.c_str()); trace += line + "\n"; bool below = false; for (auto &d : data) if (s.trees[d]->wp) below = true;
            Got g; real_match(r, tree, line, g); compare_match(c, out, g, line); if (g.res != CG_MATCH) { c.label(below ? "refused below a position" : "refused"); break; }
            std::vector<std::string> want; std::string shown; std::vector<std::pair<Tree *, const Node *>> moves; bool skip = false;
            for (auto &x : out.cbs) { if (x.fn.compare(0, 10, "cligen_wp_") != 0) { want.push_back(cb_strings({x})[0] + " {" + show_binds(out.binds) + "}"); continue; }
                Tree *t = s.tree(x.args[0].second); const Node *now = t->wp; for (auto &mv : moves) if (mv.first == t) now = mv.second; if (x.fn == "cligen_wp_set") { const Node *d = out.fin.src[0].n, *top = d; while (top->up) top = top->up; for (auto &y : out.fin.src) if (y.n != d) skip = true; if (top != &t->root) continue; moves.push_back({t, d}); }
                else if (x.fn == "cligen_wp_up") moves.push_back({t, now ? (now->up && now->up->up ? now->up : nullptr) : nullptr}); else if (x.fn == "cligen_wp_top") moves.push_back({t, nullptr}); else { parse_tree *pt = walk(r.pt(t->name), s, now); CHECK(c, pt, "tree", "tree %s has lost %s", t->name.c_str(), posname(s, now).c_str()); shown += show_tree(pt); } }
            if (skip) { c.label("position in several trees"); break; }
            r.calls.clear(); r.ncalls = 0; err_out.clear(); int rc = cligen_eval(r.h, g.co, g.cvv); CHECK(c, rc == 0, "retval", "'%s' gives %d", line.c_str(), rc); std::string got, w; for (auto &x : r.calls) got += x + "\n"; for (auto &x : want) w += x + "\n"; CHECK(c, got == w, "callbacks", "'%s' in tree %s called:\n%sexpected:\n%s", line.c_str(), tree.c_str(), got.c_str(), w.c_str());
            CHECK(c, err_out == shown, "show", "'%s' shows:\n%sexpected:\n%s", line.c_str(), err_out.c_str(), shown.c_str()); for (auto &mv : moves) { mv.first->wp = mv.second; c.label(mv.second ? "position set" : "position at top"); } if (!shown.empty()) c.label("shown");
            c.label(below ? "accepted below a position" : "accepted"); if (below && out.viaref) c.nontrivial(trace); }
        }
        state();
    }
    for (auto &t : order) CHECK(c, pt_dump(r.pt(t)) == dumps[t], "changed", "tree %s was changed by use", t.c_str());
    gl_setwidth(80);
}
