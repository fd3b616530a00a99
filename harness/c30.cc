// C30: an alias runs exactly the command it stands for
// LINK: val.cc spec.cc
#include "spec.h"
extern "C" { int gl_setwidth(int); }
using namespace vf;
extern "C" const char *vf_property_id = "C30";
const char *vf_rule = "one or two trees (the second may refer to the first) with callbacks, values, options, sets and hidden statements are generated; aliases are defined, redefined (new command, new help, another callback) and refused (name of an ordinary command, no such tree, a name that is no keyword) in random order, their commands are lines with values, quotes, abbreviations, comments, other aliases, themselves, lines that are no command; aliases and ordinary commands are typed in full, abbreviated and mutated, parsed or at the prompt, with callbacks that fail or redefine the alias that runs; everything called, with all values, and the result is compared with a model that runs the aliased line in place of the alias, and help with the alias as a keyword; non-trivial = an alias ran a callback; distinct by specification, aliases and line";
void vf_init() { term_reset(); term_tty(false); }
extern "C" int own_cb(cligen_handle, cvec *cvv, cvec *argv) { std::string s = "own("; for (int i = 0; i < cvec_len(argv); i++) s += cv_string_get(cvec_i(argv, i)); s += ") {"; std::vector<Bind> r; for (int i = 0; i < cvec_len(cvv); i++) { cg_var *cv = cvec_i(cvv, i); Bind b; b.name = cv_name_get(cv) ? cv_name_get(cv) : ""; b.konst = cv_const_get(cv); b.v = from_cv(cv); r.push_back(b); } REAL->calls.push_back(s + show_binds(r) + "}"); return 0; }
struct Alias { std::string command, help; bool hashelp, own; };
void vf_case(Case &c) {
    term_reset(); Spec s; GenOpt o; o.alltypes = c.chance(30); o.nvars = c.below(4); o.cbs = true; o.manycbs = c.chance(20); o.sets = c.chance(15); o.help = c.chance(40); o.hide = c.chance(15); o.ranges = c.chance(20); o.rest = !o.ranges; o.translate = c.chance(15); o.depth = 2; o.refs = c.chance(30); o.names = {"a", "b", "ab", "abc", "show", "set", "x", "x1"};
    gen_vars(c, s, o); int nt = 1 + c.below(2); static const std::vector<std::string> TN = {"T", "U"};
    for (int i = 0; i < nt; i++) { o.reftrees = {"T"}; o.topreftrees = i ? std::vector<std::string>{"T"} : std::vector<std::string>{}; o.refs = o.refs && i; TreeText t; t.name = TN[i]; t.stmts = gen_stmts(c, s, o, 2, true); s.texts.push_back(t); o.refs = c.flip(); }
    s.denote(); std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    Matcher m(s); std::string prompt = "%~> "; cligen_prompt_set(r.h, (char *)prompt.c_str()); HelpOpt ho; cligen_terminal_width_set(r.h, 80); bool ef = c.chance(20), ek = c.chance(20); cligen_expand_first_set(r.h, ef); cligen_exclude_keys_set(r.h, ek);
    std::map<std::string, std::map<std::string, Alias>> al; std::string tree = "T", trace = text; r.active(tree);
    static const std::vector<std::string> AN = {"al", "alias", "ll", "a", "show", "sho", "x2", "showall", "q", "it-is", "e\xc3\xa5", "b", "1", "v0", "T", "U", "v1"};
    const std::string BAD[] = {"", "two words", "x;y", "<v:int32>", "@T", "p|q", "p(\"h\")", "{", "p \"q\"", "p,", "[p]"};
    auto add = [&](const std::string &t, bool named, const std::string &name, const Alias &a) {
        errno = 0; int rc = cligen_alias_add(r.h, named ? (char *)t.c_str() : nullptr, (char *)name.c_str(), a.hashelp ? (char *)a.help.c_str() : nullptr, (char *)a.command.c_str(), a.own ? own_cb : nullptr); return rc; };
    bool redef = false; std::string redname; int inflight = 0;
    r.on_call = [&](int, cvec *, cvec *) { if (redef && al[tree].count(redname)) { inflight++; if (add(tree, true, redname, al[tree][redname]) < 0) inflight = 1000; } return 0; };
    /* the model: callbacks called by a line */
    std::vector<std::string> want; bool unspec, used, mism, multi; int ncb; std::function<bool(const std::string &, int)> run = [&](const std::string &line, int depth) -> bool {
        if (depth > 30) { mism = true; return false; }
        std::string tl = trim_line(line); if (tl.empty()) { unspec = true; return false; } if (line.find('"') != std::string::npos && line.find("\\ ") != std::string::npos) { unspec = true; return false; }
        Out out = m.match(tree, tl); if (out.unspec || out.cbunspec) { unspec = true; return false; } if (out.res != R_MATCH) { mism = true; return false; }
        std::vector<Bind> b = out.binds;
        if (ef) { std::string f; for (size_t k = 1; k < b.size(); k++) f += (k > 1 ? " " : "") + (b[k].v.t == CGV_STRING || b[k].v.t == CGV_REST ? b[k].v.s : ref_print(b[k].v)); b[0].v.s = f; }
        if (ek) { std::vector<Bind> x; for (size_t k = 0; k < b.size(); k++) if (k == 0 || !b[k].konst) x.push_back(b[k]); b = x; }
        std::vector<std::string> cs = cb_strings(out.cbs);
        for (size_t k = 0; k < cs.size(); k++) {
            const Cb &cb = out.cbs[k]; if (cb.fn == "#own") { used = true; std::string arg; for (auto &x : cb.args) arg += x.second; want.push_back("own(" + arg + ") {" + show_binds(b) + "}"); continue; }
            if (cb.fn == "#alias") { used = true; if (cb.args.size() != 1) { unspec = true; return false; } if (!run(cb.args[0].second, depth + 1)) return false; continue; }
            want.push_back(cs[k] + " {" + show_binds(b) + "}"); if (ncb++ == r.fail_at) return false; }
        return true; };
    int n = 2 + c.below(14);
    for (int i = 0; i < n; i++) switch (c.weighted({5, 3, 1, 1, 1})) {
    case 1: {   /* define or redefine */
        std::string t = c.chance(30) ? TN[c.below(nt)] : tree; bool named = t != tree || c.flip(); auto &mine = al[t]; std::string name = !mine.empty() && c.chance(35) ? std::next(mine.begin(), c.below((uint32_t)mine.size()))->first : c.pick(AN); Alias a; a.own = c.chance(15); a.hashelp = c.chance(70);
        if (a.hashelp) a.help = c.pickc({"help text", "say \"hi\"", "first\nsecond", "back\\slash", "(paren)", "new help", "a;b", "it's", "\xc3\xa5"});
        a.command = trim_line(gen_line(c, m, t)); if (a.command.empty()) a.command = "a"; if (c.chance(15)) a.command = c.pick(AN); if (c.chance(10)) a.command = " " + a.command + "  "; if (c.chance(5)) a.command += " # comment"; if (c.chance(5)) a.command = c.pickc({"no such command", "\"", "a \"b c\" \\d", ";", "}"});
        bool ordinary = s.trees[t]->root.find(Elem::CMD, name, -1, s.vars) && !mine.count(name); std::string before = ordinary ? pt_dump(r.pt(t)) : "";
        c.note("alias %s in tree %s%s: '%s' help '%s'%s", name.c_str(), t.c_str(), named ? "" : " (active)", esc(a.command).c_str(), a.hashelp ? esc(a.help).c_str() : "none", a.own ? " own callback" : ""); trace += name + "=" + a.command + "\n";
        int rc = add(t, named, name, a);
        if (ordinary) { CHECK(c, rc < 0, "shadow", "alias '%s' defined though there is an ordinary command of that name", name.c_str()); CHECK(c, pt_dump(r.pt(t)) == before, "changed", "refused alias '%s' changed the tree", name.c_str()); c.label("refused: ordinary command"); break; }
        CHECK(c, rc == 0, "define", "alias '%s' for '%s' refused: %s", name.c_str(), esc(a.command).c_str(), strerror(errno)); c.label(mine.count(name) ? "redefined" : "defined"); mine[name] = a;
        Node *root = &s.trees[t]->root; for (size_t k = 0; k < root->kids.size(); k++) if (root->kids[k]->k == Elem::CMD && root->kids[k]->name == name) { root->kids.erase(root->kids.begin() + (long)k); break; }
        Node *nd = root->child(Elem::CMD, name, -1, s.vars); nd->term = true; nd->hashelp = a.hashelp; nd->help = a.help; Cb cb; cb.fn = a.own ? "#own" : "#alias"; cb.args = {{"", a.command}}; nd->cbs = {cb};
        break; }
    case 2: {   /* definitions that are refused change nothing */
        std::string before = pt_dump(r.pt("T")) + (nt > 1 ? pt_dump(r.pt("U")) : ""); Alias a{"a", "h", c.flip(), false}; bool notree = c.chance(20); std::string name = notree ? "zz" : BAD[c.below(11)]; bool named = notree || c.flip(); c.note("alias with name '%s'%s", name.c_str(), notree ? ", unknown tree" : "");
        int rc = add(notree ? "NONE" : tree, named, name, a); CHECK(c, rc < 0, "badname", "alias named '%s' accepted", name.c_str()); CHECK(c, pt_dump(r.pt("T")) + (nt > 1 ? pt_dump(r.pt("U")) : "") == before, "changed", "refused alias '%s' changed a tree:\n%s", name.c_str(), pt_dump(r.pt(tree)).c_str()); c.label("refused: name"); break; }
    case 3: tree = TN[c.below(nt)]; r.active(tree); c.note("tree %s", tree.c_str()); break;
    case 4: {   /* help shows aliases as keywords */
        std::string line = c.flip() ? "" : gen_line(c, m, tree); line = line.substr(0, c.below((uint32_t)line.size() + 1)); bool ok = true; for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\' || ch == '"') ok = false; if (!ok || m.match(tree, line, false).unspec || m.match(tree, line).unspec) break;
        std::vector<Step> st = {{line}, {"?"}}; type_keys(r, st); std::string w = "\n" + help_text(m, tree, line, ho), got = hook_output(st[1].out, prompt); c.note("help at '%s'", line.c_str()); CHECK(c, got == w, "help", "help at '%s' shows:%s\nexpected:%s", line.c_str(), got.c_str(), w.c_str()); c.label("help"); break; }
    default: {
        std::string line; if (!al[tree].empty() && c.chance(55)) { auto it = std::next(al[tree].begin(), c.below((uint32_t)al[tree].size())); line = it->first; if (c.chance(25)) line = line.substr(0, 1 + c.below((uint32_t)line.size())); if (c.chance(10)) line += c.pickc({" ", " a", "  # x"}); } else line = gen_line(c, m, tree);
        if (trim_line(line).empty() || line.find('\n') != std::string::npos) break; want.clear(); unspec = used = mism = false; ncb = 0; r.fail_at = c.chance(20) ? (int)c.below(2) : -1; r.fail_rc = c.flip() ? -1 : -1 - (int)c.below(300); redef = false; bool ok = run(line, 0); if (unspec) { c.label("unspecified"); break; } Out top = m.match(tree, trim_line(line));
        redef = !al[tree].empty() && c.chance(20); if (redef) redname = std::next(al[tree].begin(), c.below((uint32_t)al[tree].size()))->first; inflight = 0; bool typed = c.flip(); for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') typed = false;
        c.note("line '%s' in %s%s, callback %d fails%s%s", esc(line).c_str(), tree.c_str(), typed ? " typed" : "", r.fail_at, redef ? ", redefines " : "", redef ? redname.c_str() : ""); trace += line + "\n"; r.calls.clear(); r.ncalls = 0; int rc = 0; bool evaluated = false;
        if (typed) { term_input(line + "\n"); char *ln = nullptr, *reason = nullptr; int cb = 7777; cligen_result res = CG_ERROR; int ret = cliread_eval(r.h, &ln, &cb, &res, &reason); if (reason) lib_free(reason); CHECK(c, ret == 0, "error", "'%s': cliread_eval returned %d", line.c_str(), ret); CHECK(c, (res == CG_MATCH) == (top.res == R_MATCH), "result", "'%s' typed at the prompt: result %d, expected %s", line.c_str(), res, top.res == R_MATCH ? "a match" : "a refusal"); if (res == CG_MATCH) { rc = cb; evaluated = true; } }
        else { Got g; real_match(r, tree, line, g); compare_match(c, top, g, line); if (g.res == CG_MATCH) { rc = cligen_eval(r.h, g.co, g.cvv); evaluated = true; } }
        auto join = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += "\n  " + esc(x); return s; };
        CHECK(c, r.calls == want, "calls", "'%s': called:%s\nexpected:%s", line.c_str(), join(r.calls).c_str(), join(want).c_str()); CHECK(c, inflight < 1000, "inflight", "an alias could not be redefined by a command"); if (!evaluated) { c.label("refused line"); break; }
        CHECK(c, (rc < 0) == !ok, "retval", "'%s': evaluation returned %d, %s", line.c_str(), rc, ok ? "all went well" : mism ? "the aliased command is not accepted" : "a callback failed");
        c.label(used ? (mism ? "alias of no command" : want.empty() ? "alias of a command without callback" : ok ? "alias run" : "alias run, callback failed") : "ordinary command"); if (used && inflight) c.label("redefined while running"); if (used && !want.empty()) c.nontrivial(trace); }
    }
    gl_setwidth(80);
}
