// C16: using the interpreter never changes the specification or leaks memory
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C16";
const char *vf_rule = "a session is opened with random settings and loads a specification of several trees using every construct; a set of probes (lines matched and evaluated, help and completion asked at points of lines) is answered, then other lines are matched, evaluated with failing callbacks, typed, completed and asked help for, invalid and valid specifications are parsed, trees printed and copied; probes repeated at any time give the same answer, trees and settings dump the same, and when the session is closed nothing the library allocated is left; non-trivial = a probe was repeated after at least one other line was accepted and one refused; distinct by (specification, operations)";
void vf_init() { term_reset(); term_tty(false); }
struct Probe { std::string tree, line; int kind; std::string answer; };
static std::string prompt = "%~> ";
static bool typable(const std::string &l) { for (char ch : l) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') return false; return true; }
static std::string ask(Real &r, const Probe &p, bool &accepted) {
    std::string s; r.calls.clear(); r.ecalls.clear(); accepted = false;
    if (p.kind == 0) {
        Got g; real_match(r, p.tree, p.line, g); s = sprintf_("rc %d res %d reason '%s' %s", g.rc, g.res, g.reason.c_str(), show_binds(g.binds).c_str());
        if (g.res == CG_MATCH) { accepted = true; s += sprintf_(" eval %d", cligen_eval(r.h, g.co, g.cvv)); }
    } else { r.active(p.tree); std::vector<Step> st = {{p.line}, {p.kind == 1 ? "?" : "\t"}}; type_keys(r, st); s = "shows: " + hook_output(st[1].out, prompt) + " line '" + st[1].buf + "'"; }
    for (auto &x : r.calls) s += "\n " + x; for (auto &x : r.ecalls) s += "\n " + x;
    return s;
}
static std::string settings(cligen_handle h) {
    auto str = [](const char *s) { return std::string(s ? s : "(none)"); };
    return sprintf_("comment %d prompt %s treename %s rows %d paging %d width %d utf8 %d scrolling %d truncate %d lines %d tabmode %d lexical %d ignorecase %d log %d xsd %d delimiter %d pref %d caseignore %d first %d keys %d exiting %d fn %s", cligen_comment(h), str(cligen_prompt(h)).c_str(), str(cligen_treename_keyword(h)).c_str(), cligen_terminal_rows(h), cligen_paging_get(h), cligen_terminal_width(h), cligen_utf8_get(h), cligen_line_scrolling(h), cligen_helpstring_truncate(h), cligen_helpstring_lines(h), cligen_tabmode(h), cligen_lexicalorder(h), cligen_ignorecase(h), cligen_logsyntax(h), cligen_regex_xsd(h), cligen_delimiter(h), cligen_preference_mode(h), cligen_caseignore_get(h), cligen_expand_first_get(h), cligen_exclude_keys_get(h), cligen_exiting(h), str(cligen_fn_str_get(h)).c_str());
}
static void session(Case &c, std::string &trace, bool &nontriv) {
    Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.cbs = c.chance(70); o.sets = c.chance(30); o.help = c.chance(60); o.hide = c.chance(30); o.shows = c.chance(30); o.refs = c.chance(40); o.labels = c.chance(40); o.expand = c.chance(40); o.translate = c.chance(30); o.prefs = c.chance(30); o.ranges = c.flip(); o.depth = 2 + c.below(2); o.choices = true;
    int nt = o.refs ? 2 : 1; static const std::vector<std::string> TN = {"T", "A"};
    gen_vars(c, s, o); for (int i = 0; i < nt; i++) { if (o.refs) { o.reftrees = TN; o.topreftrees = i == 0 ? std::vector<std::string>{"A"} : std::vector<std::string>{}; } TreeText t; t.name = TN[i]; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); }
    s.denote(); std::string text = s.render(&c); c.note("%s", text.c_str()); trace = text;
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    Matcher m(s); cligen_prompt_set(r.h, (char *)prompt.c_str()); cligen_terminal_width_set(r.h, 80);
    if (c.flip()) { cligen_caseignore_set(r.h, c.flip()); cligen_expand_first_set(r.h, c.flip()); cligen_exclude_keys_set(r.h, c.flip()); cligen_preference_mode_set(r.h, c.below(4)); { int tm = c.below(8); cligen_tabmode_set(r.h, o.refs ? tm & 3 : tm); } cligen_regex_xsd_set(r.h, c.flip()); cligen_helpstring_lines_set(r.h, c.below(3)); cligen_helpstring_truncate_set(r.h, c.flip()); cligen_treename_keyword_set(r.h, (char *)"treename"); }
    m.caseignore = cligen_caseignore_get(r.h);
    if (c.chance(20)) cligen_hist_init(r.h, 1 + c.below(4));
    std::map<std::string, std::string> dump; for (int i = 0; i < nt; i++) dump[TN[i]] = pt_dump(r.pt(TN[i]));
    std::string set0 = settings(r.h);
    auto check = [&](const char *after) {
        for (int i = 0; i < nt; i++) { parse_tree *pt = r.pt(TN[i]); CHECK(c, pt, "tree", "tree %s is gone after %s", TN[i].c_str(), after); std::string now = pt_dump(pt); CHECK(c, now == dump[TN[i]], "unchanged", "tree %s was:\n%s\nafter %s it is:\n%s", TN[i].c_str(), dump[TN[i]].c_str(), after, now.c_str()); }
        std::string now = settings(r.h); CHECK(c, now == set0, "settings", "settings were:\n%s\nafter %s:\n%s", set0.c_str(), after, now.c_str()); };
    std::vector<Probe> probes; int acc = 0, ref = 0; bool ok;
    for (int i = 1 + c.below(5); i > 0; i--) {
        Probe p; p.tree = TN[c.below(nt)]; p.line = gen_line(c, m, p.tree); p.kind = c.below(3); if (p.kind == 0) { p.line = trim_line(p.line); if (p.line.empty()) continue; } else { if (!typable(p.line)) continue; if (c.flip()) p.line = p.line.substr(0, c.below((uint32_t)p.line.size() + 1)); if (c.flip()) p.line += " "; }
        p.answer = ask(r, p, ok); c.note("probe %s '%s' in %s: %s", p.kind == 0 ? "match" : p.kind == 1 ? "help" : "TAB", p.line.c_str(), p.tree.c_str(), p.answer.c_str()); probes.push_back(p);
    }
    check("the first answers");
    for (int i = 2 + c.below(8); i > 0; i--) {
        std::string tree = TN[c.below(nt)], line = gen_line(c, m, tree), what; int op = c.weighted({30, 12, 10, 10, 12, 6, 4, 4, 4});
        switch (op) {
        case 0: { Got g; r.calls.clear(); r.ncalls = 0; r.fail_at = c.chance(20) ? 0 : -1; line = trim_line(line); what = "matching '" + line + "'"; real_match(r, tree, line, g); if (g.res == CG_MATCH) { acc++; cligen_eval(r.h, g.co, g.cvv); } else ref++; r.fail_at = -1; break; }
        case 1: { if (!typable(line)) break; r.active(tree); what = "typing '" + line + "' and return"; term_input(line + "\n"); char *ln = nullptr, *reason = nullptr; int cb = 0; cligen_result res = CG_ERROR; r.fail_at = c.chance(20) ? 0 : -1; r.ncalls = 0; cliread_eval(r.h, &ln, &cb, &res, &reason); r.fail_at = -1; if (reason) lib_free(reason); (res == CG_MATCH ? acc : ref)++; break; }
        case 2: { if (!typable(line)) break; r.active(tree); what = "asking help at '" + line + "'"; std::vector<Step> st = {{line.substr(0, c.below((uint32_t)line.size() + 1))}, {c.flip() ? "?" : "\t"}, {c.flip() ? " ?" : "\t\t"}}; type_keys(r, st); break; }
        case 3: if (!probes.empty()) { auto &p = c.pick(probes); std::string a = ask(r, p, ok); CHECK(c, a == p.answer, "answer", "%s '%s' in tree %s was answered:\n%s\nlater:\n%s", p.kind == 0 ? "matching" : p.kind == 1 ? "help at" : "TAB at", p.line.c_str(), p.tree.c_str(), p.answer.c_str(), a.c_str()); what = "a repeated probe"; if (acc && ref) nontriv = true; } break;
        case 4: { Spec s2; GenOpt o2 = o; o2.refs = false; o2.labels = c.flip(); o2.depth = 1 + c.below(2); gen_vars(c, s2, o2); TreeText t; t.name = "Z"; t.stmts = gen_stmts(c, s2, o2, o2.depth, true); s2.texts.push_back(t); s2.denote();
            std::string z = s2.render(&c); for (int k = c.below(4); k > 0 && z.size() > 1; k--) { size_t p = c.below((uint32_t)z.size()); if (c.flip()) z.erase(p, 1 + c.below(3)); else z.insert(p, 1, c.pickch(";{}()[]<>\",=@a#\n| \\")); }
            { size_t p = z.find("treename"), q = z.find_first_not_of(" \n\r\t"); if (p != std::string::npos && (p != q || z.find("treename", p + 1) != std::string::npos)) break; }   /* the tree given by the caller would become the handle's */
            what = "parsing:\n" + z; std::vector<char> b(z.begin(), z.end()); b.push_back(0); parse_tree *pt = pt_new(); cvec *g = c.flip() ? cvec_new(0) : nullptr;
            if (clispec_parse_str(r.h, b.data(), (char *)"other", c.flip() ? (char *)"Z" : nullptr, pt, g) == 0) c.label("other specification parsed"); else c.label("other specification refused"); if (g) cvec_free(g); pt_free(pt, 1); break; }
        case 5: { what = "printing"; cbuf *cb = cbuf_new(); FILE *f = fopen("/dev/null", "w"); pt_print1(f, r.pt(tree), c.flip()); fclose(f); if (c.flip()) cligen_help(r.h, stdout, r.pt(tree)); cbuf_free(cb); break; }
        case 6: { what = "copying"; parse_tree *n = pt_dup(r.pt(tree), nullptr, 0); if (n) pt_free(n, 1); break; }
        case 7: { what = "an edit position"; pt_head *ph = cligen_ph_find(r.h, (char *)tree.c_str()); cg_obj *wp = cligen_ph_workpoint_get(ph); cligen_ph_workpoint_set(ph, nullptr); { cvec *av = cvec_new(0); cvec_add_string(av, nullptr, tree.c_str()); cvec *cv = cvec_new(0); cligen_wp_top(r.h, cv, av); cvec_free(cv); cvec_free(av); } cligen_ph_workpoint_set(ph, wp); break; }
        case 8: { what = "history"; if (!typable(line)) break; r.active(tree); std::vector<Step> st = {{line + "\n"}}; type_keys(r, st); std::vector<Step> s2 = {{c.flip() ? "\x10\x10" : "\x10\x0e"}, {c.flip() ? "\x12" + line.substr(0, 1) : "zz"}}; type_keys(r, s2); break; }
        }
        c.note("%s", what.c_str()); trace += what + "\n"; check(what.c_str());
    }
    for (auto &p : probes) { std::string a = ask(r, p, ok); CHECK(c, a == p.answer, "answer", "%s '%s' in tree %s was answered:\n%s\nlater:\n%s", p.kind == 0 ? "matching" : p.kind == 1 ? "help at" : "TAB at", p.line.c_str(), p.tree.c_str(), p.answer.c_str(), a.c_str()); if (acc && ref) nontriv = true; }
    check("the last answers");
    if (acc) c.label("lines accepted", acc); if (ref) c.label("lines refused", ref);
}
void vf_case(Case &c) {
    term_reset(); alloc_track(true); std::string trace; bool nt = false;
    session(c, trace, nt);
    long live = alloc_live(); std::string rep = live ? alloc_report() : ""; alloc_track(false);
    CHECK(c, live == 0, "leak", "%ld allocations are left when the session is closed:\n%s", live, rep.c_str());
    if (nt) c.nontrivial(trace);
}
