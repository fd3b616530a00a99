// C24: any specification text is parsed or cleanly rejected
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C24";
const char *vf_rule = "an interpreter with a loaded specification reads further specification texts: generated ones, the same with characters, tokens and pieces removed, repeated, exchanged and inserted, sequences of tokens of the syntax, deep nesting, and arbitrary bytes; from a string or a file, into the interpreter or a tree of the caller, with and without global variables of the caller; every text is accepted or refused with a message, twice the same, an accepted tree can be dumped, printed, copied, resolved and loaded again, the trees loaded before dump and answer as before, the next good text is accepted, and nothing stays allocated; non-trivial = a text of several statements was refused, or an altered one accepted; distinct by text";
void vf_init() { term_reset(); term_tty(false); }
static const char *TOK[] = {"a", "b", "abc", "<", ">", "<v>", "<v:int32>", ":", "int32", "string", "rest", "(", ")", "[", "]", "{", "}", "@{", ";", ";", ";", ",", "=", "|", "(\"", "\")", "(\"help\")", "\"", "@", "@T", "@|", "@A", "#", "\n", "\r", " ", "\t", "\\", "hide", "range[1:2]", "range[5]", "length[2]", "length[1:3]", "fraction-digits:3", "choice:", "a|b", "keyword:k", "regexp:\"[a-z]+\"", "regexp:!\"a*\"", "regexp:\"(\"", "translate:tr0()", "preference:5", "preference:-1", "show:x", "show:\"x y\"", "exp0()", "exp0(\"a\",\"b\")", "cb0()", "cb0(\"a\")", "cb0((int32)5)", "cb0((int32)\"x\")", "cb0((nosuch)\"x\")", "range[", "]", "1", "-5", "1.5", "99999999999999999999", "treename=\"Q\";", "pipetree=\"|p\";", "x=\"y\";", "x=\"\";", "treename=\"\";", ",l1", ",@remove:l1", ",n=\"v\"", "<v:nosuch>", "<v:decimal64 fraction-digits:99>", "<v:int8 range[1:999]>", "<v:string choice:|a>", "<v:string choice:a||b>", "<v:int32 choice:1|x>", "<v:string exp0(\"\")>", "<:>", "<v:>", "<:string>"};
static std::string soup(Case &c, int n) { std::string s; for (int i = 0; i < n; i++) { s += TOK[c.below(sizeof TOK / sizeof *TOK)]; if (c.chance(30)) s += ' '; } return s; }
static std::string gen_text(Case &c, Spec &s, int &altered) {
    altered = 0; std::string t; int k = c.weighted({40, 25, 8, 4});
    if (k == 0 || k == 2) {
        GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.sets = o.hide = o.shows = o.expand = o.translate = o.prefs = o.labels = c.flip(); o.refs = c.flip(); o.reftrees = o.topreftrees = {"T", "A", "Z", "nosuch"}; o.depth = 1 + c.below(3); gen_vars(c, s, o); TreeText tt; tt.name = c.pickc({"Z", "T", "A"}); tt.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(tt); t = s.render(&c); if (c.flip()) { size_t p = t.find('\n'); t.erase(0, p + 1); }
        if (c.chance(90)) for (int i = 1 + c.below(4); i > 0 && !t.empty(); i--) {
            size_t p = c.below((uint32_t)t.size()), q = std::min(t.size() - p, (size_t)(1 + c.below(6))); altered++;
            switch (c.below(7)) { case 0: t.erase(p, q); break; case 1: t.insert(p, t.substr(p, q)); break; case 2: t.insert(p, TOK[c.below(sizeof TOK / sizeof *TOK)]); break; case 3: t.insert(p, 1, c.pickch(";{}()[]<>\",=@a#\n| \\:")); break; case 4: { size_t z = c.below((uint32_t)t.size()); std::string a = t.substr(p, q); t.insert(z, a); break; } case 5: t[p] = (char)(c.flip() ? c.below(256) : c.pickch(";{}()[]<>\",=@a#\n| \\:")); break; case 6: t.resize(p); break; }
        }
    } else if (k == 1) { t = soup(c, 1 + c.small(24)); altered = 1; }
    else { for (int i = c.below(60); i > 0; i--) t += (char)c.below(256); altered = 1; }
    if (k == 2) { int d = 1 + c.below(400); const char *o = c.pickc({"(", "[", "a{", "<", "\"", "a@{", "((", "@", "(\"", "a (b|", "a,cb0("}), *e = c.pickc({")", "]", "}", ">", "\"", "b;}", ";", "", "\")", ");"}); if (o[0] == '[' || o[0] == '(' || strchr(o, '|')) d = 1 + d % 60; std::string x; for (int i = 0; i < d; i++) x += o; x += c.pickc({"a", "a;", "", "b"}); for (int i = 0; i < d; i++) x += e; t = c.flip() ? x : t + x; altered = 1; }
    for (auto &ch : t) if (!ch) ch = ' ';
    return t;
}
static bool explosive(const std::string &t) { size_t a = std::count(t.begin(), t.end(), '['), b = std::count(t.begin(), t.end(), '|'), o = std::count(t.begin(), t.end(), '('); bool deep = a + b + o > 40; if (!deep) return a + b > 16; size_t alt = 0; for (size_t i = 0; i + 1 < t.size(); i++) if ((t[i] == ']' || t[i] == ')') && (t[i + 1] == '[' || t[i + 1] == '(')) alt++; return alt > 3 || b > 16; }   /* repeated options double the tree by definition */
static int parse(Case &c, cligen_handle h, const std::string &t, bool file, parse_tree *ptp, cvec *g) {
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); err_out.clear(); (void)c;
    if (!file) return clispec_parse_str(h, b.data(), (char *)"spec", nullptr, ptp, g);
    FILE *f = t.empty() ? fopen("/dev/null", "r") : fmemopen(b.data(), t.size(), "r"); int rc = clispec_parse_file(h, f, (char *)"spec", nullptr, ptp, g); fclose(f); return rc;
}
static void use(parse_tree *pt, cligen_handle h) { std::string d = pt_dump(pt); FILE *f = fopen("/dev/null", "w"); pt_print1(f, pt, 0); pt_print1(f, pt, 1); fclose(f); parse_tree *n = pt_dup(pt, nullptr, 0); if (n) pt_free(n, 1); uint64_t nr = 0; size_t sz = 0; pt_stats(pt, &nr, &sz); (void)h; }
static void session(Case &c) {
    Real r; std::string base = "treename=\"T\";\n a (\"help\"), cb0(\"x\"); a <v:int32 range[1:10]>, cb1(); b {@A; c @T;}\n s (x|y) [z], cb2();\ntreename=\"A\";\n ref1, cb3(); <w:string choice:one|two> k, cb4();\n";
    CHECK(c, r.load(base) == 0, "spec", "base specification refused: %s", err_out.c_str()); cligen_prompt_set(r.h, (char *)"> ");
    auto probe = [&]() { std::string o; for (const char *l : {"a", "a 5", "a 11", "b ref1", "b c a 3", "s x z", "b tw k", "zz"}) { Got g; r.calls.clear(); real_match(r, "T", l, g); o += sprintf_("%s: %d %d '%s' %s", l, g.rc, g.res, g.reason.c_str(), show_binds(g.binds).c_str()); if (g.res == CG_MATCH) cligen_eval(r.h, g.co, g.cvv); for (auto &x : r.calls) o += " " + x; o += "\n"; } return o + pt_dump(r.pt("T")) + pt_dump(r.pt("A")); };
    std::string p0 = probe(); int n = 1 + c.below(4);
    for (int i = 0; i < n; i++) {
        Spec s; int altered; std::string t = gen_text(c, s, altered); if (explosive(t)) { c.label("skipped: doubling"); continue; } c.note("text:\n%s", esc(t).c_str());
        bool file = c.flip(), own = c.flip(); if (own && t.find("treename") != std::string::npos) own = false; cvec *g = nullptr; if (c.flip()) { g = cvec_new(0); if (c.flip()) { cg_var *v = cvec_add(g, c.flip() ? CGV_INT32 : CGV_STRING); cv_name_set(v, c.pickc({"x", "pipetree", "treename"})); } }
        parse_tree *pt = own ? pt_new() : nullptr; int trees = 0; pt_head *ph = nullptr; while ((ph = cligen_ph_each(r.h, ph))) trees++;
        int rc = parse(c, r.h, t, file, pt, g); std::string msg = err_out;
        CHECK(c, rc == 0 || rc == -1, "rc", "parsing returns %d", rc); CHECK(c, rc == 0 || !msg.empty(), "silent", "text refused without a message:\n%s", esc(t).c_str());
        if (rc == 0) { if (own) { use(pt, r.h); r.resolve(pt); use(pt, r.h); } else { int k = 0; ph = nullptr; while ((ph = cligen_ph_each(r.h, ph))) if (k++ >= trees) { parse_tree *q = cligen_ph_parsetree_get(ph); if (q) { use(q, r.h); r.resolve(q); } } } }
        { Real r2; Real *keep = REAL; CHECK(c, r2.load("treename=\"T\";x;") == 0, "spec", "x refused"); parse_tree *p2 = own ? pt_new() : nullptr; cvec *g2 = nullptr; if (g) { g2 = cvec_new(0); } int rc2 = g && cvec_len(g) ? rc : parse(c, r2.h, t, !file, p2, g2); CHECK(c, rc2 == rc, "again", "the same text is %s the second time:\n%s", rc2 == 0 ? "accepted" : "refused", esc(t).c_str()); if (own && rc == 0 && !(g && cvec_len(g))) { r2.resolve(p2); std::string a = pt_dump(pt), b = pt_dump(p2); CHECK(c, a == b, "again", "the same text gives\n%s\nand then\n%s", a.c_str(), b.c_str()); } if (p2) pt_free(p2, 1); if (g2) cvec_free(g2); REAL = keep; }
        REAL = &r; if (pt) pt_free(pt, 1); if (g) cvec_free(g);
        c.label(rc == 0 ? altered ? "altered text accepted" : "text accepted" : "text refused");
        std::string p1 = probe(); CHECK(c, p0 == p1, "before", "after %s text\n%s\ntrees loaded before answer:\n%s\nbefore:\n%s", rc == 0 ? "accepted" : "refused", esc(t).c_str(), p1.c_str(), p0.c_str());
        if ((rc != 0 && std::count(t.begin(), t.end(), ';') > 1) || (rc == 0 && altered && !t.empty())) c.nontrivial(t);
    }
    std::vector<char> b; std::string good = "treename=\"Final_1\";\n go <n:int32>, cb0();"; CHECK(c, parse(c, r.h, good, c.flip(), nullptr, nullptr) == 0, "after", "a good text is refused afterwards: %s", err_out.c_str()); parse_tree *pt = r.pt("Final_1"); CHECK(c, pt, "after", "tree is not there"); r.resolve(pt); Got g; real_match(r, "Final_1", "go 7", g); CHECK(c, g.res == CG_MATCH, "after", "a good specification loaded afterwards does not work: %s", g.reason.c_str());
}
void vf_case(Case &c) {
    term_reset(); alloc_track(true); session(c); long live = alloc_live(); std::string rep = live ? alloc_report() : ""; alloc_track(false);
    CHECK(c, live == 0, "leak", "%ld allocations are left when the session is closed:\n%s", live, rep.c_str());
}
