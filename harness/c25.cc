// C25: no typed input can crash or hang the interpreter
// LINK: val.cc spec.cc
#include "spec.h"
#include <errno.h>
using namespace vf;
extern "C" const char *vf_property_id = "C25";
const char *vf_rule = "one to three interpreters with random specifications and settings (tab mode, preference mode, UTF-8, scrolling, terminal size, history size, interrupt and suspend hooks, failing callbacks) read byte streams of pieces of commands, control and escape sequences, help, completion, search and history keys, quotes, backslashes, multi-byte characters whole and cut, random bytes and very long runs, line by line until the end of input which comes anywhere; memory checks on every access, a bound on work per byte, the input is consumed, and afterwards each interpreter executes a known command with its value; non-trivial = the stream used a hook, search or history key and a line was entered; distinct by bytes";
void vf_init() { term_reset(); term_tty(false); }
static int nhook; static int ihook(cligen_handle) { nhook++; return 0; }
static int shook(void *, char *, int, int *where) { nhook++; if (where) *where = 0; return 0; }
static std::string piece(Case &c, Matcher &m, const std::string &tree, bool &key) {
    switch (c.weighted({34, 16, 10, 8, 8, 6, 6, 4, 3})) {
    case 0: { std::string l = gen_line(c, m, tree); if (c.flip()) l = l.substr(0, c.below((uint32_t)l.size() + 1)); return l + (c.chance(40) ? "\n" : c.chance(30) ? " " : ""); }
    case 1: key = true; return c.pickc({"?", "\t", "\t\t", "\t?", " ?", "?\t"});
    case 2: return c.pickc({"\n", "\r", "\n\n"});
    case 3: key = true; { std::string s = c.pickc({"\x10", "\x0e", "\x12", "\x13", "\033[A", "\033[B", "\x12\x12", "\x13\x12"}); if (c.flip()) s += c.str("abc ", 0, 4); return s; }
    case 4: { std::string s; for (int i = 1 + c.below(5); i > 0; i--) s += c.pickc({"\x01", "\x02", "\x04", "\x05", "\x06", "\x08", "\x7f", "\x0b", "\x0c", "\x0f", "\x14", "\x15", "\x17", "\x19", "\033[C", "\033[D", "\033[H", "\033[F", "\033[3~", "\033OC", "\033OD", "\033f", "\033b", "\033", "\033[", "\033[1", "\033O", "\033[9~", "\033\033", "\x1a", "\x03", "\x07", "\x11", "\x16", "\x18", "\x1c", "\x1d", "\x1e", "\x1f"}); return s; }
    case 5: { std::string s; for (int i = 1 + c.below(4); i > 0; i--) s += c.pickc({"\"", "\\", "\\\"", "\"\"", "#", "\\\n", "\\\\", "\\?", "\\#", "|", "<", ">", "'", ",", "\" \"", ";"}); return s; }
    case 6: { std::string s; for (int i = 1 + c.below(4); i > 0; i--) s += c.pickc({"\xc3\xa5", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xe2\x82", "\xf0\x9f", "\x80", "\xff", "\xfe", "\xc0\x80", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80"}); return s; }
    case 7: { size_t n = c.pick(std::vector<int>{20, 79, 80, 81, 99, 100, 101, 126, 127, 128, 129, 200, 255, 256, 257, 600, 1023, 1024, 1500}); static const char *F[] = {"x", "ab ", "\"", "\\", "\xc3\xa5", " ", "\x08", "\x10", "\x19x", "1", "\x14", "a\x17"}; const char *f = F[c.below(12)]; std::string s; if (f[0] == 0x19) n = 20; while (s.size() < n) s += f; return s; }
    default: { std::string s; for (int i = 1 + c.below(12); i > 0; i--) s += (char)c.below(256); return s; }
    }
}
static void known(Case &c, Real &r, const char *when) {
    REAL = &r; r.active("K"); r.calls.clear(); r.fail_at = -1; on_key = nullptr; on_eof = nullptr; term_input("known 42\n"); char *ln = nullptr, *reason = nullptr; int cb = -7; cligen_result res = CG_ERROR;
    int rc = cliread_eval(r.h, &ln, &cb, &res, &reason); std::string why = reason ? reason : ""; if (reason) lib_free(reason);
    CHECK(c, rc == 0 && res == CG_MATCH && r.calls.size() == 1 && r.calls[0].find("42") != std::string::npos, "after", "%s the command 'known 42' gives rc %d result %d '%s' line '%s', %zu calls %s", when, rc, res, why.c_str(), ln ? esc(ln).c_str() : "(none)", r.calls.size(), r.calls.empty() ? "" : r.calls[0].c_str());
}
static void session(Case &c, std::string &trace, bool &nontriv) {
    int nh = 1 + (c.chance(25) ? 1 + c.below(2) : 0); std::vector<std::unique_ptr<Real>> hs; std::vector<std::unique_ptr<Spec>> ss; std::vector<std::unique_ptr<Matcher>> ms;
    cligen_terminal_width_set(nullptr, 80); bool ign = false;
    for (int i = 0; i < nh; i++) {
        ss.emplace_back(new Spec); Spec &s = *ss.back(); GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.sets = c.chance(30); o.hide = c.chance(30); o.shows = c.chance(30); o.refs = c.chance(30); o.labels = c.chance(20); o.expand = c.chance(50); o.translate = c.chance(30); o.prefs = c.chance(30); o.longhelp = c.chance(20); o.depth = 1 + c.below(3);
        static const std::vector<std::string> TN = {"T", "A"}; gen_vars(c, s, o); int nt = o.refs ? 2 : 1;
        for (int k = 0; k < nt; k++) { if (o.refs) { o.reftrees = TN; o.topreftrees = k == 0 ? std::vector<std::string>{"A"} : std::vector<std::string>{}; } TreeText t; t.name = TN[k]; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); }
        s.denote(); ms.emplace_back(new Matcher(s)); std::string text = s.render(&c); c.note("interpreter %d:\n%s", i, text.c_str());
        hs.emplace_back(new Real); Real &r = *hs.back(); CHECK(c, r.load(text) == 0 && r.load("treename=\"K\"; known <n:int32>, cb0();") == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
        if (c.chance(90)) cligen_prompt_set(r.h, (char *)c.pickc({"> ", "%~> ", "", "a long prompt with many words in it which is half a line long> "}));
        int tm = c.below(8); cligen_tabmode_set(r.h, o.refs ? tm & 3 : tm); cligen_preference_mode_set(r.h, c.below(4)); cligen_caseignore_set(r.h, c.flip()); cligen_expand_first_set(r.h, c.flip()); cligen_exclude_keys_set(r.h, c.flip()); cligen_helpstring_lines_set(r.h, c.below(3)); cligen_helpstring_truncate_set(r.h, c.flip());
        if (c.flip()) cligen_hist_init(r.h, 1 + c.below(5)); if (c.chance(30)) cligen_terminal_width_set(r.h, c.pick(std::vector<int>{21, 22, 40, 80, 132, 500})); cligen_utf8_set(r.h, c.flip()); cligen_line_scrolling_set(r.h, c.below(2)); if (c.chance(20)) cligen_comment_set(r.h, c.pickch("#!|;a")); if (c.chance(15)) { cligen_lexicalorder_set(r.h, 1); } if (c.chance(15)) { cligen_ignorecase_set(r.h, 1); } if (c.chance(20)) cligen_delimiter_set(r.h, c.pickch(" -/")); ign = ign || cligen_ignorecase(r.h);
        if (c.chance(30)) { cligen_paging_set(r.h, 1); cligen_terminal_rows_set(r.h, c.below(8)); }
    }
    int hooks = c.below(4); cligen_interrupt_hook(hs[0]->h, hooks & 1 ? ihook : nullptr); cligen_susp_hook(hs[0]->h, hooks & 2 ? (cligen_susp_cb_t *)shook : nullptr);
    c.note("settings: tabmode %d utf8 %d scrolling %d width %d paging %d", cligen_tabmode(hs[0]->h), cligen_utf8_get(hs[0]->h), cligen_line_scrolling(hs[0]->h), cligen_terminal_width(hs[0]->h), cligen_paging_get(hs[0]->h));
    int rounds = 1 + (nh > 1 ? c.below(5) : c.below(2)); bool key = false, entered = false;
    for (int q = 0; q < rounds; q++) {
        int i = c.below(nh); Real &r = *hs[i]; REAL = &r; std::string tree = ss[i]->texts[c.below((uint32_t)ss[i]->texts.size())].name; r.active(tree);
        std::string keys; int n = 1 + (c.chance(70) ? c.below(20) : c.small(14)); for (int k = 0; k < n && keys.size() < 4000; k++) keys += piece(c, *ms[i], tree, key);
        if (c.chance(20)) keys = keys.substr(0, c.below((uint32_t)keys.size() + 1)); c.note("interpreter %d tree %s keys '%s'", i, tree.c_str(), esc(keys).c_str()); trace += sprintf_("%d %s %s\n", i, tree.c_str(), keys.c_str());
        r.fail_at = c.chance(20) ? c.below(3) : -1; r.fail_rc = c.flip() ? -1 : -1 - (int)c.below(300); r.ncalls = 0; term_input(keys); if (c.chance(25)) { auto left = std::make_shared<int>(c.below(4)); int err = c.flip() ? EIO : EINTR; c.note("read fails with %s", strerror(err)); on_eof = [left, err]() { return (*left)-- > 0 ? -err : -1; }; } bool loop = c.chance(30);
        if (loop) { cligen_loop(r.h); entered = entered || r.ncalls > 0; cligen_exiting_set(r.h, 0); }
        else for (int k = 0;; k++) {
            CHECK(c, k < (int)keys.size() + 8, "spins", "more lines are read than bytes were typed"); char *ln = nullptr, *reason = nullptr; int cb = 0; cligen_result res = CG_ERROR; size_t before = term_pending();
            int rc = cliread_eval(r.h, &ln, &cb, &res, &reason); if (reason) lib_free(reason); CHECK(c, rc == 0 || rc == -1, "rc", "cliread_eval returns %d", rc);
            if (rc == 0 && res != CG_EOF) entered = true; if (rc == 0 && res == CG_EOF) { break; } if (term_pending() == before && !before) break;
        }
        if (c.chance(15)) { int k = 1 + c.below(6); CHECK(c, cligen_hist_init(r.h, k) == 0, "history", "a new history of %d lines is refused", k); } if (c.chance(30)) known(c, r, "after this input"); cli_output_reset(); on_eof = nullptr;
    }
    for (auto &r : hs) known(c, *r, "finally");
    cligen_interrupt_hook(hs[0]->h, nullptr); cligen_susp_hook(hs[0]->h, nullptr); if (ign) for (auto &r : hs) cligen_ignorecase_set(r->h, 0); for (auto &r : hs) cligen_lexicalorder_set(r->h, 0);
    nontriv = key && entered; c.label(nh > 1 ? "several interpreters" : "one interpreter"); if (entered) c.label("lines entered");
}
void vf_case(Case &c) {
    term_reset(); std::string trace; bool nt = false; { struct Off { ~Off() { cligen_interrupt_hook(nullptr, nullptr); cligen_susp_hook(nullptr, nullptr); } } off; alloc_track(true); session(c, trace, nt); }
    long live = alloc_live(); std::string rep = live ? alloc_report() : ""; alloc_track(false);
    CHECK(c, live == 0, "leak", "%ld allocations are left when the session is closed:\n%s", live, rep.c_str());
    if (nt) c.nontrivial(trace);
}
