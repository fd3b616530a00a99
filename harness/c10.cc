// C10: accepted commands run their callbacks with exactly the typed words and values
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C10";
const char *vf_rule = "a specification with callbacks (several per command, typed arguments), translations, sets and options is generated; lines are matched and evaluated under random option settings with a callback failing at a random position, half of them typed at the prompt; non-trivial = at least one callback ran; distinct by (specification, line, options)";
void vf_init() { term_reset(); term_tty(false); }
static std::vector<std::string> wrapped; static bool wrap_handle;
static int wrapper(void *arg, void **wh, const char *name, const char *) { wrapped.push_back(std::string(*wh ? "end " : "begin ") + name); if (*wh) { free(*wh); *wh = nullptr; } else if (wrap_handle) *wh = malloc(8); (void)arg; return 0; }
void vf_case(Case &c) {
    term_reset();
    Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(5); o.cbs = true; o.sets = c.chance(25); o.help = false; o.translate = true; o.ranges = false;
    gen_vars(c, s, o); TreeText t; t.name = "T"; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); s.denote();
    std::string text = s.render(&c); c.note("%s", text.c_str());
    Real r; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    r.active("T"); Matcher m(s); cligen_lexicalorder_set(r.h, 0);
    bool ef = c.chance(30), ek = c.chance(30), wrap = c.chance(25); cligen_expand_first_set(r.h, ef); cligen_exclude_keys_set(r.h, ek);
    if (wrap) { cligen_eval_wrap_fn_set(r.h, wrapper, &wrap_handle); wrap_handle = c.flip(); }
    c.note("expand-first %d exclude-keys %d wrapper %d", ef, ek, wrap);
    int n = 1 + c.below(6);
    for (int i = 0; i < n; i++) {
        std::string line = gen_line(c, m, "T"), tl = trim_line(line); if (tl.empty()) continue;
        Out out = m.match("T", tl); if (out.unspec) { c.label("unspecified"); continue; }
        bool typed = c.flip(); for (char ch : line) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') typed = false;
        r.calls.clear(); r.ncalls = 0; wrapped.clear();
        r.fail_at = out.cbs.empty() || c.chance(70) ? -1 : (int)c.below((uint32_t)out.cbs.size() + 1);
        r.fail_rc = c.flip() ? -1 : c.pick(std::vector<int>{-2, -7, -255, -256, INT_MIN});
        c.note("line '%s' %s, callback %d fails with %d", line.c_str(), typed ? "typed" : "parsed", r.fail_at, r.fail_rc);
        int rc = 0; bool evaluated = false; std::string shown;
        if (typed) {
            term_input(line + "\n"); char *ln = nullptr, *reason = nullptr; int cb = 7777; cligen_result res = CG_ERROR;
            int ret = cliread_eval(r.h, &ln, &cb, &res, &reason); std::string rs = reason ? reason : ""; if (reason) lib_free(reason);
            CHECK(c, ret == 0, "error", "'%s': cliread_eval returned %d", line.c_str(), ret);
            CHECK(c, (res == CG_MATCH) == (out.res == R_MATCH), "result", "'%s' typed at the prompt: result %d %s, expected %s", line.c_str(), res, rs.c_str(), out.res == R_MATCH ? "a match" : "a refusal");
            CHECK(c, ln && trim_line(line) == ln, "line", "'%s' typed at the prompt was read as '%s'", line.c_str(), ln ? ln : "(null)");
            if (res == CG_MATCH) { rc = cb; evaluated = true; }
            else CHECK(c, cb == 7777, "result", "'%s': refused line reports a callback result", line.c_str());
        } else {
            Got g; real_match(r, "T", line, g); compare_match(c, out, g, line);
            CHECK(c, r.calls.empty(), "early", "'%s': callback %s ran during matching", line.c_str(), r.calls[0].c_str());
            if (g.res == CG_MATCH) { std::string before = show_binds(g.binds); rc = cligen_eval(r.h, g.co, g.cvv); evaluated = true; shown = before; Got g2; g2.cvv = cvec_dup(g.cvv); }
        }
        if (!evaluated) { CHECK(c, r.calls.empty(), "rejected", "'%s' was rejected but ran %s", line.c_str(), r.calls[0].c_str()); c.label("rejected"); continue; }
        std::vector<Bind> b = out.binds;
        if (ef) { std::string f; for (size_t k = 1; k < b.size(); k++) f += (k > 1 ? " " : "") + (b[k].v.t == CGV_STRING || b[k].v.t == CGV_REST ? b[k].v.s : ref_print(b[k].v)); b[0].v.s = f; }
        if (ek) { std::vector<Bind> x; for (size_t k = 0; k < b.size(); k++) if (k == 0 || !b[k].konst) x.push_back(b[k]); b = x; }
        std::vector<std::string> want, cs = cb_strings(out.cbs), wwant;
        for (size_t k = 0; k < cs.size(); k++) { want.push_back(cs[k] + " {" + show_binds(b) + "}"); if (wrap) { wwant.push_back("begin " + out.cbs[k].fn); if (wrap_handle && (int)k != r.fail_at) wwant.push_back("end " + out.cbs[k].fn); } if ((int)k == r.fail_at) break; }
        auto join = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += "\n  " + esc(x); return s; };
        CHECK(c, r.calls == want, "calls", "'%s': callbacks called:%s\nexpected:%s", line.c_str(), join(r.calls).c_str(), join(want).c_str());
        CHECK(c, wrapped == wwant, "wrapper", "'%s': wrapper called:%s\nexpected:%s", line.c_str(), join(wrapped).c_str(), join(wwant).c_str());
        bool failed = r.fail_at >= 0 && r.fail_at < (int)cs.size();
        CHECK(c, failed ? rc < 0 : rc == 0, "retval", "'%s': evaluation returned %d, %s", line.c_str(), rc, failed ? "a callback failed" : "no callback failed");
        CHECK(c, cligen_fn_str_get(r.h) == nullptr, "name", "function name still set after evaluation");
        c.label(failed ? "failed" : cs.empty() ? "no callback" : cs.size() > 1 ? "several callbacks" : "one callback");
        if (!cs.empty()) c.nontrivial(text + "\n" + line + (ef ? "f" : "") + (ek ? "k" : ""));
    }
}
