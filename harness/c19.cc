// C19: history keeps the latest distinct lines in order and survives save and load
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C19";
const char *vf_rule = "lines of any length are entered at the prompt, recalled with every history key, edited, entered again or abandoned, empty and comment lines and end of input come in between, the history is resized, saved and loaded (into the same or another interpreter, with another size); the line after every key, the bell, the lines returned, the history callback and the saved file are compared with a list of at most the configured size; non-trivial = a line was recalled when more lines had been entered than the history holds, or after a load; distinct by operations";
void vf_init() { term_reset(); term_tty(false); }
struct H { size_t cap = 100; std::vector<std::string> e; size_t cur = 0; bool beyond = false;
    void add(const std::string &l) { if (l.find_first_not_of(" \t\n") != std::string::npos && (e.empty() || e.back() != l)) { e.push_back(l); if (e.size() > cap) e.erase(e.begin()); } top(); }
    void top() { cur = e.size(); beyond = false; }
    std::string text() const { std::string s; for (auto &x : e) s += x + "\n"; return s; } };
static std::vector<std::string> hooked;
static int hook(cligen_handle, char *s, void *arg) { hooked.push_back(std::string(s) + (arg == (void *)&hooked ? "" : "?")); return 0; }
static std::string saved(cligen_handle h) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); cligen_hist_file_save(h, f); fclose(f); std::string s(b, n); free(b); return s; }
static std::string show(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += "\n  '" + (x.size() > 200 ? x.substr(0, 80) + sprintf_("...(%zu)", x.size()) : esc(x)) + "'"; return s; }
void vf_case(Case &c) {
    term_reset(); Real *r = new Real; H m; std::unique_ptr<Real> own(r); bool nontriv = false, loaded = false; size_t entered = 0; std::string trace;
    auto setup = [&](Real *q) { cligen_prompt_set(q->h, (char *)"> "); cligen_hist_fn_set(q->h, hook, &hooked); if (c.chance(80)) { int n = 1 + (c.chance(80) ? c.small(8) : c.below(200)); CHECK(c, cligen_hist_init(q->h, n) == 0, "init", "cligen_hist_init %d failed", n); m.cap = (size_t)n; c.note("size %d", n); trace += sprintf_("size %d\n", n); } else m.cap = 100; m.e.clear(); m.top(); entered = 0; loaded = false; };
    setup(r); cligen_line_scrolling_set(r->h, c.below(2)); int mode = c.below(4);
    std::vector<std::string> past; hooked.clear(); std::vector<std::string> hookwant; bool multi = c.chance(15);
    auto text = [&]() -> std::string { if (!past.empty() && c.chance(25)) return c.pick(past); std::string t; switch (c.weighted({40, 20, 10, 5, 6, 5})) { case 0: t = c.str("abc", 1, 3); break; case 1: t = c.str("ab \"#xyz.19", 1, 12); break; case 2: t = c.str(" ab", 0, 6); break; case 3: { size_t n = c.pick(std::vector<int>{60, 127, 128, 129, 255, 256, 257, 600, 1500}); t = std::string(n, (char)('a' + c.below(3))); break; } case 4: t = c.str(" \t#", 0, 4); for (auto &ch : t) if (ch == '\t') ch = ' '; break; default: t = "cmd " + std::to_string(c.below(12)); } if (multi) for (auto &ch : t) if (ch == '"') ch = 'q'; past.push_back(t); return t; };
    int n = 2 + c.below(mode == 0 ? 25 : 10);
    for (int i = 0; i < n; i++) {
        int op = c.weighted({60, 6, 6, 3, 5});
        if (op == 0) {   /* one line at the prompt */
            std::vector<Step> st; std::vector<std::set<std::string>> want; std::vector<int> bell; std::string cur; std::string log; bool amb = false; m.top();
            for (int k = 1 + c.below(8); k > 0; k--) {
                switch (c.weighted({30, 30, 20, 10, 4, multi ? 8 : 0})) {
                case 0: { std::string t = text(); if (cur.size() + t.size() > 4000) break; std::string keys = t; st.push_back({keys}); cur += t; want.push_back({cur}); bell.push_back(-1); log += sprintf_("types '%s' ", esc(t).c_str()); break; }
                case 1: { if (amb) break; const char *key = c.pickc({"\x10", "\033[A", "\033OA"}); st.push_back({key}); if (m.cur > 0) { m.cur--; cur = m.e[m.cur]; bell.push_back(0); if (entered > m.cap || loaded) nontriv = true; } else { cur = ""; m.beyond = true; bell.push_back(1); } want.push_back({cur}); log += "back "; break; }
                case 2: { if (amb) break; const char *key = c.pickc({"\x0e", "\033[B", "\033OB"}); st.push_back({key}); log += "forward ";
                    if (m.beyond) { /* after a step past the oldest line: the oldest or the one after it */ std::set<std::string> w = {m.e.empty() ? "" : m.e[0], m.e.size() > 1 ? m.e[1] : ""}; want.push_back(w); bell.push_back(-1); amb = true; break; }
                    if (m.cur < m.e.size()) { m.cur++; cur = m.cur == m.e.size() ? "" : m.e[m.cur]; bell.push_back(0); } else { cur = ""; bell.push_back(1); } want.push_back({cur}); break; }
                case 3: { if (amb) break; int x = 1 + c.below(4); st.push_back({std::string((size_t)x, '\x7f')}); for (; x > 0 && !cur.empty(); x--) cur.pop_back(); want.push_back({cur}); bell.push_back(-1); log += "deletes "; break; }
                case 4: st.push_back({"\x15"}); cur = ""; amb = false; want.push_back({cur}); bell.push_back(-1); log += "kills "; break;
                case 5: if (amb) break; st.push_back({"\\\n"}); cur += "\n"; want.push_back({cur}); bell.push_back(-1); log += "newline "; break;
                }
                if (amb) break;
            }
            bool enter = c.chance(85); if (amb) { st.push_back({"\x15"}); cur = ""; want.push_back({""}); bell.push_back(-1); }
            if (enter) st.push_back({c.flip() ? "\n" : "\r"}); log += enter ? "enters" : "end of input"; c.note("%s", log.c_str()); trace += log + "\n";
            std::string line, w; int rc = type_keys(*r, st, &line); CHECK(c, rc == 0, "rc", "cliread returns %d", rc);
            for (size_t k = 0; k < want.size(); k++) {
                CHECK(c, want[k].count(st[k].buf), "line", "after key %zu '%s' (of %s) the line is '%s', expected '%s'; history is%s", k, esc(st[k].keys).c_str(), log.c_str(), esc(st[k].buf).c_str(), esc(*want[k].begin()).c_str(), show(m.e).c_str());
                if (bell[k] >= 0) CHECK(c, (st[k].out.find('\a') != std::string::npos) == (bell[k] == 1), "bell", "after key %zu of %s the bell is %s", k, log.c_str(), bell[k] ? "silent" : "rung");
            }
            w = enter ? trim_line(cur) : ""; if (multi) while (!w.empty() && (w.back() == '\n' || w.back() == ' ')) w.pop_back();
            if (enter && !w.empty() && !line.empty() && cur.find('"') != std::string::npos) w = line;   /* trimming with quotes is C01's */
            CHECK(c, line == w, "returned", "%s returns '%s', expected '%s'", log.c_str(), esc(line).c_str(), esc(w).c_str());
            if (!w.empty()) { m.add(w); hookwant.push_back(w); entered++; if (entered > m.cap) c.label("history overflows"); past.push_back(w); for (char &ch : past.back()) if (ch == '\n') ch = ' '; }
            CHECK(c, hooked == hookwant, "callback", "history callback was called with%s\nexpected%s", show(hooked).c_str(), show(hookwant).c_str());
            c.label(enter ? w.empty() ? "empty line" : "line entered" : "line abandoned");
        } else if (op == 1) {   /* save */
            std::string s = saved(r->h); CHECK(c, s == m.text(), "saved", "saved history:\n%s\nexpected:\n%s", esc(s).c_str(), esc(m.text()).c_str()); c.label("saved"); trace += "save\n";
        } else if (op == 2 && !multi) {   /* load what was saved, here or in another interpreter */
            std::string s = saved(r->h); CHECK(c, s == m.text(), "saved", "saved history:\n%s\nexpected:\n%s", esc(s).c_str(), esc(m.text()).c_str()); std::vector<std::string> old = m.e;
            if (c.flip()) { own.reset(new Real); r = own.get(); setup(r); } else if (c.flip()) { int k = 1 + c.below(12); CHECK(c, cligen_hist_init(r->h, k) == 0, "init", "cligen_hist_init %d failed", k); m.cap = (size_t)k; m.e.clear(); m.top(); c.note("resized to %d", k); entered = 0; }
            std::vector<char> b(s.begin(), s.end()); FILE *f = b.empty() ? fopen("/dev/null", "r") : fmemopen(b.data(), b.size(), "r"); int rc = cligen_hist_file_load(r->h, f); fclose(f); CHECK(c, rc == 0, "load", "cligen_hist_file_load returns %d", rc);
            for (auto &x : old) m.add(x); loaded = !m.e.empty(); std::string now = saved(r->h); CHECK(c, now == m.text(), "loaded", "saved:\n%s\nloaded:\n%s\nexpected:\n%s", esc(s).c_str(), esc(now).c_str(), esc(m.text()).c_str()); c.note("saved and loaded"); c.label("saved and loaded"); trace += "load\n";
        } else if (op == 3) { int k = 1 + c.below(12); CHECK(c, cligen_hist_init(r->h, k) == 0, "init", "cligen_hist_init %d failed", k); m.cap = (size_t)k; m.e.clear(); m.top(); entered = 0; c.note("resized to %d", k); c.label("resized"); trace += sprintf_("resize %d\n", k); }
        else if (op == 4) { CHECK(c, cligen_hist_init(r->h, -(int)c.below(2)) < 0, "init", "a history of no lines was accepted"); }
    }
    std::string s = saved(r->h); CHECK(c, s == m.text(), "saved", "saved history:\n%s\nexpected:\n%s", esc(s).c_str(), esc(m.text()).c_str());
    if (nontriv) c.nontrivial(trace);
}
