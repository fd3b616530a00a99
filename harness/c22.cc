// C22: what the terminal shows matches the line being edited
// LINK: val.cc spec.cc
#include "edit.h"
#include "term.h"
using namespace vf;
extern "C" const char *vf_property_id = "C22";
const char *vf_rule = "lines are edited with random editing keys (the generator of C21: insertion, overwriting, movement, deletion, kill and yank, history, completion, help, redrawing, long runs) at random terminal widths, prompts and in wrapping or scrolling mode; after every operation the characters sent so far are interpreted by a model of a terminal (deferred wrap), which must show the prompt followed by the whole line wrapped at the width, or in scrolling mode by a window of it with marks for hidden text, nothing after it, and the cursor on the editing position; non-trivial = the line was longer than the terminal is wide and was edited at more than one place; distinct by keys";
static int ihook(cligen_handle) { return 0; }
void vf_init() { term_reset(); term_tty(false); }
void vf_case(Case &c) {
    term_reset(); Real r; std::string trace; bool nontriv = false; Ed m; CHECK(c, r.load("zebra(\"animal\") <v:string>(\"any word\"); yak <r:rest>(\"anything\");") == 0, "spec", "refused"); cligen_interrupt_hook(r.h, ihook); struct Off { ~Off() { cligen_interrupt_hook(nullptr, nullptr); } } off;
    int width = c.chance(50) ? c.pick(std::vector<int>{30, 24, 21, 40, 80}) : 21 + c.below(120); bool scroll = c.flip(); CHECK(c, cligen_terminal_width_set(r.h, width) == 0, "width", "width refused"); cligen_line_scrolling_set(r.h, scroll);
    std::string prompt = c.chance(60) ? "> " : std::string(c.below((uint32_t)(scroll ? width - 7 : width * 2)), 'p'); if (c.chance(20) && prompt.size() > 1) prompt.back() = ' '; cligen_prompt_set(r.h, (char *)prompt.c_str());
    c.note("width %d prompt '%s' %s", width, prompt.c_str(), scroll ? "scrolling" : "wrapping"); trace = sprintf_("%d %zu %d\n", width, prompt.size(), scroll);
    { std::vector<Step> st = {{"ab\x02" "c"}}; type_keys(r, st); if (st[0].buf == "ac") { std::vector<Step> s2 = {{"\x0f"}}; type_keys(r, s2); } m.kill = "b"; std::vector<Step> s3 = {{"ab\x02\x0b"}}; type_keys(r, s3); }
    const char *alpha = c.pickc({"abz", "ab yz", "abcdefghij", "zebrayk ", "zyk "}); int lines = 1 + c.below(4); bool hooks = c.chance(50);
    for (int i = 0; i < lines; i++) {
        m.start(); std::vector<Step> st; std::vector<Ed> want; std::vector<std::string> whats; std::string log; int n = 1 + c.below(c.chance(20) ? 80 : 20); std::set<size_t> places; bool longer = false;
        for (int k = 0; k < n; k++) { std::string what, keys = ed_key(c, m, alpha, what, hooks, (size_t)width * 6); if (keys.empty()) continue; if (m.b.find_first_of("\xc3\xe2\xf0") != std::string::npos) break; st.push_back({keys}); want.push_back(m); whats.push_back(what); log += what + ", "; }
        std::string ks; for (auto &s : st) ks += s.keys; c.note("line %d: %s\n keys '%s'", i, log.c_str(), esc(ks).c_str()); trace += ks + "\n"; bool enter = c.chance(80); size_t nn = st.size(); if (enter) st.push_back({"\n"});
        size_t r1 = 0; std::string line; int rc = type_keys(r, st, &line); CHECK(c, rc == 0, "rc", "cliread returns %d", rc); Term t(width); bool any = false;
        for (size_t k = 0; k < nn; k++) {
            std::string before = t.show(); t.feed(st[k].out); if (st[k].buf != want[k].b) c.done();   /* C21 */
            bool hidden = false; size_t r0 = 0; std::string why = shows(t, prompt, want[k].b, want[k].p, scroll, hidden, &r0); if (why.empty() && whats[k] != "TAB" && whats[k] != "help" && whats[k] != "draw again" && r0 != r1) why = sprintf_("the line begins on row %zu of the screen, it was on row %zu", r0, r1); r1 = r0; any = any || hidden; places.insert(want[k].p);
            if (why.empty() && (whats[k] == "TAB" || whats[k] == "help")) {   /* what was listed stands above the line, by itself */
                std::string o = hook_output(st[k].out, prompt); Term u(width); u.feed(o.substr(std::min(o.size(), o.find('\n') == std::string::npos ? o.size() : o.find('\n') + 1))); size_t rows = u.g.size() - (u.text(u.g.size() - 1).empty() ? 1 : 0), at = (size_t)prompt.size() + want[k].p, r0 = scroll ? t.row : t.row - (t.pend && at % (size_t)width == 0 && at ? at / (size_t)width - 1 : at / (size_t)width);
                for (size_t q = 0; q < rows && r0 >= rows; q++) if (t.text(r0 - rows + q) != u.text(q)) why = sprintf_("row %zu of what was listed shows '%s', '%s' was written", q, esc(t.text(r0 - rows + q)).c_str(), esc(u.text(q)).c_str());
            }
            CHECK(c, why.empty(), "shown", "after '%s' (keys '%s') %s\nline '%s', cursor at %zu; the terminal shows\n%sbefore, with line '%s', cursor at %zu\n%ssent '%s'", whats[k].c_str(), esc(st[k].keys).c_str(), why.c_str(), esc(want[k].b).c_str(), want[k].p, t.show().c_str(), k ? esc(want[k - 1].b).c_str() : "", k ? want[k - 1].p : 0, before.c_str(), esc(st[k].out).c_str());
        }
        if (any && places.size() > 4) nontriv = true; c.label(scroll ? any ? "window of a long line" : "short line, scrolling" : any ? "wrapped line" : "short line, wrapping");
        if (enter && !line.empty() && (m.hist.empty() || m.hist.back() != line)) m.hist.push_back(line);
        if (enter && line.empty()) break;
    }
    if (nontriv) c.nontrivial(trace);
}
