// C21: the line editor returns exactly the edited text
// LINK: val.cc spec.cc
#include "edit.h"
using namespace vf;
extern "C" const char *vf_property_id = "C21";
const char *vf_rule = "several lines are edited in one session with random editing keys (every key of the documented table, arrow, word and delete sequences, backslash-quoted characters, TAB and help, history, signals, multi-byte characters, long runs), the line after every operation and the line returned are compared with the same edits of a plain text and cursor; lines end by return, by end of input, or by ^D or an exit character; width, prompt, scrolling and UTF-8 mode vary; non-trivial = a line with at least five kinds of operations and over 40 characters at some time; distinct by keys";
static int susp_mode, susps; static std::string susp_seen; static int susp_pos;
static int shook(void *hv, char *buf, int plen, int *where) { cligen_handle h = (cligen_handle)hv; (void)plen; susps++; susp_seen = buf; susp_pos = *where; if (susp_mode != 2) return -1; std::string s(buf); int at = *where; s.insert((size_t)at, "S"); cligen_buf_increase(h, s.size() + 2); strcpy(cligen_buf(h), s.c_str()); *where = at + 1; return at; }
static int ihook(cligen_handle) { return 0; }
void vf_init() { term_reset(); term_tty(false); for (const char *p = "\x11\x1e\x1f"; *p; p++) cligen_exitchar_add(nullptr, *p); for (int i = 0; i < 9; i++) cligen_exitchar_add(nullptr, (char)0xf9);   /* more than there is room for */ }
void vf_case(Case &c) {
    term_reset(); Real r; std::string tr, trace; bool nontriv = false; Ed m; CHECK(c, r.load("zebra; yak;") == 0, "spec", "refused");
    m.utf8 = c.chance(30); m.tty = c.chance(40); term_tty(m.tty); m.susp = c.chance(30) ? 1 + c.below(2) : 0; susp_mode = m.susp; susps = 0; cligen_susp_hook(r.h, m.susp ? (cligen_susp_cb_t *)shook : nullptr); cligen_interrupt_hook(r.h, ihook);
    struct Off { ~Off() { cligen_susp_hook(nullptr, nullptr); cligen_interrupt_hook(nullptr, nullptr); } } off;
    std::string prompt = c.chance(70) ? "> " : std::string(c.below(c.flip() ? 120 : 30), 'p'); cligen_prompt_set(r.h, (char *)prompt.c_str()); int width = c.chance(50) ? 80 : c.pick(std::vector<int>{21, 22, 23, 30, 40, 79, 81, 132, 200, 1000}); CHECK(c, cligen_terminal_width_set(r.h, width) == 0, "width", "width refused"); cligen_line_scrolling_set(r.h, c.below(2)); cligen_utf8_set(r.h, m.utf8);
    c.note("width %d prompt %zu scrolling %d utf8 %d", width, prompt.size(), cligen_line_scrolling(r.h), m.utf8);
    { std::vector<Step> st = {{"ab\x02" "c"}, {"\x15\x0b"}}; if (cligen_preference_mode(r.h) == 0) { type_keys(r, st); if (st[0].buf == "ac") { std::vector<Step> s2 = {{"\x0f"}}; type_keys(r, s2); } } m.kill = "b"; std::vector<Step> s3 = {{"ab\x02\x0b"}}; type_keys(r, s3); }   /* insert mode */
    const char *alpha = c.pickc({"abz", "ab yz", "ab \"x#1\\?", " ab", "zebrayk "}); int lines = 1 + c.below(5); bool stop = false;
    for (int i = 0; i < lines && !stop; i++) {
        m.start(); std::vector<Step> st; std::vector<Ed> want; std::vector<std::string> whats; std::set<std::string> kinds; size_t longest = 0; std::string log; int n = c.below(c.chance(20) ? 120 : 25);
        for (int k = 0; k < n; k++) { std::string what, keys = ed_key(c, m, alpha, what); if (keys.empty()) continue; st.push_back({keys}); want.push_back(m); whats.push_back(what); kinds.insert(what.substr(0, 9)); longest = std::max(longest, m.b.size()); log += what + ", "; }
        int how = c.weighted({80, 8, 6, 6}); if (how == 2 && !m.b.empty()) { st.push_back({"\x05\x15"}); m.kill = m.b; m.b.clear(); m.p = 0; want.push_back(m); whats.push_back("kill all"); }
        if (how == 0) { st.push_back({c.pickc({"\n", "\r"})}); } else if (how == 2) { if (m.b.empty()) st.push_back({"\x04"}); } else if (how == 3) { st.push_back({std::string(1, c.pickch("\x11\x1e\x1f"))}); }
        log += how == 0 ? "return" : how == 1 ? "end of input" : how == 2 ? "^D" : "exit character"; std::string ks; for (auto &s : st) ks += s.keys; c.note("line %d: %s\n keys '%s'", i, log.c_str(), esc(ks).c_str()); trace += ks + "\n";
        std::string line; int rc = type_keys(r, st, &line); CHECK(c, rc == 0, "rc", "cliread returns %d", rc);
        for (size_t k = 0; k < want.size(); k++) CHECK(c, st[k].buf == want[k].b, "text", "after '%s' (keys '%s') the line is\n '%s' (%zu)\nexpected\n '%s' (%zu)\nbefore it was\n '%s', cursor at %zu", whats[k].c_str(), esc(st[k].keys).c_str(), esc(st[k].buf).c_str(), st[k].buf.size(), esc(want[k].b).c_str(), want[k].b.size(), k ? esc(want[k - 1].b).c_str() : "", k ? want[k - 1].p : 0);
        std::string w = how == 0 ? trim_line(m.b) : ""; if (how == 0 && !line.empty() && (m.b.find('"') != std::string::npos || m.b.find('#') != std::string::npos)) w = line;   /* trimming is C01's */
        if (how == 0 && w.find_first_not_of(" \t") == std::string::npos) w = "";
        CHECK(c, line == w, "returned", "returned '%s', expected '%s'", esc(line).c_str(), esc(w).c_str());
        if (how == 0 && line.empty() && !w.empty()) c.fail("returned", "no line is returned"); if (!w.empty() && (m.hist.empty() || m.hist.back() != w)) m.hist.push_back(w);
        if (kinds.size() >= 5 && longest > 40) nontriv = true; c.label(how == 0 ? w.empty() ? "empty line" : "line returned" : how == 1 ? "end of input" : how == 2 ? "^D" : "exit character");
        if (how == 0 && w.empty()) continue;
    }
    CHECK(c, susps == m.susps, "suspend", "suspend hook was called %d times, %d expected", susps, m.susps);
    CHECK(c, kills == m.sigs, "signals", "%d signals were sent, %d expected", kills, m.sigs);
    if (nontriv) c.nontrivial(trace);
}
