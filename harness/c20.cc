// C20: incremental history search finds the nearest matching line
// LINK: val.cc spec.cc
#include "spec.h"
#include "term.h"
using namespace vf;
extern "C" const char *vf_property_id = "C20";
const char *vf_rule = "a history of random lines (typed or loaded from a file, longer than any buffer or few letters, more than the history holds) is searched with random characters, repeated search keys in both directions and deletions; the line after every key is the one a model of the search gives, failure gives an empty line, the terminal shows text and line; the search is left by control and arrow keys and the line edited, stepped from or entered, which returns it; non-trivial = a search key was repeated and found another line, or a deletion found another; distinct by history and keys";
void vf_init() { term_reset(); term_tty(false); }
struct S { long pos, last; std::string line; bool operator<(const S &o) const { return std::tie(pos, last, line) < std::tie(o.pos, o.last, o.line); } };
static std::vector<std::string> hist; static bool full;
/* search from pos (exclusive); every state it may end in */
static void go(std::set<S> &out, S s, int dir, const std::string &t, bool repeat) {
    long n = (long)hist.size();
    if (dir < 0) { for (long i = s.pos - 1; i >= 0; i--) if (hist[(size_t)i].find(t) != std::string::npos) { s.pos = i; s.line = hist[(size_t)i]; if (repeat) s.last = i; out.insert(s); return; } s.line = ""; s.pos = -1; out.insert(s); if (n) { s.pos = 0; out.insert(s); } return; }
    for (long i = s.pos + 1; i < n; i++) if (hist[(size_t)i].find(t) != std::string::npos) { s.pos = i; s.line = hist[(size_t)i]; if (repeat) s.last = i; out.insert(s); return; }
    s.line = ""; s.pos = n; out.insert(s);
}
void vf_case(Case &c) {
    term_reset(); Real r; std::string trace; bool nontriv = false; cligen_prompt_set(r.h, (char *)"cli> "); cligen_terminal_width_set(r.h, 80); bool scroll = c.flip(); cligen_line_scrolling_set(r.h, scroll); hist.clear();
    size_t cap = 100; if (c.chance(60)) { cap = 1 + c.below(8); CHECK(c, cligen_hist_init(r.h, (int)cap) == 0, "init", "cligen_hist_init fails"); }
    int n = c.below(10); bool file = c.chance(50), haslong = c.chance(20); std::string f; const char *al = c.pickc({"ab", "abc", "ab c", "x"});
    for (int i = 0; i < n; i++) { std::string l = c.str(al, 1, 6); if (haslong && c.chance(40)) l += std::string(100 + c.below(900), 'z') + c.str(al, 0, 3); l = trim_line(l); if (l.empty()) continue; if (hist.empty() || hist.back() != l) { hist.push_back(l); if (hist.size() > cap) hist.erase(hist.begin()); } f += l + "\n"; if (!file) { std::vector<Step> st = {{l + "\n"}}; type_keys(r, st); } }
    if (file && !f.empty()) { FILE *fp = fmemopen(&f[0], f.size(), "r"); CHECK(c, cligen_hist_file_load(r.h, fp) == 0, "load", "history is not loaded"); fclose(fp); }
    c.note("size %zu history:", cap); for (auto &x : hist) { c.note("  '%s'", x.size() > 100 ? sprintf_("%s...(%zu)", x.substr(0, 20).c_str(), x.size()).c_str() : x.c_str()); trace += x + "\n"; }
    int rounds = 1 + c.below(3);
    for (int q = 0; q < rounds; q++) {
        /* keys first; the model follows afterwards, pruned by what is seen */
        struct Op { int k; std::string a; }; std::vector<Op> ops; std::vector<Step> st; std::string pre = c.chance(30) ? c.str("abq", 1, 4) : "";
        if (!pre.empty()) { ops.push_back({9, pre}); st.push_back({pre}); }
        bool back = c.flip(); ops.push_back({back ? 0 : 1, ""}); st.push_back({back ? "\x12" : "\x13"}); int tl = 0;
        for (int i = 1 + c.below(10); i > 0; i--) switch (c.weighted({40, 20, 20, 15})) {
            case 0: { std::string a = c.str(al, 1, 1); if (c.chance(3)) a = std::string(1, 'z'); if (c.chance(2)) a = std::string(c.below(130), 'z'); if (a.empty()) break; for (char ch : a) { ops.push_back({2, std::string(1, ch)}); st.push_back({std::string(1, ch)}); tl++; } break; }
            case 1: ops.push_back({0, ""}); st.push_back({"\x12"}); break;
            case 2: ops.push_back({1, ""}); st.push_back({"\x13"}); break;
            case 3: ops.push_back({3, ""}); st.push_back({c.pickc({"\x7f", "\x08"})}); break; }
        int leave = c.below(7); std::string lk;
        switch (leave) { case 0: st.push_back({c.pickc({"\n", "\r"})}); break; case 1: st.push_back({c.pickc({"\x0e", "\x10"})}); break; case 2: st.push_back({c.pickc({"\033[C", "\033OC", "\x06", "\033[D"})}); break; case 3: st.push_back({"\x01"}); break; case 4: st.push_back({"\x05"}); break; case 5: break; case 6: st.push_back({"\x15\x0b"}); break; }
        std::string ks; for (auto &s : st) ks += s.keys; trace += ks + "\n"; 
        std::string ins; int hk = 0; if (leave > 0 && leave != 5) { if (c.chance(40)) { hk = c.flip() ? -1 : 1; st.push_back({hk < 0 ? "\x10" : "\x0e"}); } else { ins = c.str("ab", 0, 3); if (!ins.empty()) { st.push_back({"\x05" + ins}); } } st.push_back({"\n"}); }
        { std::string k2; for (auto &s : st) k2 += s.keys; c.note("keys '%s'", esc(k2).c_str()); }
        std::string line; int rc = type_keys(r, st, &line); CHECK(c, rc == 0, "rc", "cliread returns %d", rc);
        std::set<S> now; now.insert({(long)hist.size(), (long)hist.size(), pre}); std::string text; int dir = -1; bool in = false, stale = false; Term t(80); long N = (long)hist.size();
        for (size_t k = 0; k < ops.size(); k++) {
            std::set<S> nx; Op &o = ops[k]; bool repeated = false; if (!pre.empty() && k == 0) { t.feed(st[0].out); continue; }
            for (auto s : now) switch (o.k) {
                case 0: case 1: if (!in) { s = {N, N, ""}; nx.insert(s); break; } if (text.empty()) { nx.insert(s); break; } repeated = true; go(nx, s, o.k == 0 ? -1 : 1, text, true); break;
                case 2: { std::string x = text.size() < 99 ? text + o.a : text; if (s.line.find(x) != std::string::npos) nx.insert(s); else go(nx, s, dir, x, false); break; }
                case 3: { std::string x = text.substr(0, text.empty() ? 0 : text.size() - 1); if (x.empty()) { s.pos = N; s.line = ""; nx.insert(s); } else { std::vector<S> from; S b = s; b.pos = s.last; from.push_back(b); if (stale) { b.pos = N; from.push_back(b); } for (auto &z : from) { z.line = z.pos >= 0 && z.pos < N ? hist[(size_t)z.pos] : ""; if (z.line.find(x) != std::string::npos) nx.insert(z); else go(nx, z, dir, x, false); } } break; }
                }
            if (o.k < 2 && (!in || !text.empty())) dir = o.k == 0 ? -1 : 1; if (o.k < 2) dir = o.k == 0 ? -1 : 1; if (o.k == 2 && text.size() < 99) text += o.a; if (o.k == 3 && !text.empty()) { text.pop_back(); if (text.empty()) stale = true; } in = true;
            std::set<std::string> want; for (auto &s : nx) want.insert(s.line); std::string got = st[k].buf, was = now.begin()->line;
            CHECK(c, want.count(got), "found", "after '%s' (text '%s', %s) the line is '%s', expected '%s', it was '%s'", esc(o.k == 2 ? o.a : o.k == 3 ? "delete" : o.k == 0 ? "^R" : "^S").c_str(), esc(text).c_str(), dir < 0 ? "backward" : "forward", esc(got).c_str(), esc(*want.begin()).c_str(), esc(was).c_str());
            std::set<S> keep; for (auto &s : nx) if (s.line == got) keep.insert(s); now = keep; if ((repeated || o.k == 3) && !got.empty() && got != was) nontriv = true;
            t.feed(st[k].out); if (text.size() < 50) { bool hid; size_t r0 = 0; std::string why, pr = text + "? "; size_t at = got.find(text); why = shows(t, pr, got, at == std::string::npos ? 0 : at, scroll, hid, &r0); if (why.empty() && r0 != 0) why = "the line has moved to another row"; CHECK(c, why.empty(), "shown", "searching '%s' with line '%s': %s; the terminal shows\n%s", text.c_str(), esc(got).c_str(), why.c_str(), t.show().c_str()); }
        }
        std::string cur = now.begin()->line; size_t k = ops.size();
        if (leave == 0) { CHECK(c, line == cur, "entered", "'%s' was found and entered, '%s' is returned", esc(cur).c_str(), esc(line).c_str()); }
        else if (leave == 5) CHECK(c, line.empty(), "eof", "end of input returns '%s'", esc(line).c_str());
        else {
            if (leave == 6) { cur = ""; CHECK(c, st[k].buf.find_first_not_of("") == std::string::npos || st[k].buf.empty(), "left", "line is '%s' after it was killed", esc(st[k].buf).c_str()); }
            CHECK(c, st[k].buf == cur, "left", "leaving the search with '%s' gives '%s', the line found was '%s'", esc(st[k].keys).c_str(), esc(st[k].buf).c_str(), esc(cur).c_str()); k++;
            if (hk) { std::set<std::string> want; for (auto s : now) { if (s.line.empty()) s.pos = N; if (hk < 0) want.insert(s.pos > 0 ? hist[(size_t)s.pos - 1] : ""); else want.insert(s.pos + 1 < N ? hist[(size_t)s.pos + 1] : ""); } CHECK(c, want.count(st[k].buf), "step", "stepping %s from the line found, '%s', gives '%s', expected '%s'", hk < 0 ? "back" : "forward", esc(now.begin()->line).c_str(), esc(st[k].buf).c_str(), esc(*want.begin()).c_str()); cur = st[k].buf; }
            else if (!ins.empty()) { cur += ins; CHECK(c, st[k].buf == cur, "edit", "editing the line found gives '%s', expected '%s'", esc(st[k].buf).c_str(), esc(cur).c_str()); }
            std::string w = trim_line(cur); CHECK(c, line == w, "entered", "'%s' is returned, expected '%s'", esc(line).c_str(), esc(w).c_str());
        }
        c.label(leave == 0 ? "entered" : leave == 5 ? "end of input" : "left and edited");
        if (!line.empty() && (hist.empty() || hist.back() != line)) { hist.push_back(line); if (hist.size() > cap) hist.erase(hist.begin()); }
        if (line.empty()) break;
    }
    if (nontriv) c.nontrivial(trace);
}
