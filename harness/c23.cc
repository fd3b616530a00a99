// C23: paged output shows every character exactly once and in order
// LINK: val.cc spec.cc
#include "spec.h"
#include "term.h"
#include <signal.h>
using namespace vf;
extern "C" const char *vf_property_id = "C23";
const char *vf_rule = "texts (short and long lines, lines that fill the terminal exactly, empty lines, unterminated ends) are printed in random pieces and formats through cligen_output and cligen_output_basic at random terminal heights and widths (known to the terminal, or set for a serial line), with random answers to the pager and further commands after it, to the terminal and to another stream, with paging on and off and with the terminal resized; what appears must be the text, stopped after exactly the rows the pager grants, up to the answer that quits; every stop takes exactly one key and its prompt is wiped out; non-trivial = the pager stopped at least twice; distinct by text, size and answers";
static const std::string MORE = "--More--", WIPE = "\b\b\b\b\b\b\b\b        \b\b\b\b\b\b\b\b";
struct Piece { std::string s; int how; };
static void emit(FILE *f, const Piece &p) {
    switch (p.how) {
    case 0: cligen_output(f, "%s", p.s.c_str()); break;
    case 1: { int k = (int)p.s.size() / 2; cligen_output(f, "%.*s%s", k, p.s.c_str(), p.s.c_str() + k); break; }
    case 2: cligen_output_basic(f, (char *)p.s.c_str(), p.s.size()); break;
    case 3: if (p.s.empty()) cligen_output(f, "%s", ""); else cligen_output(f, "%s%c", p.s.substr(0, p.s.size() - 1).c_str(), p.s.back()); break;
    default: { std::string t; for (char ch : p.s) { t += ch; if (ch == '%') t += '%'; } cligen_output(f, t.c_str()); }
    }
}
/* rows completed by the characters of [from,to); a row filled exactly is counted at once (hi) or when the next character comes (lo), or the pager's prompt (which moves on to the next row) */
static void rows(const std::string &t, size_t from, size_t to, int w, int &lo, int &hi) {
    lo = hi = 0; size_t nl = from ? t.rfind('\n', from - 1) : std::string::npos; int c = (int)(from - (nl == std::string::npos ? 0 : nl + 1)) % w, d = c;
    for (size_t i = from; i < to; i++) if (t[i] == '\n') { hi++; c = 0; lo++; d = 0; } else { if (d == w) { lo++; d = 0; } d++; if (++c == w) { hi++; c = 0; } }
}
static std::string gen_text(Case &c, int w, int R) {
    std::string t; int n = (int)c.below((uint32_t)(c.chance(70) ? R * 4 : 6)); bool wide = c.flip();
    for (int i = 0; i < n; i++) {
        int len = 0; switch (c.weighted({4, 2, 2, 3, 1})) { case 0: len = (int)c.below((uint32_t)std::min(w, 12)); break; case 1: len = 0; break; case 2: len = wide ? w * (1 + (int)c.below(2)) : w - 1; break; case 3: len = (int)c.below((uint32_t)(w * (wide ? 3 : 1))); break; default: len = wide ? w * (int)c.below((uint32_t)R * 2) + (int)c.below(3) : 3; }
        for (int k = 0; k < len; k++) t += k == 0 ? (char)('A' + i % 26) : c.chance(3) ? c.pickch(" -%\\") : (char)('a' + (k + i) % 26);
        if (i < n - 1 || c.chance(70)) t += '\n';
    }
    return t;
}
struct Shown { std::string text; int stops = 0; bool quit = false, helped = false; std::string why; std::vector<std::pair<size_t, int>> at; };
static Shown parse(const std::string &o, const std::string &answers) {
    Shown r; size_t i = 0;
    while (i < o.size()) {
        size_t m = o.find(MORE, i); r.text += o.substr(i, m == std::string::npos ? m : m - i); if (m == std::string::npos) break;
        int a = (size_t)r.stops < answers.size() ? (unsigned char)answers[(size_t)r.stops] : -1; r.stops++; r.at.push_back({r.text.size(), a}); i = m + MORE.size();
        size_t e = o.find(WIPE, i); if (e == std::string::npos) { r.why = "the prompt of the pager is not wiped out"; return r; }
        if (e != i) { if (a != '?') { r.why = "after the answer '" + esc(std::string(1, (char)a)) + "' the pager writes '" + esc(o.substr(i, e - i)) + "'"; return r; } r.helped = true; }
        i = e + WIPE.size(); if (a == 'q' || a == 3) r.quit = true;
    }
    return r;
}
void vf_init() { term_reset(); term_tty(false); }
void vf_case(Case &c) {
    term_reset(); int R = c.chance(80) ? 2 + (int)c.below(12) : (int)c.below(40), W = c.chance(50) ? 21 + (int)c.below(20) : 21 + (int)c.below(120); bool serial = c.chance(20); if (serial && R == 0) R = 5;
    Real r(serial ? 0 : R, W); cligen_handle h = r.h; if (c.flip()) raise(SIGWINCH); struct End { cligen_handle h; ~End() { cligen_paging_set(h, 1); term_tty(true, 0, 80); raise(SIGWINCH); cligen_terminal_width_set(h, 80); term_tty(false); cli_output_reset(); cligen_interrupt_hook(h, nullptr); } } end{h};
    if (serial) { CHECK(c, cligen_terminal_rows_set(h, R) == 0, "rows", "height refused"); }
    CHECK(c, cligen_terminal_rows(h) == R && cligen_terminal_width(h) == W, "size", "terminal of %d rows %d columns is taken for %d rows %d columns", R, W, cligen_terminal_rows(h), cligen_terminal_width(h));
    cligen_terminal_rows_set(h, 77); CHECK(c, serial || R == 0 || cligen_terminal_rows(h) == R, "size", "height known to the terminal was overridden"); if (serial || R == 0) cligen_terminal_rows_set(h, R);
    if (R == 0 && !serial) R = cligen_terminal_rows(h);
    int cmds = 1 + (int)c.below(3); bool nontriv = false; std::string trace = sprintf_("%dx%d ", R, W);
    for (int q = 0; q < cmds; q++) {
        int mode = c.weighted({12, 1, 1}); bool paging = mode == 0 && R > 0; cligen_paging_set(h, mode != 1); FILE *f = mode == 2 ? stderr : stdout;
        std::string text = gen_text(c, W, std::max(R, 3)), ans; std::vector<Piece> ps; bool one = c.chance(20);
        for (size_t i = 0; i < text.size();) { size_t n = one ? text.size() : 1 + c.below(c.chance(30) ? 3 : c.flip() ? (uint32_t)W : (uint32_t)W * 5); if (c.chance(40)) { size_t e = text.find('\n', i); if (e != std::string::npos) n = e + 1 - i; } n = std::min(n, text.size() - i); ps.push_back({text.substr(i, n), c.weighted({6, 1, 1, 1, 1})}); i += n; if (c.chance(5)) ps.push_back({"", 0}); }
        int na = (int)c.below(30); int pq = (int)c.below(15); for (int i = 0; i < na; i++) ans += c.chance((unsigned)pq) ? c.pickch("q\x03") : c.pickch(c.flip() ? "\n" : c.chance(30) ? "?x\rQ\x1b" : " ");
        int resize = c.chance(6) ? 1 + (int)c.below(2) : 0; int W2 = 21 + (int)c.below(120), R2 = 2 + (int)c.below(20); size_t at = c.below((uint32_t)ps.size() + 1);
        c.note("%d rows %d columns, %s, text '%s' in %zu pieces, answers '%s'%s", R, W, mode == 0 ? "paged" : mode == 1 ? "paging off" : "other stream", esc(text).c_str(), ps.size(), esc(ans).c_str(), resize ? sprintf_(", resized to %dx%d at piece %zu", R2, W2, at).c_str() : ""); trace += text + ans;
        cli_output_reset(); term_out.clear(); err_out.clear(); term_input(ans); term_reads = 0; int keys = 0;
        if (resize == 2) on_key = [&] { if (keys++ == (int)at) { term_tty(true, R2, W2); raise(SIGWINCH); } };
        for (size_t i = 0; i < ps.size(); i++) { if (resize == 1 && i == at) { term_tty(true, R2, W2); raise(SIGWINCH); } emit(f, ps[i]); }
        on_key = nullptr; std::string o = mode == 2 ? err_out : term_out; int status = cli_output_status();
        if (!paging && !resize) { CHECK(c, o == text, "direct", "output that is not paged shows '%s'", esc(o).c_str()); CHECK(c, term_reads == 0, "direct", "output that is not paged waits for keys"); c.label("not paged"); continue; }
        if (mode != 0) { CHECK(c, o == text, "direct", "output that is not paged shows '%s'", esc(o).c_str()); }
        else {
            Shown o1 = parse(o, ans); CHECK(c, o1.why.empty(), "prompt", "%s\noutput '%s'", o1.why.c_str(), esc(o).c_str());
            if (!o1.quit) CHECK(c, o1.text == text, "text", "the text shown is not the text printed\nprinted '%s'\nshown   '%s'", esc(text).c_str(), esc(o1.text).c_str());
            else { CHECK(c, text.compare(0, o1.text.size(), o1.text) == 0, "text", "the text shown before quitting is not the text printed\nprinted '%s'\nshown   '%s'", esc(text).c_str(), esc(o1.text).c_str());
                size_t k = 0; while (o1.at[k].second != 'q' && o1.at[k].second != 3) k++; CHECK(c, k + 1 == o1.at.size() && o1.at[k].first == o1.text.size(), "quit", "after quitting the output goes on\noutput '%s'", esc(o).c_str()); c.label("quit"); }
            CHECK(c, (status < 0) == o1.quit, "status", "the status is %d, output was %s", status, o1.quit ? "quit" : "not quit");
            { size_t took = ans.size() - term_pending(), want = std::min(ans.size(), (size_t)o1.stops); CHECK(c, took == want, "keys", "the pager stopped %d times, %zu keys were typed, it took %zu", o1.stops, ans.size(), took); }
            if (!resize) {
                size_t prev = 0; int b = R - 1, lo, hi; if (b < 1) b = 1;
                for (auto &a : o1.at) {
                    rows(text, prev, a.first, W, lo, hi);
                    CHECK(c, lo <= b, "rows", "the pager stops after %d rows, it should after %d\noutput '%s'", lo, b, esc(o).c_str());
                    CHECK(c, hi >= b, "rows", "the pager stops after %d rows, it should after %d\noutput '%s'", hi, b, esc(o).c_str());
                    b = a.second == '?' ? 0 : a.second == '\n' ? 1 : std::max(1, R - 1); prev = a.first;
                }
                rows(text, prev, text.size(), W, lo, hi);
                if (!o1.quit) CHECK(c, lo < std::max(b, 1), "rows", "the pager shows %d rows without a stop, it should stop after %d\noutput '%s'", lo, b, esc(o).c_str());
                bool full = false; size_t ls = 0; for (size_t i = 0; i < text.size(); i++) if (text[i] == '\n') { full = full || (i > ls && (i - ls) % (size_t)W == 0); ls = i + 1; }
                if (!full && !o1.helped) { Term t(W), u(W); t.feed(o); u.feed(o1.text); bool same = t.bad.empty(); for (size_t i = 0; i < std::max(t.g.size(), u.g.size()); i++) same = same && t.text(i) == u.text(i); CHECK(c, same, "screen", "the terminal shows\n%sthe text is\n%s", t.show().c_str(), u.show().c_str()); }
                c.label(o1.stops == 0 ? "shorter than the screen" : o1.stops < 5 ? "few stops" : "many stops"); if (o1.stops >= 2) nontriv = true; if (full) c.label("line filled exactly"); if (o1.helped) c.label("help of the pager");
                if (c.chance(25)) {   /* the same by a command; what is typed ahead of the pager is left for the next line */
                    std::string got; int ran = 0; CHECK(c, r.load("show(\"x\"), cb0(); zebra(\"y\") <v:string>(\"z\"), cb1();") == 0, "spec", "refused"); cligen_prompt_set(h, (char *)"> "); cligen_line_scrolling_set(h, 0);
                    r.on_call = [&](int k, cvec *, cvec *) { if (k == 0) { ran++; cli_output_reset(); term_out.clear(); for (auto &p : ps) emit(stdout, p); got = term_out; cli_output_reset(); } return 0; };
                    if ((size_t)o1.stops <= ans.size()) {
                        term_input("show\n" + ans.substr(0, (size_t)o1.stops) + "zebra q\n"); clearerr(stdin); char *line = nullptr; int cbret = 0; cligen_result res = CG_ERROR; char *reason = nullptr; int rc = cliread_eval(h, &line, &cbret, &res, &reason); if (reason) lib_free(reason);
                        CHECK(c, rc == 0 && res == CG_MATCH && ran == 1, "command", "line 'show' gives %d, result %d, command was run %d times", rc, res, ran); CHECK(c, got == o, "command", "printed by a command the output is different\n'%s'\nbut '%s'", esc(o).c_str(), esc(got).c_str());
                        line = nullptr; rc = cliread(h, &line); CHECK(c, rc == 0 && line && !strcmp(line, "zebra q"), "typeahead", "after a command whose output stopped %d times, the line 'zebra q' typed ahead is read as '%s'", o1.stops, line ? esc(line).c_str() : "(nothing)"); c.label("typed ahead");
                    }
                    break;
                }
            } else c.label("resized");
        }
        if (resize) { R = R2; W = W2; term_tty(true, R, W); raise(SIGWINCH); serial = false; }
    }
    if (nontriv) c.nontrivial(trace);
}
