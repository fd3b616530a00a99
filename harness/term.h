/* A terminal of a given width: what the characters sent to it show. */
#pragma once
#include "vf.h"
namespace vf {
struct Term {
    int w; std::vector<std::string> g{""}; size_t row = 0; int col = 0; bool pend = false; std::string bad; int st = 0; std::string par; int bells = 0;
    Term(int width) : w(width) {}
    void line() { if (row >= g.size()) g.resize(row + 1); }
    void put(char ch) { if (pend) { row++; col = 0; pend = false; } line(); std::string &s = g[row]; if ((int)s.size() <= col) s.resize((size_t)col + 1, ' '); s[(size_t)col] = ch; if (col == w - 1) pend = true; else col++; }
    void feed(const std::string &o) { for (char ch : o) one((unsigned char)ch); }
    void one(unsigned char ch) {
        if (st == 1) { if (ch == '[') { st = 2; par.clear(); } else { st = 0; bad += sprintf_(" ESC %d", ch); } return; }
        if (st == 2) { if (isdigit(ch) || ch == ';') { par += (char)ch; return; } st = 0; int n = par.empty() ? 1 : atoi(par.c_str()); if (n == 0) n = 1;
            switch (ch) {
            case 'A': pend = false; row = row >= (size_t)n ? row - (size_t)n : 0; break;
            case 'B': pend = false; row += (size_t)n; line(); break;
            case 'C': pend = false; col = std::min(w - 1, col + n); break;
            case 'D': pend = false; col = std::max(0, col - n); break;
            case 'H': pend = false; row = 0; col = 0; if (!par.empty() && par != "1;1" && par != "1") bad += " ESC[" + par + "H"; break;
            case 'J': if (par == "2") { g.assign(row + 1, ""); } else if (par.empty() || par == "0") { line(); g.resize(row + 1); if ((int)g[row].size() > col) g[row].resize((size_t)col); } else bad += " ESC[" + par + "J"; break;
            case 'K': line(); if (par.empty() || par == "0") { if ((int)g[row].size() > col) g[row].resize((size_t)col); } else bad += " ESC[" + par + "K"; break;
            default: bad += sprintf_(" ESC[%s%c", par.c_str(), ch); }
            return; }
        switch (ch) {
        case 27: st = 1; break;
        case '\r': col = 0; pend = false; break;
        case '\n': pend = false; row++; col = 0; line(); break;
        case '\b': pend = false; if (col > 0) col--; break;
        case 7: bells++; break;
        default: if (ch < 32 || ch == 127) bad += sprintf_(" control %d", ch); else put((char)ch); }
    }
    std::string text(size_t r) const { std::string s = r < g.size() ? g[r] : ""; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
    std::string show() const { std::string s; for (size_t i = 0; i < g.size(); i++) { s += " |" + g[i] + "|\n"; if (i == row) s += "  " + std::string((size_t)col, ' ') + (pend ? "^ (at the margin)\n" : "^\n"); } return s; }
};
inline std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
/* the line is shown; empty if so, else what is wrong */
inline std::string shows(const Term &t, const std::string &prompt, const std::string &b, size_t p, bool scroll, bool &hidden, size_t *first = nullptr) {
    if (!t.bad.empty()) return "unknown control characters:" + t.bad; int w = t.w, pl = (int)prompt.size(); int col = t.pend ? w : t.col;
    if (!scroll) {
        std::string all = prompt + b; size_t at = (size_t)pl + p, rows = at / (size_t)w; long r0 = (long)t.row - (long)rows; int wc = (int)(at % (size_t)w);
        if (t.pend && wc == 0 && at > 0) { r0 = (long)t.row - (long)(rows - 1); wc = w; }
        if (r0 < 0) return "cursor is above the line"; if (col != wc) return sprintf_("cursor is in column %d, editing position is in column %d", col, wc);
        for (size_t r = 0; r * (size_t)w < all.size() || (size_t)r0 + r < t.g.size(); r++) { std::string want = r * (size_t)w < all.size() ? rtrim(all.substr(r * (size_t)w, (size_t)w)) : ""; std::string got = t.text((size_t)r0 + r); if (want != got) return sprintf_("row %zu of the line shows '%s', should show '%s'", r, esc(got).c_str(), esc(want).c_str()); }
        if (first) *first = (size_t)r0; hidden = all.size() > (size_t)w; return "";
    }
    for (size_t r = t.row + 1; r < t.g.size(); r++) if (!t.text(r).empty()) return "something is left below the line";
    std::string row = t.text(t.row); std::string why; int gw = w - pl;
    std::string win = row.size() > (size_t)pl ? row.substr((size_t)pl) : ""; if (rtrim(row.substr(0, (size_t)pl)) != rtrim(prompt)) return "prompt is not shown";
    for (size_t s = 0; s <= b.size(); s++) {
        if (s > p) break; long cc = (long)pl + (long)(p - s); if (cc != col) continue;   /* cursor column tells the shift */
        if (s && p == s) return "cursor is on the mark of hidden text";
        std::string want = b.substr(s); bool more = (int)want.size() > gw - 1; if (more) { want = want.substr(0, (size_t)gw - 2) + "$"; } if (s) { if (!want.empty()) want[0] = '$'; }
        if (more && (long)(p - s) > gw - 2) return "cursor is beyond the window";
        if (rtrim(want) == rtrim(win)) { if (first) *first = t.row; hidden = more || s; return ""; } return sprintf_("window shows '%s', should show '%s'", esc(win).c_str(), esc(want).c_str());
    }
    return sprintf_("cursor is in column %d, which is no position of the line", col);
}
}
