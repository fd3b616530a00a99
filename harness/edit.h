/* Model of the line editor: a text with a cursor, the text killed last, overwrite mode and history, and a generator of
 * key strokes with their documented effect (table of keys in the tutorial). */
#pragma once
#include "spec.h"
#include <ctype.h>
namespace vf {
struct Ed {
    std::string b, kill; size_t p = 0; bool over = false, utf8 = false, tty = false; std::vector<std::string> hist; size_t hcur = 0; int susp = 0; /* suspend hook: 0 none 1 looks 2 inserts */
    int sigs = 0, susps = 0;
    void start() { b.clear(); p = 0; hcur = hist.size(); }
    void ins(char ch) { if (over && p < b.size()) b[p] = ch; else b.insert(p, 1, ch); p++; }
    void back() { while (p > 0 && isspace((unsigned char)b[p - 1])) p--; while (p > 0 && !isspace((unsigned char)b[p - 1])) p--; }
};
static const char *const EDW[] = {"zebra", "yak"};   /* the two commands of the specification used */
/* one operation: its key strokes, applied to the model. */
inline std::string ed_key(Case &c, Ed &m, const char *alpha, std::string &what, bool hooks = true, size_t maxlen = 6000) {
    auto move = [&](long d) { long q = (long)m.p + d; m.p = (size_t)std::max(0L, std::min((long)m.b.size(), q)); };
    switch (c.weighted({40, 10, 8, 6, 6, 5, 5, 5, 6, 3, 4, 4, 4, 4, 3, 4, 2, 2, 2, 2, 2})) {
    case 0: { std::string t = c.str(alpha, 1, 10), k; if (m.b.size() > maxlen) return ""; for (char ch : t) { if (ch == '\\' || ch == '?') k += '\\'; k += ch; m.ins(ch); } what = "types '" + t + "'"; return k; }
    case 1: what = "back"; { int n = 1 + c.small(5); std::string k; for (; n > 0; n--) { k += c.pickc({"\x02", "\033[D", "\033OD"}); move(-1); } return k; }
    case 2: what = "forward"; { int n = 1 + c.small(5); std::string k; for (; n > 0; n--) { k += c.pickc({"\x06", "\033[C", "\033OC"}); move(1); } return k; }
    case 3: what = "erase before"; { int n = 1 + c.small(5); std::string k; for (; n > 0; n--) { k += c.pickc({"\x7f", "\x08"}); if (m.p) m.b.erase(--m.p, 1); } return k; }
    case 4: what = "erase under"; { std::string k; for (int n = 1 + c.small(4); n > 0; n--) { if (m.b.empty() || c.flip()) k += "\033[3~"; else k += "\x04"; if (m.p < m.b.size()) m.b.erase(m.p, 1); } return k; }
    case 5: what = "home"; m.p = 0; return c.pickc({"\x01", "\033[H", "\033OH"});
    case 6: what = "end"; m.p = m.b.size(); return c.pickc({"\x05", "\033[F", "\033OF"});
    case 7: what = "kill to end"; if (m.p < m.b.size()) { m.kill = m.b.substr(m.p); m.b.resize(m.p); } return "\x0b";
    case 8: { what = "yank"; if (m.b.size() + m.kill.size() > maxlen) return ""; if (m.over) { for (size_t i = 0; i < m.kill.size(); i++) if (m.p + i < m.b.size()) m.b[m.p + i] = m.kill[i]; else m.b += m.kill[i]; } else m.b.insert(m.p, m.kill); m.p += m.kill.size(); return "\x19"; }
    case 9: what = "kill to start"; if (m.p) { m.kill = m.b.substr(0, m.p); m.b.erase(0, m.p); m.p = 0; } return "\x15";
    case 10: { what = "kill word"; if (m.p) { size_t e = m.p; m.back(); m.kill = m.b.substr(m.p, e - m.p); m.b.erase(m.p, e - m.p); } return "\x17"; }
    case 11: what = "transpose"; if (m.p > 0 && m.p < m.b.size()) std::swap(m.b[m.p - 1], m.b[m.p]); return "\x14";
    case 12: what = "word back"; { m.back(); return c.pickc({"\033b", "\033B"}); }
    case 13: what = "word forward"; while (m.p < m.b.size() && !isspace((unsigned char)m.b[m.p])) m.p++; while (m.p < m.b.size() && isspace((unsigned char)m.b[m.p])) m.p++; return c.pickc({"\033f", "\033F"});
    case 14: what = "overwrite on/off"; m.over = !m.over; return "\x0f";
    case 15: { if (!hooks) return ""; what = "TAB"; std::string t = m.b.substr(0, m.p); if (t.find('"') != std::string::npos) return ""; size_t q = t.find_first_not_of(" \t"); t = q == std::string::npos ? "" : t.substr(q); if (!t.empty()) for (const char *w : EDW) if (strncmp(w, t.c_str(), t.size()) == 0) { std::string x = std::string(w + t.size()) + " "; m.b.insert(m.p, x); m.p += x.size(); break; } return "\t"; }
    case 16: if (!hooks) return ""; what = "help"; return "?";
    case 17: what = "draw again"; return "\x0c";
    case 18: { what = "history"; if (c.flip()) { if (m.hcur == 0) return ""; m.hcur--; m.b = m.hist[m.hcur]; m.p = m.b.size(); return c.pickc({"\x10", "\033[A", "\033OA"}); } if (m.hcur < m.hist.size()) m.hcur++; m.b = m.hcur == m.hist.size() ? "" : m.hist[m.hcur]; m.p = m.b.size(); return c.pickc({"\x0e", "\033[B", "\033OB"}); }
    case 19: switch (c.below(6)) {
        case 0: what = "nothing"; return c.pickc({"\033[Z", "\033x", "\033[3x", "\033[9", "\x07", "\x1d", "\xff", "\x80", "\x16", "\x18"});
        case 1: { what = "multi-byte"; if (m.over) return ""; const char *u = c.pickc({"\xc3\xa5", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}); if (m.utf8) for (const char *q = u; *q; q++) m.ins(*q); return u; }
        case 2: { what = "backslash, end"; m.p = m.b.size(); return "\\\x05"; }
        case 3: if (!m.tty) return ""; what = "interrupt"; m.sigs++; if (!m.b.empty()) m.kill = m.b; m.b.clear(); m.p = 0; return c.pickc({"\x03", "\x1c"});
        case 4: if (!m.susp) return ""; what = "suspend"; m.susps++; if (m.susp == 2) { m.b.insert(m.p, "S"); m.p++; } return "\x1a";
        default: what = "backslash, back"; move(-1); return "\\\x02"; }
    default: { what = "long run"; size_t n = c.pick(std::vector<int>{20, 40, 79, 80, 81, 120, 127, 128, 129, 250, 256, 300, 600}); if (m.b.size() + n > maxlen) return ""; char ch = "abx"[c.below(3)]; std::string k(n, ch); for (size_t i = 0; i < n; i++) m.ins(ch); what += sprintf_(" of %zu", n); return k; }
    }
}
}
