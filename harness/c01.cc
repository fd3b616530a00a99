// C01: command lines are split into words exactly as typed
#include "vf.h"
#include "vf_sys.h"
using namespace vf;
extern "C" const char *vf_property_id = "C01";
const char *vf_rule = "a line of generated words, quotes, escapes and blanks is split and compared with an independent splitter; words are quoted or escaped and split back; text is split into lines; non-trivial = at least two words or a quote or escape; distinct by line";
void vf_init() { term_reset(); }
struct W { std::string w, rest; };
static bool blank(char ch) { return ch == ' ' || ch == '\t'; }
/* independent splitter */
static std::vector<W> split(const std::string &s) {
    std::vector<W> r; size_t i = 0;
    while (true) {
        size_t j = i; while (j < s.size() && blank(s[j])) j++;
        if (j == s.size()) { if (j > i || r.empty()) r.push_back({"", ""}); return r; }
        W w; w.rest = s.substr(j);
        if (s[j] == '"') { size_t k = s.find('"', j + 1); if (k == std::string::npos) { w.w = s.substr(j); r.push_back(w); return r; } w.w = s.substr(j + 1, k - j - 1); i = k + 1; }
        else { size_t k = j; while (k < s.size() && !blank(s[k])) { if (s[k] == '\\' && k + 1 < s.size()) k++; k++; } w.w = s.substr(j, k - j); i = k; }
        r.push_back(w);
    }
}
static std::string word(Case &c) { switch (c.below(5)) { case 0: return c.str("ab", 1, 4); case 1: return c.str("ab\\\"", 0, 5); case 2: return c.str("a \t\"\\|?#;", 0, 8); case 3: { std::string s; int n = c.small(20); while (n--) s += (char)(1 + c.below(255)); return s; } default: return std::string(c.small(300), 'q'); } }
static void check(Case &c, const std::string &line, const std::vector<W> &want, const char *what) {
    cvec *cvt = nullptr, *cvr = nullptr; std::vector<char> b(line.begin(), line.end()); b.push_back(0);
    int r = cligen_str2cvv(b.data(), &cvt, &cvr);
    CHECK(c, r == 0 && cvt && cvr, "fail", "%s: splitting '%s' returned %d", what, esc(line).c_str(), r);
    CHECK(c, line == b.data(), "input", "%s: splitting '%s' changed it to '%s'", what, esc(line).c_str(), esc(b.data()).c_str());
    std::string g; for (int i = 0; i < cvec_len(cvt); i++) g += "[" + esc(cv_string_get(cvec_i(cvt, i))) + "]";
    CHECK(c, cvec_len(cvt) == (int)want.size() + 1, "words", "%s: '%s' gave %d words %s, expected %zu", what, esc(line).c_str(), cvec_len(cvt) - 1, g.c_str(), want.size());
    CHECK(c, cvec_len(cvr) == cvec_len(cvt), "rest", "%s: '%s': %d words but %d rests", what, esc(line).c_str(), cvec_len(cvt), cvec_len(cvr));
    CHECK(c, line == cv_string_get(cvec_i(cvt, 0)) && line == cv_string_get(cvec_i(cvr, 0)), "line", "%s: first element of '%s' is '%s'", what, esc(line).c_str(), esc(cv_string_get(cvec_i(cvt, 0))).c_str());
    for (size_t i = 0; i < want.size(); i++) {
        CHECK(c, want[i].w == cv_string_get(cvec_i(cvt, i + 1)), "word", "%s: word %zu of '%s' is '%s', expected '%s'", what, i, esc(line).c_str(), esc(cv_string_get(cvec_i(cvt, i + 1))).c_str(), esc(want[i].w).c_str());
        CHECK(c, want[i].rest == cv_string_get(cvec_i(cvr, i + 1)), "rest", "%s: rest at word %zu of '%s' is '%s', expected '%s'", what, i, esc(line).c_str(), esc(cv_string_get(cvec_i(cvr, i + 1))).c_str(), esc(want[i].rest).c_str());
    }
    cvec_free(cvt); cvec_free(cvr);
}
void vf_case(Case &c) {
    term_reset();
    int k = c.below(5);
    if (k == 0) {                       /* raw text */
        std::string s; int n = c.small(40); for (int i = 0; i < n; i++) s += c.pickch("ab \t\"\\'|?");
        c.note("raw '%s'", esc(s).c_str()); check(c, s, split(s), "raw"); if (split(s).size() > 1 || s.find_first_of("\"\\") != s.npos) c.nontrivial(s);
    } else if (k == 1) {                /* words, blanks: constructed expectation */
        int n = c.below(7); std::string s; std::vector<W> w; bool tq = false;
        std::vector<size_t> pos; std::vector<std::string> ws;
        auto bl = [&](int min) { std::string t; int m = min + c.small(3); while (m--) t += c.pickch(" \t"); return t; };
        s += bl(0);
        for (int i = 0; i < n; i++) {
            if (i) s += bl(1);
            std::string x = word(c); pos.push_back(s.size());
            if (c.flip()) { x.erase(std::remove(x.begin(), x.end(), '"'), x.end()); s += "\"" + x + "\""; ws.push_back(x); tq = true; }
            else { std::string e; for (char ch : x) { if (blank(ch) || ch == '"' || ch == '\\') e += '\\'; e += ch; } if (e.empty()) e = "z"; s += e; ws.push_back(e); }
        }
        std::string tr = bl(0); s += tr;
        for (size_t i = 0; i < ws.size(); i++) w.push_back({ws[i], s.substr(pos[i])});
        if (!tr.empty() || ws.empty()) w.push_back({"", ""});
        if (ws.empty()) { w.clear(); w.push_back({"", ""}); }
        c.note("constructed '%s'", esc(s).c_str()); check(c, s, w, "constructed"); if (n > 1 || tq) c.nontrivial(s);
    } else if (k == 2) {                /* escaping a string value and reading it back */
        std::string x = word(c); std::string line = "k ";
        char *e = nullptr; cg_var *cv = cv_new(CGV_STRING); bool q = x.find('"') == x.npos && x.find('\\') == x.npos && c.flip();
        (void)e; std::string t; if (q) t = "\"" + x + "\""; else { for (char ch : x) { if (blank(ch) || ch == '"' || ch == '\\' || c.chance(10)) t += '\\'; t += ch; } if (x.empty()) t = "\"\""; }
        line += t; c.note("value '%s' entered as '%s'", esc(x).c_str(), esc(line).c_str());
        cvec *a = nullptr, *b = nullptr; CHECK(c, cligen_str2cvv((char *)line.c_str(), &a, &b) == 0 && cvec_len(a) == 3, "words", "'%s' gave %d words", esc(line).c_str(), cvec_len(a) - 1);
        char *rs = nullptr; CHECK(c, cv_parse1(cv_string_get(cvec_i(a, 2)), cv, &rs) == 1, "parse", "string refused"); CHECK(c, x == cv_string_get(cv), "roundtrip", "'%s' entered as '%s' became '%s'", esc(x).c_str(), esc(line).c_str(), esc(cv_string_get(cv)).c_str());
        cv_free(cv); cvec_free(a); cvec_free(b); if (x.find_first_of(" \t\"\\") != x.npos) c.nontrivial(line);
    } else if (k == 3) {                /* trimming: blanks around words collapse, comments go, words stay */
        char com = c.pickch("##!;"); if (c.chance(20)) com = 0;
        auto bl = [&](int min) { std::string t; int m = min + c.small(3); while (m--) t += c.pickch(" \t"); return t; };
        std::string s = bl(0), want; int n = c.below(6);
        for (int i = 0; i < n; i++) {
            if (i) { s += bl(1); want += " "; }
            std::string x = word(c), e; x.erase(std::remove(x.begin(), x.end(), '\n'), x.end());
            if (c.flip()) { x.erase(std::remove(x.begin(), x.end(), '"'), x.end()); e = "\"" + x + "\""; }
            else { for (char ch : x) { if (blank(ch) || ch == '"' || ch == '\\') e += '\\'; e += ch; } if (e.empty() || (com && e[0] == com)) e = "z" + e; }
            s += e; want += e;
        }
        int tail = c.below(4); if (tail == 1 && com) { if (n) s += bl(1); s += com; s += c.str("ab \"\\\t#", 0, 6); if (s.back() == '\\') s += 'x'; } else if (tail == 2) s += bl(0); else if (tail == 3) s += bl(0) + "\n";
        if (tail == 1 && com && !n) { size_t q = s.find(com); (void)q; }
        std::vector<char> b(s.begin(), s.end()); b.push_back(0); char *p = b.data(); cli_trim(&p, com);
        c.note("trim '%s' comment '%c'", esc(s).c_str(), com ? com : '-');
        CHECK(c, p >= b.data() && p <= b.data() + s.size() && want == p, "trim", "'%s' (comment '%c') trimmed to '%s', expected '%s'", esc(s).c_str(), com ? com : '-', esc(p).c_str(), esc(want).c_str());
        if (n > 1) c.nontrivial("T" + s);
    } else {                            /* text to lines */
        std::string s; std::vector<std::string> w; int n = c.below(6);
        for (int i = 0; i < n; i++) { std::string l = c.str("ab \t#", 0, 8); s += l; size_t p = 0; while (p < l.size() && blank(l[p])) p++; bool last = i == n - 1 && c.flip(); if (!last) { s += "\n"; w.push_back(l.substr(p)); } else if (p < l.size()) w.push_back(l.substr(p)); if (last) break; }
        c.note("text '%s'", esc(s).c_str()); cvec *v = c.flip() ? cvec_new(2) : nullptr; CHECK(c, cligen_txt2cvv((char *)s.c_str(), &v) == 0 && v, "lines", "cligen_txt2cvv failed");
        CHECK(c, cvec_len(v) == (int)w.size(), "lines", "'%s' gave %d lines, expected %zu", esc(s).c_str(), cvec_len(v), w.size());
        for (size_t i = 0; i < w.size(); i++) CHECK(c, w[i] == cv_string_get(cvec_i(v, i)), "lines", "line %zu of '%s' is '%s', expected '%s'", i, esc(s).c_str(), esc(cv_string_get(cvec_i(v, i))).c_str(), esc(w[i]).c_str());
        cvec_free(v); if (w.size() > 1) c.nontrivial("L" + s);
    }
}
