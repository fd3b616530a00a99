// C28: regular expressions match whole words in both engines
#include "vf.h"
#include "vf_sys.h"
#include <cligen/cligen_regex.h>
using namespace vf;
extern "C" const char *vf_property_id = "C28";
const char *vf_rule = "a generated pattern (common subset of both syntaxes) against words sampled from it, mutated and random, both engines and both polarities vs an independent set-of-positions matcher; non-trivial = pattern with an operator and a word of length at least 1; distinct by (pattern, word)";
struct R; typedef std::shared_ptr<R> RP;
/* k: 0 char set, 1 concat, 2 alternation, 3 repeat */
struct R { int k = 0; std::string set; bool neg = false; std::vector<RP> ch; int lo = 0, hi = 0; std::string text; };
static cligen_handle H[2];
void vf_init() { term_reset(); term_tty(false); for (int i = 0; i < 2; i++) { H[i] = cligen_init(); cligen_regex_xsd_set(H[i], i); } }
static bool nullable(const R &r) { switch (r.k) { case 0: return false; case 1: for (auto &x : r.ch) if (!nullable(*x)) return false; return true; case 2: for (auto &x : r.ch) if (nullable(*x)) return true; return false; default: return r.lo == 0 || nullable(*r.ch[0]); } }
static std::string lit(char ch) { return strchr(".*+?()[]{}|\\", ch) ? std::string("\\") + ch : std::string(1, ch); }
static RP gen(Case &c, int d, bool posix) {
    RP r = std::make_shared<R>(); int k = d <= 0 ? c.below(3) : c.below(7);
    if (k == 0) { char ch = c.pickch("ababc01"); r->set = std::string(1, ch); r->text = lit(ch); }
    else if (k == 1) { int m = c.below(5); if (m == 0) { char ch = c.pickch(".*+?()[]{}|\\ -/,:=@"); r->set = std::string(1, ch); r->text = lit(ch); } else if (m == 1) { r->set = ""; r->neg = true; r->text = "."; } else if (m == 2) { r->set = "abc"; r->text = c.pickc({"[abc]", "[a-c]", "[cba]"}); } else if (m == 3) { r->set = "ab0"; r->neg = true; r->text = c.pickc({"[^ab0]", "[^a-b0]"}); } else { r->set = "0123456789"; r->text = "[0-9]"; } }
    else if (k == 2) { char ch = c.pickch("abc"); r->set = std::string(1, ch); r->text = lit(ch); }
    else if (k == 3 || k == 4) { r->k = 1; int n = 1 + c.below(4); for (int i = 0; i < n; i++) { RP x = gen(c, d - 1, posix); r->ch.push_back(x); r->text += x->k == 2 ? "(" + x->text + ")" : x->text; } }
    else if (k == 5) { r->k = 2; int n = 2 + c.below(2); for (int i = 0; i < n; i++) { RP x = gen(c, d - 1, posix); r->ch.push_back(x); r->text += (i ? "|" : "") + x->text; } }
    else { r->k = 3; RP x = gen(c, d - 1, posix); for (int g = 0; g < 6 && nullable(*x); g++) x = gen(c, d - 1, posix); if (nullable(*x) || (!posix && x->k)) { x = gen(c, 0, posix); } r->ch.push_back(x); std::string t = x->k == 0 ? x->text : "(" + x->text + ")"; switch (c.below(posix || d > 8 ? 5 : 3)) { case 0: r->lo = 0; r->hi = -1; t += "*"; break; case 1: r->lo = 1; r->hi = -1; t += "+"; break; case 2: r->lo = 0; r->hi = 1; t += "?"; break; case 3: r->lo = c.below(3); r->hi = r->lo + c.below(3); if (!r->hi) r->hi = 1; t += "{" + std::to_string(r->lo) + "," + std::to_string(r->hi) + "}"; break; default: r->lo = r->hi = 1 + c.below(3); t += "{" + std::to_string(r->lo) + "}"; } r->text = t; }
    return r;
}
static std::set<int> step(const R &r, const std::string &w, const std::set<int> &from) {
    std::set<int> o;
    switch (r.k) {
    case 0: for (int p : from) if (p < (int)w.size() && ((r.set.find(w[p]) != r.set.npos) != r.neg)) o.insert(p + 1); return o;
    case 1: o = from; for (auto &x : r.ch) o = step(*x, w, o); return o;
    case 2: for (auto &x : r.ch) { auto q = step(*x, w, from); o.insert(q.begin(), q.end()); } return o;
    default: { std::set<int> cur = from; for (int i = 0; i < r.lo; i++) cur = step(*r.ch[0], w, cur); o = cur; int n = r.hi < 0 ? (int)w.size() + 1 : r.hi - r.lo; while (n-- > 0 && !cur.empty()) { auto nx = step(*r.ch[0], w, cur); size_t b = o.size(); o.insert(nx.begin(), nx.end()); cur = nx; if (o.size() == b && r.hi < 0) break; } return o; }
    }
}
static bool ref(const R &r, const std::string &w) { return step(r, w, {0}).count((int)w.size()); }
static std::string sample(Case &c, const R &r) {
    switch (r.k) { case 0: if (!r.neg) return std::string(1, r.set[c.below((uint32_t)r.set.size())]); for (int i = 0; i < 8; i++) { char ch = c.pickch("xyzc1 -a"); if (r.set.find(ch) == r.set.npos) return std::string(1, ch); } return "z";
    case 1: { std::string s; for (auto &x : r.ch) s += sample(c, *x); return s; } case 2: return sample(c, *r.ch[c.below((uint32_t)r.ch.size())]);
    default: { int n = r.lo + c.below(r.hi < 0 ? 4 : r.hi - r.lo + 1); std::string s; while (n--) s += sample(c, *r.ch[0]); return s; } }
}
static int match(Case &c, int e, const std::string &pat, const std::string &w, int inv) {
    return match_regexp(H[e], (char *)w.c_str(), (char *)pat.c_str(), inv);
}
void vf_case(Case &c) {
    term_reset();
    int e = c.below(2); const char *en = e ? "libxml2" : "posix";
    if (c.chance(12)) {                 /* malformed in both syntaxes */
        std::string p = c.pickc({"(", "[", "(a", "a[b", "[a", "a(b|c", "((a)", "[^", "x{2,1}", "[b-a]"}); if (c.flip() && p[0] != 'x') p = c.str("ab", 0, 3) + p;
        void *re = nullptr; int r = cligen_regex_compile(H[e], (char *)p.c_str(), &re); c.note("%s: malformed '%s'", en, p.c_str());
        if (p == "x{2,1}" || (e && p == "[b-a]")) { if (r == 1) { cligen_regex_free(H[e], re); return; } }
        CHECK(c, r == 0 && !re, "malformed", "%s: malformed pattern '%s' compiled (%d)", en, p.c_str(), r);
        for (int inv = 0; inv < 2; inv++) { std::string w = c.str("ab([", 0, 3); CHECK(c, match(c, e, p, w, inv) != 1, "malformed", "%s: malformed pattern '%s' matched '%s'", en, p.c_str(), w.c_str()); }
        c.label("malformed"); return;
    }
    RP r; if (e && c.chance(15)) { /* libxml2's own counter handling is only reliable for a lone counted class */ r = std::make_shared<R>(); RP x = gen(c, 0, false); r->k = 3; r->ch = {x}; r->lo = c.below(3); r->hi = r->lo + 1 + c.below(3); r->text = x->text + "{" + std::to_string(r->lo) + "," + std::to_string(r->hi) + "}"; } else r = gen(c, 3, !e); std::string pat = r->text;
    if (!e) { int a = c.below(6); if (a == 1 || a == 3) pat = "^" + pat; if (a == 2 || a == 3) pat += "$"; }
    void *re = nullptr; int rc = cligen_regex_compile(H[e], (char *)pat.c_str(), &re);
    CHECK(c, rc == 1 && re, "compile", "%s: pattern '%s' refused (%d)", en, pat.c_str(), rc);
    int n = 1 + c.below(4); c.label(en);
    for (int i = 0; i < n; i++) {
        std::string w; switch (c.below(4)) { case 0: w = c.str("abc01.x", 0, 5); break; case 1: w = sample(c, *r); break; case 2: { w = sample(c, *r); size_t p = c.below((uint32_t)w.size() + 1); if (c.flip()) w.insert(p, 1, c.pickch("ab0$x")); else if (p < w.size()) w.erase(p, 1); break; } default: w = c.str("ab", 0, 2) + sample(c, *r) + c.str("ab)$", 0, 2); }
        int want = ref(*r, w); c.note("%s: '%s' vs '%s' expected %d", en, pat.c_str(), w.c_str(), want);
        int g = cligen_regex_exec(H[e], re, (char *)w.c_str()); CHECK(c, g == want, "match", "%s: pattern '%s' %s word '%s'", en, pat.c_str(), g ? "matches" : "does not match", w.c_str());
        for (int inv = 0; inv < 2; inv++) { g = match(c, e, pat, w, inv); CHECK(c, g == (want ^ inv), "match", "%s: %spattern '%s' gives %d for word '%s'", en, inv ? "inverted " : "", pat.c_str(), g, w.c_str()); }
        c.label(want ? "match" : "no match"); if (r->k && !w.empty()) c.nontrivial(std::string(en) + pat + "\n" + w);
    }
    cligen_regex_free(H[e], re);
}
