// C04: range, length and pattern constraints admit exactly the allowed values
// LINK: val.cc
#include "val.h"
using namespace vf;
extern "C" const char *vf_property_id = "C04";
const char *vf_rule = "a variable declared in specification syntax with generated ranges, lengths, fraction digits and patterns, words at and around every bound typed through the line parser; non-trivial = at least one constraint and a word that is a legal literal of the type; distinct by (declaration, word)";
struct Rng { bool one; i128 lo, hi; };
struct Pat { const char *posix; bool (*f)(const std::string &); };
static bool all(const std::string &s, bool (*g)(char)) { for (char c : s) if (!g(c)) return false; return true; }
static bool low(char c) { return c >= 'a' && c <= 'z'; } static bool dig(char c) { return c >= '0' && c <= '9'; }
static const Pat pats[] = {
    {"[a-z]+", [](const std::string &s) { return !s.empty() && all(s, low); }}, {"[a-z]*", [](const std::string &s) { return all(s, low); }},
    {"[0-9]+", [](const std::string &s) { return !s.empty() && all(s, dig); }}, {"a.*", [](const std::string &s) { return s[0] == 'a'; }},
    {".*z", [](const std::string &s) { return !s.empty() && s.back() == 'z'; }}, {"(ab|cd)+", [](const std::string &s) { if (s.empty() || s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { auto t = s.substr(i, 2); if (t != "ab" && t != "cd") return false; } return true; }},
    {"a|b|abc", [](const std::string &s) { return s == "a" || s == "b" || s == "abc"; }}, {".", [](const std::string &s) { return s.size() == 1; }}, {"...*", [](const std::string &s) { return s.size() >= 2; }},
    {"x?y", [](const std::string &s) { return s == "y" || s == "xy"; }},
};
static cligen_handle H[2];
void vf_init() { term_reset(); term_tty(false); for (int i = 0; i < 2; i++) { H[i] = cligen_init(); cligen_regex_xsd_set(H[i], i); } }
static int cb_ok(cligen_handle, cvec *, cvec *) { return 0; }
static std::string scaled(i128 v, int n) { bool ng = v < 0; std::string a = i128s(ng ? -v : v); while ((int)a.size() <= n) a = "0" + a; a.insert(a.size() - n, "."); return (ng ? "-" : "") + a; }
void vf_case(Case &c) {
    term_reset();
    cligen_handle h = H[c.below(2)];
    static const std::vector<enum cv_type> T = {CGV_INT32, CGV_INT8, CGV_UINT8, CGV_INT16, CGV_UINT16, CGV_UINT32, CGV_INT64, CGV_UINT64, CGV_DEC64, CGV_DEC64, CGV_STRING, CGV_STRING, CGV_REST};
    enum cv_type t = c.pick(T); std::string decl = std::string("<v:") + cv_type2str(t);
    int n = 0; std::vector<Rng> rs; std::vector<std::pair<const Pat *, bool>> ps; std::vector<i128> marks;
    bool isstr = t == CGV_STRING || t == CGV_REST, isdec = t == CGV_DEC64;
    if (isdec) { n = 2; if (c.flip()) { n = 1 + c.below(18); decl += " fraction-digits:" + std::to_string(n); } }
    int k = c.below(4); 
    for (int i = 0; i < k; i++) {
        Rng r; r.one = c.chance(25);
        if (isstr) { r.lo = r.one ? 0 : c.below(8); r.hi = r.lo + c.below(6) - (c.chance(5) ? 4 : 0); if (r.hi < 0) r.hi = 0; decl += r.one ? " length[" + i128s(r.hi) + "]" : " length[" + i128s(r.lo) + ":" + i128s(r.hi) + "]"; }
        else {
            auto g = [&](i128 from) -> i128 { i128 mn = isdec ? type_min(CGV_INT64) : type_min(t), mx = isdec ? type_max(CGV_INT64) : type_max(t); i128 v; switch (c.below(6)) { case 0: v = from + c.below(4); break; case 1: v = mx - c.below(2); break; case 2: v = mn + c.below(2); break; case 3: v = (i128)c.below(40) - 20; break; case 4: { Val x = gen_val(c, isdec ? CGV_INT64 : t); v = is_signed(t) || isdec ? (i128)x.i : (i128)x.u; break; } default: v = from + c.below(100); } return v < mn ? mn : v > mx ? mx : v; };
            r.lo = g(0); r.hi = g(r.lo); if (r.hi < r.lo && c.chance(90)) std::swap(r.lo, r.hi); if (r.one) r.lo = 0;
            auto tx = [&](i128 v) { if (!isdec) return i128s(v); std::string s = scaled(v, n); if (c.flip()) { while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back(); } if (c.flip() && s.size() > 2 && s.substr(s.size() - 2) == ".0") s.resize(s.size() - 2); return s; };
            decl += r.one ? " range[" + tx(r.hi) + "]" : " range[" + tx(r.lo) + ":" + tx(r.hi) + "]";
        }
        rs.push_back(r); marks.push_back(r.lo); marks.push_back(r.hi);
    }
    if (isstr) for (int i = c.below(3); i > 0; i--) { const Pat *p = &pats[c.below(sizeof pats / sizeof *pats)]; bool inv = c.chance(30); ps.push_back({p, inv}); decl += std::string(" regexp:") + (inv ? "!" : "") + "\"" + p->posix + "\""; }
    std::string spec = "x " + decl + ">, cb();\n"; c.note("spec %s", spec.c_str());
    parse_tree *pt = pt_new(); cvec *gl = cvec_new(0);
    CHECK(c, clispec_parse_str(h, (char *)spec.c_str(), (char *)"c04", (char *)"T", pt, gl) == 0, "spec", "specification refused: %s: %s", spec.c_str(), err_out.c_str());
    cligen_callbackv_str2fn(pt, [](char *, void *, char **) -> cgv_fnstype_t * { return cb_ok; }, nullptr);
    if (cligen_pt_head_active_get(h) == nullptr) { pt_head *ph = cligen_ph_add(h, (char *)"T"); parse_tree *e = pt_new(); cligen_ph_parsetree_set(ph, e); cligen_ph_active_set_byname(h, (char *)"T"); }
    int m = 1 + c.below(6);
    for (int i = 0; i < m; i++) {
        std::string w;
        if (isstr) { int l = marks.empty() || c.flip() ? (int)c.below(12) : (int)marks[c.below((uint32_t)marks.size())] + c.range(-1, 1); if (l < 0) l = 0;
            switch (c.below(5)) { case 0: w = c.pickc({"a", "b", "abc", "ab", "cd", "abcd", "y", "xy", "12", "az", "Az", "A"}); break; case 1: for (int q = 0; q < l; q++) w += c.pickch("az"); break; case 2: for (int q = 0; q < l; q += 2) w += c.pickc({"ab", "cd"}); break; case 3: for (int q = 0; q < l; q++) w += c.pickch("09"); break; default: for (int q = 0; q < l; q++) w += c.pickch("abz19.X"); } }
        else if (c.chance(15)) { w = gen_literal(c, t, n); }
        else { i128 v = marks.empty() || c.chance(15) ? (i128)c.range(-300, 300) : marks[c.below((uint32_t)marks.size())] + c.range(-1, 1); if (c.chance(10)) { v += (i128)1 << (8 << c.below(4)); } w = isdec ? scaled(v, n) : i128s(v); if (!isdec && c.chance(10) && v >= 0 && v < ((i128)1 << 64)) { char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); w = b; } }
        if (w.empty()) continue; bool plain = true; for (char ch : w) if (isspace((unsigned char)ch) || ch == '"' || ch == '\\' || ch == '#' || (signed char)ch < 32) plain = false; if (!plain) continue;
        Val v; int ok = ref_parse(t, n, w, v); if (ok < 0) continue;
        if (ok && !rs.empty()) { i128 x = isstr ? (i128)w.size() : isdec || is_signed(t) ? (i128)v.i : (i128)v.u; bool in = false, un = false; for (auto &r : rs) { if (x >= r.lo && x <= r.hi) in = true; if (r.one && !isstr && x < 0 && x <= r.hi) un = true; } if (un && !in) continue; /* one-sided range below zero: not documented */ if (!in) ok = 0; }
        bool lit = ok; if (ok) for (auto &p : ps) if (p.first->f(w) == p.second) ok = 0;
        std::string line = "x " + w; c.note("line '%s' expected %s", line.c_str(), ok ? "accepted" : "refused");
        char *lp = strdup(line.c_str()); cg_obj *co = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr;
        int rc = cliread_parse(h, lp, pt, &co, &cvv, &res, &reason); free(lp);
        CHECK(c, rc == 0, "error", "'%s' for %s: error return", line.c_str(), decl.c_str());
        CHECK(c, (res == CG_MATCH) == (ok == 1), "accept", "'%s' %s by %s>%s%s", w.c_str(), res == CG_MATCH ? "accepted" : "refused", decl.c_str(), reason ? ": " : "", reason ? reason : "");
        if (ok) { CHECK(c, cvv && cvec_len(cvv) == 3, "value", "vector has %d elements", cvv ? cvec_len(cvv) : -1); Val g = from_cv(cvec_i(cvv, 2)); v.t = t; CHECK(c, g == v, "value", "'%s' bound as %s", w.c_str(), show(g).c_str()); }
        else CHECK(c, reason && *reason, "reason", "'%s' refused by %s> without explanation", w.c_str(), decl.c_str());
        if (co) co_free(co, 0); if (cvv) cvec_free(cvv); if (reason) lib_free(reason);
        if ((rs.size() || ps.size()) && lit) c.nontrivial(decl + "\n" + w); c.label(ok ? "accepted" : "refused"); c.label(tname(t));
    }
    pt_free(pt, 1); cvec_free(gl);
}
