// C05: value comparison is a total order, copies are exact and independent
// LINK: val.cc
#include "val.h"
using namespace vf;
extern "C" const char *vf_property_id = "C05";
const char *vf_rule = "order: pairs and triples of values of one type vs natural order; history: set/copy/reset/flag/min-max operations on a pool of variables vs a model; non-trivial = a pair that differs, or a history with a copy modified afterwards; distinct by content";
void vf_init() { term_reset(); }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static Val near_val(Case &c, const Val &a) {
    Val b = a;
    if (is_signed(a.t)) { switch (c.below(4)) { case 0: b.i = (int64_t)((uint64_t)a.i + 1); break; case 1: b.i = -(int64_t)a.i; if (a.i == INT64_MIN) b.i = INT64_MAX; break; case 2: b.i = c.flip() ? (int64_t)type_min(a.t) : (int64_t)type_max(a.t); break; case 3: b.i = a.i ^ (1LL << c.below(bits_of(a.t))); break; } int nb = bits_of(a.t); if (nb < 64) b.i = (int64_t)((uint64_t)b.i << (64 - nb)) >> (64 - nb); return b; }
    if (is_unsigned(a.t)) { switch (c.below(3)) { case 0: b.u = (a.u + 1) & (uint64_t)type_max(a.t); break; case 1: b.u = a.u ^ (1ULL << c.below(bits_of(a.t))); break; default: b.u = c.flip() ? 0 : (uint64_t)type_max(a.t); } return b; }
    switch (a.t) {
    case CGV_DEC64: b.i = c.flip() ? (int64_t)((uint64_t)a.i ^ (1ULL << c.below(64))) : (int64_t)((uint64_t)a.i + 1); break;
    case CGV_BOOL: b.u ^= 1; break;
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: if (b.s.empty() || c.flip()) b.s += c.flip() ? 'a' : (char)0xe9; else { size_t p = c.below((uint32_t)b.s.size()); b.s[p] = b.s[p] == 'm' ? 'M' : 'm'; } break;
    case CGV_IPV4PFX: case CGV_IPV6PFX: if (c.flip()) { b.mask = b.mask ? b.mask - 1 : 1; break; } /* fallthrough */
    case CGV_IPV4ADDR: case CGV_IPV6ADDR: case CGV_MACADDR: case CGV_UUID: { int l = a.t == CGV_IPV4ADDR || a.t == CGV_IPV4PFX ? 4 : a.t == CGV_MACADDR ? 6 : 16; b.b[c.below(l)] ^= (unsigned char)(1 << c.below(8)); break; }
    case CGV_URL: { std::string *f[] = {&b.proto, &b.addr, &b.path, &b.user, &b.pass}; std::string *s = f[c.below(5)]; *s += "x"; break; }
    case CGV_TIME: if (c.flip()) b.usec = (b.usec + 1) % 1000000; else b.sec = (b.sec + (c.flip() ? 256 : 1)) % 4260211200LL; break;
    default: break;
    }
    return b;
}
static cg_var *mk(const Val &v) { cg_var *cv = cv_new(v.t); to_cv(cv, v); return cv; }
static void order(Case &c) {
    enum cv_type t = ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())];
    Val v[3]; v[0] = gen_val(c, t); for (int i = 1; i < 3; i++) { v[i] = c.chance(60) ? near_val(c, v[i - 1]) : c.chance(20) ? v[i - 1] : gen_val(c, t); if (t == CGV_DEC64) v[i].n = v[0].n; }
    c.note("%s | %s | %s", show(v[0]).c_str(), show(v[1]).c_str(), show(v[2]).c_str()); c.label(tname(t));
    cg_var *cv[3]; for (int i = 0; i < 3; i++) cv[i] = mk(v[i]);
    bool diff = false;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        int g = sg(cv_cmp(cv[i], cv[j])), w = ref_cmp(v[i], v[j]); if (w) diff = true;
        CHECK(c, g == w, "order", "%s: cmp(%s, %s) is %d, natural order says %d", tname(t), show(v[i]).c_str(), show(v[j]).c_str(), g, w);
    }
    if (c.chance(20)) { Val o = gen_val(c, ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())]); cg_var *co = mk(o); bool str = cv_isstring(o.t) && cv_isstring(t); int a = sg(cv_cmp(cv[0], co)), b = sg(cv_cmp(co, cv[0])); if (o.t != t && !str) CHECK(c, a == -b && a, "types", "different types %s and %s compare %d/%d", tname(t), tname(o.t), a, b); if (str) CHECK(c, a == sg(strcmp(v[0].s.c_str(), o.s.c_str())), "strings", "string types %s and %s compare %d", tname(t), tname(o.t), a); cv_free(co); }
    for (int i = 0; i < 3; i++) cv_free(cv[i]);
    if (diff) c.nontrivial("o" + std::to_string(t) + ref_print(v[0]) + "|" + ref_print(v[1]) + "|" + ref_print(v[2]));
}
struct M { cg_var *cv; Val v; bool has; std::string name; bool named; int cst, flags; };
static void inv(Case &c, M &m, int k, const char *op) {
    CHECK(c, cv_type_get(m.cv) == m.v.t, "type", "%s: variable %d has type %s, expected %s", op, k, tname(cv_type_get(m.cv)), tname(m.v.t));
    const char *n = cv_name_get(m.cv); CHECK(c, m.named ? n && m.name == n : !n, "name", "%s: variable %d name '%s', expected '%s'", op, k, n ? n : "(null)", m.named ? m.name.c_str() : "(null)");
    CHECK(c, !!cv_const_get(m.cv) == !!m.cst, "const", "%s: variable %d constant %d, expected %d", op, k, cv_const_get(m.cv), m.cst);
    for (int b = 0; b < 7; b++) CHECK(c, !!cv_flag(m.cv, (char)(1 << b)) == !!(m.flags & (1 << b)), "flag", "%s: variable %d flag %d is %d, expected %d", op, k, 1 << b, !!cv_flag(m.cv, (char)(1 << b)), !!(m.flags & (1 << b)));
    if (m.has) CHECK(c, from_cv(m.cv) == m.v, "value", "%s: variable %d is %s, expected %s", op, k, show(from_cv(m.cv)).c_str(), show(m.v).c_str());
}
static Val full(Case &c, enum cv_type t) { Val v = gen_val(c, t); return v; }
static void history(Case &c) {
    std::vector<M> p; std::string sig; int n = 3 + c.below(20); bool touched = false;
    auto fresh = [&](enum cv_type t) { M m; m.v = full(c, t); m.cv = mk(m.v); m.has = true; m.named = false; m.cst = 0; m.flags = 0; return m; };
    p.push_back(fresh(ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())]));
    bool copied = false;
    while (n--) {
        int op = c.below(11), i = c.below((uint32_t)p.size()); M &m = p[i]; char opn[80]; sig += (char)('a' + op); sig += (char)('0' + i);
        switch (op) {
        case 0: { if (p.size() > 6) break; snprintf(opn, 80, "new"); p.push_back(fresh(ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())])); break; }
        case 1: { if (p.size() > 6) break; M d = m; d.cv = cv_dup(m.cv); CHECK(c, d.cv, "dup", "cv_dup failed"); CHECK(c, cv_cmp(d.cv, m.cv) == 0 || !m.has, "dup", "a copy of %s compares different", show(m.v).c_str()); copied = true; p.push_back(d); break; }
        case 2: { int j = c.below((uint32_t)p.size()); if (j == i) break; cv_reset(p[j].cv); CHECK(c, cv_cp(p[j].cv, m.cv) == 0, "cp", "cv_cp failed"); cg_var *k = p[j].cv; p[j] = m; p[j].cv = k; copied = true; break; }
        case 3: { Val nv; do nv = full(c, m.v.t); while (0); if (m.v.t == CGV_URL || cv_isstring(m.v.t) || m.has) {
            if (cv_isstring(m.v.t) && c.chance(30)) { size_t k = c.below((uint32_t)nv.s.size() + 4); char *s = cv_strncpy(m.cv, (char *)nv.s.c_str(), k); nv.s = nv.s.substr(0, k); CHECK(c, s && s == cv_string_get(m.cv) && nv.s == s, "strncpy", "the first %zu characters are stored as '%s'", k, s ? esc(s).c_str() : "NULL"); } else to_cv(m.cv, nv);
            m.v = nv; m.has = true; } touched |= copied; break; }
        case 4: { std::string s = c.str("abz", 0, 4); if (c.chance(10)) { cv_name_set(m.cv, nullptr); m.named = false; } else { cv_name_set(m.cv, s.c_str()); m.name = s; m.named = true; } touched |= copied; break; }
        case 5: m.cst = c.below(2); cv_const_set(m.cv, m.cst); break;
        case 6: { int b = 1 << c.below(7); if (c.chance(20)) b |= 1 << c.below(7); cv_flag_set(m.cv, (char)b); m.flags |= b; break; }
        case 7: { int b = 1 << c.below(7); if (c.chance(20)) b |= 1 << c.below(7); cv_flag_clr(m.cv, (char)b); m.flags &= ~b; break; }
        case 8: { cv_reset(m.cv); m.named = false; m.cst = m.flags = 0; m.has = false; touched |= copied; Val z; z.t = m.v.t; m.v = z; if (cv_isstring(z.t) || z.t == CGV_URL) { CHECK(c, cv_isstring(z.t) ? cv_string_get(m.cv) == nullptr : cv_urladdr_get(m.cv) == nullptr, "reset", "string left after reset"); to_cv(m.cv, z); } if (z.t == CGV_DEC64) { m.v.n = 1; cv_dec64_n_set(m.cv, 1); } m.has = true; break; }
        case 9: { if (!is_signed(m.v.t) && !is_unsigned(m.v.t) && m.v.t != CGV_BOOL && m.v.t != CGV_DEC64) break; bool mx = c.flip(); (mx ? cv_max_set : cv_min_set)(m.cv); if (is_signed(m.v.t)) m.v.i = (int64_t)(mx ? type_max(m.v.t) : type_min(m.v.t)); else if (is_unsigned(m.v.t)) m.v.u = (uint64_t)(mx ? type_max(m.v.t) : 0); else if (m.v.t == CGV_BOOL) m.v.u = mx; else m.v.i = mx ? INT64_MAX : INT64_MIN; break; }
        case 10: { if (p.size() < 2) break; cv_free(m.cv); p.erase(p.begin() + i); touched |= copied; break; }
        }
        snprintf(opn, 80, "operation %c on %d", 'a' + op, i); c.note("%s", opn);
        for (size_t k = 0; k < p.size(); k++) inv(c, p[k], (int)k, opn);
    }
    for (auto &m : p) cv_free(m.cv);
    if (touched) c.nontrivial("h" + sig);
}
void vf_case(Case &c) { term_reset(); leakfree(c, [&] { if (c.flip()) order(c); else history(c); }); }
