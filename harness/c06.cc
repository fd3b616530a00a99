// C06: a variable vector behaves as an ordered list of named values (stateful model)
// LINK: val.cc
#include "val.h"
using namespace vf;
extern "C" const char *vf_property_id = "C06";
const char *vf_rule = "operation sequence on up to 3 vectors vs a list model, full contents and all lookups compared after every operation; non-trivial = a deletion from a vector of at least 2 elements or a duplicate later diverging; distinct by operation sequence";
void vf_init() { term_reset(); }
struct E { Val v; bool named; std::string name; int cst; };
struct L { cvec *vr; std::vector<E> m; bool named; std::string name; };
static const char *NAMES[] = {"a", "b", "c", "ab", ""};
static E get(cg_var *cv) { E e; e.v = from_cv(cv); const char *n = cv_name_get(cv); e.named = n; e.name = n ? n : ""; e.cst = !!cv_const_get(cv); return e; }
static bool eq(const E &a, const E &b) { return a.v == b.v && a.named == b.named && a.name == b.name && a.cst == b.cst; }
static std::string sh(const E &e) { return (e.named ? "'" + e.name + "'" : "-") + (e.cst ? " const " : " ") + show(e.v); }
static void fill(Case &c, cg_var *cv, E &e, bool newtype) {
    static const enum cv_type T[] = {CGV_STRING, CGV_INT32, CGV_REST, CGV_UINT64, CGV_BOOL, CGV_IPV4PFX, CGV_URL, CGV_DEC64, CGV_IPV4ADDR};
    enum cv_type t = newtype ? T[c.below(9)] : cv_type_get(cv); e.v = gen_val(c, t); if (e.v.s.size() > 30) e.v.s.resize(30); to_cv(cv, e.v);
    e.named = !c.chance(15); e.name = e.named ? NAMES[c.below(5)] : ""; cv_name_set(cv, e.named ? e.name.c_str() : nullptr); e.cst = c.below(2); cv_const_set(cv, e.cst);
}
static std::string pr(const Val &v) { std::string s = ref_print(v); return v.t == CGV_STRING || v.t == CGV_INTERFACE ? "\"" + s + "\"" : s; }
static void inv(Case &c, L &l, const char *op) {
    int n = (int)l.m.size();
    CHECK(c, cvec_len(l.vr) == n, "len", "%s: length %d, expected %d", op, cvec_len(l.vr), n);
    for (int i = 0; i < n; i++) { cg_var *cv = cvec_i(l.vr, i); CHECK(c, cv, "i", "%s: element %d missing", op, i); E g = get(cv); CHECK(c, eq(g, l.m[i]), "element", "%s: element %d is %s, expected %s", op, i, sh(g).c_str(), sh(l.m[i]).c_str()); const char *s = cv_isstring(g.v.t) ? cvec_i_str(l.vr, i) : nullptr; if (cv_isstring(g.v.t)) CHECK(c, s && g.v.s == s, "i_str", "%s: cvec_i_str(%d)", op, i); }
    for (int i : {n, n + 1, n + 100, -1, -3}) { CHECK(c, cvec_i(l.vr, i) == nullptr, "i", "%s: cvec_i(%d) of %d elements is not NULL", op, i, n); CHECK(c, cvec_i_str(l.vr, i) == nullptr, "i_str", "%s: cvec_i_str(%d) of %d elements is not NULL", op, i, n); }
    int k = 0; cg_var *cv = nullptr; while ((cv = cvec_each(l.vr, cv))) { CHECK(c, k < n && cv == cvec_i(l.vr, k), "each", "%s: iteration step %d is not element %d", op, k, k); k++; } CHECK(c, k == n, "each", "%s: iteration visited %d of %d", op, k, n);
    k = 1; cv = nullptr; while ((cv = cvec_each1(l.vr, cv))) { CHECK(c, k < n && cv == cvec_i(l.vr, k), "each1", "%s: each1 step %d is wrong", op, k); k++; } CHECK(c, k == std::max(n, 1), "each1", "%s: each1 visited up to %d of %d", op, k, n);
    if (n) CHECK(c, cvec_next(l.vr, nullptr) == cvec_i(l.vr, 0) && cvec_next(l.vr, cvec_i(l.vr, n - 1)) == nullptr, "next", "%s: cvec_next at the ends", op);
    for (int q = 0; q <= 5; q++) { const char *nm = q < 5 ? NAMES[q] : "zz"; int a = -1, b = -1, d = -1; for (int i = n - 1; i >= 0; i--) if (l.m[i].named && l.m[i].name == nm) { a = i; if (l.m[i].cst) b = i; else d = i; }
        cg_var *want = a < 0 ? nullptr : cvec_i(l.vr, a); CHECK(c, cvec_find(l.vr, nm) == want, "find", "%s: find '%s' is not element %d", op, nm, a);
        want = b < 0 ? nullptr : cvec_i(l.vr, b); CHECK(c, cvec_find_keyword(l.vr, nm) == want, "find_keyword", "%s: find keyword '%s' is not element %d", op, nm, b);
        want = d < 0 ? nullptr : cvec_i(l.vr, d); CHECK(c, cvec_find_var(l.vr, nm) == want, "find_var", "%s: find variable '%s' is not element %d", op, nm, d);
        const char *s = cvec_find_str(l.vr, nm); bool isstr = a >= 0 && cv_isstring(l.m[a].v.t); CHECK(c, isstr ? s && l.m[a].v.s == s : !s, "find_str", "%s: find string '%s' gave '%s'", op, nm, s ? s : "NULL"); }
    { int a = -1; for (int i = n - 1; i >= 0; i--) if (!l.m[i].named) a = i; CHECK(c, cvec_find(l.vr, nullptr) == (a < 0 ? nullptr : cvec_i(l.vr, a)), "find", "%s: find of the unnamed element is not element %d", op, a); }
    const char *vn = cvec_name_get(l.vr); CHECK(c, l.named ? vn && l.name == vn : !vn, "vecname", "%s: vector name '%s'", op, vn ? vn : "NULL");
}
static void session(Case &c, std::string &sig, bool &nt) {
    std::vector<L> vs; bool dup = false;
    auto mk = [&](int k) { L l; l.named = false; if (k == 0) l.vr = cvec_new(0); else if (k == 1) { int n = c.below(4); l.vr = cvec_new(n); for (int i = 0; i < n; i++) { l.m.push_back(E()); fill(c, cvec_i(l.vr, i), l.m[i], true); } } else if (k == 2) { std::string s = c.str("ab \"", 0, 8); l.vr = cvec_start((char *)s.c_str()); E e; e.v.t = CGV_REST; e.v.s = s; e.named = true; e.name = "cmd"; e.cst = 0; l.m.push_back(e); } else { cg_var *cv = cv_new(CGV_STRING); E e; fill(c, cv, e, true); l.vr = cvec_from_var(cv); cv_free(cv); l.m.push_back(e); } CHECK(c, l.vr, "new", "vector not created"); return l; };
    vs.push_back(mk(c.below(4))); inv(c, vs[0], "new");
    int n = 2 + c.below(25);
    while (n--) {
        int op = c.weighted({18, 8, 10, 10, 6, 10, 3, 6, 5, 6, 4, 3, 3, 3, 3}), w = c.below((uint32_t)vs.size()); L &l = vs[w]; int len = (int)l.m.size(); char on[64]; sig += (char)('a' + op); sig += (char)('0' + w);
        snprintf(on, 64, "op %d on vector %d of %d", op, w, len);
        switch (op) {
        case 0: { E e; static const enum cv_type T[] = {CGV_STRING, CGV_INT32, CGV_REST, CGV_UINT64, CGV_BOOL}; cg_var *cv = cvec_add(l.vr, T[c.below(5)]); CHECK(c, cv && cv == cvec_i(l.vr, len), "add", "%s: returned element is not the last", on); CHECK(c, !cv_name_get(cv) && !cv_const_get(cv), "add", "%s: new element is not empty", on); fill(c, cv, e, false); l.m.push_back(e); break; }
        case 1: { cg_var *cv = cv_new(CGV_STRING); E e; fill(c, cv, e, true); cg_var *r = cvec_append_var(l.vr, cv); CHECK(c, r && r == cvec_i(l.vr, len), "append", "%s: returned element is not the last", on); cv_free(cv); l.m.push_back(e); break; }
        case 2: { if (!len) break; int i = c.below(len); cv_reset(cvec_i(l.vr, i)); int r = cvec_del(l.vr, cvec_i(l.vr, i)); CHECK(c, r == len - 1, "del", "%s: cvec_del(%d) returned %d", on, i, r); l.m.erase(l.m.begin() + i); nt |= len > 1; snprintf(on, 64, "cvec_del %d of %d", i, len); break; }
        case 3: { if (!len) break; int i = c.below(len); cv_reset(cvec_i(l.vr, i)); int r = cvec_del_i(l.vr, i); CHECK(c, r == len - 1, "del_i", "%s: cvec_del_i(%d) returned %d", on, i, r); l.m.erase(l.m.begin() + i); nt |= len > 1; snprintf(on, 64, "cvec_del_i %d of %d", i, len); break; }
        case 4: { int i = c.flip() ? len + c.below(3) : -1 - (int)c.below(2); int r = cvec_del_i(l.vr, i); CHECK(c, r == -1, "del_i", "%s: cvec_del_i(%d) returned %d", on, i, r); cg_var *cv = cv_new(CGV_INT32); r = cvec_del(l.vr, cv); CHECK(c, r == len, "del", "%s: deleting a foreign element returned %d", on, r); cv_free(cv); break; }
        case 5: { if (!len) break; int i = c.below(len); cv_reset(cvec_i(l.vr, i)); fill(c, cvec_i(l.vr, i), l.m[i], true); nt |= dup; break; }
        case 6: { if (c.flip()) { l.named = true; l.name = c.pickc({"vec", "", "x y"}); CHECK(c, cvec_name_set(l.vr, l.name.c_str()), "vecname", "%s: name not set", on); } else { l.named = false; cvec_name_set(l.vr, nullptr); } break; }
        case 7: { if (vs.size() > 2) break; L d = l; d.vr = cvec_dup(l.vr); CHECK(c, d.vr, "dup", "%s: no duplicate", on); vs.push_back(d); dup = true; inv(c, vs.back(), "duplicate"); break; }
        case 8: { if (vs.size() > 2) break; vs.push_back(mk(c.below(4))); inv(c, vs.back(), "new"); break; }
        case 9: { if (!l.m.empty() && c.chance(30)) { cvec_reset(l.vr); l.m.clear(); l.named = false; l.name = ""; } else if (vs.size() > 1) { cvec_free(l.vr); vs.erase(vs.begin() + w); for (auto &x : vs) inv(c, x, "after free of another vector"); continue; } break; }
        case 10: { char *m = nullptr; size_t ml; FILE *f = open_memstream(&m, &ml); cvec_print(f, l.vr); fclose(f); std::string e; if (l.named) e += l.name + ":\n"; for (int i = 0; i < len; i++) e += std::to_string(i) + " : " + (l.m[i].named ? l.m[i].name + " = " : "") + pr(l.m[i].v) + "\n"; CHECK(c, e == m, "print", "%s: printed '%s', expected '%s'", on, esc(m).c_str(), esc(e).c_str()); free(m); break; }
        case 11: { bool all = true; std::string e; for (int i = 0; i < len; i++) { all &= l.m[i].named; e += std::to_string(i) + " : " + l.m[i].name + " = " + ref_print(l.m[i].v) + "\n"; } if (!all) break; cbuf *cb = cbuf_new(); CHECK(c, cvec2cbuf(cb, l.vr) == 0, "cbuf", "cvec2cbuf failed"); CHECK(c, e == cbuf_get(cb), "cbuf", "%s: printed '%s', expected '%s'", on, esc(cbuf_get(cb)).c_str(), esc(e).c_str()); cbuf_free(cb); break; }
        case 12: { if (!len || !cv_isstring(l.m[0].v.t)) break; std::string e; for (int i = 1; i < len; i++) e += (i > 1 ? " " : "") + ref_print(l.m[i].v); CHECK(c, cvec_expand_first(l.vr) == 0, "expand", "cvec_expand_first failed"); l.m[0].v.s = e; break; }
        case 13: { CHECK(c, cvec_exclude_keys(l.vr) == 0, "exclude", "cvec_exclude_keys failed"); for (size_t i = 1; i < l.m.size();) if (l.m[i].cst) { l.m.erase(l.m.begin() + i); nt = true; } else i++; snprintf(on, 64, "exclude_keys on vector of %d", len); break; }
        case 14: CHECK(c, cvec_len(nullptr) == 0 && !cvec_i(nullptr, 0) && !cvec_each(nullptr, nullptr) && !cvec_each1(nullptr, nullptr) && !cvec_dup(nullptr) && !cvec_find(nullptr, "a") && !cvec_next(nullptr, nullptr), "null", "a missing vector is not empty"); break;
        }
        c.note("%s", on);
        for (auto &x : vs) inv(c, x, on);
    }
    for (auto &x : vs) cvec_free(x.vr);
}
void vf_case(Case &c) { term_reset(); std::string sig; bool nt = false; leakfree(c, [&] { session(c, sig, nt); }); if (nt) c.nontrivial(sig); }
