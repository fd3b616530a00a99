// C02: typed values accept exactly their documented syntax and keep the value
// LINK: val.cc
#include "val.h"
using namespace vf;
extern "C" const char *vf_property_id = "C02";
const char *vf_rule = "one literal per case (boundary, other base, near-miss mutation, garbage) parsed with every public parser of its type, vs an independent parser; non-trivial = the verdict is specified and the literal is non-empty; distinct by (type, literal)";
void vf_init() { term_reset(); }
static void expect(Case &c, const char *fn, enum cv_type t, const std::string &s, int verdict, const Val &want, int ret, int okret, const Val &got) {
    bool acc = ret == okret;
    if (verdict == 1) CHECK(c, acc, "reject", "%s refused legal %s literal '%s' (returned %d)", fn, tname(t), esc(s).c_str(), ret);
    if (verdict == 0) CHECK(c, !acc, "accept", "%s accepted illegal %s literal '%s' as %s", fn, tname(t), esc(s).c_str(), show(got).c_str());
    if (acc && verdict != -2) CHECK(c, got == want, "value", "%s: %s literal '%s' gave %s, expected %s", fn, tname(t), esc(s).c_str(), show(got).c_str(), show(want).c_str());
}
void vf_case(Case &c) {
    term_reset();
    enum cv_type t = ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())];
    int n = t == CGV_DEC64 ? 1 + (int)c.below(18) : 0;
    std::string s = gen_literal(c, t, n);
    Val want; int verdict = ref_parse(t, n, s, want);
    c.note("%s%s literal '%s' expected: %s", tname(t), n ? sprintf_(" (%d fraction digits)", n).c_str() : "", esc(s).c_str(), verdict == 1 ? ("accept " + show(want)).c_str() : verdict == 0 ? "reject" : "unspecified");
    c.label(sprintf_("%s %s", tname(t), verdict == 1 ? "legal" : verdict == 0 ? "illegal" : "unspecified").c_str());
    cg_var *cv = cv_new(t); if (t == CGV_DEC64) cv_dec64_n_set(cv, (uint8_t)n);
    if (t != CGV_URL && c.chance(30)) { Val pre = gen_val(c, t); if (t == CGV_DEC64) pre.n = n; to_cv(cv, pre); c.note("previous value %s", show(pre).c_str()); }
    char *reason = nullptr; int ret;
    if (c.chance(85)) {
        ret = cv_parse1(s.c_str(), cv, &reason);
        CHECK(c, ret == 0 || ret == 1, "fatal", "cv_parse1('%s') returned %d", esc(s).c_str(), ret);
        CHECK(c, (ret == 0) == (reason != nullptr), "reason", "cv_parse1('%s') returned %d %s a reason", esc(s).c_str(), ret, reason ? "with" : "without");
        if (reason) CHECK(c, *reason, "reason", "empty reason");
        lib_free(reason);
    } else { ret = cv_parse1(s.c_str(), cv, nullptr); CHECK(c, ret == 0 || ret == 1, "fatal", "cv_parse1('%s') returned %d", esc(s).c_str(), ret); }
    Val got; if (ret == 1) got = from_cv(cv);
    if (t == CGV_DEC64) CHECK(c, cv_dec64_n_get(cv) == n, "fraction", "fraction digits changed to %d", cv_dec64_n_get(cv));
    expect(c, "cv_parse1", t, s, verdict, want, ret, 1, got);
    int r2; Val g2; g2.t = t; char *re = nullptr; std::vector<char> buf(s.begin(), s.end()); buf.push_back(0); char *p = buf.data();
    switch (t) {
#define P(TY, T, f, fld) case TY: { T x = 0; r2 = f(p, &x, &re); g2.fld = x; expect(c, #f, t, s, verdict, want, r2, 1, g2); CHECK(c, (r2 == 0) == (re != nullptr), "reason", #f " returned %d %s a reason", r2, re ? "with" : "without"); CHECK(c, (r2 == 1) == (ret == 1), "agree", #f " and cv_parse1 disagree on '%s'", esc(s).c_str()); lib_free(re); break; }
    P(CGV_INT8, int8_t, parse_int8, i) P(CGV_INT16, int16_t, parse_int16, i) P(CGV_INT32, int32_t, parse_int32, i) P(CGV_INT64, int64_t, parse_int64, i)
    P(CGV_UINT8, uint8_t, parse_uint8, u) P(CGV_UINT16, uint16_t, parse_uint16, u) P(CGV_UINT32, uint32_t, parse_uint32, u) P(CGV_UINT64, uint64_t, parse_uint64, u) P(CGV_BOOL, uint8_t, parse_bool, u)
    case CGV_DEC64: { int64_t x = 0; r2 = parse_dec64(p, (uint8_t)n, &x, &re); g2.i = x; g2.n = n; expect(c, "parse_dec64", t, s, verdict, want, r2, 1, g2); CHECK(c, (r2 == 0) == (re != nullptr), "reason", "parse_dec64 returned %d %s a reason", r2, re ? "with" : "without"); lib_free(re); re = nullptr;
        int bad = c.flip() ? 0 : 19 + (int)c.below(5); r2 = parse_dec64(p, (uint8_t)bad, &x, &re); CHECK(c, r2 == 0 && re, "fraction", "fraction digits %d accepted", bad); lib_free(re); break; }
    case CGV_UUID: { uuid_t u; memset(u, 0, sizeof u); r2 = str2uuid(p, u); memcpy(g2.b, u, 16); expect(c, "str2uuid", t, s, verdict, want, r2, 0, g2); break; }
    case CGV_TIME: { struct timeval tv = {0, 0}; r2 = str2time(p, &tv); g2.sec = tv.tv_sec; g2.usec = (int)tv.tv_usec; expect(c, "str2time", t, s, verdict, want, r2, 0, g2); break; }
    default: break;
    }
    /* cv_parse: same verdict */
    cg_var *cw = cv_new(t); if (t == CGV_DEC64) cv_dec64_n_set(cw, (uint8_t)n);
    r2 = cv_parse(s.c_str(), cw); CHECK(c, (r2 == 0) == (ret == 1) && (r2 == 0 || r2 == -1), "agree", "cv_parse returned %d, cv_parse1 %d", r2, ret);
    if (r2 == 0) CHECK(c, from_cv(cw) == got, "agree", "cv_parse gave %s, cv_parse1 %s", show(from_cv(cw)).c_str(), show(got).c_str());
    cv_free(cw); cv_free(cv);
    CHECK(c, cv_str2type(tname(t)) == t && !strcmp(cv_type2str(t), tname(t)), "typename", "type name of %s wrong", tname(t));
    if (verdict >= 0 && !s.empty()) c.nontrivial(sprintf_("%d/%d/", t, n) + s);
}
