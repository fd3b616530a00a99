// C03: printing a value and parsing it back gives the same value
// LINK: val.cc
#include "val.h"
using namespace vf;
extern "C" const char *vf_property_id = "C03";
const char *vf_rule = "one generated value per case, printed with every print routine (stream, buffer, bounded string of random size, allocated string) vs an independent printer, then parsed back; non-trivial = text not empty; distinct by (type, text)";
void vf_init() { term_reset(); }
static void body(Case &c) {
    enum cv_type t = ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())];
    Val v = gen_val(c, t);
    c.note("%s", show(v).c_str()); c.label(tname(t));
    cg_var *cv = cv_new(t); to_cv(cv, v);
    if (c.flip()) cv_name_set(cv, "nm"); if (c.flip()) cv_const_set(cv, 1);
    Val got = from_cv(cv);
    CHECK(c, got == v || t == CGV_IPV4ADDR || t == CGV_IPV6ADDR, "set-get", "set %s, got %s", show(v).c_str(), show(got).c_str());
    std::string want = ref_print(v);
    char *d = cv2str_dup(cv); CHECK(c, d, "dup", "cv2str_dup returned NULL");
    CHECK(c, want == d, "text", "cv2str_dup gave '%s', expected '%s'", esc(d).c_str(), esc(want).c_str());
    CHECK(c, cv2str(cv, nullptr, 0) == (int)want.size(), "size", "cv2str(NULL,0) gave %d, expected %zu", cv2str(cv, nullptr, 0), want.size());
    /* bounded string: exact heap block, never written past the end, always terminated */
    size_t sz = c.flip() ? want.size() + c.range(-2, 2) : c.below((uint32_t)want.size() + 4); if ((ssize_t)sz < 0) sz = 0;
    char *b = (char *)malloc(sz ? sz : 1); memset(b, 'X', sz ? sz : 1);
    int r = cv2str(cv, b, sz);
    CHECK(c, r == (int)want.size(), "bounded", "cv2str with %zu bytes returned %d, text is %zu", sz, r, want.size());
    if (sz) { CHECK(c, memchr(b, 0, sz), "unterminated", "cv2str with %zu bytes left the text unterminated", sz); CHECK(c, want.substr(0, std::min(want.size(), sz - 1)) == b, "bounded", "cv2str with %zu bytes gave '%s', expected a prefix of '%s'", sz, esc(b).c_str(), esc(want).c_str()); }
    else CHECK(c, b[0] == 'X', "overrun", "cv2str with size 0 wrote");
    free(b);
    /* buffer: appended after what is there */
    cbuf *cb = cbuf_new(); std::string pre = c.str("ab%", 0, 3); cbuf_append_str(cb, (char *)pre.c_str());
    CHECK(c, cv2cbuf(cv, cb) == 0, "cbuf", "cv2cbuf failed"); CHECK(c, pre + want == cbuf_get(cb), "cbuf", "cv2cbuf gave '%s', expected '%s'", esc(cbuf_get(cb)).c_str(), esc(pre + want).c_str()); cbuf_free(cb);
    /* stream: strings are quoted */
    char *m = nullptr; size_t ml = 0; FILE *f = open_memstream(&m, &ml); cv_print(f, cv); fclose(f);
    std::string sw = (t == CGV_STRING || t == CGV_INTERFACE) ? "\"" + want + "\"" : want;
    CHECK(c, sw == m, "stream", "cv_print gave '%s', expected '%s'", esc(m).c_str(), esc(sw).c_str()); free(m);
    /* round trip */
    cg_var *cw = cv_new(t); if (t == CGV_DEC64) cv_dec64_n_set(cw, (uint8_t)v.n); char *reason = nullptr;
    int p = cv_parse1(d, cw, &reason); CHECK(c, p == 1, "parse", "printed text '%s' refused: %s", esc(d).c_str(), reason ? reason : "");
    Val back = from_cv(cw); CHECK(c, back == got, "roundtrip", "'%s' parsed back as %s, value was %s", esc(d).c_str(), show(back).c_str(), show(got).c_str());
    CHECK(c, cv_cmp(cv, cw) == 0, "cmp", "value parsed back from '%s' compares different", esc(d).c_str());
    lib_free(d); cv_free(cw);
    if (t == CGV_UUID) { char u[37]; memset(u, 'X', sizeof u); uuid2str((unsigned char *)v.b, u, 37); CHECK(c, want == u, "uuid2str", "uuid2str gave '%.36s'", u); }
    if (t == CGV_TIME) { char u[28]; struct timeval tv = {(time_t)v.sec, v.usec}; memset(u, 'X', sizeof u); CHECK(c, time2str(&tv, u, sizeof u) == 0 && want == u, "time2str", "time2str gave '%.27s'", u); }
    if (is_signed(t) || is_unsigned(t)) {
        std::string mx = i128s(type_max(t)); char *q = cvtype_max2str_dup(t); CHECK(c, q && mx == q, "max", "maximum of %s printed as %s", tname(t), q ? q : "NULL"); lib_free(q);
        size_t z = c.below(24); char *bb = (char *)malloc(z ? z : 1); int n = cvtype_max2str(t, bb, z); CHECK(c, n == (int)mx.size(), "max", "cvtype_max2str returned %d", n); if (z) CHECK(c, mx.substr(0, z - 1) == bb, "max", "cvtype_max2str with %zu bytes gave '%s'", z, bb); free(bb);
    }
    { enum cv_type x = (enum cv_type)c.range(CGV_ERR + 1, CGV_EMPTY); const char *n = cv_type2str(x); CHECK(c, n && cv_str2type((char *)n) == x, "typename", "type %d is named '%s', which names type %d", (int)x, n ? n : "NULL", n ? (int)cv_str2type((char *)n) : -1); }
    cv_free(cv);
    if (!want.empty()) c.nontrivial(std::to_string(t) + want);
}
void vf_case(Case &c) { term_reset(); leakfree(c, [&] { body(c); }); }
