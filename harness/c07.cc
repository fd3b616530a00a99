// C07: a dynamic buffer holds exactly the bytes appended to it (stateful model)
#include "vf.h"
#include "vf_sys.h"
using namespace vf;
extern "C" const char *vf_property_id = "C07";
const char *vf_rule = "operation sequence on 1-2 buffers vs std::string model; non-trivial = at least one append made the buffer grow and at least 4 operations ran; distinct by (start,threshold,operation/size sequence)";
static size_t def_start, def_thr;
void vf_init() { term_reset(); cbuf_alloc_get(&def_start, &def_thr); }
static int vcp(cbuf *cb, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vcprintf(cb, fmt, ap); va_end(ap); return r; }

struct B { cbuf *cb; std::string m; size_t cap; };
static void inv(Case &c, B &b, const char *op) {
    CHECK(c, cbuf_len(b.cb) == b.m.size(), "len", "%s: length %zu, expected %zu", op, cbuf_len(b.cb), b.m.size());
    CHECK(c, !memcmp(cbuf_get(b.cb), b.m.data(), b.m.size()), "content", "%s: content differs: '%s' expected '%s'", op, esc(std::string(cbuf_get(b.cb), b.m.size())).c_str(), esc(b.m).c_str());
    CHECK(c, cbuf_get(b.cb)[b.m.size()] == 0, "nul", "%s: not terminated", op);
    CHECK(c, cbuf_buflen(b.cb) > cbuf_len(b.cb), "cap", "%s: capacity %zu not above length %zu", op, cbuf_buflen(b.cb), cbuf_len(b.cb));
    CHECK(c, cbuf_buflen(b.cb) >= b.cap, "shrink", "%s: capacity shrank %zu -> %zu", op, b.cap, cbuf_buflen(b.cb));
    b.cap = cbuf_buflen(b.cb);
}
void vf_case(Case &c) {
    term_reset();
    size_t start, thr; bool custom = c.chance(75);
    if (custom) {
        start = c.flip() ? 1 + c.below(16) : c.below(300);
        int k = c.below(4); thr = k == 0 ? 0 : k == 1 ? 1 + c.below(8) : k == 2 ? 1 + c.below(600) : start;
        cbuf_alloc_set(start, thr);
    } else { start = def_start; thr = def_thr; cbuf_alloc_set(def_start, def_thr); }
    size_t gs = 0, gt = 0; cbuf_alloc_get(&gs, &gt);
    CHECK(c, gs == start && gt == thr, "alloc-get", "settings read back as %zu/%zu, set %zu/%zu", gs, gt, start, thr);
    c.note("start %zu threshold %zu", start, thr);
    std::vector<B> bs; int nb = c.chance(25) ? 2 : 1;
    for (int i = 0; i < nb; i++) {
        B b; size_t want = start;
        if (c.chance(30)) { want = c.below(200); b.cb = cbuf_new_alloc(want); c.note("b%d = new_alloc(%zu)", i, want); } else { b.cb = cbuf_new(); c.note("b%d = new()", i); }
        CHECK(c, b.cb, "new", "allocation failed");
        b.cap = want; bs.push_back(b); inv(c, bs.back(), "new");
    }
    std::string key = sprintf_("%zu/%zu/", start, thr); bool grew = false; int nops = 1 + c.small(60), ran = 0;
    for (int i = 0; i < nops; i++) {
        int w = nb > 1 ? c.below(2) : 0; B &b = bs[w]; size_t cap0 = b.cap; ran++;
        /* sizes aim at the free space left, +-3 */
        auto size = [&]() -> size_t { int k = c.below(4); size_t room = b.cap - b.m.size(); if (k == 0) return c.below(8); if (k == 1) return c.below(80); if (k == 2) { long s = (long)room + c.range(-3, 3); return s < 0 ? 0 : (size_t)std::min<long>(s, 20000); } long s = (long)std::min<size_t>(b.cap, 3000) + c.range(-3, 3) + (long)(c.below(3)) * (long)std::min<size_t>(thr, 1000); return s < 0 ? 0 : (size_t)s; };
        auto text = [&](size_t n) { std::string s(n, 'x'); char base = c.pickch("aZ%\n \xe5"); for (size_t k = 0; k < n; k++) s[k] = (char)(base + (k % 7 == 3 ? 0 : k % 5)); if (base == '%' || base == '\xe5') for (auto &ch : s) ch = base; return s; };
        switch (c.weighted({5, 5, 5, 5, 4, 3, 2, 2, 2})) {
        case 0: { std::string s = text(size()); c.note("b%d append_str len %zu", w, s.size()); CHECK(c, cbuf_append_str(b.cb, (char *)s.c_str()) == 0, "ret", "append_str failed"); b.m += s; inv(c, b, "append_str"); key += sprintf_("s%zu,", s.size()); break; }
        case 1: { int ch = 1 + c.below(255); c.note("b%d append 0x%02x", w, ch); CHECK(c, cbuf_append(b.cb, ch) == 0, "ret", "append failed"); b.m += (char)ch; inv(c, b, "append"); key += "c,"; break; }
        case 2: { std::string s = text(size()); if (!s.empty() && c.chance(40)) s[c.below(s.size())] = 0; if (!s.empty() && c.chance(10)) s.back() = 0; c.note("b%d append_buf len %zu", w, s.size()); CHECK(c, cbuf_append_buf(b.cb, (void *)s.data(), s.size()) == 0, "ret", "append_buf failed"); b.m += s; inv(c, b, "append_buf"); key += sprintf_("b%zu,", s.size()); break; }
        case 3: { std::string s = text(size()); int d = (int)c.below(20000) - 10000; bool v = c.flip(); int k = c.below(3); std::string e; int r;
            if (k == 0) { e = s; r = v ? vcp(b.cb, "%s", s.c_str()) : cprintf(b.cb, "%s", s.c_str()); }
            else if (k == 1) { e = sprintf_("%d:%s|%5d", d, s.c_str(), d); r = v ? vcp(b.cb, "%d:%s|%5d", d, s.c_str(), d) : cprintf(b.cb, "%d:%s|%5d", d, s.c_str(), d); }
            else { int wd = (int)std::min<size_t>(s.size(), 5000); e = sprintf_("%*s%%%.3s", wd, "q", s.c_str()); r = v ? vcp(b.cb, "%*s%%%.3s", wd, "q", s.c_str()) : cprintf(b.cb, "%*s%%%.3s", wd, "q", s.c_str()); }
            c.note("b%d %s kind %d total %zu", w, v ? "vcprintf" : "cprintf", k, e.size()); CHECK(c, r >= 0, "ret", "cprintf failed"); b.m += e; inv(c, b, "cprintf"); key += sprintf_("p%d.%zu,", k, e.size()); break; }
        case 4: { std::string e; for (int k = c.small(30); k >= 0; k--) { cprintf(b.cb, "%d,", k); e += sprintf_("%d,", k); } c.note("b%d %zu bytes in small prints", w, e.size()); b.m += e; inv(c, b, "prints"); key += sprintf_("m%zu,", e.size()); break; }
        case 5: { size_t t = b.m.empty() ? 0 : c.chance(25) ? b.m.size() : c.below((uint32_t)b.m.size() + 1); c.note("b%d trunc %zu", w, t); CHECK(c, cbuf_trunc(b.cb, t) == 0, "ret", "trunc(%zu) failed at length %zu", t, b.m.size()); b.m.resize(t); inv(c, b, "trunc"); key += sprintf_("t%zu,", t); break; }
        case 6: { size_t t = b.m.size() + 1 + c.below(5); c.note("b%d trunc %zu (too long)", w, t); CHECK(c, cbuf_trunc(b.cb, t) < 0, "trunc-over", "trunc(%zu) beyond length %zu accepted", t, b.m.size()); inv(c, b, "trunc-over"); break; }
        case 7: c.note("b%d reset", w); cbuf_reset(b.cb); b.m.clear(); inv(c, b, "reset"); key += "r,"; break;
        case 8: { c.note("b%d append_str/append_buf NULL", w); CHECK(c, cbuf_append_str(b.cb, nullptr) < 0 && cbuf_append_buf(b.cb, nullptr, 3) < 0, "null", "NULL source accepted"); CHECK(c, cprintf(nullptr, "%s", "x") == 0, "null", "cprintf(NULL) failed"); inv(c, b, "null"); break; }
        }
        if (b.cap > cap0) { grew = true; c.label("grow"); }
        if (nb > 1) inv(c, bs[1 - w], "other buffer");
    }
    for (auto &b : bs) { inv(c, b, "end"); cbuf_free(b.cb); }
    cbuf_free(nullptr);
    cbuf_alloc_set(def_start, def_thr);
    if (grew && ran >= 4) c.nontrivial(key);
}
