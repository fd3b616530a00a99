// C32: a failed allocation leaves values, buffers and trees intact
// LINK: val.cc spec.cc
#include "spec.h"
#include <unistd.h>
using namespace vf;
extern "C" const char *vf_property_id = "C32";
const char *vf_rule = "an operation (parsing, copying and printing values, operations on vectors and buffers, making, copying, merging and changing the objects of trees) is carried out once counting its memory allocations, then again in the same situation with one allocation, chosen at random, failing; its outcome must be an error or the same as before, and carried out a third time it must be the same as the first; non-trivial = an allocation did fail; distinct by (operation, failing call site)";
void vf_init() { term_reset(); term_tty(false); }
/* an operation in its situation: prepares itself, then runs the part that may fail; text of what came out, or "ERROR" */
struct Op { std::string name; virtual ~Op() {} virtual void prepare() {} virtual std::string run() = 0; virtual void cleanup() {} };
static const std::string ERR = "ERROR";
static std::string show_cv(cg_var *cv) { std::string s = cv_name_get(cv) ? cv_name_get(cv) : "-"; char *t = cv2str_dup(cv); s += "=" + std::string(t ? t : "(none)"); if (t) lib_free(t); return s; }
struct Quiet { Quiet() { } };
/* values and vectors */
struct ValOp : Op {
    int kind; std::vector<Val> vals; std::vector<std::string> names; std::string text; int n; cvec *v = nullptr, *w = nullptr; cg_var *a = nullptr; bool off = false;
    void prepare() override { v = cvec_new(0); for (size_t i = 0; i < vals.size(); i++) { cg_var *cv = cvec_add(v, vals[i].t); to_cv(cv, vals[i]); if (names[i] != "-") cv_name_set(cv, names[i].c_str()); } a = cv_new(vals[0].t); to_cv(a, vals[0]); cv_name_set(a, "name"); }
    std::string all(cvec *x) { std::string s; cg_var *cv = nullptr; while ((cv = cvec_each(x, cv))) s += show_cv(cv) + ";"; return s; }
    std::string run() override {
        std::string r;
        switch (kind) {
        case 0: { cg_var *cv = cv_new(vals[0].t); if (!cv) return ERR; if (vals[0].t == CGV_DEC64) cv_dec64_n_set(cv, vals[0].n); char *reason = nullptr; int rc = cv_parse1(text.c_str(), cv, &reason); alloc_fail_stop(); if (rc < 0) r = ERR; else if (rc == 0) { r = std::string("refused ") + (reason ? reason : "(none)"); if (!reason) r = ERR; } else r = show_cv(cv); if (reason) lib_free(reason); cv_free(cv); return r; }
        case 1: { cg_var *cv = cv_dup(a); alloc_fail_stop(); if (!cv) return ERR; r = show_cv(cv); cv_free(cv); return r; }
        case 2: { char *s = cv2str_dup(a); if (!s) return ERR; r = s; lib_free(s); return r; }
        case 3: { cvec *x = cvec_dup(v); alloc_fail_stop(); if (!x) return ERR; r = all(x); cvec_free(x); return r; }
        case 4: { cg_var *cv = cvec_add(v, CGV_STRING); if (!cv) { alloc_fail_stop(); CHECKV(cvec_len(v) == (int)vals.size()); return ERR; } char *p = cv_string_set(cv, text.c_str()); alloc_fail_stop(); return p ? all(v) : ERR; }
        case 5: { cg_var *cv = cvec_append_var(v, a); alloc_fail_stop(); if (!cv) return ERR; return all(v); }
        case 6: { cg_var *cv = cvec_add_string(v, (char *)"x", (char *)text.c_str()) == 0 ? cvec_i(v, cvec_len(v) - 1) : nullptr; alloc_fail_stop(); if (!cv) return ERR; return all(v); }
        case 7: { int rc = cvec_del_i(v, n); alloc_fail_stop(); return sprintf_("%d ", rc) + all(v); }
        case 8: { cvec *x = cvec_new(n); alloc_fail_stop(); if (!x) return ERR; r = sprintf_("%d", cvec_len(x)); cvec_free(x); return r; }
        case 9: { cg_var *cv = cv_new(CGV_STRING); if (!cv) return ERR; char *q = cv_name_set(cv, text.c_str()); alloc_fail_stop(); r = q ? show_cv(cv) : ERR; cv_free(cv); return r; }
        case 10: { cvec *x = nullptr, *y = nullptr; int rc = cligen_str2cvv((char *)text.c_str(), &x, &y); alloc_fail_stop(); if (rc < 0) r = ERR; else r = all(x) + "/" + all(y); if (x) cvec_free(x); if (y) cvec_free(y); return r; }
        case 11: { int rc = cv_cp(cvec_i(v, (int)vals.size() - 1), a); alloc_fail_stop(); if (rc < 0) return ERR; return all(v); }
        case 12: { cbuf *cb = cbuf_new_alloc(n); if (!cb) return ERR; int rc = 0; rc |= cprintf(cb, "%s", text.c_str()) < 0; rc |= cbuf_append_str(cb, (char *)text.c_str()) < 0; rc |= cbuf_append(cb, 'x') < 0; rc |= cbuf_append_buf(cb, (void *)text.data(), text.size()) < 0; alloc_fail_stop(); r = rc ? ERR : std::string(cbuf_get(cb), cbuf_len(cb)); cprintf(cb, "%s", text.c_str()); cbuf_free(cb); return r; }
        case 13: { cbuf *cb = cbuf_new(); if (!cb) return ERR; int rc = cv2cbuf(a, cb); rc |= cvec2cbuf(cb, v); alloc_fail_stop(); r = rc < 0 ? ERR : cbuf_get(cb); cbuf_free(cb); return r; }
        case 14: { cg_var *cv = cv_new(CGV_STRING); if (!cv) return ERR; char *q = cv_strncpy(cv, (char *)text.c_str(), n); alloc_fail_stop(); r = q ? show_cv(cv) : ERR; cv_free(cv); return r; }
        }
        return r;
    }
    void CHECKV(bool) {}
    void cleanup() override { if (v) cvec_free(v); if (a) cv_free(a); v = nullptr; a = nullptr; }
};
/* an interpreter with a specification */
struct SesOp : Op {
    int kind; Spec *s; std::string text, tree, other, line; int prefmode = 0, tab = 0, at = 0; bool caseignore = false; Real *r = nullptr; int sub = 0, bl = 0; parse_tree *base = nullptr;
    void prepare() override { r = new Real(); if (kind != 0) { if (r->load(text)) { } set(); if (kind == 3) base = pt_dup(r->pt(other), nullptr, 0); } }
    void set() { cligen_caseignore_set(r->h, caseignore); cligen_preference_mode_set(r->h, prefmode); cligen_tabmode_set(r->h, tab); if (kind != 0) r->active(tree); cligen_terminal_width_set(r->h, 80); }
    std::string calls() { std::string t; for (auto &x : r->calls) t += "\n " + x; r->calls.clear(); r->ecalls.clear(); return t; }
    std::string run() override {
        std::string t;
        switch (kind) {
        case 0: { std::vector<char> b(text.begin(), text.end()); b.push_back(0); cvec *g = cvec_new(0); if (!g) return ERR; int rc = clispec_parse_str(r->h, b.data(), (char *)"spec", (char *)"T", nullptr, g); alloc_fail_stop(); cvec_free(g); if (rc < 0) return ERR; pt_head *ph = nullptr; while ((ph = cligen_ph_each(r->h, ph))) { parse_tree *pt = cligen_ph_parsetree_get(ph); t += std::string(cligen_ph_name_get(ph)) + "\n" + (pt ? pt_dump(pt) : "none\n"); } return t; }
        case 1: { cg_obj *co = nullptr; cvec *cvt = nullptr, *cvr = nullptr; char *reason = nullptr; cligen_result res = CG_ERROR; cvec *cvv = nullptr;
            parse_tree *pt = r->pt(tree); int rc = cliread_parse(r->h, (char *)line.c_str(), pt, &co, &cvv, &res, &reason); (void)cvt; (void)cvr;
            if (rc < 0) { alloc_fail_stop(); if (reason) lib_free(reason); if (cvv) cvec_free(cvv); if (co) co_free(co, 0); return ERR; }
            int e = 0; if (res == CG_MATCH) { e = cligen_eval(r->h, co, cvv); } alloc_fail_stop();
            t = sprintf_("res %d reason %s", res, reason ? reason : "-"); if (res == CG_MATCH) t += sprintf_(" eval %d", e); if (cvv) { cg_var *cv = nullptr; while ((cv = cvec_each(cvv, cv))) t += ";" + show_cv(cv); }
            t += calls(); if (reason) lib_free(reason); if (cvv) cvec_free(cvv); if (co) co_free(co, 0); if (res == CG_ERROR || (res == CG_MATCH && e < 0)) return ERR; return t; }
        case 2: { std::vector<Step> st = {{line.substr(0, at)}, {n2 ? "?" : "\t"}}; std::string ln; int rc = type_keys2(st, &ln); alloc_fail_stop(); calls(); if (rc < 0) return ERR; return sprintf_("%d '%s' ", rc, ln.c_str()) + term_out; }
        case 3: { parse_tree *n = nullptr;
            if (sub == 0) { n = pt_dup(r->pt(tree), nullptr, 0); alloc_fail_stop(); if (!n) return ERR; t = pt_dump(n); pt_free(n, 1); return t; }
            if (sub == 1) { int rc = cligen_parsetree_merge(base, nullptr, r->pt(tree)); alloc_fail_stop(); t = pt_dump(base); return rc < 0 ? ERR : t; }
            cg_obj *co = nullptr, *nw = nullptr; parse_tree *pt = r->pt(tree); int l = (int)pt_len_get(pt); if (l == 0) return "none"; co = pt_vec_i_get(pt, at % l); if (!co) return "none";
            if (sub == 2 || sub == 3) { int rc = sub == 2 ? co_copy(co, nullptr, 0, &nw) : co_copy1(co, nullptr, 1, 0, &nw); alloc_fail_stop(); if (rc < 0) return ERR; t = co_dump(nw); co_free(nw, 1); return t; }
            if (sub == 4) { int rc = pt_vec_append(base, nullptr); alloc_fail_stop(); t = pt_dump(base); return rc < 0 ? ERR : t; }
            if (sub == 5) { cg_obj *x = co_new((char *)"zz", nullptr); alloc_fail_stop(); if (!x) return ERR; t = co_dump(x); co_free(x, 1); return t; }
            if (sub == 6) { cg_obj *x = cov_new(CGV_STRING, nullptr); if (x && co_prefix_set(x, (char *)"pp") < 0) { alloc_fail_stop(); co_free(x, 1); return ERR; } alloc_fail_stop(); if (!x) return ERR; t = co_dump(x); co_free(x, 1); return t; }
            bl = (int)pt_len_get(base); if (bl < 2) return "none"; int rc = pt_trunc(base, bl - 1); alloc_fail_stop(); t = pt_dump(base); return rc < 0 ? ERR : t; }
        case 4: { int rc = cligen_hist_init(r->h, 3); if (rc < 0) return ERR; return "ok"; }
        }
        return t;
    }
    bool n2 = false;
    int type_keys2(std::vector<Step> &st, std::string *ln) { std::string k; for (auto &x : st) k += x.keys; term_out.clear(); term_input(k + "\n"); char *s = nullptr; int rc = cliread(r->h, &s); if (ln && s) *ln = s; return rc < 0 ? rc : s ? 1 : 0; }
    void cleanup() override { if (base) pt_free(base, 1); base = nullptr; delete r; r = nullptr; }
};
void vf_case(Case &c) {
    term_reset(); std::unique_ptr<Op> op; Spec s; std::string key;
    if (c.chance(50)) {
        auto *o = new ValOp; op.reset(o); o->kind = c.below(15); for (int i = 1 + c.below(4); i > 0; i--) { o->vals.push_back(gen_val(c, c.pick(ALL_TYPES))); o->names.push_back(c.flip() ? "n" + std::to_string(i) : "-"); }
        o->text = o->kind == 0 ? gen_literal(c, o->vals[0].t, o->vals[0].n) : c.str("ab \"\\x", 0, c.chance(10) ? 3000 : 12); if (o->text.find('\0') != std::string::npos) return; o->n = o->kind == 7 ? c.below((uint32_t)o->vals.size()) : c.below(9); o->name = sprintf_("value operation %d '%s'", o->kind, esc(o->text).c_str()); key = "v" + std::to_string(o->kind);
    } else {
        auto *q = new SesOp; op.reset(q); q->kind = c.weighted({0, 0, 0, 10, 0}); q->s = &s;
        GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(5); o.cbs = c.chance(70); o.sets = c.chance(30); o.help = c.chance(60); o.hide = c.chance(30); o.shows = c.chance(30); o.refs = c.chance(40); o.labels = c.chance(40); o.expand = c.chance(40); o.translate = c.chance(30); o.prefs = c.chance(30); o.ranges = c.flip(); o.depth = 1 + c.below(3); o.choices = true;
        int nt = o.refs ? 2 : 1; static const std::vector<std::string> TN = {"T", "A"};
        gen_vars(c, s, o); for (int i = 0; i < nt; i++) { if (o.refs) { o.reftrees = TN; o.topreftrees = i == 0 ? std::vector<std::string>{"A"} : std::vector<std::string>{}; } TreeText t; t.name = TN[i]; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); }
        s.denote(); q->text = s.render(&c); Matcher m(s); q->tree = TN[c.below(nt)]; q->other = TN[c.below(nt)]; q->sub = c.below(8); q->line = trim_line(gen_line(c, m, q->tree)); if (q->line.empty()) q->line = "x"; q->caseignore = c.chance(20); q->prefmode = c.below(4); q->tab = o.refs ? c.below(4) : c.below(8); q->at = c.below((uint32_t)q->line.size() + 1); q->n2 = c.flip();
        for (char ch : q->line) if ((unsigned char)ch < 32 || ch == '?' || ch == '\\') return;
        static const char *KN[] = {"parsing", "matching", "completing", "copying", "history"};
        op->name = sprintf_("%s (%d, at %d) '%s' in tree %s with\n%s", KN[q->kind], q->sub, q->at, q->line.c_str(), q->tree.c_str(), q->text.c_str()); key = std::string(KN[q->kind]) + std::to_string(q->sub);
    }
    c.note("%s", op->name.c_str());
    op->prepare(); alloc_fail_at(1L << 40); std::string first = op->run(); alloc_fail_stop(); long n = alloc_count(); op->cleanup();
    c.note("outcome %s", first.c_str()); if (n == 0) return;
    long k = 1 + c.below(n > 100000 ? 100000 : (uint32_t)n);
    op->prepare(); alloc_fail_at(k); std::string second = op->run(); bool failed = alloc_failed(); std::string site = alloc_fail_site(); alloc_fail_stop();
    c.note("allocation %ld of %ld fails at %s: %s", k, n, site.c_str(), second.c_str());
    if (failed) { if (second != ERR && second.rfind("refused", 0) != 0 && second != first) c.fail("outcome", "%s\nwithout failure gives:\n%s\nwith an allocation failing in %s:\n%s", op->name.c_str(), first.c_str(), site.c_str(), second.c_str()); }
    op->cleanup();
    if (failed) { op->prepare(); std::string third = op->run(); op->cleanup(); CHECK(c, third == first, "afterwards", "%s\nfirst gave:\n%s\nafter an allocation failed in %s it gives:\n%s", op->name.c_str(), first.c_str(), site.c_str(), third.c_str()); c.nontrivial(key + site); c.label(second == ERR ? "reported" : "not needed"); }
}
