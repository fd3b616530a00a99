// C26: tree editing operations keep trees well-formed
// LINK: val.cc spec.cc
#include "spec.h"
#include <strings.h>
using namespace vf;
extern "C" { int co_stats_global(uint64_t *, uint64_t *); int cligen_ignorecase_set(cligen_handle, int); int cligen_lexicalorder_set(cligen_handle, int); int cligen_ignorecase(cligen_handle); int cligen_lexicalorder(cligen_handle); }
extern "C" const char *vf_property_id = "C26";
const char *vf_rule = "histories of 5 to 60 operations over up to five trees whose elements (keywords, variables with choices, ranges, patterns, expansion functions, references, ends of commands, NULL slots, with help texts, callbacks, labels, prefixes, sets) come from generated statements: create, insert (sorted and merging), append, insert at an index, delete, clear, detach, copy of objects and of trees, shallow copy, merge, sort, truncate, find, apply, statistics, replacement of sub-trees, prefix, flags, labels; the default, version and case-ignoring orders; after every operation every tree is compared with a model object by object (identity, parent, contents, order) and the number of live objects is checked, at the end nothing may be left allocated; non-trivial = at least one insert or merge that combined equal elements with children and one copy; distinct by history";
void vf_init() { term_reset(); term_tty(false); }
namespace {
int order = 0;  /* 0 strcmp, 1 strverscmp, 2 strcasecmp */
int scmp(const std::string *a, const std::string *b) { if (!a || !b) return a ? 1 : b ? -1 : 0; return order == 1 ? strverscmp(a->c_str(), b->c_str()) : order == 2 ? strcasecmp(a->c_str(), b->c_str()) : strcmp(a->c_str(), b->c_str()); }
struct MN; struct ML { parse_tree *pt = nullptr; std::vector<std::shared_ptr<MN>> k; MN *own = nullptr; int sets = 0; };
typedef std::shared_ptr<MN> PN;
struct MN { cg_obj *co = nullptr; enum cg_objtype type; std::string name, attr, cbs; bool hasname = false, anycbs = false; ML l; bool merged = false;
    int vtype = 0; std::shared_ptr<std::string> expand, choice; std::vector<std::string> eargs; std::vector<std::pair<std::string, bool>> regex; bool hasregex = false; int decn = 0, rangelen = 0; std::vector<std::pair<Val, Val>> range; };
int vcmp(const Val &a, const Val &b) { if (a.t != b.t) return (int)a.t - (int)b.t; if (a == b) return 0; __int128 x = a.i, y = b.i; if (x != y) return x < y ? -1 : 1; if (a.u != b.u) return a.u < b.u ? -1 : 1; return a.s < b.s ? -1 : 1; }
int rank(const PN &n) { return !n ? -1 : n->type == CO_EMPTY ? 0 : n->type == CO_COMMAND ? 1 : n->type == CO_VARIABLE ? 2 : 3; }
int mcmp(const PN &a, const PN &b) {
    if (rank(a) != rank(b)) return rank(a) - rank(b); if (!a || a->type == CO_EMPTY) return 0;
    if (a->type != CO_VARIABLE) return scmp(&a->name, &b->name);
    if (a->vtype != b->vtype) return a->vtype - b->vtype; int e;
    if (a->expand || b->expand) { if ((e = scmp(a->expand.get(), b->expand.get()))) return e; if (a->eargs.size() != b->eargs.size()) return (int)a->eargs.size() - (int)b->eargs.size(); for (size_t i = 0; i < a->eargs.size(); i++) if ((e = a->eargs[i].compare(b->eargs[i]))) return e; return 0; }
    if (a->choice || b->choice) return scmp(a->choice.get(), b->choice.get());
    if (a->hasregex != b->hasregex) return a->hasregex ? 1 : -1;
    for (size_t i = 0; i < a->regex.size() && i < b->regex.size(); i++) { if ((e = scmp(&a->regex[i].first, &b->regex[i].first))) return e; if ((e = a->regex[i].second - b->regex[i].second)) return e; }
    if (a->regex.size() != b->regex.size()) return (int)a->regex.size() - (int)b->regex.size();
    if (a->decn != b->decn) return a->decn - b->decn; if (a->rangelen != b->rangelen) return a->rangelen - b->rangelen;
    for (size_t i = 0; i < a->range.size(); i++) { if ((e = vcmp(a->range[i].first, b->range[i].first))) return e; if ((e = vcmp(a->range[i].second, b->range[i].second))) return e; }
    return 0;
}
bool nodup(const ML &l, bool deep = true) { for (size_t i = 0; i < l.k.size(); i++) { for (size_t j = 0; j < i; j++) if (mcmp(l.k[i], l.k[j]) == 0) return false; if (deep && l.k[i] && !nodup(l.k[i]->l)) return false; } return true; }
bool sorted(const ML &l) { for (size_t i = 1; i < l.k.size(); i++) if (mcmp(l.k[i - 1], l.k[i]) >= 0) return false; return true; }
void msort(ML &l, bool deep) { std::stable_sort(l.k.begin(), l.k.end(), [](const PN &a, const PN &b) { return mcmp(a, b) < 0; }); if (deep) for (auto &n : l.k) if (n) msort(n->l, true); }
PN mcopy(const PN &n) { if (!n) return n; PN r = std::make_shared<MN>(*n); r->co = nullptr; r->merged = false; r->l.pt = nullptr; r->l.own = r.get(); r->l.k.clear(); for (auto &x : n->l.k) r->l.k.push_back(mcopy(x)); return r; }
bool mmerge(ML &a, const ML &b) { bool any = false; for (auto &x : b.k) { PN e; bool found = false; for (auto &y : a.k) if (mcmp(x, y) == 0) { e = y; found = true; break; } if (!found) a.k.push_back(mcopy(x)); else if (e) { any = true; if (e->cbs.empty()) e->cbs = x->cbs; mmerge(e->l, x->l); } } msort(a, false); return any; }
size_t count(const ML &l, size_t *pts = nullptr) { size_t n = 0; if (pts) ++*pts; for (auto &x : l.k) if (x) n += 1 + count(x->l, pts); return n; }
void lists(ML &l, std::vector<ML *> &out) { out.push_back(&l); for (auto &x : l.k) if (x) lists(x->l, out); }
PN adopt(cg_obj *co) {
    if (!co) return nullptr; PN n = std::make_shared<MN>(); n->co = co; n->type = co->co_type; n->hasname = co->co_command; n->name = co->co_command ? co->co_command : ""; n->attr = co_dump(co); n->cbs = cbs_dump(co->co_callbacks);
    if (co->co_type == CO_VARIABLE) { n->vtype = co->co_vtype; if (co->co_expand_fn_str) n->expand = std::make_shared<std::string>(co->co_expand_fn_str); for (int i = 0; i < cvec_len(co->co_expand_fn_vec); i++) n->eargs.push_back(cv_string_get(cvec_i(co->co_expand_fn_vec, i))); if (co->co_choice) n->choice = std::make_shared<std::string>(co->co_choice);
        n->hasregex = co->co_regex; for (int i = 0; co->co_regex && i < cvec_len(co->co_regex); i++) { cg_var *cv = cvec_i(co->co_regex, i); n->regex.push_back({cv_string_get(cv), cv_flag(cv, V_INVERT)}); } if (co->co_vtype == CGV_DEC64) n->decn = co->co_dec64_n; n->rangelen = co->co_rangelen;
        for (int i = 0; i < co->co_rangelen; i++) { auto v = [&](cg_var *cv) { Val x; if (cv_type_get(cv) == CGV_EMPTY) { x.t = CGV_EMPTY; return x; } return from_cv(cv); }; n->range.push_back({v(cvec_i(co->co_rangecvv_low, i)), v(cvec_i(co->co_rangecvv_upp, i))}); } }
    n->l.own = n.get(); n->l.pt = co_pt_get(co); n->l.sets = n->l.pt ? pt_sets_get(n->l.pt) : 0; for (int i = 0; n->l.pt && i < (int)pt_len_get(n->l.pt); i++) n->l.k.push_back(adopt(pt_vec_i_get(n->l.pt, i))); return n;
}
void check_list(Case &c, ML &l, std::set<void *> &seen, const std::string &path) {
    if (l.pt == nullptr && l.own && l.own->co) l.pt = co_pt_get(l.own->co); if (!l.pt) { CHECK(c, l.k.empty(), "children", "%s has lost its children", path.c_str()); return; }
    CHECK(c, seen.insert(l.pt).second, "shared", "the tree at %s is shared", path.c_str()); if (l.own) CHECK(c, co_pt_get(l.own->co) == l.pt, "subtree", "%s has another sub-tree", path.c_str());
    CHECK(c, pt_len_get(l.pt) == l.k.size(), "length", "%s has %u children, expected %zu", path.c_str(), pt_len_get(l.pt), l.k.size());
    for (size_t i = 0; i < l.k.size(); i++) {
        MN *n = l.k[i].get(); cg_obj *co = pt_vec_i_get(l.pt, (int)i); std::string p = path + "/" + (n ? n->hasname ? n->name : "<cr>" : "NULL"); CHECK(c, !co == !n, "slot", "%s: slot %zu is%s empty", path.c_str(), i, co ? " not" : ""); if (!n) continue;
        if (!n->co) n->co = co; CHECK(c, n->co == co, "identity", "child %zu of %s is not the object expected (%s): it is '%s'", i, path.c_str(), n->attr.c_str(), co_dump(co).c_str()); CHECK(c, seen.insert(co).second, "shared", "%s is shared", p.c_str());
        std::string a = co_dump(co), b = cbs_dump(co->co_callbacks); CHECK(c, a == n->attr, "contents", "%s is '%s', expected '%s'", p.c_str(), a.c_str(), n->attr.c_str()); if (n->anycbs) { n->anycbs = false; n->cbs = b; } CHECK(c, b == n->cbs, "callbacks", "%s has callbacks '%s', expected '%s'", p.c_str(), b.c_str(), n->cbs.c_str());
        CHECK(c, co_up(co) == (l.own ? l.own->co : nullptr), "parent", "the parent of %s is wrong", p.c_str());
        if (n->merged && co_pt_get(co)) { n->l.sets = pt_sets_get(co_pt_get(co)); n->merged = false; } if (co_pt_get(co)) CHECK(c, pt_sets_get(co_pt_get(co)) == n->l.sets && co_sets_get(co) == n->l.sets, "sets", "%s is%s a set", p.c_str(), n->l.sets ? " not" : "");
        check_list(c, n->l, seen, p);
    }
    CHECK(c, pt_vec_i_get(l.pt, (int)l.k.size()) == nullptr && pt_vec_i_get(l.pt, -1) == nullptr, "bounds", "%s: an element outside the vector is returned", path.c_str());
}
struct Visit { std::vector<cg_obj *> v; int fail; };
int visit(cg_obj *co, void *arg) { Visit *v = (Visit *)arg; v->v.push_back(co); return --v->fail == 0 ? -1 : 0; }
void model_visit(const ML &l, int depth, std::vector<cg_obj *> &o) { if (depth <= 0) return; for (auto &n : l.k) if (n) { o.push_back(n->co); model_visit(n->l, depth - 1, o); } }
void session(Case &c, std::string &trace, bool &nt) {
    Real r; Spec s; GenOpt o; o.nvars = 6; o.alltypes = false; o.types = {CGV_STRING, CGV_INT32, CGV_INT8, CGV_DEC64, CGV_UINT64, CGV_STRING}; o.expand = o.translate = o.prefs = o.shows = o.sets = o.cbs = o.hide = o.labels = o.manycbs = true; o.refs = true; o.reftrees = o.topreftrees = {"T", "U", "t"}; o.names = {"a", "b", "ab", "B", "x1", "x10", "x2", "A"}; o.oneterm = false; gen_vars(c, s, o);
    order = c.chance(15) ? 1 : c.chance(15) ? 2 : 0; cligen_lexicalorder_set(r.h, order == 1); cligen_ignorecase_set(r.h, order == 2); c.note("order %d", order);
    uint64_t created = 0, base = 0, now = 0; co_stats_global(&created, &base);
    std::vector<std::unique_ptr<ML>> t; std::vector<PN> loose; bool combined = false, copied = false;
    auto fresh = [&](parse_tree *pt) { t.emplace_back(new ML); t.back()->pt = pt; return t.back().get(); };
    auto parse = [&](int depth) { std::vector<Stmt> v = gen_stmts(c, s, o, depth, true); TreeText tt; tt.stmts = v; std::string text = s.render_tree(&c, tt); parse_tree *pt = pt_new(); std::vector<char> b(text.begin(), text.end()); b.push_back(0); CHECK(c, clispec_parse_str(r.h, b.data(), (char *)"spec", nullptr, pt, nullptr) == 0, "spec", "refused: %s\n%s", text.c_str(), err_out.c_str()); r.resolve(pt); c.note("parsed: %s", text.c_str()); trace += text; return pt; };
    auto add_parsed = [&](int depth) { parse_tree *pt = parse(depth); ML *m = fresh(pt); for (int i = 0; i < (int)pt_len_get(pt); i++) m->k.push_back(adopt(pt_vec_i_get(pt, i))); m->sets = pt_sets_get(pt); };
    auto drop = [&](PN n, int how) { if (!n) return; if (how == 2) co_free(n->co, 1); else { parse_tree *pt = n->l.pt; co_free(n->co, 0); if (pt) pt_free(pt, 1); } };
    add_parsed(2); int n = 5 + c.below(56);
    for (int step = 0; step < n; step++) {
        std::vector<ML *> all; for (auto &x : t) lists(*x, all); for (auto &x : loose) lists(x->l, all); ML &l = *c.pick(all); cg_obj *up = l.own ? l.own->co : nullptr; int len = (int)l.k.size(); if (!l.pt) continue; std::string op;
        auto take = [&]() -> PN { if (!loose.empty() && c.flip()) { size_t k = c.below((uint32_t)loose.size()); PN x = loose[k]; std::vector<ML *> in; lists(x->l, in); for (auto q : in) if (q == &l) return nullptr; loose.erase(loose.begin() + k); return x; }
            int k = c.weighted({5, 4, 1, 1}); cg_obj *co = nullptr; if (k == 0) co = co_new((char *)c.pick(o.names).c_str(), nullptr); else if (k == 1) { co = cov_new(c.chance(50) ? CGV_STRING : c.flip() ? CGV_INT32 : CGV_REST, nullptr); co->co_command = strdup(c.pickc({"v", "w", "a"})); if (c.chance(30)) co->co_choice = strdup(c.pickc({"p|q", "p", "P|q"})); } else if (k == 2) { co = co_new(nullptr, nullptr); co->co_type = CO_EMPTY; } else { co = co_new((char *)c.pickc({"T", "U", "b"}), nullptr); co->co_type = CO_REFERENCE; }
            if (k != 2 && c.chance(30)) co->co_helpstring = strdup(c.pickc({"help", "Help", ""})); if (k == 0 && c.chance(20)) co_prefix_set(co, (char *)c.pickc({"ns", "p"})); if (k == 0 && c.chance(20)) co->co_preference = 5; if (c.chance(20) && k == 0) co_flags_set(co, CO_FLAGS_HIDE); return adopt(co); };
        switch (c.weighted({3, 10, 5, 3, 5, 3, 6, 5, 6, 4, 2, 6, 3, 2, 3, 2, 3, 2, 2})) {
        case 0: if (t.size() < 5) { op = "parse"; add_parsed(c.below(3)); } else { size_t k = c.below((uint32_t)t.size()); op = "free tree"; if (c.flip()) pt_free(t[k]->pt, 1); else cligen_parsetree_free(t[k]->pt, 1); t.erase(t.begin() + k); if (t.empty()) fresh(pt_new()); } break;
        case 1: { if (!sorted(l) || !nodup(l)) break; if (c.chance(6)) { bool has = !l.k.empty() && !l.k[0]; op = "insert NULL"; cg_obj *x = co_insert(l.pt, nullptr); CHECK(c, x == nullptr, "insert", "inserting NULL returns an object"); if (!has) l.k.insert(l.k.begin(), nullptr); break; }
            PN x = take(); if (!x) break; op = "insert " + x->attr; co_up_set(x->co, up); PN e; for (auto &y : l.k) if (y && mcmp(x, y) == 0) e = y; cg_obj *co = x->co, *got = c.flip() ? co_insert(l.pt, co) : co_insert1(l.pt, co, 1);
            if (e) { CHECK(c, got == e->co, "insert", "inserting an equal of '%s' returned another object", e->attr.c_str()); if (!x->l.k.empty()) combined = true; if (!x->cbs.empty() && e->cbs.empty()) e->anycbs = true; std::string keep = e->cbs; mmerge(e->l, x->l); e->merged = true; op += " (equal)"; c.label("insert equal"); } else { CHECK(c, got == co, "insert", "inserting '%s' returned another object", x->attr.c_str()); size_t k = 0; while (k < l.k.size() && mcmp(l.k[k], x) < 0) k++; l.k.insert(l.k.begin() + k, x); c.label("insert new"); } break; }
        case 2: { PN x = c.chance(10) ? nullptr : take(); op = "append"; if (x) co_up_set(x->co, up); CHECK(c, pt_vec_append(l.pt, x ? x->co : nullptr) == 0, "retval", "append fails"); l.k.push_back(x); break; }
        case 3: { PN x = c.chance(10) ? nullptr : take(); int i = c.range(-1, len + 1); op = sprintf_("insert at %d of %d", i, len); int rc = pt_vec_i_insert(l.pt, i, x ? x->co : nullptr); bool ok = i >= 0 && i <= len; CHECK(c, (rc == 0) == ok && (rc == 0 || rc == -1), "retval", "%s gives %d", op.c_str(), rc); if (ok) { if (x) co_up_set(x->co, up); l.k.insert(l.k.begin() + i, x); } else if (x) loose.push_back(x); break; }
        case 4: { int i = c.range(-1, len); op = sprintf_("delete %d of %d", i, len); int rec = c.chance(70); parse_tree *sub = i >= 0 && i < len && l.k[i] && !rec ? l.k[i]->l.pt : nullptr; int rc = pt_vec_i_delete(l.pt, i, rec); bool ok = i >= 0 && i < len; CHECK(c, rc == (ok ? 0 : -1), "retval", "%s gives %d", op.c_str(), rc); if (ok) { PN x = l.k[i]; l.k.erase(l.k.begin() + i); if (sub) { std::set<void *> seen; ML m = x->l; m.own = nullptr; CHECK(c, pt_len_get(sub) == m.k.size(), "delete", "%s: children changed", op.c_str()); for (size_t j = 0; j < m.k.size(); j++) CHECK(c, pt_vec_i_get(sub, (int)j) == (m.k[j] ? m.k[j]->co : nullptr), "delete", "%s: children changed", op.c_str()); pt_free(sub, 1); } c.label("delete"); } break; }
        case 5: { int i = c.range(-1, len); op = sprintf_("clear %d of %d", i, len); int rc = pt_vec_i_clear(l.pt, i); bool ok = i >= 0 && i < len; CHECK(c, rc == (ok ? 0 : -1), "retval", "%s gives %d", op.c_str(), rc); if (ok) { PN x = l.k[i]; l.k[i] = nullptr; if (x) { co_up_set(x->co, nullptr); loose.push_back(x); } c.label("detach"); } break; }
        case 6: { if (!len) break; PN x = l.k[c.below(len)]; if (!x) break; ML &d = *c.pick(all); if (!d.pt || t.empty() || count(*t[0]) > 150) break; cg_obj *dup = d.own ? d.own->co : nullptr, *con = nullptr; op = "copy " + x->attr; int rc = c.flip() ? co_copy(x->co, dup, 0, &con) : co_copy1(x->co, dup, 1, 0, &con); CHECK(c, rc == 0 && con, "retval", "%s gives %d", op.c_str(), rc); PN y = mcopy(x); y->co = con; CHECK(c, con != x->co, "copy", "the copy is the original"); pt_vec_append(d.pt, con); d.k.push_back(y); copied = true; c.label("copy object"); break; }
        case 7: { if (count(l) > 60) break; op = "copy tree"; parse_tree *p2; bool dup = c.flip(); if (dup) p2 = pt_dup(l.pt, nullptr, 0); else { p2 = pt_new(); CHECK(c, pt_copy(l.pt, nullptr, 0, p2) == 0, "retval", "copy fails"); } CHECK(c, p2 && p2 != l.pt, "copy", "the copy is the original"); CHECK(c, pt_sets_get(p2) == pt_sets_get(l.pt), "sets", "the copy is not of the same kind"); if (t.size() >= 5) { ML m; m.pt = p2; for (auto &x : l.k) m.k.push_back(mcopy(x)); std::set<void *> seen; check_list(c, m, seen, "copy"); pt_free(p2, 1); break; } { ML *m = fresh(p2); for (auto &x : l.k) m->k.push_back(mcopy(x)); m->sets = l.sets; copied = true; c.label("copy tree"); } break; }
        case 8: { ML &b = *c.pick(all); if (&b == &l || !b.pt || count(b) > 60 || !nodup(l)) break; std::vector<ML *> il; lists(l, il); bool in = false; for (auto q : il) if (q == &b) in = true; il.clear(); lists(b, il); for (auto q : il) if (q == &l) in = true; if (in) break; op = "merge"; CHECK(c, cligen_parsetree_merge(l.pt, up, b.pt) == 0, "retval", "merge fails"); if (mmerge(l, b)) combined = true; c.label("merge"); break; }
        case 9: { bool deep = c.flip(); if (!nodup(l, deep)) break; op = "sort"; cligen_parsetree_sort(l.pt, deep); msort(l, deep); c.label("sort"); break; }
        case 10: { int k = c.range(-1, len + 1); op = sprintf_("truncate %d to %d", len, k); std::vector<parse_tree *> subs; if (k > 0 && k <= len) for (int i = k; i < len; i++) if (l.k[i] && l.k[i]->l.pt) subs.push_back(l.k[i]->l.pt); int rc = pt_trunc(l.pt, k); bool ok = k > 0 && k <= len; if (k == 0 && rc == 0 && len == 0) break; CHECK(c, rc == (ok ? 0 : -1), "retval", "%s gives %d", op.c_str(), rc); if (ok) { l.k.resize(k); for (auto p : subs) pt_free(p, 1); c.label("truncate"); } break; }
        case 11: { std::string nm = c.pick(o.names); if (c.chance(40) && len) { PN x = l.k[c.below(len)]; if (x && x->hasname) nm = x->name; } if (c.chance(10)) nm = c.pickc({"", "zz", "T", "v"}); op = "find " + nm; cg_obj *want = nullptr; int eq = 0; for (auto &x : l.k) if (x && x->hasname && scmp(&nm, &x->name) == 0) { if (!want) want = x->co; eq++; } cg_obj *got = co_find_one(l.pt, (char *)nm.c_str()); if (eq <= 1) CHECK(c, got == want, "find", "finding '%s' gives %s", nm.c_str(), got ? co_dump(got).c_str() : "nothing"); else { bool in = false; for (auto &x : l.k) if (x && x->co == got && x->hasname && scmp(&nm, &x->name) == 0) in = true; CHECK(c, in, "find", "finding '%s' gives %s", nm.c_str(), got ? co_dump(got).c_str() : "nothing"); } c.label(want ? "found" : "not found"); break; }
        case 12: { int depth = c.chance(40) ? INT32_MAX : c.range(1, 3); std::vector<cg_obj *> want; model_visit(l, depth, want); Visit v; v.fail = c.chance(30) ? 1 + c.below(5) : 0; op = "apply"; int fail = v.fail; int rc = pt_apply(l.pt, visit, depth, &v); bool stop = fail && (size_t)fail <= want.size(); if (stop) want.resize(fail); CHECK(c, rc == (stop ? -1 : 0), "retval", "apply gives %d", rc); CHECK(c, v.v == want, "apply", "apply to depth %d visited %zu objects, expected %zu", depth, v.v.size(), want.size()); break; }
        case 13: { size_t pts = 0, nn = count(l, &pts); uint64_t nr = 0; size_t sz = 0; op = "statistics"; CHECK(c, pt_stats(l.pt, &nr, &sz) == 0 && nr >= nn && nr <= nn + pts && sz >= nn * sizeof(void *), "stats", "statistics of %zu objects in %zu trees: %lu, %zu bytes", nn, pts, (unsigned long)nr, sz); break; }
        case 14: { PN x = take(); if (!x) break; if (!l.own || (size_t)count(l) > 80) { loose.push_back(x); break; } op = "replace sub-tree"; parse_tree *p2 = pt_new(); co_up_set(x->co, l.own->co); pt_vec_append(p2, x->co); CHECK(c, co_pt_set(l.own->co, p2) == 0, "retval", "setting a sub-tree fails"); l.k.clear(); l.k.push_back(x); l.pt = p2; l.sets = 0; c.label("replace sub-tree"); break; }
        case 15: { if (!len) break; PN x = l.k[c.below(len)]; if (!x || x->type == CO_EMPTY) break; op = "shallow copy"; cg_obj *con = nullptr; CHECK(c, co_copy1(x->co, up, 0, 0, &con) == 0 && con, "retval", "copy fails"); CHECK(c, co_pt_get(con) == x->l.pt && co_dump(con) == x->attr && cbs_dump(con->co_callbacks) == x->cbs && co_up(con) == up, "copy", "shallow copy of '%s' is '%s'", x->attr.c_str(), co_dump(con).c_str()); co_free(con, 0); break; }
        case 16: { if (!len) break; PN x = l.k[c.below(len)]; if (!x || x->type == CO_EMPTY) break; op = "change " + x->attr; switch (c.below(4)) { case 0: co_prefix_set(x->co, c.chance(30) ? nullptr : (char *)c.pickc({"ns", "p2", ""})); break; case 1: co_flags_set(x->co, CO_FLAGS_HIDE); CHECK(c, co_flags_get(x->co, CO_FLAGS_HIDE) == 1, "flags", "flag not set"); break; case 2: co_flags_reset(x->co, CO_FLAGS_HIDE); CHECK(c, co_flags_get(x->co, CO_FLAGS_HIDE) == 0, "flags", "flag not reset"); break; case 3: { cvec *v = cvec_new(0); int k = 1 + c.below(3); std::vector<std::string> w, had; if (x->co->co_filter) for (int i = 0; i < cvec_len(x->co->co_filter); i++) had.push_back(cv_name_get(cvec_i(x->co->co_filter, i))); for (int i = 0; i < k; i++) { std::string nm = c.pickc({"f", "g", "h", "k"}); bool dupn = false; for (auto &q : w) if (q == nm) dupn = true; if (dupn) continue; cvec_add(v, CGV_STRING); cv_name_set(cvec_i(v, cvec_len(v) - 1), (char *)nm.c_str()); w.push_back(nm); } CHECK(c, co_filter_set(x->co, v) != nullptr, "retval", "setting labels fails"); std::vector<std::string> want = had, got; for (auto &q : w) if (std::find(had.begin(), had.end(), q) == had.end()) want.push_back(q); for (int i = 0; i < cvec_len(x->co->co_filter); i++) got.push_back(cv_name_get(cvec_i(x->co->co_filter, i))); CHECK(c, got == want, "labels", "labels after setting"); cvec_free(v); break; } } x->attr = co_dump(x->co); break; }
        case 17: { std::vector<cg_obj *> v; model_visit(l, 10, v); if (v.empty()) break; cg_obj *co = c.pick(v), *top = co; while (co_up(top)) top = co_up(top); op = "top"; CHECK(c, co_top(co) == top, "top", "top of '%s'", co_dump(co).c_str()); if (len && l.k[0]) { cg_obj *cot = nullptr; PN x = l.k[0]; if (!x->l.pt) break; int term = co_terminal(x->co, &cot); bool want = x->l.k.empty() || !x->l.k[0] || x->l.k[0]->type == CO_EMPTY; CHECK(c, term == want, "terminal", "'%s' is%s a terminal", x->attr.c_str(), want ? "" : " not"); if (want && !x->l.k.empty()) CHECK(c, cot == (x->l.k[0] ? x->l.k[0]->co : nullptr), "terminal", "wrong end of '%s'", x->attr.c_str()); } break; }
        default: { int v = c.flip(); op = "sets"; if (l.own) { co_sets_set(l.own->co, v); CHECK(c, co_sets_get(l.own->co) == v, "sets", "not set"); } else { pt_sets_set(l.pt, v); CHECK(c, pt_sets_get(l.pt) == v, "sets", "not set"); } l.sets = v; }
        }
        if (op.empty()) continue; c.note("%s", op.c_str()); trace += op + ";";
        std::set<void *> seen; size_t want = base; for (auto &x : t) { CHECK(c, pt_sets_get(x->pt) == x->sets, "sets", "tree is%s a set", x->sets ? " not" : ""); check_list(c, *x, seen, "tree"); want += count(*x); }
        for (auto &x : loose) { ML one; one.k.push_back(x); std::string a = co_dump(x->co); CHECK(c, a == x->attr, "contents", "detached object is '%s', expected '%s'", a.c_str(), x->attr.c_str()); check_list(c, x->l, seen, "detached"); want += 1 + count(x->l); }
        co_stats_global(&created, &now); CHECK(c, now == want, "objects", "after %s %lu objects exist, expected %zu", op.c_str(), (unsigned long)now, want);
    }
    for (auto &x : t) pt_free(x->pt, 1); for (auto &x : loose) drop(x, c.flip() ? 2 : 0); co_stats_global(&created, &now); CHECK(c, now == base, "objects", "%lu objects are left, expected %lu", (unsigned long)now, (unsigned long)base);
    nt = combined && copied;
}
}
void vf_case(Case &c) {
    term_reset(); alloc_track(true); std::string trace; bool nt = false; struct Off { ~Off() { cligen_lexicalorder_set(nullptr, 0); cligen_ignorecase_set(nullptr, 0); } } off; session(c, trace, nt);
    long live = alloc_live(); std::string rep = live ? alloc_report() : ""; alloc_track(false); CHECK(c, live == 0, "leak", "%ld blocks are still allocated after everything was freed:\n%s", live, rep.c_str()); if (nt) c.nontrivial(trace);
}
