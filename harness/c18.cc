// C18: equivalent specifications behave the same, children are sorted and unique
// LINK: val.cc spec.cc
#include "spec.h"
using namespace vf;
extern "C" const char *vf_property_id = "C18";
const char *vf_rule = "a specification is rewritten step by step (statements swapped, alternatives and options written out, sequences wrapped in groups, blocks split, flattened or introduced, statements repeated, the text parsed in several parts, other layout and comments), keeping only rewritings after which it denotes the same commands; both texts are parsed by the library: the trees are equal in everything they hold, siblings strictly ordered, and sampled lines, callbacks, help and completion answer the same; non-trivial = at least two rewritings other than layout were applied; distinct by (both texts)";
void vf_init() { term_reset(); term_tty(false); }
static std::string sorted_dump(const Node *n, const std::vector<VarDef> &vs) {
    std::vector<std::string> v;
    for (auto &k : n->kids) {
        std::string s = (k->k == Elem::REF ? "@" + k->name : k->k == Elem::VAR ? vs[k->var].render() : k->name) + (k->term ? ";" : "") + (k->sets ? " sets" : "") + (k->hide ? " hide" : "") + (k->hashelp ? " (\"" + esc(k->help) + "\")" : "");
        for (auto &l : k->labels) s += " #" + l; for (auto &c : cb_strings(k->cbs)) s += " " + c;
        v.push_back(s + "{" + sorted_dump(k.get(), vs) + "}");
    }
    std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) o += x + "\n"; return o;
}
static std::string denot(Spec &s) { s.denote(); std::string o; for (auto &t : s.trees) o += t.first + ":\n" + sorted_dump(&t.second->root, s.vars); return o; }
static Spec copy_of(const Spec &s) { Spec n; n.vars = s.vars; n.texts = s.texts; return n; }
static void lists(std::vector<Stmt> &l, std::vector<std::vector<Stmt> *> &o) { o.push_back(&l); for (auto &s : l) if (s.block) lists(s.kids, o); }
static size_t nstmts(const std::vector<Stmt> &l) { size_t n = l.size(); for (auto &s : l) n += nstmts(s.kids); return n; }
static const char *rewrite(Case &c, Spec &s) {
    std::vector<std::vector<Stmt> *> ls; for (auto &t : s.texts) lists(t.stmts, ls);
    auto &l = *ls[c.below((uint32_t)ls.size())]; if (l.empty()) return nullptr; size_t i = c.below((uint32_t)l.size());
    Stmt st = l[i]; int op = c.weighted({3, 4, 3, 3, 3, 3, 2, 2});
    if (nstmts(l) > 200 && op != 0 && op != 4) return nullptr;
    switch (op) {
    case 0: { if (l.size() < 2) return nullptr; size_t j = c.below((uint32_t)l.size()); if (i == j) return nullptr; if (c.flip()) std::swap(l[i], l[j]); else { l.erase(l.begin() + (long)i); l.insert(l.begin() + (long)j, st); } return "statements reordered"; }
    case 1: { /* write alternatives or an option out */
        std::vector<size_t> p; for (size_t k = 0; k < st.seq.size(); k++) if (st.seq[k].k != Item::ELEM) p.push_back(k); if (p.empty()) return nullptr; size_t k = c.pick(p);
        Item it = st.seq[k]; auto alts = it.alts; if (it.k == Item::OPT) alts.insert(alts.begin() + (c.flip() ? 0 : (long)alts.size()), std::vector<Item>());
        std::vector<Stmt> out; for (auto &a : alts) { Stmt n = st; n.seq.erase(n.seq.begin() + (long)k); n.seq.insert(n.seq.begin() + (long)k, a.begin(), a.end()); if (n.seq.empty()) return nullptr; out.push_back(n); }
        l.erase(l.begin() + (long)i); l.insert(l.begin() + (long)i, out.begin(), out.end()); return it.k == Item::OPT ? "option written out" : "alternatives written out"; }
    case 2: { /* wrap part of the sequence in a group */
        size_t a = c.below((uint32_t)st.seq.size()), b = a + 1 + c.below((uint32_t)(st.seq.size() - a)); for (size_t k = a; k < b; k++) if (st.seq[k].k == Item::ELEM && st.seq[k].e.k == Elem::REF) return nullptr;
        Item g; g.k = Item::GROUP; g.alts = {std::vector<Item>(st.seq.begin() + (long)a, st.seq.begin() + (long)b)}; if (c.chance(20)) g.alts.push_back(g.alts[0]);
        l[i].seq.erase(l[i].seq.begin() + (long)a, l[i].seq.begin() + (long)b); l[i].seq.insert(l[i].seq.begin() + (long)a, g); return "sequence grouped"; }
    case 3: { /* split a block */
        if (!st.block) return nullptr; Stmt x = st, y = st; if (st.term && c.flip()) { x.block = false; x.kids.clear(); x.sets = false; y.term = false; y.cbs.clear(); } else { if (st.kids.size() < 2) return nullptr; size_t k = 1 + c.below((uint32_t)st.kids.size() - 1); x.kids.assign(st.kids.begin(), st.kids.begin() + (long)k); y.kids.assign(st.kids.begin() + (long)k, st.kids.end()); y.term = false; y.cbs.clear(); }
        l[i] = x; l.insert(l.begin() + (long)i + 1, y); return "block split"; }
    case 4: { /* flatten a block */
        if (!st.block || st.sets) return nullptr; std::vector<Stmt> out; if (st.term || st.hide || !st.labels.empty()) { Stmt x = st; x.block = false; x.kids.clear(); if (!st.term) return nullptr; out.push_back(x); }
        for (auto &k : st.kids) { Stmt n = k; n.seq.insert(n.seq.begin(), st.seq.begin(), st.seq.end()); out.push_back(n); } if (out.empty()) return nullptr;
        l.erase(l.begin() + (long)i); l.insert(l.begin() + (long)i, out.begin(), out.end()); return "block flattened"; }
    case 5: { /* introduce a block */
        if (st.seq.size() < 2) return nullptr; size_t k = 1 + c.below((uint32_t)st.seq.size() - 1); Stmt x, y = st; x.seq.assign(st.seq.begin(), st.seq.begin() + (long)k); y.seq.assign(st.seq.begin() + (long)k, st.seq.end()); x.term = false; x.block = true; x.kids = {y}; l[i] = x; return "block introduced"; }
    case 6: { Stmt n = st; if (n.term) n.cbs.clear(); l.insert(l.begin() + (long)i + c.below(2), n); return "statement repeated"; }
    case 7: { if (i + 1 >= l.size()) return nullptr; /* two statements joined as alternatives */ Stmt b = l[i + 1]; if (b.block != st.block || b.sets != st.sets || b.term != st.term || b.hide != st.hide || b.labels != st.labels || cb_strings(b.cbs) != cb_strings(st.cbs)) return nullptr; for (auto *q : {&st, &b}) for (auto &e : q->seq) if (e.k == Item::ELEM && e.e.k == Elem::REF) return nullptr; if (st.block && (st.kids.size() != b.kids.size() || !st.kids.empty())) return nullptr; Item g; g.k = Item::GROUP; g.alts = {st.seq, b.seq}; l[i].seq = {g}; l.erase(l.begin() + (long)i + 1); return "statements joined"; }
    }
    return nullptr;
}
static void wellformed(Case &c, parse_tree *pt, const std::string &where) {
    cg_obj *prev = nullptr;
    for (int i = 0; i < pt_len_get(pt); i++) {
        cg_obj *co = pt_vec_i_get(pt, i);
        CHECK(c, co, "sorted", "no object at position %d in %s", i, where.c_str());
        if (prev) { int d = co_eq(prev, co); CHECK(c, d < 0, "sorted", "siblings '%s' and '%s' of %s compare %d", prev->co_command ? prev->co_command : "(end)", co->co_command ? co->co_command : "(end)", where.c_str(), d); CHECK(c, co_eq(co, prev) > 0, "sorted", "siblings '%s' and '%s' of %s are not compared the other way round", prev->co_command ? prev->co_command : "(end)", co->co_command ? co->co_command : "(end)", where.c_str()); }
        prev = co; if (co_pt_get(co)) wellformed(c, co_pt_get(co), where + " " + (co->co_command ? co->co_command : ""));
    }
}
/* what the text says against what is in the tree: which alternatives there are at every level */
static std::string join_sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += x + " "; return s; }
static std::string shape(const Node *n, const std::vector<VarDef> &vs) {
    std::vector<std::string> v; if (n->term) v.push_back("; ");
    for (auto &k : n->kids) {
        std::string s = k->k == Elem::CMD ? k->name : "@" + k->name; if (k->k == Elem::VAR) { const VarDef &d = vs[k->var]; s = std::string("<") + cv_type2str(d.t); bool plain = d.expand.empty() && d.choice.empty(); if (!d.expand.empty()) s += " " + d.expand; else if (!d.choice.empty()) { s += " choice"; for (auto &x : d.choice) s += ":" + x; } if (plain) s += sprintf_(" %zu", d.ranges.size()); if (plain) for (auto &p : d.pats) s += sprintf_(" %s", p.second ? "!" : "+"); if (d.t == CGV_DEC64) s += sprintf_(" n%d", d.n); s += ">"; }
        v.push_back(s + "{" + shape(k.get(), vs) + "}"); }
    return join_sorted(v);
}
static std::string shape(parse_tree *pt) {
    std::vector<std::string> v;
    for (int i = 0; pt && i < pt_len_get(pt); i++) {
        cg_obj *co = pt_vec_i_get(pt, i); if (!co) continue; if (co->co_type == CO_EMPTY) { v.push_back("; "); continue; }
        std::string s = co->co_type == CO_COMMAND ? co->co_command : "@" + std::string(co->co_command ? co->co_command : ""); if (co->co_type == CO_VARIABLE) { s = std::string("<") + cv_type2str(co->co_vtype); bool plain = !co->co_expand_fn_str && !co->co_choice; if (co->co_expand_fn_str) s += std::string(" ") + co->co_expand_fn_str; else if (co->co_choice) { s += std::string(" choice:") + co->co_choice; for (char &ch : s) if (ch == '|') ch = ':'; } if (plain) s += sprintf_(" %d", co->co_rangelen); if (plain) for (int k = 0; k < cvec_len(co->co_regex); k++) { const char *t = cv_string_get(cvec_i(co->co_regex, k)); (void)t; s += cv_flag(cvec_i(co->co_regex, k), V_INVERT) ? " !" : " +"; } if (co->co_vtype == CGV_DEC64) s += sprintf_(" n%d", co->co_dec64_n); s += ">"; }
        v.push_back(s + "{" + shape(co_pt_get(co)) + "}"); }
    return join_sorted(v);
}
static void unoption(parse_tree *pt) { for (int i = 0; pt && i < pt_len_get(pt); i++) { cg_obj *co = pt_vec_i_get(pt, i); if (co) { co->co_flags &= ~CO_FLAGS_OPTION; unoption(co_pt_get(co)); } } }   /* the mark "written as an option", used by printing only */
static std::string tree_dump(Real &r, const std::string &t) { unoption(r.pt(t)); return pt_dump(r.pt(t)); }
static bool typable(const std::string &l) { for (char ch : l) if ((unsigned char)ch < 32 || (unsigned char)ch >= 127 || ch == '?' || ch == '\\') return false; return true; }
void vf_case(Case &c) {
    term_reset(); Spec s; GenOpt o; o.alltypes = c.flip(); o.nvars = c.below(6); o.cbs = c.chance(70); o.manycbs = c.flip(); o.sets = c.chance(30); o.help = c.chance(40); o.hide = c.chance(30); o.labels = c.chance(30); o.shows = c.chance(20); o.refs = c.chance(30); o.expand = c.chance(20); o.translate = c.chance(20); o.prefs = c.chance(20); o.depth = 2 + c.below(2); if (c.flip()) o.names = {"a", "b", "ab", "abc", "B"};
    gen_vars(c, s, o); int nt = o.refs ? 2 : 1; static const std::vector<std::string> TN = {"T", "A"};
    for (int i = 0; i < nt; i++) { if (o.refs) { o.reftrees = TN; o.topreftrees = i == 0 ? std::vector<std::string>{"A"} : std::vector<std::string>{}; } TreeText t; t.name = TN[i]; t.stmts = gen_stmts(c, s, o, o.depth, true); s.texts.push_back(t); }
    std::string d0 = denot(s); if (d0.size() > 200000) return;
    Spec s2 = copy_of(s); int applied = 0; std::string how;
    for (int i = c.below(10); i >= 0; i--) { Spec t = copy_of(s2); const char *w = rewrite(c, t); if (!w) continue; if (denot(t) != d0) { c.label("rewriting changed the meaning"); continue; } s2 = copy_of(t); applied++; c.label(w); how += std::string(w) + "; "; }
    s2.denote(); std::string text = s.render(&c), text2; Real r, r2; CHECK(c, r.load(text) == 0, "spec", "specification refused:\n%s\n%s", text.c_str(), err_out.c_str());
    if (c.chance(30)) { /* in parts */
        std::vector<std::string> parts; { Spec e = copy_of(s2); for (auto &t : e.texts) { TreeText h = t; size_t k = t.stmts.size() > 1 ? 1 + c.below((uint32_t)t.stmts.size() - 1) : 1; h.stmts.resize(std::min(k, h.stmts.size())); t.stmts.erase(t.stmts.begin(), t.stmts.begin() + (long)h.stmts.size()); parts.push_back("treename=\"" + t.name + "\";\n" + e.render_tree(&c, h)); } for (auto &p : parts) text2 += p; CHECK(c, r2.load(text2) == 0, "spec", "specification refused:\n%s\n%s", text2.c_str(), err_out.c_str());
            for (auto &t : e.texts) if (!t.stmts.empty()) { std::string p = e.render_tree(&c, t); text2 += "-- added to tree " + t.name + ":\n" + p; std::vector<char> b(p.begin(), p.end()); b.push_back(0); CHECK(c, clispec_parse_str(r2.h, b.data(), (char *)"more", nullptr, r2.pt(t.name), nullptr) == 0, "spec", "specification refused:\n%s\n%s", p.c_str(), err_out.c_str()); c.label("parsed in parts"); applied++; } }
        for (int i = 0; i < nt; i++) r2.resolve(r2.pt(TN[i]));
    } else { text2 = s2.render(&c); CHECK(c, r2.load(text2) == 0, "spec", "specification refused:\n%s\n%s", text2.c_str(), err_out.c_str()); }
    c.note("%s\n-- rewritten (%s):\n%s", text.c_str(), how.c_str(), text2.c_str());
    for (int i = 0; i < nt; i++) {
        std::string a = tree_dump(r, TN[i]), b = tree_dump(r2, TN[i]);
        CHECK(c, a == b, "tree", "tree %s parsed from\n%s\nis:\n%s\nparsed from (%s)\n%s\nit is:\n%s", TN[i].c_str(), text.c_str(), a.c_str(), how.c_str(), text2.c_str(), b.c_str());
        std::string w = shape(&s.trees[TN[i]]->root, s.vars), g = shape(r.pt(TN[i])); CHECK(c, g == w, "alternatives", "tree %s parsed from\n%s\nhas\n%s\nthe text says\n%s", TN[i].c_str(), text.c_str(), g.c_str(), w.c_str());
        wellformed(c, r.pt(TN[i]), TN[i]); wellformed(c, r2.pt(TN[i]), TN[i]);
    }
    Matcher m(s); std::string prompt = "%~> "; for (auto *q : {&r, &r2}) { cligen_prompt_set(q->h, (char *)prompt.c_str()); cligen_terminal_width_set(q->h, 80); }
    for (int n = c.below(4); n > 0; n--) {
        std::string tree = TN[c.below(nt)], line = gen_line(c, m, tree), got[2]; bool typ = typable(line) && c.flip(); std::string part = line.substr(0, c.below((uint32_t)line.size() + 1)) + (c.flip() ? " " : ""); bool tab = c.flip();
        for (int k = 0; k < 2; k++) {
            Real &q = k ? r2 : r; REAL = &q; q.calls.clear(); Got g; real_match(q, tree, line, g); got[k] = sprintf_("result %d %d '%s' %s\n", g.rc, g.res, g.reason.c_str(), show_binds(g.binds).c_str()); if (g.res == CG_MATCH) cligen_eval(q.h, g.co, g.cvv); for (auto &x : q.calls) got[k] += x + "\n";
            if (typ) { q.active(tree); std::vector<Step> st = {{part}, {tab ? "\t" : "?"}}; type_keys(q, st); got[k] += (tab ? "TAB" : "help") + std::string(" at '") + part + "' shows " + hook_output(st[1].out, prompt) + " line " + st[1].buf + "\n"; }
        }
        CHECK(c, got[0] == got[1], "behaviour", "line '%s' in %s:\n%s\nin the rewritten specification:\n%s", line.c_str(), tree.c_str(), got[0].c_str(), got[1].c_str());
    }
    if (applied >= 2) c.nontrivial(text + "\n" + text2);
}
