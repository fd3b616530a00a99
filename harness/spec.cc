#include "spec.h"
namespace vf {
static bool blank(char ch) { return ch == ' ' || ch == '\t'; }
std::vector<W> split_line(const std::string &s) {
    std::vector<W> r; size_t i = 0;
    while (true) {
        size_t j = i; while (j < s.size() && blank(s[j])) j++;
        if (j == s.size()) { if (j > i || r.empty()) r.push_back({"", ""}); return r; }
        W w; w.rest = s.substr(j);
        if (s[j] == '"') { size_t k = s.find('"', j + 1); if (k == std::string::npos) { w.w = s.substr(j); r.push_back(w); return r; } w.w = s.substr(j + 1, k - j - 1); i = k + 1; }
        else { size_t k = j; while (k < s.size() && !blank(s[k])) { if (s[k] == '\\' && k + 1 < s.size()) k++; k++; } w.w = s.substr(j, k - j); i = k; }
        r.push_back(w);
    }
}
/* Only for lines without newlines or control characters: surrounding blanks go, runs of blanks between words become one, a comment starting a word ends the line. */
std::string trim_line(const std::string &s, char comment) {
    std::string o; size_t i = 0; bool first = true;
    while (true) {
        while (i < s.size() && blank(s[i])) i++;
        if (i == s.size() || s[i] == comment) return o;
        size_t k = i;
        if (s[i] == '"') { size_t e = s.find('"', i + 1); k = e == std::string::npos ? s.size() : e + 1; }
        while (k < s.size() && !blank(s[k])) { if (s[k] == '\\' && k + 1 < s.size()) k++; k++; }
        if (!first) o += ' ';
        first = false; o += s.substr(i, k - i); i = k;
    }
}
static bool all(const std::string &s, bool (*g)(char)) { for (char c : s) if (!g(c)) return false; return true; }
static bool low(char c) { return c >= 'a' && c <= 'z'; } static bool dig(char c) { return c >= '0' && c <= '9'; }
const std::vector<Pat> PATS = {
    {"[a-z]+", [](const std::string &s) { return !s.empty() && all(s, low); }}, {"[0-9]+", [](const std::string &s) { return !s.empty() && all(s, dig); }},
    {"a.*", [](const std::string &s) { return !s.empty() && s[0] == 'a'; }}, {".*z", [](const std::string &s) { return !s.empty() && s.back() == 'z'; }},
    {"a|b|abc", [](const std::string &s) { return s == "a" || s == "b" || s == "abc"; }}, {"...*", [](const std::string &s) { return s.size() >= 2; }},
};
static std::string scaled(i128 v, int n) { bool ng = v < 0; std::string a = i128s(ng ? -v : v); while ((int)a.size() <= n) a = "0" + a; a.insert(a.size() - n, "."); return (ng ? "-" : "") + a; }
static std::string bound(const VarDef &d, i128 v) { return d.t == CGV_DEC64 ? scaled(v, d.n) : i128s(v); }
std::string VarDef::key() const {
    std::string k = std::string(tname(t));
    if (!expand.empty()) { k += " E" + expand; for (auto &x : eargs) k += "(" + x; return k; }
    if (!choice.empty()) { k += " C"; for (auto &x : choice) k += x + "|"; return k; }
    for (auto &p : pats) k += sprintf_(" P%d%s", p.first, p.second ? "!" : "");
    if (t == CGV_DEC64) k += sprintf_(" n%d", n);
    for (auto &r : ranges) k += " R" + (r.one ? std::string("-") : i128s(r.lo)) + ":" + i128s(r.hi);
    return k;
}
std::string VarDef::render() const {
    std::string s = "<" + name + ":" + cv_type2str(t);
    if (fdset) s += " fraction-digits:" + std::to_string(n);
    for (auto &r : ranges) s += std::string(isstr() ? " length[" : " range[") + (r.one ? "" : bound(*this, r.lo) + ":") + bound(*this, r.hi) + "]";
    for (auto &p : pats) s += std::string(" regexp:") + (p.second ? "!" : "") + "\"" + PATS[p.first].re + "\"";
    if (!expand.empty()) { s += " " + expand + "("; for (size_t i = 0; i < eargs.size(); i++) s += (i ? "," : "") + std::string("\"") + eargs[i] + "\""; s += ")"; }
    if (!translate.empty()) s += " translate:" + translate + "()";
    if (pref) s += " preference:" + std::to_string(pref);
    if (!show.empty()) s += " show:\"" + show + "\"";
    if (!choice.empty()) { s += " choice:"; for (size_t i = 0; i < choice.size(); i++) s += (i ? "|" : "") + choice[i]; }
    return s + ">";
}
int VarDef::defpref() const {
    if (pref) return pref;
    bool r = !ranges.empty();
    switch (t) {
    case CGV_INT8: return r ? 60 : 52; case CGV_UINT8: return r ? 59 : 51; case CGV_INT16: return r ? 58 : 50; case CGV_UINT16: return r ? 57 : 49; case CGV_INT32: return r ? 56 : 48; case CGV_UINT32: return r ? 55 : 47; case CGV_INT64: return r ? 54 : 46; case CGV_UINT64: return r ? 53 : 45;
    case CGV_DEC64: return 62; case CGV_BOOL: return 12; case CGV_REST: return 1; case CGV_STRING: return !expand.empty() ? 8 : !pats.empty() ? 7 : 5; case CGV_INTERFACE: return 10;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: return 70; case CGV_IPV6ADDR: case CGV_IPV6PFX: return 71; case CGV_MACADDR: return 72; case CGV_URL: return 20; case CGV_UUID: return 73; case CGV_TIME: return 74;
    default: return 0; }
}
int VarDef::accepts(const std::string &w, Val &v) const {
    int ok = ref_parse(t, n, w, v); if (ok <= 0) return ok < 0 ? -1 : 0;
    if (!ranges.empty()) { i128 x = isstr() ? (i128)v.s.size() : t == CGV_DEC64 || is_signed(t) ? (i128)v.i : (i128)v.u; bool in = false, un = false; for (auto &r : ranges) { if (x >= (r.one ? 0 : r.lo) && x <= r.hi) in = true; if (r.one && !isstr() && x < 0 && x <= r.hi) un = true; } if (un && !in) return -1; if (!in) return 0; }
    for (auto &p : pats) if (PATS[p.first].f(v.s) == p.second) return 0;
    return 1;
}
/* ---- denotation ---- */
Node *Node::find(Elem::K k_, const std::string &nm, int v, const std::vector<VarDef> &vs) const {
    for (auto &k : kids) if (k->k == k_ && (k_ == Elem::VAR ? vs[k->var].key() == vs[v].key() : k->name == nm)) return k.get();
    return nullptr;
}
Node *Node::child(Elem::K k_, const std::string &nm, int v, const std::vector<VarDef> &vs) {
    if (Node *f = find(k_, nm, v, vs)) return f;
    kids.emplace_back(new Node); Node *n = kids.back().get(); n->k = k_; n->name = nm; n->var = v; n->up = this; return n;
}
static void uniq(std::vector<Node *> &l) { std::vector<Node *> o; for (auto n : l) if (std::find(o.begin(), o.end(), n) == o.end()) o.push_back(n); l = o; }
static void run_seq(std::vector<Node *> &l, const std::vector<Item> &seq, const std::vector<VarDef> &vs) {
    for (auto &it : seq) {
        if (it.k == Item::ELEM) {
            std::vector<Node *> o; for (auto n : l) o.push_back(n->child(it.e.k, it.e.name, it.e.var, vs));
            uniq(o); l = o;
            if (it.e.hashelp) { std::string h; for (size_t i = 0; i < it.e.help.size(); i++) h += (i ? "\n" : "") + it.e.help[i]; for (auto n : l) if (!n->hashelp) { n->help = h; n->hashelp = true; } }
        } else {
            std::vector<Node *> start = l, sum;
            for (auto &a : it.alts) { std::vector<Node *> cur = start; run_seq(cur, a, vs); sum.insert(sum.end(), cur.begin(), cur.end()); }
            if (it.k == Item::OPT) sum.insert(sum.begin(), start.begin(), start.end());
            uniq(sum); l = sum;
        }
    }
}
static void run_stmts(const std::vector<Node *> &l0, const std::vector<Stmt> &ss, const std::vector<VarDef> &vs) {
    for (auto &s : ss) {
        std::vector<Node *> l = l0; run_seq(l, s.seq, vs);
        for (auto n : l) {
            if (s.hide) n->hide = true;
            if (s.hide || !s.labels.empty()) n->labels = s.labels;
            if (s.term) { n->term = true; n->cbs.insert(n->cbs.end(), s.cbs.begin(), s.cbs.end()); }
            if (s.block && s.sets) n->sets = true;
        }
        if (s.block) run_stmts(l, s.kids, vs);
    }
}
void denote_into(Node *root, const std::vector<Stmt> &ss, const std::vector<VarDef> &vs) { run_stmts({root}, ss, vs); }
void Spec::denote() {
    trees.clear();
    for (auto &t : texts) { auto &p = trees[t.name]; if (!p) { p.reset(new Tree); p->name = t.name; } p->pipedef = t.pipetree; denote_into(&p->root, t.stmts, vars); }
}
std::string node_dump(const Node *n, const std::vector<VarDef> &vs, int ind) {
    std::string s;
    for (auto &k : n->kids) {
        s += std::string(ind, ' ') + (k->k == Elem::REF ? "@" + k->name : k->k == Elem::VAR ? vs[k->var].render() : k->name) + (k->term ? ";" : "") + (k->sets ? " sets" : "") + (k->hide ? " hide" : "") + (k->hashelp ? " (\"" + esc(k->help) + "\")" : "");
        for (auto &l : k->labels) s += " #" + l; for (auto &c : cb_strings(k->cbs)) s += " " + c;
        s += "\n" + node_dump(k.get(), vs, ind + 2);
    }
    return s;
}
/* ---- rendering ---- */
struct Rend {
    Case *c; const std::vector<VarDef> &vs; std::string o; 
    void gap(bool need) {
        if (!c) { if (need) o += ' '; return; }
        int k = c->weighted({70, 10, 6, 6, 4, 4});
        if (k == 0) { if (need || c->flip()) o += ' '; } else if (k == 1) { if (need) o += "  "; } else if (k == 2) o += "\n"; else if (k == 3) o += "\t "; else if (k == 4) o += " # comment; {\"x\n"; else o += "\r\n ";
        if (need && !o.empty() && !isspace((unsigned char)o.back())) o += ' ';
    }
    void tok(const std::string &t) { bool need = !o.empty() && !strchr(" \n\t;{}[](|,)", o.back()) && !strchr(";{}[]|,)", t[0]); if (o.size() && o.back() == '@') need = false; gap(need); o += t; }
    void elem(const Elem &e) {
        if (e.k == Elem::CMD) tok(e.name); else if (e.k == Elem::VAR) tok(vs[e.var].render()); else tok("@" + e.name);
        if (e.hashelp) { if (c && c->chance(20)) o += ' '; o += "(\""; for (size_t i = 0; i < e.help.size(); i++) { if (i) { o += "\n"; if (c && c->flip()) o += "   "; } o += e.help[i]; } o += "\")"; }
    }
    std::string quoted(const std::string &a) { bool id = c != nullptr; for (char ch : a) if (!isalnum((unsigned char)ch)) id = false; return id && c->chance(30) ? a : "\"" + a + "\""; }
    void seq(const std::vector<Item> &s) {
        for (auto &it : s) if (it.k == Item::ELEM) elem(it.e); else { bool g = it.k == Item::GROUP; tok(g ? "(" : "["); for (size_t i = 0; i < it.alts.size(); i++) { if (i) tok("|"); seq(it.alts[i]); } tok(g ? ")" : "]"); }
    }
    void stmts(const std::vector<Stmt> &ss, int ind) {
        for (auto &s : ss) {
            if (!c) o += std::string(ind, ' ');
            seq(s.seq); std::vector<std::string> op;
            for (auto &l : s.labels) op.push_back(l); if (s.hide) op.push_back("hide");
            for (auto &b : s.cbs) { std::string t = b.fn + "("; for (size_t i = 0; i < b.args.size(); i++) t += (i ? "," : "") + (b.args[i].first.empty() ? std::string() : "(" + b.args[i].first + ")") + quoted(b.args[i].second); op.push_back(t + ")"); }
            if (c && op.size() > 1 && c->flip()) { size_t k = s.labels.size() + (s.hide ? 1 : 0); if (k && k < op.size()) std::rotate(op.begin(), op.begin() + (long)k, op.end()); }
            for (auto &t : op) { tok(","); tok(t); }
            if (s.term) tok(";");
            if (s.block) { tok(s.sets ? "@{" : "{"); if (!c) o += "\n"; stmts(s.kids, ind + 2); if (!c) o += std::string(ind, ' '); tok("}"); }
            o += c && c->chance(20) ? " " : "\n";
        }
    }
};
std::string Spec::render_tree(Case *c, const TreeText &t) const { Rend r{c, vars, ""}; r.stmts(t.stmts, 0); return r.o; }
std::string Spec::render(Case *c) const { std::string o; for (auto &t : texts) { o += "treename=\"" + t.name + "\";\n"; o += "pipetree=\"" + t.pipetree + "\";\n"; if (t.pipetree.empty()) { size_t p = o.rfind("pipetree"); bool any = false; for (auto &u : texts) any |= !u.pipetree.empty(); if (!any) o.resize(p); } o += render_tree(c, t); } return o; }
/* ---- generation ---- */
const std::vector<std::string> NAMES = {"a", "b", "c", "ab", "abc", "abd", "bc", "s", "sh", "show", "shell", "set", "no", "x1", "x10", "x2", "Ab", "long-name.1", "ip", "a:b"};
static const std::vector<std::vector<std::string>> CHOICES = {{"up", "upper", "down", "u2"}, {"red", "redish", "green", "r.g"}, {"101", "10", "1010", "2"}, {"on-1", "off-1", "off"}, {"a-rather-long-word-to-choose", "a-rather-long-word-to-choose-or-not", "extremely-long-word-which-fills-the-line-of-a-terminal-almost-to-its-end"}};
static std::string longname(Case &c) { return c.pickc({"l", "a", "no"}) + std::string((size_t)(c.flip() ? 12 + c.below(12) : c.below(80)), 'o') + c.pickc({"", "x", "y"}); }
std::string gen_choice_word(Case &c) { return c.pick(c.pick(CHOICES)); }
Cb gen_cb(Case &c) {
    Cb b; b.fn = "cb" + std::to_string(c.below(5)); int n = c.weighted({4, 3, 2, 1});
    for (int i = 0; i < n; i++) { if (c.chance(25)) { static const std::vector<std::pair<std::string, std::string>> TA = {{"int32", "-5"}, {"int32", "42"}, {"uint8", "200"}, {"int64", "-9000000000"}, {"bool", "true"}, {"ipv4addr", "1.2.3.4"}, {"uint16", "65535"}, {"macaddr", "00:11:22:33:44:55"}}; b.args.push_back(c.pick(TA)); } else b.args.push_back({"", c.str("abz 019,;()|@{}#=<>.", 1, 8)}); }
    return b;
}
static void gen_ranges(Case &c, VarDef &d, int k) {
    for (int i = 0; i < k; i++) {
        Rng r; r.one = c.chance(25);
        if (d.isstr()) { r.lo = r.one ? 0 : c.below(6); r.hi = r.lo + c.below(5); }
        else { bool dec = d.t == CGV_DEC64; i128 mn = dec ? type_min(CGV_INT64) : type_min(d.t), mx = dec ? type_max(CGV_INT64) : type_max(d.t); auto g = [&]() -> i128 { i128 v; switch (c.below(4)) { case 0: v = c.below(30); break; case 1: v = (i128)c.below(300) - 60; break; case 2: v = mx - c.below(2); break; default: v = mn + c.below(2); } return v < mn ? mn : v > mx ? mx : v; }; r.lo = g(); r.hi = g(); if (r.hi < r.lo) std::swap(r.lo, r.hi); if (r.one) { r.lo = 0; if (r.hi < 0) r.hi = 7; } }
        d.ranges.push_back(r);
    }
}
/* one attribute of d changed: almost the same alternative */
static void vary(Case &c, VarDef &d, const GenOpt &o) {
    if (!d.expand.empty()) { if (d.eargs.empty() || c.flip()) d.eargs.push_back(c.str("abx 1./", 1, 4)); else d.eargs.pop_back(); return; }
    if (d.isstr() && c.flip()) {
        if (d.pats.empty() || c.chance(40)) d.pats.insert(d.pats.begin() + (c.flip() ? 0 : (long)d.pats.size()), {(int)c.below((uint32_t)PATS.size()), c.chance(25)});
        else if (c.flip()) d.pats.pop_back(); else { auto &p = d.pats[c.below((uint32_t)d.pats.size())]; if (c.flip()) p.second = !p.second; else p.first = (int)c.below((uint32_t)PATS.size()); }
    } else if (d.t == CGV_DEC64 && c.chance(30)) { d.fdset = true; d.n = 1 + c.below(6); }
    else if (d.ranges.empty()) { if (is_signed(d.t) || is_unsigned(d.t) || d.t == CGV_DEC64 || d.isstr()) gen_ranges(c, d, 1); }
    else switch (c.below(4)) {
        case 0: gen_ranges(c, d, 1); break;
        case 1: d.ranges.pop_back(); break;
        case 2: { auto &r = d.ranges[c.below((uint32_t)d.ranges.size())]; if (r.hi > r.lo + 1 && !(r.one && r.hi < 2)) r.hi--; break; }
        case 3: { auto &r = d.ranges[c.below((uint32_t)d.ranges.size())]; if (!r.one && r.hi > r.lo) r.lo++; break; }
    }
    if (c.chance(15) && o.prefs) d.pref = 40 + c.below(3);
}
void gen_vars(Case &c, Spec &s, const GenOpt &o) {
    static const std::vector<enum cv_type> common = {CGV_STRING, CGV_INT32, CGV_STRING, CGV_UINT8, CGV_INT8, CGV_UINT32, CGV_INT64, CGV_IPV4ADDR, CGV_BOOL, CGV_DEC64, CGV_REST, CGV_MACADDR, CGV_UINT16, CGV_INT16, CGV_UINT64, CGV_IPV6ADDR, CGV_IPV4PFX, CGV_IPV6PFX, CGV_UUID, CGV_URL, CGV_TIME, CGV_INTERFACE};
    int nch = 0; uint32_t choff = c.below((uint32_t)CHOICES.size());
    for (int i = 0, tries = 0; i < o.nvars && tries < 40; tries++) {
        VarDef d; d.name = c.chance(12) ? NAMES[c.below((uint32_t)NAMES.size() - 1)] : c.chance(3) ? longname(c) + std::to_string(i) : "v" + std::to_string(i);
        d.t = !o.types.empty() ? c.pick(o.types) : common[c.below(o.alltypes ? (uint32_t)common.size() : 10)];
        if (d.t == CGV_REST && !o.rest) continue;
        if (d.t == CGV_STRING && o.choices && c.chance(30) && nch < (int)CHOICES.size()) { auto &p = CHOICES[((uint32_t)nch++ + choff) % CHOICES.size()]; int k = 1 + c.below((uint32_t)p.size()); for (int j = 0; j < k; j++) d.choice.push_back(p[j]); if (c.flip()) std::reverse(d.choice.begin(), d.choice.end()); }
        else if (d.t == CGV_STRING && o.expand && c.chance(60)) { d.expand = "exp" + std::to_string(c.below(4)); if (c.flip()) { int k = 1 + c.below(2); while (k--) d.eargs.push_back(c.str("abx 1./", 1, 4)); } }
        else if (o.ranges && c.chance(40)) {
            if (d.t == CGV_DEC64) { if (c.flip()) { d.fdset = true; d.n = 1 + c.below(6); } }
            if (is_signed(d.t) || is_unsigned(d.t) || d.t == CGV_DEC64 || d.isstr()) gen_ranges(c, d, c.weighted({3, 3, 1}));
            if (d.isstr() && c.flip()) for (int k = 1 + c.below(2); k > 0; k--) d.pats.push_back({(int)c.below((uint32_t)PATS.size()), c.chance(25)});
        }
        if (o.ranges && !s.vars.empty() && c.chance(20)) { const VarDef &v = c.pick(s.vars); if (v.choice.empty() && d.choice.empty()) { std::string nm = d.name; d = v; d.name = nm; vary(c, d, o); } }
        if (o.translate && d.t == CGV_STRING && c.chance(30)) d.translate = "tr" + std::to_string(c.below(2));
        if (o.prefs && c.chance(35)) d.pref = c.chance(50) ? 1 + c.below(100) : 40 + c.below(3);
        if (o.shows && c.chance(30)) d.show = c.pickc({"NAME", "a b", "x-1", "v0", "a.very.long.show.name", "a.much.longer.show.name.which.does.not.fit.on.any.line.at.all.0123456789"});
        bool dup = false; for (auto &e : s.vars) if (e.key() == d.key()) dup = true;
        if (dup) continue;
        s.vars.push_back(d); i++;
    }
}
struct Gen {
    Case &c; const Spec &s; const GenOpt &o;
    std::string helptext() { return c.str("abc XYZ.,:;()#<>|@{}=-", 1, o.longhelp && c.flip() ? c.chance(20) ? 400 : 90 : 12); }
    Elem elem(bool &rest, bool okvar) {
        Elem e; rest = false;
        if (o.vars && okvar && !s.vars.empty() && c.chance(40)) { e.k = Elem::VAR; e.var = c.below((uint32_t)s.vars.size()); rest = s.vars[e.var].t == CGV_REST; }
        else if (o.names.empty() && c.chance(3)) e.name = longname(c);
        else { auto &N = o.names.empty() ? NAMES : o.names; e.name = c.chance(60) ? N[c.below(std::min<uint32_t>(6, (uint32_t)N.size()))] : c.pick(N); }
        if (o.help && c.chance(30)) { e.hashelp = true; int k = o.multihelp ? 1 + c.weighted({6, 2, 1}) : 1; while (k--) { std::string t = helptext(); while (!t.empty() && blank(t[0])) t.erase(0, 1); while (!t.empty() && blank(t.back())) t.pop_back(); e.help.push_back(t.empty() ? "h" : t); } }
        return e;
    }
    std::vector<Item> seq(int max, int depth, bool &rest, bool okvar, long &mult) {   /* mult: nodes the sequence is attached to */
        std::vector<Item> r; int n = 1 + c.small(max - 1); rest = false;
        for (int i = 0; i < n && !rest; i++) {
            Item it; int k = depth > 0 && mult < 16 ? c.weighted({10, o.groups ? 2 : 0, o.options && (i > 0 || depth < 2) ? 2 : 0}) : 0;
            if (k == 0) { it.e = elem(rest, okvar); okvar = true; }
            else { it.k = k == 1 ? Item::GROUP : Item::OPT; int m = 1 + c.weighted({3, 4, 2}); long sum = k == 2 ? mult : 0; for (int j = 0; j < m; j++) { bool rr = false; long mm = mult; it.alts.push_back(seq(2, depth - 1, rr, okvar, mm)); sum += mm; rest |= rr; } mult = sum; }
            r.push_back(it);
        }
        return r;
    }
    std::vector<Stmt> stmts(int depth, bool top, long mult0 = 1, bool eaten = false) {
        std::vector<Stmt> r; int n = 1 + c.small(o.width);
        for (int i = 0; i < n; i++) {
            Stmt st; bool rest = false;
            auto refitem = [&](const std::vector<std::string> &names) { Item it; it.e.k = Elem::REF; it.e.name = c.pick(names); st.seq.push_back(it); if (o.cbs && c.chance(50)) st.cbs.push_back(gen_cb(c)); if (o.labels && c.chance(40)) st.labels.push_back(std::string("@remove:") + c.pickc({"l1", "l2", "l3"})); r.push_back(st); };
            auto &names = eaten ? o.reftrees : o.topreftrees; if (o.refs && !names.empty() && c.chance(30)) { refitem(names); continue; }
            long mult = mult0; st.seq = seq(o.seqlen, 2, rest, !top || !o.expand || c.chance(30), mult); bool eats = eaten; for (auto &it : st.seq) if (it.k == Item::ELEM) eats = true;
            auto &after = eats ? o.reftrees : o.topreftrees; if (o.refs && !rest && !after.empty() && c.chance(25)) { refitem(after); continue; }
            if (depth > 0 && o.blocks && !rest && c.chance(o.denseset ? 70 : 45)) { st.block = true; st.term = c.flip() || !o.nonterm; st.sets = o.sets && c.chance(o.denseset ? 90 : 60); st.kids = stmts(depth - 1, false, mult, eats); }
            if (st.term && o.cbs) { int k = c.weighted({3, 5, o.manycbs ? 1 : 0}); while (k--) st.cbs.push_back(gen_cb(c)); }
            if (o.labels) for (const char *l : {"l1", "l2", "l3"}) if (c.chance(20)) st.labels.push_back(l);
            if (o.hide && c.chance(20)) st.hide = true;
            r.push_back(st);
        }
        return r;
    }
};
std::vector<Stmt> gen_stmts(Case &c, const Spec &s, const GenOpt &o, int depth, bool top) { Gen g{c, s, o}; return g.stmts(depth, top); }
/* ---- reference matcher ---- */
std::function<std::vector<std::pair<std::string, std::string>>(const std::string &, const std::vector<std::string> &)> expand_table = [](const std::string &fn, const std::vector<std::string> &args) {
    /* default table: a few words that depend on the function and its arguments, some with help text */
    uint64_t h = 1469598103934665603ull; for (char ch : fn) h = (h ^ (unsigned char)ch) * 1099511628211ull; for (auto &a : args) for (char ch : a) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    static const char *W[] = {"alpha", "beta", "be", "a", "x y", "gamma", "42", "b-c", "al", "delta"};
    std::vector<std::pair<std::string, std::string>> v; int n = (h >> 20) % 5; for (int i = 0; i < n; i++) { std::string w = W[(h >> (8 * i + 24)) % 10]; bool dup = false; for (auto &x : v) if (x.first == w) dup = true; if (!dup) v.push_back({w, (h >> (i + 10)) & 1 ? "help of " + w : "\1"}); } return v; };
std::string Alt::plain() const { if (text.size() > 1 && text[0] == '"' && text.back() == '"') return text.substr(1, text.size() - 2); return text; }
bool Matcher::fits(const Alt &a, const W &w, bool best, bool *exact, int *un) const {
    *exact = false;
    if (a.cmd) {
        std::string t = a.text; if (best && !t.empty() && t[0] == '"') t = t.substr(1);
        std::string p = w.w; if (p.size() > t.size()) return false;
        *exact = p.size() == t.size();
        for (size_t i = 0; i < p.size(); i++) if (caseignore ? tolower((unsigned char)p[i]) != tolower((unsigned char)t[i]) : p[i] != t[i]) return false;
        return true;
    }
    const VarDef &d = s.vars[a.var]; std::string tok = d.t == CGV_REST ? w.rest : w.w;
    if (tok.empty() && !best) return true;
    Val v; int r = d.accepts(tok, v); if (r < 0) { *un = 1; return false; }
    return r == 1;
}
static std::set<std::string> filters_of(const Node *n) { std::set<std::string> f; for (auto &l : n->labels) if (l.compare(0, 8, "@remove:") == 0) f.insert(l.substr(8)); return f; }
static bool filtered(const Node *n, const std::set<std::string> &f) { for (auto &l : n->labels) if (f.count(l)) return true; return false; }
void Matcher::collect(const Node *root, const std::set<std::string> &filter, const Node *ref, std::vector<Src> &out, std::vector<const Node *> chain) const {
    for (auto x : chain) if (x == root) return;   /* inside itself: adds nothing */
    chain.push_back(root);
    for (auto &k : root->kids) {
        if (k->k == Elem::REF) { Tree *t = reftree(k->name); if (!t) continue; auto f = filter; for (auto &x : filters_of(k.get())) f.insert(x); size_t from = out.size(); collect(t->top(), f, ref->cbs.empty() ? k.get() : ref, out, chain); if (!ref->cbs.empty() && !k->cbs.empty()) for (; from < out.size(); from++) out[from].unspec = true; }
        else if (!filtered(k.get(), filter)) out.push_back({k.get(), filter, ref->cbs.empty() ? nullptr : ref, true});
    }
}
static int vcmp(const VarDef &a, const VarDef &b) {
    if (a.t != b.t) return a.t < b.t ? -1 : 1;
    std::string pa, pb; size_t n = std::min(a.pats.size(), b.pats.size());
    if (a.pats.empty() != b.pats.empty()) return a.pats.empty() ? -1 : 1;
    for (size_t i = 0; i < n; i++) { int r = strcmp(PATS[a.pats[i].first].re, PATS[b.pats[i].first].re); if (r) return r; if (a.pats[i].second != b.pats[i].second) return a.pats[i].second ? 1 : -1; }
    if (a.pats.size() != b.pats.size()) return a.pats.size() < b.pats.size() ? -1 : 1;
    if (a.t == CGV_DEC64 && a.n != b.n) return a.n < b.n ? -1 : 1;
    if (a.ranges.size() != b.ranges.size()) return a.ranges.size() < b.ranges.size() ? -1 : 1;
    for (size_t i = 0; i < a.ranges.size(); i++) { auto &x = a.ranges[i], &y = b.ranges[i]; if (x.one != y.one) return x.one ? 1 : -1; if (x.lo != y.lo) return x.lo < y.lo ? -1 : 1; if (x.hi != y.hi) return x.hi < y.hi ? -1 : 1; }
    return 0;
}
/* the order in which alternatives are kept: commands, variables by type, expansion function, choice, constraints */
static std::string choice_text(const VarDef &d) { std::string t; for (auto &x : d.choice) t += (t.empty() ? "" : "|") + x; return t; }
static int ecmp(const std::string &a, const std::string &b) { if (a.empty() != b.empty()) return a.empty() ? -1 : 1; return strcmp(a.c_str(), b.c_str()); }
static int kcmp(const VarDef &a, const VarDef &b) {
    if (a.t != b.t) return a.t < b.t ? -1 : 1;
    if (!a.expand.empty() || !b.expand.empty()) { int r = ecmp(a.expand, b.expand); if (r) return r; if (a.eargs.size() != b.eargs.size()) return a.eargs.size() < b.eargs.size() ? -1 : 1; for (size_t i = 0; i < a.eargs.size(); i++) { r = strcmp(a.eargs[i].c_str(), b.eargs[i].c_str()); if (r) return r; } return 0; }
    if (!a.choice.empty() || !b.choice.empty()) return ecmp(choice_text(a), choice_text(b));
    return vcmp(a, b);
}
std::vector<Alt> Matcher::alts(const std::vector<Src> &from, bool hide, bool expandvar) const {
    std::vector<Alt> r;
    auto helps = [&](const Alt &a, const Alt &b) { if ((a.src[0].via || b.src[0].via) && (a.hashelp != b.hashelp || a.help != b.help || a.src[0].filter != b.src[0].filter)) mixed = true; };   /* which help text a keyword from several trees has */
    auto add = [&](const Alt &a) {
        for (auto &b : r) if (a.cmd == b.cmd && a.cmd && a.text == b.text) { helps(a, b); b.src.insert(b.src.end(), a.src.begin(), a.src.end()); return; }
        for (auto &b : r) if (!a.cmd && !b.cmd && s.vars[a.var].key() == s.vars[b.var].key()) { helps(a, b); b.src.insert(b.src.end(), a.src.begin(), a.src.end()); return; }
        r.push_back(a); };
    std::map<std::string, bool> hid;
    auto node = [&](const Src &x) {
        { auto h = hid.emplace(x.n->k == Elem::CMD ? x.n->name : "<" + s.vars[x.n->var].key(), x.n->hide); if (h.first->second != x.n->hide) mixed = true; }
        if (hide && x.n->hide) return;
        Alt a; a.src = {x}; a.help = x.n->help; a.hashelp = x.n->hashelp; a.hide = x.n->hide;
        if (x.n->k == Elem::CMD) { a.text = x.n->name; add(a); return; }
        const VarDef &d = s.vars[x.n->var]; a.var = x.n->var;
        if (!d.choice.empty()) { a.derived = true; for (auto &w : d.choice) { a.text = w; add(a); } return; }
        if (!d.expand.empty()) { if (!expandvar) return; a.derived = true; for (auto &p : expand_table(d.expand, d.eargs)) { Alt b = a; b.text = p.first; if (p.second != "\1") { b.help = p.second; b.hashelp = true; } add(b); } return; }
        a.cmd = false; a.text = d.name; add(a); };
    std::vector<Src> own; for (auto &f : from) for (auto &k : f.n->kids) if (k->k != Elem::REF && !filtered(k.get(), f.filter)) own.push_back({k.get(), f.filter, f.ref, f.via, f.unspec, f.nested});
    std::stable_sort(own.begin(), own.end(), [&](const Src &a, const Src &b) { bool ca = a.n->k == Elem::CMD, cb = b.n->k == Elem::CMD; if (ca != cb) return ca; if (ca) return strcmp(a.n->name.c_str(), b.n->name.c_str()) < 0; return kcmp(s.vars[a.n->var], s.vars[b.n->var]) < 0; });
    for (auto &x : own) node(x);
    std::map<std::string, std::set<std::string>> reff;
    for (auto &f : from) for (auto &k : f.n->kids) if (k->k == Elem::REF) { Tree *t = reftree(k->name); if (!t) continue; auto fl = f.filter; for (auto &x : filters_of(k.get())) fl.insert(x); if (reff.emplace(t->name, fl).first->second != fl) mixedref = true; std::vector<Src> v; collect(t->top(), fl, k.get(), v, {}); for (auto &x : v) { if (f.unspec) x.unspec = true; x.nested = f.nested || (x.ref && f.ref); if (!x.ref) x.ref = f.ref; node(x); } }
    std::stable_sort(r.begin(), r.end(), [&](const Alt &a, const Alt &b) { if (a.cmd != b.cmd) return a.cmd; if (a.cmd) return strcmp(a.text.c_str(), b.text.c_str()) < 0; return vcmp(s.vars[a.var], s.vars[b.var]) < 0; });
    return r;
}
bool Matcher::term(const std::vector<Src> &from) const { for (auto &f : from) if (f.n->term) return true; return false; }
bool Matcher::sets(const std::vector<Src> &from) const { return !from.empty() && from[0].n->sets; }
struct Matcher::Ctx { std::vector<W> toks; bool best; Out &out; };
struct Matcher::R { std::vector<Alt> m; int level = 0; Why why = W_NONE; std::vector<Cb> cbs; };
static std::vector<Cb> merge_cbs(const std::vector<Cb> &local, const Node *ref) {
    if (!ref || ref->cbs.empty()) return local;
    if (local.empty()) return ref->cbs;
    std::vector<Cb> r = local; r[0].fn = ref->cbs[0].fn; r[0].args.insert(r[0].args.end(), ref->cbs[0].args.begin(), ref->cbs[0].args.end()); return r;
}
Matcher::R Matcher::sets_match(Ctx &x, std::vector<Alt> &as, int level) {
    R r; r.level = level; const W &w = x.toks[level]; bool last = level + 1 == (int)x.toks.size(), best = last ? x.best : true;
    std::vector<size_t> m; bool anyvar = false, anyused = false;
    for (size_t i = 0; i < as.size(); i++) {
        bool ex; int un = 0; bool ok = fits(as[i], w, best, &ex, &un); if (un) x.out.unspec = true;
        const VarDef *d = as[i].var >= 0 ? &s.vars[as[i].var] : nullptr;
        as[i].pref = d && d->pref ? d->pref : as[i].cmd ? (ex ? 100 : 3) : d->defpref();
        if (!ok) { if (!as[i].cmd) anyvar = true; continue; }
        if (as[i].used) { anyused = true; continue; }
        if (as[i].cmd && !ex) x.out.abbrev = true;
        m.push_back(i);
    }
    if (anyused) x.out.refused = true;
    if (best && !m.empty()) {
        int top = 0; for (auto i : m) top = std::max(top, as[i].pref);
        std::vector<size_t> o; for (auto i : m) { if (as[i].pref != top) { x.out.prefused = true; continue; } if (!o.empty() && !as[o[0]].cmd && !as[i].cmd && (prefmode == 3 || (prefmode == 1 && last) || (prefmode == 2 && !last))) { x.out.prefused = true; continue; } o.push_back(i); }
        m = o;
    }
    auto bind = [&](const Alt &a) {
        Bind b; if (a.var < 0) { b.name = a.text; b.konst = true; b.v.t = CGV_STRING; b.v.s = a.text; }
        else { const VarDef &d = s.vars[a.var]; b.name = d.name; b.vd = &d; Val v; int ok = ref_parse(d.t, d.n, a.cmd ? a.plain() : d.t == CGV_REST ? w.rest : w.w, v); if (ok != 1) x.out.unspec = true; b.v = v; b.v.t = d.t; if (d.translate == "tr0") b.v.s = "t_" + v.s; else if (d.translate == "tr1") b.v.s = v.s + "!"; }
        x.out.binds.push_back(b); };
    if (m.empty()) { r.why = anyvar || anyused ? W_VAR : W_NONE; return r; }
    if (m.size() > 1) {
        if (last) { if (best) bind(as[m[0]]); for (auto i : m) r.m.push_back(as[i]); return r; }
        r.why = W_AMBIG; return r;
    }
    size_t mi = m[0]; Alt a = as[mi];
    if (!last || best) bind(a);
    int nc = 0; for (auto &q : a.src) { nc += q.n->term && !q.n->cbs.empty(); if (q.n->term && q.ref) nc += q.n->cbs.empty() ? 1 : 0; if (q.via) x.out.viaref = true; if (q.unspec) x.out.cbunspec = true; if (a.src.size() > 1 && q.via) x.out.overlap = true; if (x.out.overlap && q.nested) x.out.cbunspec = true; if (q.filter != a.src[0].filter || q.n->sets != a.src[0].n->sets) x.out.unspec = true; /* same keyword reached with different filters */ }
    if (nc > 1 && x.out.overlap) x.out.cbunspec = true;
    if (nc > 1) for (auto &q : a.src) if (q.n->k != a.src[0].n->k || (q.n->k == Elem::VAR && q.n != a.src[0].n)) x.out.cbunspec = true; /* a keyword that is also the value of a choice, or of two choices */
    r.m = {a}; for (auto &q : a.src) if (q.n->term) { auto l = merge_cbs(q.n->cbs, q.ref); r.cbs.insert(r.cbs.end(), l.begin(), l.end()); }
    bool isrest = a.var >= 0 && s.vars[a.var].t == CGV_REST;
    if (last || isrest) { if (isrest) x.out.consumed = (int)x.toks.size(); as[mi].used = true; return r; }
    std::vector<Alt> kids = alts(a.src, !x.best, true);
    if (kids.empty()) { as[mi].used = true; return r; }
    if (sets(a.src)) {
        R prev; bool hasprev = false; R cur; int lv = level; bool any = false; x.out.setsused = true;
        while (lv + 1 < (int)x.toks.size()) {
            size_t nb = x.out.binds.size();
            any = true; cur = sets_match(x, kids, lv + 1);
            if (cur.m.empty()) x.out.binds.resize(nb);
            if (cur.m.size() != 1) break;
            prev = cur; hasprev = true; lv = cur.level;
            if (x.out.consumed) break;
        }
        if (!any) { as[mi].used = true; return r; }
        if (cur.m.empty() && hasprev) { as[mi].used = true; if (prev.why == W_NONE) prev.why = cur.why; return prev; }
        if (cur.m.empty() && term(a.src)) { as[mi].used = true; r.why = cur.why; return r; }
        if (cur.m.size() == 1) as[mi].used = true;
        return cur;
    }
    size_t nb = x.out.binds.size();
    R cur = sets_match(x, kids, level + 1);
    if (cur.m.empty() && term(a.src)) { x.out.binds.resize(nb); as[mi].used = true; r.why = cur.why; return r; }
    if (cur.m.size() == 1) as[mi].used = true;
    return cur;
}
Out Matcher::match(const std::string &tree, const std::string &line, bool best) {
    Out o; Ctx x{split_line(line), best, o}; o.words = (int)x.toks.size();
    { Bind b; b.name = "cmd"; b.v.t = CGV_REST; b.v.s = line; o.binds.push_back(b); }
    mixed = mixedref = false; auto as = alts(topsrc(tree), !best || tophide, true);
    R r = sets_match(x, as, 0);
    o.token = x.toks.back().w; o.failvar = r.why == W_VAR;
    bool isrest = r.m.size() == 1 && r.m[0].var >= 0 && s.vars[r.m[0].var].t == CGV_REST;
    if (r.level + 1 < (int)x.toks.size() && !r.m.empty() && !isrest) { if (r.why == W_NONE) r.why = W_UNKNOWN; r.m.clear(); }
    if (mixed && !best) o.unspec = true;
    if (mixedref) o.unspec = true;   /* same tree referenced at the same point with different filters */
    if (!best && caseignore) for (auto &a : r.m) for (auto &b : r.m) if (a.cmd && b.cmd && a.text != b.text && strcasecmp(a.text.c_str(), b.text.c_str()) == 0) o.unspec = true;   /* keywords differing only in case while case is ignored */
    if (!best) { o.offered = true; o.offers = r.m; o.res = r.m.empty() ? R_NONE : R_MULTI; return o; }
    if (r.m.size() > 1) {
        bool same = true; for (auto &a : r.m) if (!a.cmd || (caseignore ? strcasecmp(a.text.c_str(), r.m[0].text.c_str()) != 0 : a.text != r.m[0].text)) same = false;
        if (same) r.m.resize(1);
    }
    if (r.m.empty()) { o.res = R_NONE; o.why = r.why == W_NONE ? W_UNKNOWN : r.why; return o; }
    if (r.m.size() > 1) { o.res = R_MULTI; o.why = W_NONE; return o; }
    if (!term(r.m[0].src)) { o.res = R_NONE; o.why = W_INCOMPLETE; return o; }
    o.res = R_MATCH; o.why = W_NONE; o.fin = r.m[0]; o.hasfin = true; o.cbs = r.cbs;
    return o;
}
/* ---- typing ---- */
std::string word_for(Case &c, const VarDef &d, bool good) {
    if (!d.choice.empty()) return c.pick(d.choice);
    for (int t = 0; t < 6; t++) {
        std::string w;
        if (d.isstr()) {
            int l = d.ranges.empty() || c.flip() ? (int)c.below(7) : (int)(c.flip() ? d.ranges[0].lo : d.ranges[0].hi) + c.range(-1, 1);
            switch (c.below(6)) { case 0: w = c.pick(NAMES); break; case 1: w = c.pickc({"a", "b", "abc", "az", "zz", "12", "1.2.3.4", "true", "00:11:22:33:44:55", "5", "-7", "3.14", "up", "u", "::1"}); break; case 2: for (int i = 0; i < l; i++) w += c.pickch("az"); break; case 3: for (int i = 0; i < l; i++) w += c.pickch("09"); break; case 4: for (int i = 0; i < l; i++) w += c.pickch("ab z\t|;#"); break; default: for (int i = 0; i < l; i++) w += c.pickch("abz19.X"); }
            if (d.t == CGV_REST && c.flip()) w += " " + c.pick(NAMES) + "  x";
        } else if (!d.ranges.empty() && c.flip()) { auto &r = c.pick(d.ranges); i128 v = (c.flip() ? r.lo : r.hi) + c.range(-1, 1); w = bound(d, v); }
        else if ((is_signed(d.t) || is_unsigned(d.t)) && c.flip()) w = std::to_string(c.range(d.t == CGV_UINT8 ? 0 : -3, 300));
        else if (c.chance(80)) { Val v = gen_val(c, d.t); if (v.t == CGV_DEC64) { v.n = d.n; v.i %= 1000000; } w = ref_print(v); }
        else w = gen_literal(c, d.t, d.n);
        bool plain = true; for (char ch : w) if ((signed char)ch < 32 && ch != '\t') plain = false; else if (ch == '"' || ch == '\\') plain = false;
        if (!plain) continue;
        Val v; int r = d.accepts(w, v); if (r < 0) continue;
        if (good && r != 1) continue;
        return w;
    }
    return good ? (d.isstr() ? "a" : "1") : "zz";
}
std::string quote_word(Case &c, const std::string &w) {
    bool need = w.empty(); for (char ch : w) if (blank(ch) || ch == '#') need = true;
    if (need || c.chance(4)) return "\"" + w + "\"";
    return w;
}
std::vector<std::string> gen_walk(Case &c, Matcher &m, const std::string &tree, bool hidden) {
    std::vector<std::string> r; struct Lv { std::vector<Alt> as; }; std::vector<Lv> st;
    std::vector<Src> cur = m.topsrc(tree); std::vector<Alt> as = m.alts(cur, !hidden, true);
    for (int i = 0; i < 12; i++) {
        std::vector<size_t> ok; for (size_t j = 0; j < as.size(); j++) if (!as[j].used) ok.push_back(j);
        if (ok.empty()) { if (st.empty()) break; as = st.back().as; st.pop_back(); continue; }
        Alt &a = as[ok[c.below((uint32_t)ok.size())]]; a.used = true;
        const VarDef *d = a.var >= 0 ? &m.s.vars[a.var] : nullptr;
        if (a.cmd) { std::string p = a.plain(); std::string t = p; if (c.chance(15) && p.size() > 1) t = p.substr(0, 1 + c.below((uint32_t)p.size() - 1)); if (m.caseignore && c.chance(30)) for (auto &ch : t) if (c.flip()) ch = (char)(isupper((unsigned char)ch) ? tolower(ch) : toupper(ch)); bool q = false; for (char ch : t) if (blank(ch)) q = true; r.push_back(q || (t.size() && c.chance(2)) ? "\"" + t + "\"" : t); }
        else if (d->t == CGV_REST) { r.push_back(word_for(c, *d, c.chance(90))); break; }
        else r.push_back(quote_word(c, word_for(c, *d, c.chance(90))));
        auto src = a.src; bool isset = m.sets(src), tm = m.term(src); if (src.size() > 64) break;   /* overlapping recursive references multiply */
        auto kids = m.alts(src, !hidden, true);
        if (isset) { st.push_back({as}); as = kids; }
        else if (!kids.empty()) { if (tm && c.chance(35)) { if (!st.empty() && c.flip()) { continue; } break; } if (!st.empty()) { st.push_back({as}); /* subtree under a set member */ } as = kids; for (auto &k : as) (void)k; }
        else if (st.empty()) break;
        if (!st.empty() && tm && c.chance(20)) { if (c.flip()) break; as = st.back().as; st.pop_back(); }
    }
    return r;
}
std::string gen_line(Case &c, Matcher &m, const std::string &tree) {
    std::vector<std::string> w = gen_walk(c, m, tree); std::vector<std::string> pool; for (auto &k : m.s.trees) for (auto &q : k.second->root.kids) if (q->k == Elem::CMD) pool.push_back(q->name);
    if (c.chance(40)) for (int k = 1 + c.below(2); k > 0; k--) {
        size_t p = w.empty() ? 0 : c.below((uint32_t)w.size());
        switch (c.below(8)) {
        case 0: if (!w.empty()) w.pop_back(); break;
        case 1: w.push_back(c.pick(NAMES)); break;
        case 2: if (!w.empty()) w.insert(w.begin() + (long)p, w[p]); break;
        case 3: if (!w.empty()) w[p] = c.pick(NAMES); break;
        case 4: if (!w.empty()) w.erase(w.begin() + (long)p); break;
        case 5: if (w.size() > 1) std::swap(w[p], w[(p + 1) % w.size()]); break;
        case 6: if (!w.empty() && w[p].size() > 1 && w[p][0] != '"') w[p] = w[p].substr(0, 1 + c.below((uint32_t)w[p].size())); break;
        case 7: if (!w.empty()) w[p] += c.pickch("ab1"); break;
        }
    }
    std::string s; for (size_t i = 0; i < w.size(); i++) { if (i) s += c.chance(8) ? "  " : " "; s += w[i]; }
    if (c.chance(5)) s += " "; if (c.chance(3)) s += " # x";
    return s;
}
/* ---- the real thing ---- */
Real *REAL;
std::string show_cb(const std::string &fn, const std::vector<std::string> &args) { std::string s = fn + "("; for (size_t i = 0; i < args.size(); i++) s += (i ? "," : "") + args[i]; return s + ")"; }
std::vector<std::string> cb_strings(const std::vector<Cb> &cbs) { std::vector<std::string> r; for (auto &b : cbs) { std::vector<std::string> a; for (auto &x : b.args) a.push_back((x.first.empty() ? "" : x.first + ":") + x.second); r.push_back(show_cb(b.fn, a)); } return r; }
static std::string argtext(cg_var *cv) { std::string t; if (cv_type_get(cv) != CGV_STRING) t = std::string(cv_type2str(cv_type_get(cv))) + ":"; Val v = from_cv(cv); return t + (v.t == CGV_STRING || v.t == CGV_REST ? v.s : ref_print(v)); }
std::string show_binds(const std::vector<Bind> &b) { std::string s; for (auto &x : b) s += (s.empty() ? "" : ", ") + x.name + (x.konst ? "!" : "") + "=" + esc(show(x.v)); return s; }
static std::vector<Bind> binds_of(cvec *cvv) { std::vector<Bind> r; for (int i = 0; i < cvec_len(cvv); i++) { cg_var *cv = cvec_i(cvv, i); Bind b; b.name = cv_name_get(cv) ? cv_name_get(cv) : ""; b.konst = cv_const_get(cv); b.v = from_cv(cv); r.push_back(b); } return r; }
static int called(int k, cligen_handle h, cvec *cvv, cvec *argv) {
    std::vector<std::string> a; if (argv) for (int i = 0; i < cvec_len(argv); i++) a.push_back(argtext(cvec_i(argv, i)));
    const char *fn = cligen_fn_str_get(h); std::string name = "cb" + std::to_string(k);
    if (!fn || name != fn) name += std::string("[name ") + (fn ? fn : "none") + "]";
    REAL->calls.push_back(show_cb(name, a) + " {" + show_binds(binds_of(cvv)) + "}");
    if (REAL->on_call) { int rc = REAL->on_call(k, cvv, argv); if (rc < 0) return rc; }
    return REAL->ncalls++ == REAL->fail_at ? REAL->fail_rc : 0;
}
template <int K> static int fcb(cligen_handle h, cvec *cvv, cvec *argv) { return called(K, h, cvv, argv); }
static cgv_fnstype_t *const FCB[10] = {fcb<0>, fcb<1>, fcb<2>, fcb<3>, fcb<4>, fcb<5>, fcb<6>, fcb<7>, fcb<8>, fcb<9>};
extern "C" int rec_expand(cligen_handle h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
    std::vector<std::string> a; if (argv) for (int i = 0; i < cvec_len(argv); i++) a.push_back(argtext(cvec_i(argv, i)));
    REAL->ecalls.push_back(show_cb(name ? name : "?", a) + " {" + show_binds(binds_of(cvv)) + "}");
    if (REAL->expand_fail) return -1;
    for (auto &p : REAL->on_expand ? REAL->on_expand(name ? name : "?", a, cvv) : expand_table(name, a)) { cvec_add_string(cmds, nullptr, p.first.c_str()); if (p.second != "\1") cvec_add_string(helps, nullptr, p.second.c_str()); }
    return 0;
}
static int tr0(cligen_handle, cg_var *cv) { std::string s = std::string("t_") + cv_string_get(cv); cv_string_set(cv, s.c_str()); return 0; }
static int tr1(cligen_handle, cg_var *cv) { std::string s = std::string(cv_string_get(cv)) + "!"; cv_string_set(cv, s.c_str()); return 0; }
Real::Real(int rows, int cols) { REAL = this; if (rows < 0) term_tty(false); else term_tty(true, rows, cols); h = cligen_init(); if (h) cligen_comment_set(h, '#'); }
Real::~Real() { if (h) cligen_exit(h); if (REAL == this) REAL = nullptr; }
void Real::resolve(parse_tree *pt) {
    cligen_callbackv_str2fn(pt, [](char *n, void *, char **e) -> cgv_fnstype_t * { if (strncmp(n, "cb", 2) == 0 && isdigit((unsigned char)n[2])) return FCB[n[2] - '0']; static const std::map<std::string, cgv_fnstype_t *> WP = {{"cligen_wp_set", cligen_wp_set}, {"cligen_wp_show", cligen_wp_show}, {"cligen_wp_up", cligen_wp_up}, {"cligen_wp_top", cligen_wp_top}}; auto w = WP.find(n); if (w != WP.end()) return w->second; *e = (char *)"no such function"; return nullptr; }, nullptr);
    cligen_expandv_str2fn(pt, [](char *, void *, char **) -> expandv_cb * { return rec_expand; }, nullptr);
    cligen_translate_str2fn(pt, [](char *n, void *, char **) -> translate_cb_t * { return strcmp(n, "tr1") == 0 ? tr1 : tr0; }, nullptr);
}
int Real::load(const std::string &text, const char *treename) {
    std::vector<char> b(text.begin(), text.end()); b.push_back(0);
    if (clispec_parse_str(h, b.data(), (char *)"spec", (char *)treename, nullptr, nullptr) < 0) return -1;
    pt_head *ph = nullptr; while ((ph = cligen_ph_each(h, ph)) != nullptr) resolve(cligen_ph_parsetree_get(ph));
    return 0;
}
parse_tree *Real::pt(const std::string &tree) { pt_head *ph = cligen_ph_find(h, (char *)tree.c_str()); return ph ? cligen_ph_parsetree_get(ph) : nullptr; }
Got::~Got() { if (co) co_free(co, 0); if (cvv) cvec_free(cvv); }
void real_match(Real &r, const std::string &tree, const std::string &line, Got &g) {
    std::vector<char> b(line.begin(), line.end()); b.push_back(0); char *reason = nullptr;
    pt_head *ph = cligen_ph_find(r.h, (char *)tree.c_str());
    g.rc = cliread_parse(r.h, b.data(), cligen_ph_parsetree_get(ph), &g.co, &g.cvv, &g.res, &reason);
    if (reason) { g.hasreason = true; g.reason = reason; lib_free(reason); }
    if (g.cvv) g.binds = binds_of(g.cvv);
}
static const char *resname(cligen_result r) { switch (r) { case CG_MATCH: return "a match"; case CG_NOMATCH: return "no match"; case CG_MULTIPLE: return "several matches"; case CG_ERROR: return "an error"; case CG_EOF: return "end of file"; default: return "?"; } }
void compare_match(Case &c, const Out &o, const Got &g, const std::string &line) {
    cligen_result want = o.res == R_MATCH ? CG_MATCH : o.res == R_MULTI ? CG_MULTIPLE : CG_NOMATCH;
    CHECK(c, g.rc == 0, "error", "'%s': error return, expected %s", esc(line).c_str(), resname(want));
    CHECK(c, g.res == want, "result", "'%s': %s%s%s%s, expected %s%s", esc(line).c_str(), resname(g.res), g.hasreason ? " (" : "", g.reason.c_str(), g.hasreason ? ")" : "", resname(want), o.why == W_INCOMPLETE ? " (Incomplete command)" : "");
    if (o.res == R_NONE) {
        CHECK(c, g.hasreason && !g.reason.empty(), "reason", "'%s': refused without a reason", esc(line).c_str());
        const char *w = o.why == W_INCOMPLETE ? "Incomplete command" : o.why == W_AMBIG ? "Ambiguous command" : o.why == W_UNKNOWN ? "Unknown command" : nullptr;
        if (w) CHECK(c, g.reason == w, "reason", "'%s': refused as '%s', expected '%s'", esc(line).c_str(), g.reason.c_str(), w);
        else CHECK(c, g.reason != "Incomplete command", "reason", "'%s': refused as '%s' but no continuation completes it", esc(line).c_str(), g.reason.c_str());
    }
    if (o.res == R_MATCH) {
        CHECK(c, g.co != nullptr, "object", "'%s': no matched object", esc(line).c_str());
        CHECK(c, g.binds.size() == o.binds.size(), "values", "'%s': bound %s, expected %s", esc(line).c_str(), show_binds(g.binds).c_str(), show_binds(o.binds).c_str());
        for (size_t i = 0; i < o.binds.size(); i++) CHECK(c, g.binds[i].name == o.binds[i].name && g.binds[i].konst == o.binds[i].konst && g.binds[i].v == o.binds[i].v, "values", "'%s': bound %s, expected %s", esc(line).c_str(), show_binds(g.binds).c_str(), show_binds(o.binds).c_str());
    }
}

static std::string cvv_dump(cvec *v, const char *skip = nullptr) { if (!v) return ""; std::string s; for (int i = 0; i < cvec_len(v); i++) { cg_var *cv = cvec_i(v, i); if (skip && cv_name_get(cv) && !strcmp(cv_name_get(cv), skip)) continue; s += (s.empty() ? "" : ",") + (cv_name_get(cv) ? std::string(cv_name_get(cv)) + "=" : std::string()) + (cv_type_get(cv) == CGV_EMPTY ? std::string("empty") : show(from_cv(cv))); } return skip && s.empty() ? "" : "[" + s + "]"; }
std::string cbs_dump(cg_callback *cc) { std::string s; for (; cc; cc = co_callback_next(cc)) s += std::string(" cb'") + esc(cc->cc_fn_str ? cc->cc_fn_str : "") + "'" + sprintf_("%s%d", cc->cc_fn_vec ? "+" : "-", cc->cc_flags) + cvv_dump(cc->cc_cvec); return s; }
std::string co_dump(cg_obj *co) {
    std::string s; auto str = [&](const char *k, const char *v) { if (v) s += std::string(" ") + k + "'" + esc(v) + "'"; };
    s += co->co_type == CO_COMMAND ? "cmd" : co->co_type == CO_VARIABLE ? "var" : co->co_type == CO_REFERENCE ? "ref" : "empty"; str("", co->co_command); if (co->co_type == CO_EMPTY) return s;
    str("prefix", co->co_prefix); str("help", co->co_helpstring); if (co->co_flags) s += sprintf_(" flags%x", co->co_flags); if (co->co_preference) s += sprintf_(" pref%d", co->co_preference);
    s += cvv_dump(co->co_cvec, co->co_flags & CO_FLAGS_HIDE ? "hide" : nullptr); if (co->co_filter) s += " filter" + cvv_dump(co->co_filter);
    if (co->co_type == CO_VARIABLE) { s += sprintf_(" %s", cv_type2str(co->co_vtype)); str("show", co->co_show); str("expand", co->co_expand_fn_str); s += cvv_dump(co->co_expand_fn_vec); if (co->co_expandv_fn) s += "+"; str("translate", co->co_translate_fn_str); str("choice", co->co_choice); s += sprintf_(" %d", co->co_rangelen) + cvv_dump(co->co_rangecvv_low) + cvv_dump(co->co_rangecvv_upp) + cvv_dump(co->co_regex) + sprintf_(" n%d", co->co_dec64_n); }
    return s;
}
std::string pt_dump(parse_tree *pt, cg_obj *up, int ind) {
    std::string s; if (!pt) return s;
    for (int i = 0; i < pt_len_get(pt); i++) {
        cg_obj *co = pt_vec_i_get(pt, i); s += std::string(ind, ' '); if (!co) { s += "NULL\n"; continue; }
        s += co_dump(co); if (co->co_type == CO_EMPTY) { s += "\n"; continue; }
        if (up && co_up(co) != up) s += " BADPARENT"; if (co->co_ref) s += " ref-set"; if (co->co_treeref_orig) s += " orig-set"; if (co_sets_get(co)) s += " sets";
        s += cbs_dump(co->co_callbacks) + "\n" + pt_dump(co_pt_get(co), co, ind + 1);
    }
    return s;
}
/* ---- typing at the prompt ---- */
int type_keys(Real &r, std::vector<Step> &steps, std::string *line) {
    std::string all; std::vector<size_t> ends; for (auto &s : steps) { all += s.keys; ends.push_back(all.size()); }
    size_t k = 0, cur = 0, from = term_out.size(); term_input(all);
    auto snap = [&]() { while (cur < steps.size() && k >= ends[cur]) { steps[cur].out = term_out.substr(from); from = term_out.size(); steps[cur].buf = cligen_buf(r.h); cur++; } };
    on_key = [&]() { snap(); k++; };
    char *l = nullptr; int rc = cliread(r.h, &l); if (line) *line = l ? l : "";
    on_key = nullptr; k = all.size(); snap(); return rc;
}
std::string hook_output(const std::string &out, const std::string &prompt) { size_t p = out.find("\r" + prompt); return p == std::string::npos ? out : out.substr(0, p); }
static std::string shown(Matcher &m, const Alt &a) { if (a.cmd) return a.text; const VarDef &d = m.s.vars[a.var]; return "<" + (d.show.empty() ? a.text : d.show) + ">"; }
static std::string pad(const std::string &s, int w) { std::string r = s; while ((int)r.size() < w) r += ' '; return r; }
std::string help_text(Matcher &m, const std::string &tree, const std::string &line, const HelpOpt &o, int *entries) {
    std::string s; Out out = m.match(tree, line, false); auto toks = split_line(line);
    if (toks.size() > 1 && toks.back().w.empty() && line.back() != '"') {
        size_t e = line.size(); while (e && blank(line[e - 1])) e--;
        m.tophide = true; Out full = m.match(tree, line.substr(0, e)); m.tophide = false; if (full.res == R_MATCH) s += "  <cr>\n";
    }
    struct En { std::string cmd; std::vector<std::string> help; }; std::vector<En> l;
    for (auto &a : out.offers) {
        En e; e.cmd = shown(m, a); if (a.hashelp && !a.help.empty()) { std::string t = a.help + "\n"; size_t p; while ((p = t.find('\n')) != std::string::npos) { e.help.push_back(t.substr(0, p)); t.erase(0, p + 1); } }
        if (!l.empty() && l.back().cmd == e.cmd && (l.back().help.empty() ? e.help.empty() : !e.help.empty() && l.back().help[0] == e.help[0])) continue;
        l.push_back(e);
    }
    if (entries) *entries = (int)l.size();
    int w = 0; for (auto &e : l) w = std::max(w, (int)e.cmd.size()); w = std::max(w + 1, COLUMN_MIN_WIDTH);
    for (auto &e : l) {
        s += "  " + pad(e.cmd, w);
        int n = (int)e.help.size(); if (o.lines && n > o.lines) n = o.lines;
        if (!n) { s += "\n"; continue; }
        int room = o.width - w - 3;
        for (int j = 0; j < n; j++) { if (j) s += "  " + pad("", w); std::string h = e.help[j]; if (o.truncate && (int)h.size() > room) h = h.substr(0, room > 0 ? room : 0); s += " " + pad(h, room) + "\n"; }
    }
    return s;
}
std::string columns_text(Matcher &m, const std::string &tree, const std::string &line, const HelpOpt &o) {
    Out out = m.match(tree, line, false); std::vector<std::string> l; if (out.offers.empty()) return "";
    for (auto &a : out.offers) { std::string t = shown(m, a); if (l.empty() || l.back() != t) l.push_back(t); }
    int w = 0; for (auto &e : l) w = std::max(w, (int)e.size()); w = std::max(w + 1, COLUMN_MIN_WIDTH);
    int n = std::max(1, o.width / w); w += (o.width % w) / n;
    std::string s; for (size_t i = 0; i < l.size(); i++) { s += " " + pad(l[i], w - 1); if ((i + 1) % n == 0 || i + 1 == l.size()) s += "\n"; }
    return s;
}
}
