/* Model of command specifications: generation, rendering as specification text, the tree they denote, and a
 * reference matcher written from the documentation. */
#pragma once
#include <climits>
#include "val.h"
namespace vf {
struct W { std::string w, rest; };
std::vector<W> split_line(const std::string &s);                 /* words of a command line */
std::string trim_line(const std::string &s, char comment = '#'); /* what the interpreter makes of a typed line */
bool rest_of_line(const std::string &s, size_t i);

/* ---- variables ---- */
struct Rng { bool one; i128 lo, hi; };
struct Pat { const char *re; bool (*f)(const std::string &); };
extern const std::vector<Pat> PATS;
struct VarDef {
    std::string name; enum cv_type t = CGV_STRING; int n = 2; bool fdset = false;
    std::vector<Rng> ranges;                                     /* values (dec64 scaled) or lengths */
    std::vector<std::pair<int, bool>> pats;                      /* index in PATS, inverted */
    std::vector<std::string> choice;
    std::string expand; std::vector<std::string> eargs;          /* expansion function */
    std::string translate; int pref = 0; std::string show;
    std::string key() const;                                     /* equal keys: the same alternative */
    std::string render() const;                                  /* "<...>" */
    bool isstr() const { return t == CGV_STRING || t == CGV_REST; }
    int defpref() const;                                         /* documented preference */
    /* 1 accept, 0 refuse, -1 not specified; v is the value bound (before translation) */
    int accepts(const std::string &word, Val &v) const;
};
/* ---- specification text ---- */
struct Cb { std::string fn; std::vector<std::pair<std::string, std::string>> args; };   /* type ("" = string), text */
struct Elem { enum K { CMD, VAR, REF } k = CMD; std::string name; int var = -1; std::vector<std::string> help; bool hashelp = false; };
struct Item { enum K { ELEM, GROUP, OPT } k = ELEM; Elem e; std::vector<std::vector<Item>> alts; };
struct Stmt { std::vector<Item> seq; std::vector<Cb> cbs; bool hide = false; std::vector<std::string> labels; bool term = true, block = false, sets = false; std::vector<Stmt> kids; };
struct TreeText { std::string name; std::vector<Stmt> stmts; std::string pipetree; };
/* ---- denotation ---- */
struct Node {
    Elem::K k = Elem::CMD; std::string name; int var = -1; bool term = false, hide = false, sets = false;
    std::vector<std::string> labels; std::vector<Cb> cbs; std::string help; bool hashelp = false;
    std::vector<std::unique_ptr<Node>> kids; Node *up = nullptr;
    Node *child(Elem::K k, const std::string &name, int var, const std::vector<VarDef> &vs);  /* find or create */
    Node *find(Elem::K k, const std::string &name, int var, const std::vector<VarDef> &vs) const;
};
struct Tree { std::string name; Node root; std::string pipedef; const Node *wp = nullptr; const Node *top() const { return wp ? wp : &root; } };
struct Spec {
    std::vector<VarDef> vars; std::vector<TreeText> texts;
    std::map<std::string, std::unique_ptr<Tree>> trees;
    void denote();                                                /* builds trees from texts */
    Tree *tree(const std::string &n) { auto i = trees.find(n); return i == trees.end() ? nullptr : i->second.get(); }
    std::string render(Case *c) const;                            /* random layout when c is given */
    std::string render_tree(Case *c, const TreeText &t) const;
};
void denote_into(Node *root, const std::vector<Stmt> &stmts, const std::vector<VarDef> &vars);
std::string node_dump(const Node *n, const std::vector<VarDef> &vars, int ind = 0);
/* ---- generation ---- */
struct GenOpt {
    int depth = 3, width = 3, seqlen = 3; bool vars = true, groups = true, options = true, sets = false, blocks = true, choices = true, ranges = true, refs = false, labels = false, hide = false, help = true, cbs = true, expand = false, translate = false, prefs = false, rest = true, caseful = false, multihelp = true, manycbs = true, nonterm = true, shows = false, denseset = false, longhelp = false;
    std::vector<enum cv_type> types; int nvars = 5; std::vector<std::string> names; std::vector<std::string> reftrees, topreftrees; /* trees a reference may name: after a word, and where no word need precede it */ bool oneterm = false; bool alltypes = true;
};
extern const std::vector<std::string> NAMES;
void gen_vars(Case &c, Spec &s, const GenOpt &o);
std::vector<Stmt> gen_stmts(Case &c, const Spec &s, const GenOpt &o, int depth, bool top);
std::string gen_choice_word(Case &c);
Cb gen_cb(Case &c);
/* ---- reference matcher ---- */
extern std::function<std::vector<std::pair<std::string, std::string>>(const std::string &fn, const std::vector<std::string> &args)> expand_table;  /* (command, help) pairs; help "\1" = none */
struct Bind { std::string name; bool konst = false; Val v; const VarDef *vd = nullptr; std::string translated; };
struct Src { const Node *n; std::set<std::string> filter; const Node *ref = nullptr; /* innermost reference with callbacks */ bool via = false, unspec = false, nested = false; /* callbacks of several references */ };
struct Alt {
    bool cmd = true; std::string text;                            /* keyword text, or variable name */
    int var = -1; bool derived = false; std::vector<Src> src; std::string help; bool hashelp = false; bool used = false; int pref = 0; bool hide = false;
    std::string plain() const;                                    /* keyword as typed: without surrounding quotes */
};
enum Res { R_MATCH, R_MULTI, R_NONE, R_ERROR };
enum Why { W_NONE, W_UNKNOWN, W_VAR, W_INCOMPLETE, W_AMBIG };
struct ECall { std::string fn; std::vector<std::string> args; };
struct Out {
    Res res = R_NONE; Why why = W_UNKNOWN; std::vector<Bind> binds; Alt fin; bool hasfin = false; std::vector<Cb> cbs; bool unspec = false, cbunspec = false, viaref = false, overlap = false; bool failvar = false; int consumed = 0;
    std::vector<Alt> offers; bool offered = false; std::string token; /* completion: alternatives fitting the last word */
    bool setsused = false, refused = false, prefused = false, abbrev = false; int words = 0;
};
struct Matcher {
    Spec &s; bool caseignore = false, tophide = false; int prefmode = 0; mutable bool mixedref = false, mixed = false;   /* the same keyword hidden and not hidden at one point: unspecified */
    Matcher(Spec &sp) : s(sp) {}
    std::vector<Alt> alts(const std::vector<Src> &from, bool hide, bool expandvar) const;   /* visible alternatives, sorted as listed */
    bool term(const std::vector<Src> &from) const;
    bool sets(const std::vector<Src> &from) const;
    std::vector<Src> topsrc(const std::string &tree) { return {Src{&s.tree(tree)->root, {}, nullptr}}; }
    Out match(const std::string &tree, const std::string &line, bool best = true);
    bool fits(const Alt &a, const W &w, bool best, bool *exact, int *un) const;
private:
    struct Ctx; struct R;
    R sets_match(Ctx &x, std::vector<Alt> &as, int level);
    void collect(const Node *root, const std::set<std::string> &filter, const Node *ref, std::vector<Src> &out, std::vector<const Node *> chain) const;
public:
    std::map<std::string, std::string> resolve;   /* names of references changed by the application */
    Tree *reftree(const std::string &name) const { auto i = resolve.find(name); return s.tree(i == resolve.end() ? name : i->second); }
private:
};
/* ---- typing lines ---- */
std::string word_for(Case &c, const VarDef &d, bool good);
std::string quote_word(Case &c, const std::string &w);            /* as a token on a line */
std::vector<std::string> gen_walk(Case &c, Matcher &m, const std::string &tree, bool hidden = true);   /* words of a (usually) complete command */
std::string gen_line(Case &c, Matcher &m, const std::string &tree); /* valid or mutated line */
/* ---- the real thing ---- */
struct Real {
    cligen_handle h = nullptr; std::vector<std::string> calls; std::vector<std::string> ecalls;
    int fail_at = -1, fail_rc = -1; int ncalls = 0; bool expand_fail = false;
    std::function<int(int, cvec *, cvec *)> on_call; std::function<std::vector<std::pair<std::string, std::string>>(const std::string &, const std::vector<std::string> &, cvec *)> on_expand;
    explicit Real(int rows = -1, int cols = 0); ~Real();   /* rows >= 0: on a terminal of that size */
    int load(const std::string &text, const char *treename = "T");  /* parse into the handle, resolve functions */
    parse_tree *pt(const std::string &tree);
    void active(const std::string &tree) { cligen_ph_active_set_byname(h, (char *)tree.c_str()); }
    void resolve(parse_tree *pt);
};
struct Got { int rc = 0; cligen_result res = CG_ERROR; std::string reason; bool hasreason = false; std::vector<Bind> binds; cg_obj *co = nullptr; cvec *cvv = nullptr; ~Got(); Got() {} Got(const Got &) = delete; };
void real_match(Real &r, const std::string &tree, const std::string &line, Got &g);
std::string show_binds(const std::vector<Bind> &b);
std::string show_cb(const std::string &fn, const std::vector<std::string> &args);
std::vector<std::string> cb_strings(const std::vector<Cb> &cbs);   /* "fn(arg,...)" as recorded by Real */
/* key strokes typed at the prompt in chunks: what each chunk printed and the line as it was after it; then end of input */
struct Step { std::string keys, out, buf; };
int type_keys(Real &r, std::vector<Step> &steps, std::string *line = nullptr);
std::string hook_output(const std::string &out, const std::string &prompt);   /* what '?' or TAB printed before the line was drawn again */
struct HelpOpt { int width = 80, lines = 0; bool truncate = false; };
std::string help_text(Matcher &m, const std::string &tree, const std::string &line, const HelpOpt &o, int *entries = nullptr);
std::string columns_text(Matcher &m, const std::string &tree, const std::string &line, const HelpOpt &o);
std::string pt_dump(parse_tree *pt, cg_obj *up = nullptr, int ind = 0);   /* everything a tree holds */
std::string co_dump(cg_obj *co);          /* one object, without callbacks and children */
std::string cbs_dump(cg_callback *cc);
extern Real *REAL;                                                /* receiver of recorded calls */
extern "C" int rec_expand(cligen_handle, char *, cvec *, cvec *, cvec *, cvec *);
void compare_match(Case &c, const Out &o, const Got &g, const std::string &line);
}
