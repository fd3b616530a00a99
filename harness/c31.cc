// C31: output pipes deliver the command's whole output through the filter
// LINK: val.cc spec.cc
#include "spec.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
using namespace vf;
extern "C" const char *vf_property_id = "C31";
const char *vf_rule = "specifications with pipe trees referenced explicitly (with and without a direct command beside it, inherited by the commands below, over a default), by default of the tree, in referenced trees, with arguments from the reference, and pipe functions with arguments and variables; the commands print random text in random pieces (from nothing to more than the pipe buffers hold) and may fail; the pipe functions run as real processes that copy, reverse, double, replace, ignore or cut their input, are slow, fail, write more than the buffers hold, or close early; signals arrive meanwhile; several commands with and without pipes in a row; the pipe function must be called with its name, arguments and values, see exactly the text printed and its output must be all that appears; afterwards output is direct, no process and no descriptor is left; non-trivial = at least two piped commands with text of which one was cut, large, slow or failed; distinct by specification, lines and texts";
static volatile int ticks;
static void tick(int) { ticks++; }
static std::string readall(int max = -1) { std::string s; char b[512]; for (;;) { size_t want = sizeof b; if (max >= 0) { if (s.size() >= (size_t)max) break; want = std::min(want, (size_t)max - s.size()); } ssize_t n = read(0, b, want); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; s.append(b, (size_t)n); } return s; }
static void writeall(const std::string &s) { size_t i = 0; while (i < s.size()) { ssize_t n = write(1, s.data() + i, s.size() - i); if (n < 0 && errno == EINTR) continue; if (n <= 0) return; i += (size_t)n; } }
/* what the filter makes of its input; in the process itself when run is set */
static std::string filter(const std::string &kind, int n, const std::string &in, bool run, int &rc) {
    rc = 0; auto get = [&](int max = -1) { return run ? readall(max) : max < 0 ? in : in.substr(0, (size_t)max); }; std::string o;
    if (kind == "cat" || kind == "dup" || kind == "slow") {
        if (!run) { if (kind == "dup") { for (size_t i = 0; i < in.size(); i++) { o += in[i]; o += in[i]; } } else o = in; if (kind == "slow") o += "(end)"; return o; }
        char b[300]; int k = 0; for (;;) { ssize_t r = read(0, b, sizeof b); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; std::string t; for (int i = 0; i < r; i++) { t += b[i]; if (kind == "dup") t += b[i]; } if (kind == "slow" && k++ < 3) usleep(700); writeall(t); } if (kind == "slow") { usleep(1500); writeall("(end)"); } return "";
    }
    if (kind == "rev") { o = get(); std::reverse(o.begin(), o.end()); }
    else if (kind == "head") o = get(n);
    else if (kind == "none") o = "none";
    else if (kind == "mute") get();
    else if (kind == "fail") { o = std::to_string(get().size()); rc = n; }
    else if (kind == "early") { o = std::string((size_t)n * 40, 'e'); if (run) { writeall(o); get(); } return o; }     /* answers before it reads */
    else if (kind == "big") { get(); o = std::string(300000, 'B'); }
    else if (kind == "close") { o = get(); if (run) { writeall(o); close(1); close(0); usleep(500); } return o; }
    if (run) writeall(o); return o;
}
struct Filt { std::string path; int k; std::string kind; std::string var; bool rest = false; int n = 0; std::vector<std::string> args; };
struct PTree { std::string name; std::vector<Filt> f; };
struct Point { std::vector<std::string> words; std::string var; int cb = 0; std::vector<std::string> args; int pcb = 0; std::vector<std::string> pargs; bool direct = true; int pipe = -1; };   /* a place where a command can end: what runs without and with pipe */
static int fds() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static std::string qargs(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : ",") + ("\"" + x + "\""); return s; }
void vf_init() { term_reset(); term_tty(false); }
static std::vector<PTree> gen_pipes(Case &c, std::string &spec) {
    std::vector<PTree> ps; int np = 1 + (int)c.below(2);
    for (int p = 0; p < np; p++) {
        PTree t; t.name = "|p" + std::to_string(p); std::string body; int nf = 1 + (int)c.below(3);
        for (int i = 0; i < nf; i++) {
            Filt f; f.path = sprintf_("f%d%c", p, 'a' + i); f.k = 5 + (int)c.below(5); f.kind = c.pickc({"cat", "rev", "head", "dup", "none", "mute", "slow", "fail", "early", "big", "close"}); if (f.kind == "big" && c.chance(70)) f.kind = "cat"; f.n = f.kind == "head" ? (int)c.below(c.flip() ? 20 : 3000) : f.kind == "early" ? (int)c.below(c.flip() ? 10 : 10000) : (int)c.below(3);
            f.args = {f.kind, std::to_string(f.n)}; if (c.chance(30)) f.args.push_back(c.pickc({"grep -e", "x", "arg"})); switch (c.below(3)) { case 1: f.var = "arg"; break; case 2: f.var = "arg"; f.rest = true; }
            bool nested = c.chance(25); std::string call = sprintf_("cb%d(%s)", f.k, qargs(f.args).c_str());
            body += "  " + f.path + (nested ? " sub" : "") + (f.var.empty() ? "" : f.rest ? " <arg:rest>" : " <arg:string>") + ", " + call + ";\n"; if (nested) f.path += " sub"; t.f.push_back(f);
        }
        spec += "treename=\"" + t.name + "\";\npipetree=\"\";\n\\| {\n" + body + "}\n"; ps.push_back(t);
    }
    return ps;
}
/* statements of a tree; pipe: the pipe tree in force (-1 none) */
static std::string gen_block(Case &c, std::vector<Point> &pts, std::vector<std::string> words, int pipe, int np, int depth, const std::string &prefix, bool explicits, bool refs) {
    std::string s; int n = 1 + (int)c.below(depth ? 3 : 4);
    for (int i = 0; i < n; i++) {
        Point p; std::string name = prefix + (char)('a' + i) + c.pickc({"", "l", "run"}); p.words = words; p.words.push_back(name); p.cb = (int)c.below(5); p.args.clear(); int na = (int)c.below(3); for (int k = 0; k < na; k++) p.args.push_back(c.pickc({"one", "two", "x y", "42"})); p.pipe = pipe; if (c.chance(30)) p.var = "v"; p.pcb = p.cb; p.pargs = p.args;
        std::string ind(words.size() * 2 + 1, ' '), head = ind + name + (p.var.empty() ? "" : " <v:string>"), call = sprintf_(", cb%d(%s)", p.cb, qargs(p.args).c_str());
        int how = explicits ? c.weighted({4, 3, 2, 2}) : 0; if (how == 3 && (depth == 0 || !p.var.empty())) how = 0;
        if (how == 0) { s += head + call + ";\n"; pts.push_back(p); }
        else {
            int x = (int)c.below((uint32_t)np); Point e = p; e.pipe = x; e.pcb = (int)c.below(5); e.pargs.clear(); if (c.flip()) e.pargs.push_back(c.pickc({"P", "Q"})); std::string pcall = sprintf_("%s  @|p%d, cb%d(%s);\n", ind.c_str(), x, e.pcb, qargs(e.pargs).c_str());
            if (how == 1) { bool other = c.chance(30); if (other) c.label("ordinary reference beside"); s += head + call + "; {\n" + (other && c.flip() ? "@X;\n" : "") + pcall; if (other && s[s.size() - pcall.size() - 2] != ';') s += "@X;\n"; s += ind + "}\n"; pts.push_back(e); }
            else if (how == 2) { e.direct = false; s += head + " {\n" + pcall + ind + "}\n"; pts.push_back(e); }
            else { e.direct = false; bool also = c.flip(); int pp = also ? x : pipe; s += head + " {\n" + (also ? pcall : "") + gen_block(c, pts, p.words, pp, np, depth - 1, prefix + "s", false, false) + ind + "}\n"; if (also) pts.push_back(e); }
        }
    }
    (void)refs; return s;
}
void vf_case(Case &c) {
    term_reset(); Real r; std::string tail, spec, trace; std::vector<Point> pts; std::vector<PTree> ps = gen_pipes(c, tail); int np = (int)ps.size(), def = c.chance(60) ? (int)c.below((uint32_t)np) : -1; std::string defs = sprintf_("pipetree=\"%s\";\n", def < 0 ? "" : ps[(size_t)def].name.c_str());
    spec = "treename=\"T\";\n" + defs + gen_block(c, pts, {}, def, np, 1 + (int)c.below(2), "", true, true);
    if (c.chance(40)) {   /* a referenced tree */
        bool withcb = c.flip(); int rcb = (int)c.below(5); std::vector<Point> sub; std::string body = gen_block(c, sub, {}, def, np, 1, "w", !withcb, false); spec += withcb ? sprintf_(" zref @S, cb%d(\"R\");\n", rcb) : " zref @S;\n"; spec += "treename=\"S\";\n" + defs + body;
        for (auto &p : sub) { p.words.insert(p.words.begin(), "zref"); if (withcb) { p.cb = p.pcb = rcb; p.args.push_back("R"); p.pargs = p.args; } pts.push_back(p); }
    }
    if (spec.find("@X") != std::string::npos) spec += "treename=\"X\";\n" + defs + " xx, cb4();\n";
    spec += tail; c.note("%s", spec.c_str()); trace = spec; CHECK(c, r.load(spec, nullptr) == 0, "spec", "refused"); r.active("T");
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, &old); struct Off { struct sigaction *o; ~Off() { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr); sigaction(SIGALRM, o, nullptr); } } off{&old};
    int lines = 1 + (int)c.below(4), piped = 0; bool special = false;
    for (int i = 0; i < lines; i++) {
        const Point &p = c.pick(pts); bool pipe = p.pipe >= 0 && c.chance(80); const Filt *f = nullptr; std::string line; std::vector<Bind> bs; Bind b; auto str = [](const std::string &s, enum cv_type t = CGV_STRING) { Val v; v.t = t; v.s = s; return v; };
        for (auto &w : p.words) { line += (line.empty() ? "" : " ") + w; b.name = w; b.konst = true; b.v = str(w); bs.push_back(b); }
        if (!p.var.empty()) { std::string w = c.pickc({"7", "val", "x-1"}); line += " " + w; b.name = "v"; b.konst = false; b.v = str(w); bs.push_back(b); }
        bool accepted = pipe || p.direct; bool bogus = !pipe && c.chance(25);
        if (pipe) {
            f = &c.pick(ps[(size_t)p.pipe].f); line += " | " + f->path; std::string bad; b.konst = true; b.name = "|"; b.v = str("|"); bs.push_back(b); for (auto &w : split_line(f->path)) { b.name = w.w; b.v = str(w.w); bs.push_back(b); }
            if (!f->var.empty()) { std::string w = f->rest ? c.pickc({"abc", "a b | c", "1"}) : c.pickc({"abc", "def"}); line += " " + w; b.konst = false; b.name = "arg"; b.v = str(w, f->rest ? CGV_REST : CGV_STRING); bs.push_back(b); }
            bool haverest = !f->var.empty() && f->rest; if (!haverest && c.chance(8)) { line += " | " + f->path; accepted = false; }
        } else if (bogus) { int other = -1; for (int k = 0; k < np; k++) if (k != p.pipe) other = k; if (other >= 0) { line += " | " + ps[(size_t)other].f[0].path; if (!ps[(size_t)other].f[0].var.empty()) line += " x"; accepted = false; } }
        b.name = "cmd"; b.konst = false; b.v = str(line, CGV_REST); bs.insert(bs.begin(), b);
        std::string text; int size = c.weighted({5, 2, 2, 1}); std::vector<std::string> pieces; int np_ = size == 0 ? (int)c.below(5) : size == 1 ? 0 : size == 2 ? 1 + (int)c.below(40) : 2 + (int)c.below(12);
        for (int k = 0; k < np_; k++) { std::string t = size == 3 ? std::string(1 + c.below(60000), (char)('0' + k)) : c.str("abc xyz%\n\n", 0, c.flip() ? 10 : 200); pieces.push_back(t); text += t; }
        int cfail_rc = -1 - (int)c.below(300); bool cfail = c.chance(10), sig = c.chance(15), slow = c.chance(20);
        c.note("line '%s': prints %zu bytes in %zu pieces %s%s%s%s", line.c_str(), text.size(), pieces.size(), text.size() < 100 ? esc(text).c_str() : "", cfail ? ", fails" : "", sig ? ", signals" : "", slow ? ", waiting never helps" : ""); trace += line + text;
        std::string expect_out, ccall = show_cb("cb" + std::to_string(pipe ? p.pcb : p.cb), pipe ? p.pargs : p.args) + " {" + show_binds(bs) + "}"; int frc = 0;
        if (pipe) { std::string fcall = "cb" + std::to_string(f->k); fcall = show_cb("cb" + std::to_string(f->k) + "[name none]", f->args) + " {" + show_binds(bs) + "}"; expect_out = "[" + fcall + "]\n" + filter(f->kind, f->n, text, false, frc); } else expect_out = text;
        Got g; real_match(r, "T", line, g); CHECK(c, g.rc == 0 && (g.res == CG_MATCH) == accepted, "accept", "the line '%s' is %s: %s", line.c_str(), accepted ? "refused" : "accepted", g.reason.c_str());
        if (!accepted) { c.label("refused pipe"); continue; }
        r.calls.clear(); term_out.clear(); err_out.clear(); int before = fds(); pid_t self = getpid();
        r.on_call = [&](int k, cvec *, cvec *argv) {
            if (k < 5) { for (auto &t : pieces) cligen_output(stdout, "%s", t.c_str()); return cfail ? cfail_rc : 0; }
            if (getpid() == self) return 0;   /* recorded */
            std::string call = r.calls.back(); writeall("[" + call + "]\n"); std::string kind = argv && cvec_len(argv) > 1 ? cv_string_get(cvec_i(argv, 0)) : "cat"; int n = argv && cvec_len(argv) > 1 ? atoi(cv_string_get(cvec_i(argv, 1))) : 0, rc = 0; filter(kind, n, "", true, rc); r.fail_at = -1; if (rc) _exit(rc); return 0;
        };
        if (sig) { struct itimerval it; memset(&it, 0, sizeof it); it.it_interval.tv_usec = it.it_value.tv_usec = 300 + c.below(700); setitimer(ITIMER_REAL, &it, nullptr); }
        impatient = slow; int rc = cligen_eval(r.h, g.co, g.cvv); impatient = false; { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr); }
        CHECK(c, term_out == expect_out, "output", "after '%s' printed %zu bytes%s%s\nshown (%zu bytes) '%s'\nshould be (%zu bytes) '%s'\nmessages: %s", line.c_str(), text.size(), pipe ? " through filter " : "", pipe ? f->kind.c_str() : "", term_out.size(), esc(term_out.substr(0, 300)).c_str(), expect_out.size(), esc(expect_out.substr(0, 300)).c_str(), err_out.c_str());
        CHECK(c, r.calls.size() == 1 && r.calls[0] == ccall, "called", "called in the process: %zu: %s\nshould be %s", r.calls.size(), r.calls.empty() ? "" : r.calls[0].c_str(), ccall.c_str());
        CHECK(c, (rc < 0) == (cfail || frc != 0), "status", "evaluation gives %d, the command %s, the filter's status is %d", rc, cfail ? "failed" : "succeeded", frc);
        int st; pid_t left = waitpid(-1, &st, WNOHANG); CHECK(c, left < 0 && errno == ECHILD, "process", "a process is left behind (%s)", left == 0 ? "running" : "zombie");
        int after = fds(); CHECK(c, after == before, "descriptor", "%d descriptors are open, %d were before the command", after, before);
        int so = -2; cli_pipe_output_socket_get(&so); CHECK(c, so == -1, "socket", "output is still redirected");
        if (pipe && !text.empty()) { piped++; if (f->kind != "cat" || size == 3 || cfail || sig) special = true; } c.label(!pipe ? "no pipe" : f->kind.c_str()); if (pipe) c.label(p.direct ? p.pcb == p.cb && p.args == p.pargs ? "default pipe" : "explicit beside direct" : "explicit only"); if (pipe && size == 3) c.label("large"); if (cfail) c.label("failing command"); if (sig && ticks) c.label("signals");
        ticks = 0;
    }
    if (piped >= 2 && special) c.nontrivial(trace);
}
