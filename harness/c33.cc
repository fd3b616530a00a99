// C33: registered descriptors are served while the prompt waits
// LINK: val.cc spec.cc
#include "spec.h"
#include <unistd.h>
#include <sys/socket.h>
using namespace vf;
extern "C" const char *vf_property_id = "C33";
const char *vf_rule = "random sequences of registering, registering again, unregistering and writing to up to eight descriptors and reading lines from the prompt; before each key is read every registered descriptor with input has its latest callback called once with its latest argument, and no other is called; results of (un)registering tell whether it was registered; callbacks that unregister their own descriptor, and waits interrupted by signals (with or without interrupt hook, which is called once for each) are included; non-trivial = a descriptor is served after another one was unregistered; distinct by operations";
void vf_init() { term_reset(); term_tty(false); }
struct D { int a, b; bool reg = false; int arg = 0, cb = 0; long pend = 0; };
static std::vector<std::string> seen;
static int cb0(int fd, void *arg) { char ch; ssize_t n = read(fd, &ch, 1); seen.push_back(sprintf_("0:%d:%ld:%zd", fd, (long)arg, n)); return 0; }
static int cb1(int fd, void *arg) { char ch; ssize_t n = read(fd, &ch, 1); seen.push_back(sprintf_("1:%d:%ld:%zd", fd, (long)arg, n)); return 0; }
static int cb2(int fd, void *arg) { char ch; ssize_t n = read(fd, &ch, 1); int rc = cligen_unregfd(fd); seen.push_back(sprintf_("2:%d:%ld:%zd", fd, (long)arg, n) + (rc ? " failed to unregister itself" : "")); return 0; }
static int hooked; static int hook(cligen_handle) { hooked++; return 0; }
static std::string sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += " " + x; return s; }
void vf_case(Case &c) {
    term_reset(); Real r; cligen_prompt_set(r.h, (char *)"> "); std::vector<D> ds; bool unreg = false, nt = false, usehook = c.flip(); int wanthook = 0; std::string trace;
    struct Close { std::vector<D> &d; ~Close() { for (auto &x : d) { cligen_unregfd(x.a); close(x.a); close(x.b); } } } cl{ds};
    for (int i = 1 + c.below(8); i > 0; i--) { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) < 0) c.done(); D d; d.a = p[0]; d.b = p[1]; ds.push_back(d); }
    for (int i = 3 + c.below(30); i > 0; i--) {
        size_t k = c.below((uint32_t)ds.size()); D &d = ds[k];
        switch (c.weighted({30, 20, 30, 25})) {
        case 0: { d.arg = c.chance(25) ? 0 : (int)c.below(50) - 5; d.cb = c.weighted({4, 4, 2}); trace += sprintf_("register %zu cb%d arg %d\n", k, d.cb, d.arg); int rc = cligen_regfd(d.a, d.cb == 2 ? cb2 : d.cb ? cb1 : cb0, (void *)(long)d.arg); CHECK(c, rc == 0, "reg", "registering fails"); d.reg = true; break; }
        case 1: { trace += sprintf_("unregister %zu\n", k); int rc = cligen_unregfd(d.a); CHECK(c, rc == (d.reg ? 0 : -1), "unreg", "unregistering descriptor %zu, which is %sregistered, returns %d\n%s", k, d.reg ? "" : "not ", rc, trace.c_str()); if (d.reg) unreg = true; d.reg = false; break; }
        case 2: { int n = 1 + c.below(3); trace += sprintf_("%d to %zu\n", n, k); if (write(d.b, "xyz", (size_t)n) == n) d.pend += n; break; }
        case 3: { std::string l = c.str("ab", 1, 4); trace += "line " + l + "\n"; term_input(l + "\n"); size_t key = 0; std::string bad;
            auto step = [&]() {
                std::vector<std::string> want; std::vector<D *> wd; bool one = false; for (auto &x : ds) if (x.reg && x.pend) { want.push_back(sprintf_("%d:%d:%ld:1", x.cb, x.a, (long)x.arg)); wd.push_back(&x); if (x.cb == 2) one = true; if (unreg) nt = true; }
                bool ok = true; std::vector<std::string> got = seen;
                if (!one) { ok = sorted(want) == sorted(seen); for (auto x : wd) x->pend--; }
                else { /* one unregisters itself: the others may be served before the next key */
                    for (size_t w = 0; w < want.size(); w++) { auto it = std::find(got.begin(), got.end(), want[w]); if (it == got.end()) continue; got.erase(it); wd[w]->pend--; if (wd[w]->cb == 2) { wd[w]->reg = false; unreg = true; } } ok = got.empty() && !seen.empty(); c.label("unregisters itself"); }
                if (hooked != wanthook) { ok = false; }
                if (!ok && bad.empty()) bad = sprintf_("before key %zu called%s expected%s, interrupt hook called %d times of %d", key, sorted(seen).c_str(), sorted(want).c_str(), hooked, wanthook); seen.clear(); key++; };
            hooked = wanthook = 0; cligen_interrupt_hook(r.h, usehook ? hook : nullptr); on_select = [&]() { if (!c.chance(12)) return 0; if (usehook) wanthook++; trace += "interrupted\n"; c.label("interrupted"); return EINTR; };
            seen.clear(); on_key = step; char *ln = nullptr; int rc = cliread(r.h, &ln); on_key = nullptr; on_select = nullptr; cligen_interrupt_hook(r.h, nullptr); std::string got = ln ? ln : ""; CHECK(c, bad.empty(), "served", "%s\n(callback:descriptor:argument:bytes)\n%s", bad.c_str(), trace.c_str()); CHECK(c, rc == 0 && got == l, "line", "line '%s' is read as '%s'", l.c_str(), esc(got).c_str()); break; }
        }
    }
    c.note("%s", trace.c_str()); if (nt) c.nontrivial(trace);
}
