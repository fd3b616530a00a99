#include "vf.h"
#include "vf_sys.h"
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio_ext.h>
#include <signal.h>
#include <termios.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <sanitizer/common_interface_defs.h>
namespace vf {
std::string term_out, err_out; static std::string tin; static size_t tpos; uint64_t term_reads, term_eofs, term_max_eofs = 100000;
bool impatient; std::function<void()> on_key; std::function<int()> on_eof, on_select;
static bool tty = true; static int trows, tcols; int kills, last_kill_sig, last_kill_pid, forks, waits;
static std::vector<pid_t> mykids;
void term_input(const std::string &k) { tin = k; tpos = 0; }
size_t term_pending() { return tin.size() - tpos; }
void term_tty(bool on, int r, int c) { tty = on; trows = r; tcols = c; }
static ssize_t ck_out(void *, const char *b, size_t n) { if (term_out.size() < (64u << 20)) term_out.append(b, n); return (ssize_t)n; }
static ssize_t ck_err(void *, const char *b, size_t n) { if (err_out.size() < (1u << 20)) err_out.append(b, n); return (ssize_t)n; }
static int nextkey() {
    if (on_key) on_key();
    term_reads++;
    if (tpos < tin.size()) return (unsigned char)tin[tpos++];
    if (on_eof) { int c = on_eof(); if (c >= 0 || c < -1) return c; }
    if (++term_eofs > term_max_eofs) { fprintf(stderr, "end of input read over and over\n"); term_eofs = 0; raise(SIGABRT); }
    return -1;
}
static ssize_t ck_in(void *, char *b, size_t n) { int c = nextkey(); if (c < 0) return 0; *b = (char)c; size_t k = 1; if (!on_key) while (k < n && tpos < tin.size()) b[k++] = tin[tpos++]; return (ssize_t)k; }   /* a buffered reader takes all that was typed, as of a real terminal */
void term_reset() {
    static bool once = false;
    if (!once) {
        once = true;
        cookie_io_functions_t o = {nullptr, ck_out, nullptr, nullptr}, e = {nullptr, ck_err, nullptr, nullptr}, i = {ck_in, nullptr, nullptr, nullptr};
        stdout = fopencookie(nullptr, "w", o); setvbuf(stdout, nullptr, _IONBF, 0);
        stderr = fopencookie(nullptr, "w", e); setvbuf(stderr, nullptr, _IONBF, 0);
        stdin = fopencookie(nullptr, "r", i);
    }
    clearerr(stdin); __fpurge(stdin); clearerr(stdout); fflush(stdout);
    term_out.clear(); err_out.clear(); tin.clear(); tpos = 0; term_reads = term_eofs = 0; on_key = nullptr; on_eof = nullptr; on_select = nullptr; tty = true; trows = tcols = 0; kills = 0; forks = waits = 0; mykids.clear(); impatient = false; term_max_eofs = 100000;
}
/* --- allocation table: open addressing on pointers --- */
static bool tracking; static long live; static long acount, failat; static bool failed_; static void *failpc[24];
struct E { void *p; void *pc[3]; size_t n; };
static E *tab; static size_t tcap, tused;
static size_t hp(void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9E3779B97F4A7C15ULL; return x >> 20; }
static void tput(E e);
static void tgrow() { size_t oc = tcap; E *o = tab; tcap = tcap ? tcap * 2 : 1 << 14; tab = (E *)calloc(tcap, sizeof(E)); tused = 0; for (size_t i = 0; i < oc; i++) if (o[i].p) tput(o[i]); free(o); }
static void tput(E e) { if (tused * 2 >= tcap) tgrow(); size_t i = hp(e.p) & (tcap - 1); while (tab[i].p) i = (i + 1) & (tcap - 1); tab[i] = e; tused++; }
static bool tdel(void *p) {
    if (!tcap) return false;
    size_t i = hp(p) & (tcap - 1);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (tcap - 1);
    if (!tab[i].p) return false;
    tab[i].p = nullptr; tused--;
    for (size_t j = (i + 1) & (tcap - 1); tab[j].p; j = (j + 1) & (tcap - 1)) { E e = tab[j]; tab[j].p = nullptr; tused--; tput(e); }
    return true;
}
void alloc_track(bool on) { if (on) { if (tab) memset(tab, 0, tcap * sizeof(E)); tused = 0; live = 0; } tracking = on; acount = 0; failat = 0; failed_ = false; }
long alloc_live() { return live; }
void alloc_fail_at(long n) { acount = 0; failat = n; failed_ = false; }
void alloc_fail_stop() { failat = 0; }
long alloc_count() { return acount; }
bool alloc_failed() { return failed_; }
static std::string sym(void *pc) { char b[512] = ""; __sanitizer_symbolize_pc((char *)pc - 1, "%f %S", b, sizeof b); const char *s = strrchr(b, '/'); std::string f(b); size_t sp = f.find(' '); return f.substr(0, sp) + (s ? std::string("@") + (s + 1) : ""); }
std::string alloc_fail_site() { std::string s; for (int i = 0; i < 5 && failpc[i]; i++) s += (i ? " < " : "") + sym(failpc[i]); return s; }
std::string alloc_report(int max) { std::string s; for (size_t i = 0; i < tcap && max > 0; i++) if (tab[i].p) { s += sprintf_("  %zu bytes from ", tab[i].n); for (int k = 0; k < 3 && tab[i].pc[k]; k++) s += (k ? " < " : "") + sym(tab[i].pc[k]); s += "\n"; max--; } return s; }
static bool shouldfail() { acount++; if (failat && acount == failat) { failed_ = true; return true; } return false; }
}
using namespace vf;
#define PCS __builtin_return_address(0)
static void *bt_(int n) { return nullptr; }
static inline void fill(void **pc, void *fp, void *ra, int n) {
    pc[0] = ra; void **f = (void **)fp; 
    for (int i = 1; i < n; i++) { pc[i] = nullptr; if (!f || (uintptr_t)f & 7) break; void **nf = (void **)f[0]; if (nf <= f || (char *)nf - (char *)f > (1 << 20)) break; pc[i] = nf[1]; f = nf; }
    (void)bt_;
}
#define TRACK(q, sz) do { if (tracking && (q)) { E e; e.p = (q); e.n = (sz); fill(e.pc, __builtin_frame_address(0), PCS, 3); tput(e); live++; } } while (0)
#define FAILP() if (shouldfail()) { memset(failpc, 0, sizeof failpc); fill(failpc, __builtin_frame_address(0), PCS, 5); errno = ENOMEM; return nullptr; }
extern "C" {
void *vf_malloc(size_t n) { if (!tracking && !failat) return malloc(n); FAILP(); void *p = malloc(n); TRACK(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { if (!tracking && !failat) return calloc(a, b); FAILP(); void *p = calloc(a, b); TRACK(p, a * b); return p; }
void *vf_realloc(void *o, size_t n) { if (!tracking && !failat) return realloc(o, n); FAILP(); bool t = tracking && o && tdel(o); if (t) live--; void *p = realloc(o, n); if (tracking && (t || !o)) TRACK(p, n); return p; }
void vf_free(void *p) { if (tracking && p && tdel(p)) live--; free(p); }
char *vf_strdup(const char *s) { if (!tracking && !failat) return strdup(s); FAILP(); char *p = strdup(s); TRACK(p, strlen(s) + 1); return p; }
char *vf_strndup(const char *s, size_t n) { if (!tracking && !failat) return strndup(s, n); FAILP(); char *p = strndup(s, n); TRACK(p, n + 1); return p; }
ssize_t vf_read(int fd, void *b, size_t n) { if (fd != 0) return read(fd, b, n); if (n == 0) return 0; int c = nextkey(); if (c < -1) { errno = -c; return -1; } if (c < 0) return 0; *(char *)b = (char)c; return 1; }
ssize_t vf_write(int fd, const void *b, size_t n) { if (fd == 1) { ck_out(nullptr, (const char *)b, n); return (ssize_t)n; } if (fd == 2) { ck_err(nullptr, (const char *)b, n); return (ssize_t)n; } return write(fd, b, n); }
int vf_select(int nf, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (r && FD_ISSET(0, r) && on_select) { int e = on_select(); if (e) { errno = e; return -1; } }
    if (r && FD_ISSET(0, r)) { /* key board is always ready; other descriptors are polled for real */
        struct timeval z = {0, 0}; fd_set rr = *r; FD_CLR(0, &rr); int k = select(nf, &rr, nullptr, nullptr, &z); if (k < 0) k = 0; if (k == 0) FD_ZERO(&rr); FD_SET(0, &rr); *r = rr; if (w) FD_ZERO(w); if (x) FD_ZERO(x); return k + 1; }
    if (impatient && tv && (tv->tv_sec || tv->tv_usec)) { struct timeval z = {0, 0}; int k = select(nf, r, w, x, &z); if (k == 0) { usleep(100); tv->tv_sec = tv->tv_usec = 0; } return k; }
    return select(nf, r, w, x, tv);
}
int vf_poll(struct pollfd *f, nfds_t n, int ms) { if (impatient && ms > 0) { int k = poll(f, n, 0); if (k == 0) usleep(100); return k; } return poll(f, n, ms); }
int vf_isatty(int fd) { if (fd <= 2) { if (!tty) errno = ENOTTY; return tty; } return isatty(fd); }
int vf_tcgetattr(int fd, struct termios *t) { if (fd > 2) return tcgetattr(fd, t); memset(t, 0, sizeof *t); if (!tty) { errno = ENOTTY; return -1; } t->c_cc[VINTR] = 3; t->c_cc[VQUIT] = 28; t->c_cc[VSUSP] = 26; t->c_cc[VEOF] = 4; return 0; }
int vf_tcsetattr(int fd, int a, const struct termios *t) { if (fd > 2) return tcsetattr(fd, a, t); if (!tty) { errno = ENOTTY; return -1; } return 0; }
int vf_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap); if (fd <= 2 && req == TIOCGWINSZ && tty && (trows || tcols)) { struct winsize *w = (struct winsize *)p; memset(w, 0, sizeof *w); w->ws_row = (unsigned short)trows; w->ws_col = (unsigned short)tcols; return 0; } if (fd <= 2) { errno = ENOTTY; return -1; } return ioctl(fd, req, p); }
int vf_kill(pid_t p, int s) { kills++; last_kill_pid = (int)p; last_kill_sig = s; for (pid_t k : mykids) if (k == p) return kill(p, s); return 0; }
pid_t vf_fork(void) { pid_t p = fork(); if (p > 0) { forks++; mykids.push_back(p); } return p; }
pid_t vf_waitpid(pid_t p, int *st, int o) { pid_t r = waitpid(p, st, o); if (r > 0) { waits++; for (size_t i = 0; i < mykids.size(); i++) if (mykids[i] == r) { mykids.erase(mykids.begin() + i); break; } } return r; }
int vf_raise(int s) { kills++; last_kill_pid = 0; last_kill_sig = s; return 0; }
}
/* compiled patterns count as allocations of the library */
#include <regex.h>
extern "C" { void *xmlRegexpCompile(const unsigned char *); void xmlRegFreeRegexp(void *);
int vf_regcomp(regex_t *re, const char *p, int f) { int r = regcomp(re, p, f); if (r == 0) TRACK(((char *)re) + 1, sizeof *re); return r; }
void vf_regfree(regex_t *re) { if (tracking && tdel(((char *)re) + 1)) live--; regfree(re); }
void *vf_xmlRegexpCompile(const unsigned char *p) { void *x = xmlRegexpCompile(p); TRACK(x, 1); return x; }
void vf_xmlRegFreeRegexp(void *x) { if (tracking && x && tdel(x)) live--; xmlRegFreeRegexp(x); }
}
namespace vf { void lib_free(void *p) { vf_free(p); } }
