#include "vf.h"
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

using namespace vf;

/* ------------------------------------------------------------------ shared memory */
static const int MAXW = 16;
static const int MAXCHOICES = 60000;
static const int NOTESZ = 1 << 16;
struct Label { char name[56]; uint64_t n; };
struct Slot {
    volatile uint64_t cur, done, startidx;   /* current case, cases done, first case of this incarnation */
    volatile int running, finished, failed;
    uint32_t nchoices; uint32_t choices[MAXCHOICES]; volatile int overflow;
    uint32_t nbounds; 
    volatile uint32_t notelen; char note[NOTESZ];
    char tag[64]; char msg[8192]; char report[16384]; volatile uint32_t reportlen;
    Label labels[96];
    uint64_t nontrivial, distinct, discarded, choices_total, covnew;
};
struct Sample { volatile int used; char text[1500]; };
struct Shm { Slot w[MAXW]; Sample samples[16]; volatile uint32_t nsamples; };
static Shm *shm; static Slot *S;
static uint64_t *dtab; static uint64_t dtabn = 1 << 22;

/* ------------------------------------------------------------------ choice source */
static uint64_t rs;
static uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static const uint32_t *pre; static uint32_t npre; static bool zero_tail;
static std::string cur_key; static bool cur_nontrivial;

uint32_t Case::below(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (S->nchoices < npre) { v = pre[S->nchoices]; if (v >= n) v = zero_tail ? n - 1 : v % n; }
    else if (zero_tail || S->nchoices >= MAXCHOICES) v = 0;
    else v = (uint32_t)(rnd() >> 11) % n;
    if (S->nchoices < MAXCHOICES) S->choices[S->nchoices++] = v; else S->overflow = 1;
    return v;
}
int Case::small(int max) {
    /* one choice in a skewed table: half of the mass below ~max/6 */
    uint32_t v = below(64); 
    if (max <= 0) return 0;
    if (v < 48) { int lim = max < 4 ? max : (max / 6 > 3 ? max / 6 : 3); return (int)(v * (uint32_t)(lim + 1) / 48); }
    return (int)below((uint32_t)max + 1);
}
int Case::weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int v = (int)below((uint32_t)t), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
std::string Case::str(const char *a, int min, int max) {
    int n = min + small(max - min); std::string s; uint32_t al = (uint32_t)strlen(a);
    for (int i = 0; i < n; i++) s += a[below(al)];
    return s;
}
void Case::note(const char *fmt, ...) {
    uint32_t l = S->notelen; if (l + 2 >= NOTESZ) return;
    va_list ap; va_start(ap, fmt); int n = vsnprintf(S->note + l, NOTESZ - l - 1, fmt, ap); va_end(ap);
    if (n < 0) n = 0;
    if (l + (uint32_t)n >= NOTESZ - 2) n = (int)(NOTESZ - 2 - l);
    S->note[l + n] = '\n'; S->note[l + n + 1] = 0; S->notelen = l + n + 1;
}
void Case::fail(const char *tag, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
    snprintf(S->tag, sizeof S->tag, "%s", tag);
    S->failed = 1; _exit(70);
}
void Case::nontrivial(const std::string &key) { cur_nontrivial = true; cur_key += key; cur_key += '\1'; }
void Case::label(const char *name, uint64_t n) {
    for (int i = 0; i < 96; i++) {
        Label &l = S->labels[i];
        if (!l.name[0]) { snprintf(l.name, sizeof l.name, "%s", name); l.n = n; return; }
        if (!strncmp(l.name, name, sizeof l.name - 1)) { l.n += n; return; }
    }
}
void Case::known(const char *id) { label((std::string("known:") + id).c_str()); throw CaseEnd(); }

namespace vf {
uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; return h ? h : 1; }
std::string esc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
    return o;
}
std::string sprintf_(const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *p = nullptr; if (vasprintf(&p, fmt, ap) < 0) p = nullptr; va_end(ap); std::string s(p ? p : ""); free(p); return s; }
}

/* ------------------------------------------------------------------ coverage guidance */
static uint8_t *cov_b, *cov_e; static uint8_t *virgin;
extern "C" void __sanitizer_cov_8bit_counters_init(char *b, char *e) {
    if (b == e) return;
    if (!cov_b || (uint8_t *)b < cov_b) cov_b = (uint8_t *)b;
    if ((uint8_t *)e > cov_e) cov_e = (uint8_t *)e;
}
static bool cov_new() {
    if (!cov_b) return false;
    size_t n = cov_e - cov_b; bool nw = false;
    static const uint8_t cls[256] = {0};
    (void)cls;
    for (size_t i = 0; i < n;) {
        if (i + 8 <= n && *(uint64_t *)(cov_b + i) == 0) { i += 8; continue; }
        uint8_t v = cov_b[i];
        if (v) { uint8_t c = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
            if (!(virgin[i] & c)) { virgin[i] |= c; nw = true; } }
        i++;
    }
    return nw;
}
static std::vector<std::vector<uint32_t>> corpus;
static std::vector<uint32_t> mutate(const std::vector<uint32_t> &a) {
    std::vector<uint32_t> r = a;
    int n = 1 + (int)(rnd() % 4);
    for (int k = 0; k < n; k++) {
        if (r.empty()) break;
        size_t p = rnd() % r.size();
        switch (rnd() % 8) {
        case 0: case 1: r[p] = (uint32_t)(rnd() >> 20); break;
        case 2: r[p] = r[p] + (uint32_t)(rnd() % 7) - 3; break;
        case 3: r.resize(p); break;                                        /* random tail */
        case 4: { size_t l = 1 + rnd() % 8; r.erase(r.begin() + p, r.begin() + std::min(r.size(), p + l)); break; }
        case 5: { size_t l = 1 + rnd() % 8; std::vector<uint32_t> t; for (size_t i = 0; i < l; i++) t.push_back((uint32_t)(rnd() >> 20)); r.insert(r.begin() + p, t.begin(), t.end()); break; }
        case 6: { size_t l = 1 + rnd() % 16; size_t e = std::min(r.size(), p + l); std::vector<uint32_t> t(r.begin() + p, r.begin() + e); r.insert(r.begin() + p, t.begin(), t.end()); break; }
        case 7: { const auto &b = corpus[rnd() % corpus.size()]; if (b.empty()) break; size_t q = rnd() % b.size(); r.resize(p); r.insert(r.end(), b.begin() + q, b.end()); break; }
        }
    }
    if (r.size() > MAXCHOICES) r.resize(MAXCHOICES);
    return r;
}

/* ------------------------------------------------------------------ running cases */
static uint64_t seed = 1; static int nworkers = 8; static uint64_t ncases = 1000; static double tlimit = 600; static bool guided = true;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void asan_cb(const char *r) { snprintf(S->report, sizeof S->report, "%s", r); S->reportlen = (uint32_t)strlen(S->report); }

static void reset_slot(Slot *s) { s->nchoices = 0; s->overflow = 0; s->notelen = 0; s->note[0] = 0; s->failed = 0; s->tag[0] = 0; s->msg[0] = 0; s->report[0] = 0; s->reportlen = 0; }
static void exec_case(uint64_t idx) {
    Case c; c.index = idx; cur_key.clear(); cur_nontrivial = false;
    try { vf_case(c); } catch (CaseEnd &) {}
}
static void child_setup(int wi, const char *errfile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    S = &shm->w[wi];
    int fd = open(errfile, O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_RDWR); if (fd >= 0) { dup2(fd, 0); dup2(fd, 1); close(fd); }
    __asan_set_error_report_callback(asan_cb);
    struct rlimit rl = {1 << 28, 1 << 28}; setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPIPE, SIG_IGN);
}
static std::string errfile(int wi) { return sprintf_("/tmp/vf_%d_%d.err", (int)getpid(), wi); }
static void worker(int wi, uint64_t start, const std::string &ef) {
    child_setup(wi, ef.c_str());
    vf_init();
    if (cov_b) virgin = (uint8_t *)calloc(1, cov_e - cov_b);
    corpus.clear();
    S->startidx = start;
    double t0 = now();
    for (uint64_t i = start; i < ncases; i += nworkers) {
        if ((i / nworkers) % 16 == 0 && now() - t0 > tlimit) break;
        rs = hash(sprintf_("%s/%llu/%llu", vf_property_id, (unsigned long long)seed, (unsigned long long)i));
        std::vector<uint32_t> m; pre = nullptr; npre = 0; zero_tail = false;
        if (guided && corpus.size() > 8 && rnd() % 100 < 40) {
            size_t k = (rnd() & 1) ? rnd() % corpus.size() : corpus.size() - 1 - rnd() % std::min<size_t>(corpus.size(), 64);
            m = mutate(corpus[k]); pre = m.data(); npre = (uint32_t)m.size();
        }
        reset_slot(S); S->cur = i; S->running = 1;
        if (virgin) memset(cov_b, 0, cov_e - cov_b);
        exec_case(i);
        S->running = 0; S->done++; S->choices_total += S->nchoices;
        if (virgin && cov_new()) { S->covnew++; if (corpus.size() < 3000 && S->nchoices < 4000) corpus.emplace_back(S->choices, S->choices + S->nchoices); }
        if (cur_nontrivial) {
            S->nontrivial++;
            uint64_t hsh = hash(cur_key), p = hsh & (dtabn - 1); int probes = 0;
            for (; probes < 64; probes++, p = (p + 1) & (dtabn - 1)) {
                uint64_t o = __atomic_load_n(&dtab[p], __ATOMIC_RELAXED);
                if (o == hsh) break;
                if (o == 0) { uint64_t z = 0; if (__atomic_compare_exchange_n(&dtab[p], &z, hsh, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { S->distinct++; break; } if (z == hsh) break; }
            }
            if (S->nontrivial % 97 == 5 || S->nontrivial < 2) {
                uint32_t k = __atomic_load_n(&shm->nsamples, __ATOMIC_RELAXED);
                if (k < 16) { k = __atomic_fetch_add(&shm->nsamples, 1, __ATOMIC_RELAXED); if (k < 16) { snprintf(shm->samples[k].text, sizeof shm->samples[k].text, "%s", S->note); shm->samples[k].used = 1; } }
            }
        } else S->discarded++;
    }
    S->finished = 1;
    _exit(0);
}
static double cputime(pid_t p) {
    char f[64], b[1024]; snprintf(f, sizeof f, "/proc/%d/stat", p); FILE *fp = fopen(f, "r"); if (!fp) return 0;
    size_t n = fread(b, 1, sizeof b - 1, fp); fclose(fp); b[n] = 0; char *q = strrchr(b, ')'); if (!q) return 0;
    unsigned long u = 0, s = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
    return (u + s) / (double)sysconf(_SC_CLK_TCK);
}
static const double HANG_CPU = 10, HANG_WALL = 90;
struct Fail { bool failed = false; std::string tag, msg, note; std::vector<uint32_t> ch; };
static std::string tailfile(const std::string &f) { std::string s; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) { s.append(b, n); if (s.size() > 200000) s.erase(0, 100000); } fclose(fp); if (s.size() > 12000) s.erase(0, s.size() - 12000); return s; }
static Fail collect(Slot *s, int st, const char *hang, const std::string &ef) {
    Fail f; f.failed = true; f.note = s->note; f.ch.assign(s->choices, s->choices + s->nchoices);
    if (hang) { f.tag = "hang"; f.msg = hang; }
    else if (s->failed) { f.tag = s->tag; f.msg = s->msg; }
    else {
        f.tag = "crash"; f.msg = WIFSIGNALED(st) ? sprintf_("killed by signal %d\n", WTERMSIG(st)) : sprintf_("unexpected exit status %d\n", WEXITSTATUS(st));
        if (s->reportlen) f.msg += s->report; else f.msg += tailfile(ef);
    }
    return f;
}
/* Execute one choice sequence in a forked child */
static Fail run_choices(const std::vector<uint32_t> &ch, double hangcpu = HANG_CPU) {
    int wi = MAXW - 1; Slot *s = &shm->w[wi]; reset_slot(s); s->finished = 0;
    std::string ef = errfile(wi);
    pid_t p = fork();
    if (p == 0) {
        child_setup(wi, ef.c_str()); vf_init();
        if (cov_b) virgin = (uint8_t *)calloc(1, cov_e - cov_b);
        pre = ch.data(); npre = (uint32_t)ch.size(); zero_tail = true; reset_slot(S);
        exec_case(0); S->finished = 1; _exit(0);
    }
    double t0 = now(); int st; const char *hang = nullptr; useconds_t us = 200;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > 1 && (cputime(p) > hangcpu || now() - t0 > HANG_WALL)) { hang = "case does not terminate"; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(us); if (us < 20000) us += us / 4;
    }
    Fail f; if (s->finished && !hang) { f.note = s->note; unlink(ef.c_str()); return f; }
    f = collect(s, st, hang, ef); unlink(ef.c_str()); return f;
}
static Fail shrink(Fail best, double budget) {
    double t0 = now(); int execs = 0; bool hang = best.tag == "hang"; int maxexec = hang ? 10 : 4000;
    std::string tag = best.tag;
    auto tryit = [&](const std::vector<uint32_t> &c) -> bool {
        if (execs >= maxexec || now() - t0 > budget) return false;
        execs++; Fail f = run_choices(c, hang ? 5 : HANG_CPU);
        if (!f.failed || f.tag != tag) return false;
        /* keep what was consumed, strip trailing zeros */
        while (!f.ch.empty() && f.ch.back() == 0) f.ch.pop_back();
        if (f.ch.size() > c.size()) return false;
        best = f; return true;
    };
    bool progress = true;
    { auto c = best.ch; while (!c.empty() && c.back() == 0) c.pop_back(); if (c.size() < best.ch.size()) tryit(c); }
    while (progress && now() - t0 < budget && execs < maxexec) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i < best.ch.size();) {
                auto c = best.ch; size_t e = std::min(c.size(), i + len); c.erase(c.begin() + i, c.begin() + e);
                if (tryit(c)) progress = true; else i += len;
                if (now() - t0 > budget) break;
            }
            if (len == 1) break;
        }
        /* delete pairs: element + decrement of an earlier count */
        for (size_t i = 0; i < best.ch.size() && now() - t0 < budget; i++) {
            if (best.ch[i] == 0) continue;
            for (size_t l = 1; l <= 6 && i + 1 + l <= best.ch.size(); l++) { auto c = best.ch; if (c[i] == 0) break; c[i]--; c.erase(c.begin() + i + 1, c.begin() + i + 1 + l); if (tryit(c)) { progress = true; break; } }
        }
        for (size_t i = 0; i < best.ch.size() && now() - t0 < budget; i++) {
            if (i >= best.ch.size() || best.ch[i] == 0) continue;
            auto c = best.ch; c[i] = 0; if (tryit(c)) { progress = true; continue; }
            uint32_t lo = 0, hi = i < best.ch.size() ? best.ch[i] : 0;
            while (lo + 1 < hi && i < best.ch.size()) { uint32_t mid = lo + (hi - lo) / 2; c = best.ch; c[i] = mid; if (tryit(c)) { progress = true; if (i >= best.ch.size()) break; hi = best.ch[i]; } else lo = mid; }
        }
    }
    return best;
}
static std::string jesc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

int main(int argc, char **argv) {
    std::string out, replay, replayout, tier = "quick"; int shrinkbudget = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") ncases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") nworkers = atoi(nx().c_str()); else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replay-out") replayout = nx();
        else if (a == "--unguided") guided = false; else if (a == "--shrink") shrinkbudget = atoi(nx().c_str());
    }
    if (nworkers > MAXW - 1) nworkers = MAXW - 1;
    shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    dtab = (uint64_t *)mmap(0, dtabn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED || dtab == MAP_FAILED) { perror("mmap"); return 2; }
    setenv("TZ", "UTC", 1); tzset();

    auto run_seq = [&](uint64_t start, uint64_t idx) -> Fail { /* re-run a worker's sequence */
        int wi = MAXW - 1; Slot *s = &shm->w[wi]; reset_slot(s); s->finished = 0; s->cur = 0; std::string ef = errfile(wi);
        uint64_t save = ncases; ncases = idx + 1; pid_t p = fork(); if (p == 0) worker(wi, start, ef);
        ncases = save; int st; double t0 = now(), tc = t0, cc = 0; uint64_t cur = ~0ULL; const char *hang = nullptr;
        for (;;) { if (waitpid(p, &st, WNOHANG) == p) break; if (s->cur != cur) { cur = s->cur; tc = now(); cc = cputime(p); } if (now() - tc > 1 && (cputime(p) - cc > HANG_CPU || now() - tc > HANG_WALL)) { hang = "case does not terminate"; kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(5000); }
        Fail f; if (!(s->finished && !hang)) f = collect(s, st, hang, ef);
        unlink(ef.c_str()); return f;
    };
    if (!replay.empty()) {
        /* replay file: JSON with "choices":[...] or "seq":{seed,start,index,workers} */
        FILE *fp = fopen(replay.c_str(), "r"); if (!fp) { perror(replay.c_str()); return 2; }
        std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) t.append(b, n); fclose(fp);
        Fail f; size_t p = t.find("\"seq\":");
        if (p != std::string::npos) { unsigned long long sd, st, ix; int wk; if (sscanf(t.c_str() + p, "\"seq\": {\"seed\": %llu, \"start\": %llu, \"index\": %llu, \"workers\": %d}", &sd, &st, &ix, &wk) != 4) return 2; seed = sd; nworkers = wk; tlimit = 1e9; f = run_seq(st, ix); }
        else { p = t.find("\"choices\":"); if (p == std::string::npos) return 2; p = t.find('[', p); std::vector<uint32_t> ch; const char *q = t.c_str() + p + 1; while (*q && *q != ']') { char *e; ch.push_back((uint32_t)strtoul(q, &e, 10)); if (e == q) break; q = e; while (*q == ',' || *q == ' ' || *q == '\n') q++; } f = run_choices(ch); }
        if (f.failed) { printf("FAILED %s: %s\n--- trace\n%s\n", f.tag.c_str(), f.msg.c_str(), f.note.c_str()); return 1; }
        printf("passed\n--- trace\n%s\n", f.note.c_str()); return 0;
    }
    double T0 = now(); pid_t pids[MAXW] = {0}; double tcase[MAXW], ccase[MAXW]; uint64_t curc[MAXW];
    for (int w = 0; w < nworkers; w++) { curc[w] = ~0ULL; tcase[w] = now(); ccase[w] = 0; std::string ef = errfile(w); pids[w] = fork(); if (pids[w] == 0) worker(w, w, ef); }
    int alive = nworkers; Fail fl; int flw = -1; uint64_t flidx = 0, flstart = 0; int unrepro = 0; bool viol = false; std::string rjson;
    while (alive > 0) {
        bool any = false; int st; const char *hang = nullptr; int wdead = -1;
        for (int w = 0; w < nworkers; w++) {
            if (!pids[w]) continue;
            Slot *s = &shm->w[w];
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) { any = true; pids[w] = 0; alive--; if (!s->finished) { wdead = w; break; } unlink(errfile(w).c_str()); continue; }
            if (s->cur != curc[w] || !s->running) { curc[w] = s->cur; tcase[w] = now(); ccase[w] = cputime(pids[w]); }
            else if (now() - tcase[w] > 2 && (cputime(pids[w]) - ccase[w] > HANG_CPU || now() - tcase[w] > HANG_WALL)) { hang = "case does not terminate"; kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; alive--; wdead = w; any = true; break; }
        }
        if (wdead >= 0) {
            Slot *s = &shm->w[wdead]; fl = collect(s, st, hang, errfile(wdead)); flw = wdead; flidx = s->cur; flstart = s->startidx;
            for (int w = 0; w < nworkers; w++) if (pids[w]) kill(pids[w], SIGSTOP);
            Fail g = run_choices(fl.ch);
            bool seqmode = false; 
            if (!g.failed) { Fail q = run_seq(flstart, flidx); if (q.failed) { seqmode = true; g = q; } }
            if (g.failed) {
                Fail m = g; int ok = 0;
                if (!seqmode) m = shrink(g, shrinkbudget);
                for (int k = 0; k < 3; k++) { Fail r = seqmode ? run_seq(flstart, flidx) : run_choices(m.ch); if (r.failed) ok++; }
                if (ok == 3) {
                    viol = true; fl = m;
                    rjson = sprintf_("{\"property\": \"%s\", \"tag\": \"%s\", \"message\": \"%s\",\n \"trace\": \"%s\",\n ", vf_property_id, jesc(m.tag).c_str(), jesc(m.msg).c_str(), jesc(m.note).c_str());
                    if (seqmode) rjson += sprintf_("\"seq\": {\"seed\": %llu, \"start\": %llu, \"index\": %llu, \"workers\": %d}}\n", (unsigned long long)seed, (unsigned long long)flstart, (unsigned long long)flidx, nworkers);
                    else { rjson += "\"choices\": ["; for (size_t i = 0; i < m.ch.size(); i++) rjson += sprintf_("%s%u", i ? "," : "", m.ch[i]); rjson += "]}\n"; }
                }
            }
            if (viol) { for (int w = 0; w < nworkers; w++) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; unlink(errfile(w).c_str()); } unlink(errfile(wdead).c_str()); alive = 0; break; }
            unrepro++;
            for (int w = 0; w < nworkers; w++) if (pids[w]) { kill(pids[w], SIGCONT); tcase[w] = now(); ccase[w] = cputime(pids[w]); }
            if (flidx + nworkers < ncases && unrepro < 200) { std::string ef = errfile(wdead); s->finished = 0; curc[wdead] = ~0ULL; tcase[wdead] = now(); ccase[wdead] = 0; pids[wdead] = fork(); if (pids[wdead] == 0) worker(wdead, flidx + nworkers, ef); alive++; }
            fprintf(stderr, "note: unreproducible failure %s: %s\n", fl.tag.c_str(), fl.msg.c_str());
        }
        if (!any) usleep(5000);
    }
    /* statistics */
    uint64_t done = 0, nt = 0, ds = 0, disc = 0, cht = 0, cn = 0; std::map<std::string, uint64_t> lab;
    for (int w = 0; w < nworkers; w++) { Slot &s = shm->w[w]; done += s.done; nt += s.nontrivial; ds += s.distinct; disc += s.discarded; cht += s.choices_total; cn += s.covnew; for (auto &l : s.labels) if (l.name[0]) lab[l.name] += l.n; }
    std::string j = sprintf_("{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"trivial\": %llu, \"avg_choices\": %.1f, \"coverage_increasing_cases\": %llu, \"unreproducible\": %d, \"wall_s\": %.2f, \"violation\": %s, \"rule\": \"%s\",\n \"labels\": {", (unsigned long long)done, (unsigned long long)nt, (unsigned long long)ds, (unsigned long long)disc, done ? cht / (double)done : 0.0, (unsigned long long)cn, unrepro, now() - T0, viol ? "true" : "false", jesc(vf_rule).c_str());
    bool first = true; for (auto &l : lab) { j += sprintf_("%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    j += "},\n \"samples\": ["; first = true; for (auto &s : shm->samples) if (s.used) { j += sprintf_("%s\"%s\"", first ? "" : ",\n  ", jesc(s.text).c_str()); first = false; } j += "]}\n";
    if (!out.empty()) { FILE *fp = fopen(out.c_str(), "w"); if (!fp) { perror(out.c_str()); return 2; } fwrite(j.data(), 1, j.size(), fp); fclose(fp); }
    if (viol) {
        if (!replayout.empty()) { FILE *fp = fopen(replayout.c_str(), "w"); if (!fp) { perror(replayout.c_str()); return 2; } fwrite(rjson.data(), 1, rjson.size(), fp); fclose(fp); }
        printf("FAILED %s: %s\n--- minimal case trace\n%s\n", fl.tag.c_str(), fl.msg.c_str(), fl.note.c_str());
        (void)flw; return 1;
    }
    return 0;
}
