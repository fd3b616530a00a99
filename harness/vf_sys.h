/* Controlled environment for the code under test: terminal, allocation accounting and fault injection. */
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <stdint.h>
#include <netinet/in.h>
#include <cligen/cligen.h>
namespace vf {
/* --- terminal --- */
extern std::string term_out;              /* everything written to fd 1 / stdout since cleared */
extern std::string err_out;               /* everything written to stderr by the library */
void term_input(const std::string &keys); /* set pending key strokes (replaces) */
size_t term_pending();                    /* keys not yet consumed */
extern uint64_t term_reads, term_eofs;    /* reads served / reads that found end of input */
extern uint64_t term_max_eofs;            /* more EOF reads than this in a case: the reader spins */
extern std::function<void()> on_key;      /* called before each key is delivered */
extern std::function<int()> on_select;    /* called when the prompt starts to wait: errno to fail with, or 0 */
extern std::function<int()> on_eof;       /* if set, called on exhausted input: -1 => EOF, less: read fails with that errno, else byte */
void term_reset();
void term_tty(bool on, int rows = 0, int cols = 0);      /* what isatty/TIOCGWINSZ tell; rows 0 with cols != 0: a serial line of unknown height */
extern int kills; extern int last_kill_sig, last_kill_pid;
extern int forks, waits;
extern bool impatient;                    /* waiting with a time limit ends at once if nothing is there */
/* --- allocation --- */
void alloc_track(bool on);                /* start/stop tracking; clears table on start */
long alloc_live();                        /* live blocks allocated by the library since tracking began */
std::string alloc_report(int max = 5);    /* call sites of live blocks */
void alloc_fail_at(long n);               /* n-th allocation from now fails once (0 = off) */
void alloc_fail_stop();                   /* no more failures; count and outcome stay */
long alloc_count();                       /* allocations since alloc_fail_at / alloc_track */
bool alloc_failed();
std::string alloc_fail_site();
/* the body of a case must give back everything the library allocated meanwhile */
template <class C, class F> void leakfree(C &c, F body) { alloc_track(true); body(); long n = alloc_live(); std::string rep = n ? alloc_report() : ""; alloc_track(false); CHECK(c, n == 0, "leak", "%ld blocks are still allocated after everything was freed:\n%s", n, rep.c_str()); }
void lib_free(void *p);                   /* free something the library allocated */
}
