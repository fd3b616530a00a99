/* Property-based testing framework: choice-sequence generation, coverage guidance,
 * forked workers, shrinking, replay. See DESIGN.md. */
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>

namespace vf {

struct CaseEnd {};   /* thrown by Case::done()/known() from harness code only */

struct Case {
    /* ---- choices (0 is always the simplest) ---- */
    uint32_t below(uint32_t n);                      /* uniform in [0,n) */
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool flip() { return below(2) != 0; }
    bool chance(unsigned percent) { return below(100) >= 100 - percent; }
    /* small number: geometric-ish in [0,max] */
    int small(int max);
    uint64_t bits(int n) { uint64_t v = 0; for (int i = 0; i < n; i += 16) v = (v << 16) | below(65536); return n >= 64 ? v : v & ((1ULL << n) - 1); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    const char *pickc(std::initializer_list<const char *> l) { return *(l.begin() + below((uint32_t)l.size())); }
    char pickch(const char *s) { return s[below((uint32_t)strlen(s))]; }
    int weighted(std::initializer_list<int> w);      /* index, first is simplest */
    std::string str(const char *alphabet, int min, int max);
    /* ---- reporting ---- */
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void nontrivial(const std::string &key);          /* this case counts, keyed for distinctness */
    void label(const char *name, uint64_t n = 1);
    void known(const char *id);                      /* hit a recorded known finding: count, end case */
    void done() { throw CaseEnd(); }
    bool verbose = false;
    uint64_t index = 0;
};

std::string esc(const std::string &s);              /* printable form */
std::string sprintf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash(const std::string &s);

} // namespace vf

/* Provided by each property file */
extern "C" const char *vf_property_id;
extern const char *vf_rule;                          /* non-triviality rule for the evidence */
void vf_init();                                      /* once per worker process */
void vf_case(vf::Case &c);

#define CHECK(c, cond, tag, ...) do { if (!(cond)) (c).fail(tag, __VA_ARGS__); } while (0)
