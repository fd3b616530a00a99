/* Independent model of CLIgen values: reference literals, generation, printing. */
#pragma once
#include "vf.h"
#include "vf_sys.h"
#include <arpa/inet.h>
#include <sys/time.h>
#include <math.h>
namespace vf {
typedef __int128 i128;
struct Val {
    enum cv_type t = CGV_ERR;
    int64_t i = 0; uint64_t u = 0; int n = 0;          /* ints, dec64 (i scaled by 10^-n), bool in u */
    std::string s;                                    /* strings */
    unsigned char b[16] = {0}; int mask = 0;           /* addresses, mac, uuid */
    std::string proto, addr, path, user, pass;         /* url */
    int64_t sec = 0; int usec = 0;
    bool operator==(const Val &o) const { return t == o.t && i == o.i && u == o.u && n == o.n && s == o.s && !memcmp(b, o.b, 16) && mask == o.mask && proto == o.proto && addr == o.addr && path == o.path && user == o.user && pass == o.pass && sec == o.sec && usec == o.usec; }
};
bool is_signed(enum cv_type t);
bool is_unsigned(enum cv_type t);
int bits_of(enum cv_type t);
i128 type_min(enum cv_type t);
i128 type_max(enum cv_type t);
extern const std::vector<enum cv_type> ALL_TYPES;      /* every type that can hold a parsed value */
std::string i128s(i128 v);
std::string ref_print(const Val &v);                   /* canonical text */
std::string show(const Val &v);                        /* for messages */
/* reference parse: 1 accept, 0 reject, -1 unspecified (either, but if accepted the value must be v) */
int ref_parse(enum cv_type t, int n, const std::string &s, Val &v);
Val gen_val(Case &c, enum cv_type t);
std::string gen_literal(Case &c, enum cv_type t, int n);   /* valid, near-miss or garbage */
std::string mutate_text(Case &c, std::string s, const char *alphabet);
Val from_cv(cg_var *cv);                               /* read through the public getters */
void to_cv(cg_var *cv, const Val &v);                  /* set through public setters where they exist, else cv_parse1 */
int ref_cmp(const Val &a, const Val &b);               /* natural order, -1/0/1 */
const char *tname(enum cv_type t);
}
