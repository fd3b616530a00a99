#include "val.h"
namespace vf {
const std::vector<enum cv_type> ALL_TYPES = {CGV_INT8, CGV_INT16, CGV_INT32, CGV_INT64, CGV_UINT8, CGV_UINT16, CGV_UINT32, CGV_UINT64, CGV_DEC64, CGV_BOOL, CGV_REST, CGV_STRING, CGV_INTERFACE, CGV_IPV4ADDR, CGV_IPV4PFX, CGV_IPV6ADDR, CGV_IPV6PFX, CGV_MACADDR, CGV_URL, CGV_UUID, CGV_TIME};
bool is_signed(enum cv_type t) { return t >= CGV_INT8 && t <= CGV_INT64; }
bool is_unsigned(enum cv_type t) { return t >= CGV_UINT8 && t <= CGV_UINT64; }
int bits_of(enum cv_type t) { switch (t) { case CGV_INT8: case CGV_UINT8: return 8; case CGV_INT16: case CGV_UINT16: return 16; case CGV_INT32: case CGV_UINT32: return 32; default: return 64; } }
i128 type_min(enum cv_type t) { if (is_unsigned(t)) return 0; return -((i128)1 << (bits_of(t) - 1)); }
i128 type_max(enum cv_type t) { if (is_unsigned(t)) return ((i128)1 << bits_of(t)) - 1; return ((i128)1 << (bits_of(t) - 1)) - 1; }
std::string i128s(i128 v) { if (v == 0) return "0"; bool ng = v < 0; std::string s; while (v != 0) { int d = (int)(v % 10); if (d < 0) d = -d; s.insert(s.begin(), (char)('0' + d)); v /= 10; } if (ng) s.insert(s.begin(), '-'); return s; }
const char *tname(enum cv_type t) {
    switch (t) { case CGV_INT8: return "int8"; case CGV_INT16: return "int16"; case CGV_INT32: return "int32"; case CGV_INT64: return "int64"; case CGV_UINT8: return "uint8"; case CGV_UINT16: return "uint16"; case CGV_UINT32: return "uint32"; case CGV_UINT64: return "uint64"; case CGV_DEC64: return "decimal64"; case CGV_BOOL: return "bool"; case CGV_REST: return "rest"; case CGV_STRING: return "string"; case CGV_INTERFACE: return "interface"; case CGV_IPV4ADDR: return "ipv4addr"; case CGV_IPV4PFX: return "ipv4prefix"; case CGV_IPV6ADDR: return "ipv6addr"; case CGV_IPV6PFX: return "ipv6prefix"; case CGV_MACADDR: return "macaddr"; case CGV_URL: return "url"; case CGV_UUID: return "uuid"; case CGV_TIME: return "time"; case CGV_VOID: return "void"; case CGV_EMPTY: return "empty"; default: return "err"; }
}
static std::string hex2(unsigned char c) { return sprintf_("%02x", c); }
/* days from civil (Howard Hinnant) */
static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153u * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static void civil(int64_t z, int &y, int &m, int &d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int)((int64_t)yoe + era * 400); unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
static std::string dec_print(int64_t i, int n) { i128 v = i; bool ng = v < 0; if (ng) v = -v; std::string s = i128s(v); while ((int)s.size() < n + 1) s = "0" + s; s.insert(s.size() - n, "."); return (ng ? "-" : "") + s; }
static std::string v6_plain(const unsigned char *b) { std::string s; for (int i = 0; i < 8; i++) s += sprintf_("%s%x", i ? ":" : "", b[2 * i] * 256 + b[2 * i + 1]); return s; }
static std::string v4_text(const unsigned char *b) { return sprintf_("%d.%d.%d.%d", b[0], b[1], b[2], b[3]); }
static std::string v6_canon(const unsigned char *b) { char t[64]; inet_ntop(AF_INET6, b, t, sizeof t); return t; }
std::string ref_print(const Val &v) {
    switch (v.t) {
    case CGV_DEC64: return dec_print(v.i, v.n);
    case CGV_BOOL: return v.u ? "true" : "false";
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: return v.s;
    case CGV_IPV4ADDR: return v4_text(v.b);
    case CGV_IPV4PFX: return v4_text(v.b) + "/" + std::to_string(v.mask);
    case CGV_IPV6ADDR: return v6_canon(v.b);
    case CGV_IPV6PFX: return v6_canon(v.b) + "/" + std::to_string(v.mask);
    case CGV_MACADDR: { std::string s; for (int i = 0; i < 6; i++) s += (i ? ":" : "") + hex2(v.b[i]); return s; }
    case CGV_URL: { std::string s = v.proto + "://"; if (!v.user.empty() || !v.pass.empty()) { s += v.user; if (!v.pass.empty()) s += ":" + v.pass; s += "@"; } return s + v.addr + "/" + v.path; }
    case CGV_UUID: { std::string s; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) s += "-"; s += hex2(v.b[i]); } return s; }
    case CGV_TIME: { int64_t d = v.sec / 86400, r = v.sec % 86400; if (r < 0) { r += 86400; d--; } int y, m, dd; civil(d, y, m, dd); return sprintf_("%04d-%02d-%02dT%02d:%02d:%02d.%06dZ", y, m, dd, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60), v.usec); }
    default: if (is_signed(v.t)) return i128s(v.i); if (is_unsigned(v.t)) return i128s((i128)v.u); return "";
    }
}
std::string show(const Val &v) { return std::string(tname(v.t)) + " " + esc(ref_print(v)) + (v.t == CGV_DEC64 ? sprintf_(" (n=%d)", v.n) : "") + (v.t == CGV_URL ? " proto=" + esc(v.proto) + " user=" + esc(v.user) + " pass=" + esc(v.pass) + " addr=" + esc(v.addr) + " path=" + esc(v.path) : ""); }

static bool digs(const std::string &s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
/* int literal: -1 unspecified; 0 no; 1 yes */
static int ref_int(const std::string &s0, i128 &v) {
    std::string s = s0; bool lenient = false; size_t k = 0;
    while (k < s.size() && (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13))) { k++; lenient = true; }
    bool neg = false; if (k < s.size() && (s[k] == '-' || s[k] == '+')) { neg = s[k] == '-'; if (s[k] == '+') lenient = true; k++; }
    s = s.substr(k); if (s.empty()) return 0;
    v = 0; const i128 CAP = (i128)1 << 100;
    if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { for (size_t i = 2; i < s.size(); i++) { int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] >= 'a' && s[i] <= 'f') ? s[i] - 'a' + 10 : (s[i] >= 'A' && s[i] <= 'F') ? s[i] - 'A' + 10 : -1; if (d < 0) return 0; if (v < CAP) v = v * 16 + d; } }
    else if (s.size() > 2 && s[0] == '0' && (s[1] == 'b' || s[1] == 'B')) { for (size_t i = 2; i < s.size(); i++) { if (s[i] != '0' && s[i] != '1') return 0; if (v < CAP) v = v * 2 + (s[i] - '0'); } lenient = true; }
    else if (s[0] == '0' && s.size() > 1) { for (char c : s) { if (c < '0' || c > '7') return 0; if (v < CAP) v = v * 8 + (c - '0'); } }
    else { if (!digs(s)) return 0; for (char c : s) if (v < CAP) v = v * 10 + (c - '0'); }
    if (neg) v = -v;
    return lenient ? -1 : 1;
}
static int ref_v4(const std::string &s, unsigned char *b) {
    int part = 0; std::string cur; bool lz = false;
    for (size_t i = 0; i <= s.size(); i++) {
        if (i == s.size() || s[i] == '.') { if (!digs(cur) || cur.size() > 3 + 20) return 0; if (cur.size() > 1 && cur[0] == '0') lz = true; long x = cur.size() > 6 ? 999 : atol(cur.c_str()); if (x > 255) return 0; if (part > 3) return 0; b[part++] = (unsigned char)x; cur.clear(); }
        else cur += s[i];
    }
    if (part != 4) return 0;
    return lz ? -1 : 1;
}
static int ref_v6(const std::string &s, unsigned char *b) {
    std::vector<int> w; int dc = -1; size_t i = 0; memset(b, 0, 16);
    if (s.size() < 2) return 0;
    if (s[0] == ':') { if (s[1] != ':') return 0; dc = 0; i = 2; }
    bool lastcolon = false; int lz = 0;
    while (i < s.size()) {
        size_t j = i; while (j < s.size() && s[j] != ':') j++;
        std::string g = s.substr(i, j - i); lastcolon = false;
        if (g.find('.') != std::string::npos) { unsigned char q[4]; if (j != s.size()) return 0; int r = ref_v4(g, q); if (!r) return 0; if (r < 0) lz = 1; w.push_back(q[0] * 256 + q[1]); w.push_back(q[2] * 256 + q[3]); i = j; break; }
        if (g.empty() || g.size() > 4) { if (g.size() > 4) { bool hx = true; for (char c : g) if (!isxdigit((unsigned char)c)) hx = false; if (hx && strtoul(g.c_str(), 0, 16) <= 0xffff && g[0] == '0') lz = 1, g = g.substr(g.size() - 4); else return 0; } else return 0; }
        for (char c : g) if (!isxdigit((unsigned char)c)) return 0;
        w.push_back((int)strtoul(g.c_str(), 0, 16));
        i = j;
        if (i < s.size()) { i++; lastcolon = true; if (i < s.size() && s[i] == ':') { if (dc >= 0) return 0; dc = (int)w.size(); i++; lastcolon = false; } }
    }
    if (lastcolon) return 0;
    if (dc < 0) { if (w.size() != 8) return 0; } else { if (w.size() > 7) return 0; w.insert(w.begin() + dc, 8 - w.size(), 0); }
    for (int k = 0; k < 8; k++) { b[2 * k] = (unsigned char)(w[k] >> 8); b[2 * k + 1] = (unsigned char)w[k]; }
    return lz ? -1 : 1;
}
static int ref_pfx(const std::string &s, int max, Val &v, int (*f)(const std::string &, unsigned char *)) {
    size_t p = s.find('/'); if (p == std::string::npos) return 0;
    std::string m = s.substr(p + 1); i128 x; int r = ref_int(m, x); if (!r) return 0; if (x < 0 || x > max) return 0;
    if (!digs(m) || (m.size() > 1 && m[0] == '0')) r = -1;
    int q = f(s.substr(0, p), v.b); if (!q) return 0;
    v.mask = (int)x; return (r < 0 || q < 0) ? -1 : 1;
}
static const int mdays[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int ref_time(const std::string &s, Val &v) {
    /* YYYY-MM-DD[T ]hh:mm:ss[.f{1,6}][Z] ; years 1970-2104 */
    if (s.size() < 19) return 0;
    const char *pat = "dddd-dd-ddTdd:dd:dd"; for (int i = 0; i < 19; i++) { if (pat[i] == 'd') { if (s[i] < '0' || s[i] > '9') return 0; } else if (pat[i] == 'T') { if (s[i] != 'T' && s[i] != ' ') return 0; } else if (s[i] != pat[i]) return 0; }
    int y = atoi(s.substr(0, 4).c_str()), mo = atoi(s.substr(5, 2).c_str()), d = atoi(s.substr(8, 2).c_str()), h = atoi(s.substr(11, 2).c_str()), mi = atoi(s.substr(14, 2).c_str()), se = atoi(s.substr(17, 2).c_str());
    if (mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || se > 59 || y < 1970 || y > 2104) return 0;
    int md = mdays[mo - 1]; if (mo == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)) md = 29;
    if (d > md) return 0;
    size_t i = 19; int us = 0;
    if (i < s.size() && s[i] == '.') { i++; int k = 0; int f = 100000; while (i < s.size() && isdigit((unsigned char)s[i]) && k < 6) { us += (s[i] - '0') * f; f /= 10; k++; i++; } if (k < 1) return 0; }
    v.sec = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se; v.usec = us;
    if (i == s.size()) return 1;
    if (s[i] == 'Z') return i + 1 == s.size() ? 1 : 0;
    if (s[i] == '+' || s[i] == '-') return -1;          /* zone offsets: documented as not parsed */
    return 0;
}
int ref_parse(enum cv_type t, int n, const std::string &s, Val &v) {
    v = Val(); v.t = t;
    if (is_signed(t) || is_unsigned(t)) { i128 x; int r = ref_int(s, x); if (!r) return 0; if (x < type_min(t) || x > type_max(t)) return 0; if (is_unsigned(t) && s.find('-') != std::string::npos) return x == 0 ? -1 : 0; if (is_signed(t)) v.i = (int64_t)x; else v.u = (uint64_t)x; return r; }
    switch (t) {
    case CGV_DEC64: {
        v.n = n; bool len = false; size_t k = 0; while (k < s.size() && (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13))) { k++; len = true; }
        bool ng = false; if (k < s.size() && (s[k] == '-' || s[k] == '+')) { ng = s[k] == '-'; len |= s[k] == '+'; k++; }
        std::string r = s.substr(k), a = r, b; size_t p = r.find('.'); bool dot = p != std::string::npos; if (dot) { a = r.substr(0, p); b = r.substr(p + 1); }
        if (a.empty() && b.empty()) return 0;
        if ((!a.empty() && !digs(a)) || (!b.empty() && !digs(b))) return 0;
        if (a.empty() || (dot && b.empty())) len = true;                 /* .5 and 5. */
        if ((int)b.size() > n) { bool z = true; for (size_t i = n; i < b.size(); i++) if (b[i] != '0') z = false; if (!z) return 0; len = true; b.resize(n); }
        while ((int)b.size() < n) b += '0';
        i128 x = 0; const i128 CAP = (i128)1 << 100; for (char ch : a + b) if (x < CAP) x = x * 10 + (ch - '0');
        if (ng) x = -x;
        if (x < type_min(CGV_INT64) || x > type_max(CGV_INT64)) return 0;
        v.i = (int64_t)x; return len ? -1 : 1; }
    case CGV_BOOL: if (s == "true" || s == "on" || s == "enable") { v.u = 1; return 1; } if (s == "false" || s == "off" || s == "disable") return 1; return 0;
    case CGV_REST: case CGV_STRING: { std::string o; bool e = false; for (char ch : s) { if (e) { o += ch; e = false; } else if (ch == '\\') e = true; else o += ch; } v.s = o; return 1; }
    case CGV_INTERFACE: v.s = s; return 1;
    case CGV_IPV4ADDR: { v.mask = 32; int r = ref_v4(s, v.b); return r; }
    case CGV_IPV6ADDR: { v.mask = 128; return ref_v6(s, v.b); }
    case CGV_IPV4PFX: return ref_pfx(s, 32, v, ref_v4);
    case CGV_IPV6PFX: return ref_pfx(s, 128, v, ref_v6);
    case CGV_MACADDR: { if (s.size() != 17) return 0; for (int i = 0; i < 17; i++) { if (i % 3 == 2) { if (s[i] != ':') return 0; } else if (!isxdigit((unsigned char)s[i])) return 0; } for (int i = 0; i < 6; i++) v.b[i] = (unsigned char)strtoul(s.substr(3 * i, 2).c_str(), 0, 16); return 1; }
    case CGV_UUID: { if (s.size() != 36) return 0; int k = 0; for (int i = 0; i < 36;) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return 0; i++; } else { if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1])) return 0; v.b[k++] = (unsigned char)strtoul(s.substr(i, 2).c_str(), 0, 16); i += 2; } } return 1; }
    case CGV_URL: {
        size_t p = s.find("://"); size_t c1 = s.find(':'); if (p == std::string::npos || c1 != p) return 0;
        v.proto = s.substr(0, p); std::string r = s.substr(p + 3);
        size_t at = r.find('@'), sl = r.find('/');
        int rv = v.proto.empty() ? -1 : 1;
        if (at != std::string::npos) { if (r.find('@', at + 1) != std::string::npos || (sl != std::string::npos && sl < at)) rv = -2; std::string up = r.substr(0, at); size_t co = up.find(':'); if (co != std::string::npos) { v.user = up.substr(0, co); v.pass = up.substr(co + 1); if (v.pass.find(':') != std::string::npos) rv = -2; } else v.user = up; r = r.substr(at + 1); sl = r.find('/'); }
        if (sl != std::string::npos) { v.addr = r.substr(0, sl); v.path = r.substr(sl + 1); } else v.addr = r;
        if (v.addr.empty() && rv == 1) rv = -1;
        return rv; }
    case CGV_TIME: return ref_time(s, v);
    default: return 0;
    }
}
static uint64_t gen_bits(Case &c, int nb) {
    uint64_t all = nb >= 64 ? ~0ULL : (1ULL << nb) - 1;
    switch (c.below(7)) { case 0: return c.below(3); case 1: return c.below(130) & all; case 2: return all - c.below(3); case 3: return ((1ULL << (nb - 1)) + c.below(5) - 2) & all; case 4: return ((1ULL << c.below(nb)) + c.below(3) - 1) & all; default: return c.bits(nb); }
}
static int gen_octet(Case &c) { switch (c.below(4)) { case 0: return c.below(3); case 1: return 255 - c.below(3); case 2: return 126 + c.below(6); default: return c.below(256); } }
Val gen_val(Case &c, enum cv_type t) {
    Val v; v.t = t;
    if (is_signed(t)) { int nb = bits_of(t); uint64_t x = gen_bits(c, nb); if (nb < 64 && (x >> (nb - 1)) & 1) x |= ~0ULL << nb; v.i = (int64_t)x; return v; }
    if (is_unsigned(t)) { v.u = gen_bits(c, bits_of(t)); return v; }
    switch (t) {
    case CGV_DEC64: v.n = 1 + c.below(18); if (c.flip()) v.i = (int64_t)gen_bits(c, 64); else { int64_t p = 1; for (int k = c.below(19); k > 0; k--) p *= 10; v.i = p + c.range(-2, 2); if (c.flip()) v.i = -v.i; } break;
    case CGV_BOOL: v.u = c.below(2); break;
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: { int k = c.below(4); if (k == 0) v.s = c.str("abz09", 0, 6); else if (k == 1) v.s = c.str("ab \t\"'#?|;%/.-_:", 0, 20); else if (k == 2) { int l = c.small(400); v.s.assign(l, 'q'); if (l) v.s[c.below(l)] = 'Z'; } else { int l = c.small(12); for (int i = 0; i < l; i++) { char ch = (char)(1 + c.below(255)); v.s += ch == '\\' ? '/' : ch; } } break; }
    case CGV_IPV4PFX: v.mask = c.chance(30) ? 32 - c.below(3) : c.below(33); /* fallthrough */
    case CGV_IPV4ADDR: for (int i = 0; i < 4; i++) v.b[i] = (unsigned char)gen_octet(c); if (t == CGV_IPV4ADDR) v.mask = 32; break;
    case CGV_IPV6PFX: v.mask = c.chance(30) ? 128 - c.below(3) : c.below(129); /* fallthrough */
    case CGV_IPV6ADDR: { int k = c.below(4); for (int i = 0; i < 16; i++) v.b[i] = 0; if (k == 1) for (int i = 12; i < 16; i++) v.b[i] = (unsigned char)gen_octet(c); if (k == 2) { v.b[10] = v.b[11] = 0xff; for (int i = 12; i < 16; i++) v.b[i] = (unsigned char)gen_octet(c); } if (k == 3) for (int i = 0; i < 16; i += 2) if (c.flip()) { v.b[i] = (unsigned char)(c.flip() ? gen_octet(c) : 0); v.b[i + 1] = (unsigned char)gen_octet(c); } if (t == CGV_IPV6ADDR) v.mask = 128; break; }
    case CGV_MACADDR: for (int i = 0; i < 6; i++) v.b[i] = (unsigned char)gen_octet(c); break;
    case CGV_UUID: for (int i = 0; i < 16; i++) v.b[i] = (unsigned char)gen_octet(c); break;
    case CGV_URL: { const char *al = "abcz019.-_%"; v.proto = c.flip() ? c.pickc({"http", "ftp", "file", "tftp", "sftp", "scp", "ssh"}) : c.str("abc+-.", 1, 5); v.addr = c.flip() ? c.pickc({"www.foo.se", "1.2.3.4", "host:80", "h"}) : c.str(al, 1, 10); if (c.flip()) v.path = c.str("abcz019.-_%/:?&=", 0, 12); if (c.flip()) v.user = c.str(al, 0, 6); if (c.flip()) v.pass = c.str(al, 0, 6); break; }
    case CGV_TIME: { int k = c.below(4); if (k == 0) v.sec = c.below(100000); else if (k == 1) { v.sec = 86400LL * (int64_t)c.below(49308) + (c.flip() ? 86399 : 0); } else v.sec = (int64_t)c.bits(32) % 4260211200LL; v.usec = c.flip() ? 0 : c.flip() ? 999999 - (int)c.below(10) : (int)c.bits(32) % 1000000; if (v.usec < 0) v.usec = -v.usec; break; }
    default: break;
    }
    return v;
}
std::string mutate_text(Case &c, std::string s, const char *al) {
    int k = 1 + (c.chance(25) ? 1 : 0);
    while (k--) {
        size_t p = s.empty() ? 0 : c.below((uint32_t)s.size() + 1);
        switch (c.below(5)) {
        case 0: s.insert(p, 1, al[c.below((uint32_t)strlen(al))]); break;
        case 1: if (p < s.size()) s.erase(p, 1); break;
        case 2: if (p < s.size()) s[p] = al[c.below((uint32_t)strlen(al))]; break;
        case 3: if (p < s.size()) s.insert(p, 1, s[p]); break;
        case 4: if (!s.empty()) { if (c.flip()) s.resize(p); else s += s.substr(0, p); } break;
        }
    }
    return s;
}
static const char *alpha(enum cv_type t) {
    switch (t) { case CGV_DEC64: return "0123456789.-+ 9e,x"; case CGV_BOOL: return "truefalsonfisbTF "; case CGV_IPV4ADDR: case CGV_IPV4PFX: return "0123456789./ -x2"; case CGV_IPV6ADDR: case CGV_IPV6PFX: return "0123456789abcdefABF::/.g "; case CGV_MACADDR: return "0123456789abcdefABF:-.g "; case CGV_UUID: return "0123456789abcdefABF-:g "; case CGV_URL: return "ab:/@.?%&# 1"; case CGV_TIME: return "0123456789-:TZ.+ 39"; case CGV_REST: case CGV_STRING: case CGV_INTERFACE: return "ab \\\"'\t|?#"; default: return "0123456789-+ xXabF.e89"; }
}
std::string gen_literal(Case &c, enum cv_type t, int n) {
    std::string s;
    if (c.chance(6)) { int l = c.small(24); for (int i = 0; i < l; i++) s += (char)(c.flip() ? 32 + c.below(95) : 1 + c.below(255)); return s; }
    if (c.chance(4)) return gen_literal(c, ALL_TYPES[c.below((uint32_t)ALL_TYPES.size())], n);
    if (is_signed(t) || is_unsigned(t)) {
        i128 v; switch (c.below(4)) { case 0: v = type_max(t) + c.range(-2, 3); break; case 1: v = type_min(t) + c.range(-3, 2); break; case 2: { static const enum cv_type ot[] = {CGV_INT8, CGV_UINT8, CGV_INT16, CGV_UINT16, CGV_INT32, CGV_UINT32, CGV_INT64, CGV_UINT64}; enum cv_type o = ot[c.below(8)]; v = (c.flip() ? type_max(o) : type_min(o)) + c.range(-1, 1); if (c.flip()) v += (i128)1 << bits_of(t); break; } default: { Val x = gen_val(c, t); v = is_signed(t) ? (i128)x.i : (i128)x.u; } }
        i128 a = v < 0 ? -v : v; std::string sg = v < 0 ? "-" : ""; int k = c.below(6);
        if (k == 0) { s = a ? "" : "0"; while (a) { s.insert(s.begin(), (c.flip() ? "0123456789abcdef" : "0123456789ABCDEF")[(int)(a % 16)]); a /= 16; } s = sg + (c.flip() ? "0x" : "0X") + std::string(c.small(20), '0') + s; }
        else if (k == 1) { s = ""; while (a) { s.insert(s.begin(), (char)('0' + (int)(a % 8))); a /= 8; } s = sg + "0" + s; }
        else s = i128s(v);
    } else if (t == CGV_DEC64) {
        Val x = gen_val(c, t); x.n = n; s = dec_print(x.i, n);
        switch (c.below(6)) { case 0: while (s.back() == '0') s.pop_back(); break; case 1: s = (c.flip() ? "-" : "") + std::string(c.pickc({"9223372036854775807", "9223372036854775808", "922337203685477580", "9223372036854775809", "18446744073709551616"})); if (n < (int)s.size()) s.insert(s.size() - n, "."); break; case 2: s = s.substr(0, s.find('.')); break; case 3: s += "0"; break; case 4: { size_t p = s.find('.'); std::string a = s.substr(0, p), b = s.substr(p + 1); s = (c.flip() ? a : "") + "." + (c.flip() ? b : ""); break; } default: break; }
    } else if (t == CGV_BOOL) s = c.pickc({"true", "false", "on", "off", "enable", "disable", "True", "yes", "1", "0", "", "enabled", "o"});
    else {
        Val x = gen_val(c, t); s = ref_print(x);
        if ((t == CGV_IPV6ADDR || t == CGV_IPV6PFX) && c.flip()) { s = v6_plain(x.b); if (c.flip()) for (auto &ch : s) ch = (char)toupper(ch); if (c.chance(30)) { s = c.pickc({"::", "::1", "1::", "::ffff:1.2.3.4", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "1::2::3", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "fe80::1:", ":1::", "12345::"}); } if (t == CGV_IPV6PFX) s += "/" + std::to_string(c.flip() ? x.mask : 126 + c.below(6)); }
        if (t == CGV_IPV4PFX && c.chance(40)) s = v4_text(x.b) + "/" + std::to_string(30 + c.below(6));
        if (t == CGV_MACADDR && c.flip()) for (auto &ch : s) ch = (char)toupper(ch);
        if (t == CGV_UUID && c.flip()) for (auto &ch : s) if (c.flip()) ch = (char)toupper(ch);
        if (t == CGV_URL && x.path.empty() && c.flip()) s.pop_back();
        if (t == CGV_TIME) { switch (c.below(8)) { case 0: s = s.substr(0, 19); break; case 1: s = s.substr(0, 19) + "Z"; break; case 2: s = s.substr(0, 20 + 1 + c.below(6)); break; case 3: s = s.substr(0, 20 + 1 + c.below(6)) + "Z"; break; case 4: s[10] = ' '; break; case 5: { s = sprintf_("%04d-%02d-%02dT%02d:%02d:%02d", 1968 + (int)c.below(140), (int)c.below(14), 27 + (int)c.below(6), 22 + (int)c.below(3), 58 + (int)c.below(3), 58 + (int)c.below(3)); break; } case 6: { s = sprintf_("%04d-02-%02d", 1996 + (int)c.below(110), 28 + (int)c.below(3)) + s.substr(10); break; } default: break; } }
    }
    if (c.chance(30)) s = mutate_text(c, s, alpha(t));
    if (c.chance(3)) s = " " + s;
    std::string o; for (char ch : s) if (ch) o += ch;
    return o;
}
static std::string sp(const char *p) { return p ? p : ""; }
Val from_cv(cg_var *cv) {
    Val v; v.t = cv_type_get(cv);
    switch (v.t) {
    case CGV_INT8: v.i = cv_int8_get(cv); break; case CGV_INT16: v.i = cv_int16_get(cv); break; case CGV_INT32: v.i = cv_int32_get(cv); break; case CGV_INT64: v.i = cv_int64_get(cv); break;
    case CGV_UINT8: v.u = cv_uint8_get(cv); break; case CGV_UINT16: v.u = cv_uint16_get(cv); break; case CGV_UINT32: v.u = cv_uint32_get(cv); break; case CGV_UINT64: v.u = cv_uint64_get(cv); break;
    case CGV_DEC64: v.i = cv_dec64_i_get(cv); v.n = cv_dec64_n_get(cv); break; case CGV_BOOL: v.u = (unsigned char)cv_bool_get(cv); break;
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: v.s = sp(cv_string_get(cv)); break;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: memcpy(v.b, cv_ipv4addr_get(cv), 4); v.mask = cv_ipv4masklen_get(cv); break;
    case CGV_IPV6ADDR: case CGV_IPV6PFX: memcpy(v.b, cv_ipv6addr_get(cv), 16); v.mask = cv_ipv6masklen_get(cv); break;
    case CGV_MACADDR: memcpy(v.b, cv_mac_get(cv), 6); break; case CGV_UUID: memcpy(v.b, cv_uuid_get(cv), 16); break;
    case CGV_URL: v.proto = sp(cv_urlproto_get(cv)); v.addr = sp(cv_urladdr_get(cv)); v.path = sp(cv_urlpath_get(cv)); v.user = sp(cv_urluser_get(cv)); v.pass = sp(cv_urlpasswd_get(cv)); break;
    case CGV_TIME: { struct timeval t = cv_time_get(cv); v.sec = t.tv_sec; v.usec = (int)t.tv_usec; break; }
    default: break;
    }
    return v;
}
void to_cv(cg_var *cv, const Val &v) {
    cv_type_set(cv, v.t);
    switch (v.t) {
    case CGV_INT8: cv_int8_set(cv, (int8_t)v.i); break; case CGV_INT16: cv_int16_set(cv, (int16_t)v.i); break; case CGV_INT32: cv_int32_set(cv, (int32_t)v.i); break; case CGV_INT64: cv_int64_set(cv, v.i); break;
    case CGV_UINT8: cv_uint8_set(cv, (uint8_t)v.u); break; case CGV_UINT16: cv_uint16_set(cv, (uint16_t)v.u); break; case CGV_UINT32: cv_uint32_set(cv, (uint32_t)v.u); break; case CGV_UINT64: cv_uint64_set(cv, v.u); break;
    case CGV_DEC64: cv_dec64_n_set(cv, (uint8_t)v.n); cv_dec64_i_set(cv, v.i); break; case CGV_BOOL: cv_bool_set(cv, (char)v.u); break;
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: cv_string_set(cv, v.s.c_str()); break;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: { struct in_addr a; memcpy(&a, v.b, 4); cv_ipv4addr_set(cv, &a); cv_ipv4masklen_set(cv, (uint8_t)v.mask); break; }
    case CGV_IPV6ADDR: case CGV_IPV6PFX: case CGV_MACADDR: { std::string s = ref_print(v); char *r = nullptr; cv_parse1(s.c_str(), cv, &r); if (r) lib_free(r); break; }
    case CGV_UUID: cv_uuid_set(cv, (unsigned char *)v.b); break;
    case CGV_URL: cv_urlproto_set(cv, v.proto.c_str()); cv_urladdr_set(cv, v.addr.c_str()); cv_urlpath_set(cv, v.path.c_str()); cv_urluser_set(cv, v.user.c_str()); cv_urlpasswd_set(cv, v.pass.c_str()); break;
    case CGV_TIME: { struct timeval t = {(time_t)v.sec, v.usec}; cv_time_set(cv, t); break; }
    default: break;
    }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
int ref_cmp(const Val &a, const Val &b) {
    switch (a.t) {
    case CGV_BOOL: return sgn((int)a.u - (int)b.u);
    case CGV_DEC64: return a.i < b.i ? -1 : a.i > b.i;
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: return sgn(strcmp(a.s.c_str(), b.s.c_str()));
    case CGV_IPV4ADDR: case CGV_IPV6ADDR: return sgn(memcmp(a.b, b.b, 16));
    case CGV_IPV4PFX: case CGV_IPV6PFX: { int n = sgn(memcmp(a.b, b.b, 16)); return n ? n : sgn(a.mask - b.mask); }
    case CGV_MACADDR: case CGV_UUID: return sgn(memcmp(a.b, b.b, 16));
    case CGV_TIME: return a.sec != b.sec ? (a.sec < b.sec ? -1 : 1) : sgn(a.usec - b.usec);
    case CGV_URL: { int n; if ((n = a.proto.compare(b.proto)) || (n = a.addr.compare(b.addr)) || (n = a.path.compare(b.path)) || (n = a.user.compare(b.user)) || (n = a.pass.compare(b.pass))) return sgn(n); return 0; }
    default: if (is_signed(a.t)) return a.i < b.i ? -1 : a.i > b.i; if (is_unsigned(a.t)) return a.u < b.u ? -1 : a.u > b.u; return 0;
    }
}
}
