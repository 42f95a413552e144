// C21: affinity text selects exactly the CPUs it names, or is rejected.
#include "symx.h"
#include <hogl/detail/schedparam.hpp>
#include <hogl/platform.hpp>
#include <sched.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
static bool applied; static size_t nb; static unsigned char S[64]; static int nwarn;
extern "C" int sx_pthread_setaffinity_np(pthread_t, size_t n, const cpu_set_t *s) { CHECK(n <= sizeof S, "harness: set size"); applied = true; nb = n; memcpy(S, s, n); return 0; }
extern "C" int sx_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
namespace hogl { namespace platform { void post_early(unsigned int, const char *, const char *, int) { nwarn++; } void post_early(unsigned int, const char *, const char *, const char *) { nwarn++; } } }
static const unsigned NCPU = 256;
enum { OK, BAD, ANY };
struct rng { uint64_t lo, hi; };
static bool dig(char c) { return c >= '0' && c <= '9'; }
// reference for "N", "N-M", comma separated. A trailing comma may be taken or refused.
static int ref_list(const char *p, size_t n, rng *R, unsigned &nr) { size_t i = 0; nr = 0; if (!n) return BAD;
	for (;;) { if (i >= n || !dig(p[i])) return BAD; uint64_t a = 0, b; while (i < n && dig(p[i])) { a = a * 10 + (p[i] - '0'); if (a > 99999999999ull) a = 99999999999ull; i++; } b = a;
		if (i < n && p[i] == '-') { i++; if (i >= n || !dig(p[i])) return BAD; b = 0; while (i < n && dig(p[i])) { b = b * 10 + (p[i] - '0'); if (b > 99999999999ull) b = 99999999999ull; i++; } }
		if (a > b || b >= NCPU) return BAD; R[nr].lo = a; R[nr].hi = b; nr++; if (i == n) return OK; if (p[i] != ',') return BAD; i++; if (i == n) return ANY; } }
// reference for C number syntax; signs and blanks in front may be refused or taken as strtoull() takes them
static int ref_mask(const char *p, size_t n, uint64_t &m, bool &any) { any = false; size_t i = 0; while (i < n && (p[i] == ' ' || (p[i] >= 9 && p[i] <= 13))) { i++; any = true; } bool neg = false; if (i < n && (p[i] == '-' || p[i] == '+')) { any = true; neg = p[i] == '-'; i++; }
	unsigned base = 10; if (i < n && p[i] == '0') { base = 8; if (i + 2 < n && (p[i + 1] == 'x' || p[i + 1] == 'X')) { base = 16; i += 2; } } if (i >= n) return BAD; m = 0;
	for (; i < n; i++) { unsigned d; char c = p[i]; if (dig(c)) d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return BAD; if (d >= base) return BAD; if (base != 10 ? m >> (base == 16 ? 60 : 61) : m > ~0ull / 10 || (m == ~0ull / 10 && d > ~0ull % 10)) return BAD; m = m * base + d; }
	if (neg) m = -m; return OK; }
static bool has(uint64_t i) { return i / 8 < nb && (S[i / 8] >> (i % 8) & 1); }
static void run(const char *pfx, const char *t, size_t n, bool list) {
	std::string s(pfx); s.append(t, n); hogl::schedparam sp(0, 0, 0, s); bool v = sp.validate(); CHECK(!applied, "validation does not change the affinity"); CHECK(v == (nwarn == 0), "rejected text is reported"); bool r = sp.thread_enter("t"); CHECK(r == v, "validation and application agree"); CHECK(applied == r, "rejected text does not change the affinity"); symx_observe(r);
	uint64_t cpu = symrange("cpu", 0, NCPU - 1); if (applied) CHECK(nb * 8 >= NCPU, "set size");
	if (list) { rng R[8]; unsigned nr; int k = ref_list(t, n, R, nr); if (k == BAD) { CHECK(!r, "malformed or out of range CPU list is rejected"); symx_reach("rejected"); } else { if (k == OK) CHECK(r, "valid CPU list is accepted"); if (r) { bool e = false; for (unsigned i = 0; i < nr; i++) e |= R[i].lo <= cpu && cpu <= R[i].hi; CHECK(has(cpu) == e, "the CPU list selects exactly the CPUs it names"); symx_reach("selected"); } } }
	else { uint64_t m; bool any; int k = ref_mask(t, n, m, any); if (k == BAD) { CHECK(!r, "malformed or out of range CPU mask is rejected"); symx_reach("rejected"); } else { if (!any) CHECK(r, "valid CPU mask is accepted"); if (r) { CHECK(has(cpu) == (cpu < 64 && (m >> cpu & 1)), "the CPU mask selects exactly the CPUs it names"); symx_reach("selected"); } } } }
static void fill(char *t, size_t n) { for (size_t i = 0; i < n; i++) { t[i] = (char) sym8("c"); symx_assume(t[i] != 0); } }
extern "C" void list() { char t[32]; size_t n = choice((unsigned) symx_param("len", 4) + 1, "len"); fill(t, n); run("list:", t, n, true); }
extern "C" void mask() { char t[32]; size_t n = choice((unsigned) symx_param("len", 4) + 1, "len"); unsigned pre = choice(3, "prefix"); size_t k = 0; if (pre == 2) { t[0] = '0'; t[1] = 'x'; k = 2; } fill(t + k, n); if (!pre && n == 0) return; run(pre ? "mask:" : "", t, k + n, false); }
// numbers of up to three digits, ranges of up to three CPUs, two elements
static uint64_t num(char *t, size_t &k, unsigned nd) { uint64_t v = 0; for (unsigned i = 0; i < nd; i++) { t[k] = (char) sym8("d"); symx_assume(dig(t[k])); v = v * 10 + (t[k] - '0'); k++; } return v; }
extern "C" void ranges() { char t[32]; size_t k = 0; unsigned n = 1 + choice((unsigned) symx_param("elems", 2), "elems"); for (unsigned i = 0; i < n; i++) { if (i) t[k++] = ','; uint64_t a = num(t, k, 1 + choice(3, "digits")); symx_assume(a <= 260); if (!symx_param("all", 0)) symx_assume(a <= 11 || (a >= 62 && a <= 66) || (a >= 126 && a <= 129) || (a >= 199 && a <= 201) || a >= 253); for (size_t q = k - 3 < k ? k - 3 : 0; q < k; q++) symx_concretize(t[q]); if (choice(2, "range")) { t[k++] = '-'; uint64_t b = num(t, k, 1 + choice(3, "digits")); symx_assume(b >= NCPU || b < a || b - a <= (uint64_t) symx_param("width", 2)); } } run("list:", t, k, true); }
// long numbers: digits only
extern "C" void longlist() { static const char *P[] = { "2", "02", "0000000000000000002", "42949672", "42949675", "4294967296", "99999999", "1844674407370955161", "18446744073709551616", "3689348814741910323" }; char t[64]; const char *p = P[choice(10, "prefix")]; size_t k = strlen(p); memcpy(t, p, k); num(t, k, 2); if (choice(2, "range")) { memmove(t + 2, t, k); t[0] = '1'; t[1] = '-'; k += 2; } run("list:", t, k, true); }
// 64-bit masks: any digit value at any position, and masks that do not fit
extern "C" void longmask() { char t[32]; size_t k = 2, n = 15 + choice(3, "n"), at = choice(n, "at"); t[0] = '0'; t[1] = 'x'; for (size_t i = 0; i < n; i++) { if (i == at) { t[k] = (char) sym8("d"); symx_assume(dig(t[k]) || (t[k] >= 'a' && t[k] <= 'f')); } else t[k] = '0'; k++; } run("mask:", t, k, false); }
