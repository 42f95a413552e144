#ifndef FMTCAP_H
#define FMTCAP_H
#include "common.h"
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/format.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/post.hpp>
using namespace hogl;
// Captures the formatted text.
struct textbuf : public ostrbuf { char t[8192]; unsigned n; textbuf() : ostrbuf(0), n(0) { }
	virtual void do_flush(const uint8_t *d, size_t k) { CHECK(n + k < sizeof(t), "harness: text too long"); if (k) memcpy(t + n, d, k); n += k; t[n] = 0; } };
// Reads the captured text.
struct Rd { const char *t; unsigned n, p; Rd(const textbuf &b) : t(b.t), n(b.n), p(0) { }
	bool eat(char c) { if (p < n && t[p] == c) { p++; return true; } return false; }
	bool lit(const char *s) { while (*s) if (!eat(*s++)) return false; return true; }
	// decimal number of any length, at least w digits, padded with pad only up to w
	bool dec(uint64_t &v, unsigned w = 1, bool canon = true) { unsigned k = 0; uint64_t x = 0; unsigned s = p; while (p < n && t[p] >= '0' && t[p] <= '9') { x = x * 10 + (uint64_t) (t[p] - '0'); p++; k++; } v = x; if (k < w) return false; return !canon || k == w || k == 0 ? k > 0 : t[s] != '0'; }
	bool hex(uint64_t &v) { unsigned k = 0, s = p; uint64_t x = 0; for (; p < n; p++, k++) { char c = t[p]; if (c >= '0' && c <= '9') x = x << 4 | (uint64_t) (c - '0'); else if (c >= 'a' && c <= 'f') x = x << 4 | (uint64_t) (c - 'a' + 10); else break; } v = x; return k > 0 && (k == 1 || t[s] != '0'); }
	bool end() { return p == n; } };
#endif
