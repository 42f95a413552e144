// C12: the bytes that reach the descriptor/stream are the bytes that were formatted, in order, once.
#include "fmtcap.h"
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
#include <hogl/detail/ostrbuf-fd.hpp>
#undef HOGL_DETAIL_OSTRBUF_FD_HPP
#include <hogl/detail/ostrbuf-stdio.hpp>
#include <hogl/detail/ostrbuf-tee.hpp>
#include <hogl/detail/ostrbuf-null.hpp>
#include <hogl/output-tee.hpp>
#include <hogl/output-plainfile.hpp>
// The system: descriptors and streams. Every call accepts any number of bytes up to the size, is interrupted, or fails.
enum { SN = 96 };
struct Sink { uint8_t d[SN]; unsigned n; bool closed, err, failedonce; };
static Sink SK[3]; static unsigned faults; static bool errs;
static long accept(int fd, size_t n) { CHECK(fd >= 10 && fd < 13 && !SK[fd - 10].closed, "write to a descriptor that is not open"); if (!n) return 0; if (!faults) return (long) n;
	unsigned c = choice(errs ? 4 : 3, "write"); if (c == 0) return (long) n; faults--; if (c == 1) { errno = EINTR; symx_reach("interrupted"); return -1; } if (c == 3) { errno = ENOSPC; SK[fd - 10].failedonce = true; symx_reach("error"); return -1; }
	if (n < 2) symx_assume(0); symx_reach("short"); return (long) symx_concretize(symrange("accepted", 1, n - 1)); }
static void put(int fd, const void *p, size_t n) { Sink &s = SK[fd - 10]; CHECK(s.n + n <= SN, "more bytes than were formatted"); memcpy(s.d + s.n, p, n); s.n += n; }
extern "C" ssize_t sx_writev(int fd, const struct iovec *v, int k) { size_t n = 0; CHECK(k > 0 && k <= 1024, "number of pieces"); for (int i = 0; i < k; i++) n += v[i].iov_len; long r = accept(fd, n), q = r; for (int i = 0; i < k && q > 0; i++) { size_t m = v[i].iov_len < (size_t) q ? v[i].iov_len : (size_t) q; put(fd, v[i].iov_base, m); q -= (long) m; } return r; }
extern "C" ssize_t sx_write(int fd, const void *p, size_t n) { long r = accept(fd, n); if (r > 0) put(fd, p, (size_t) r); return r; }
extern "C" int sx_close(int fd) { CHECK(fd >= 10 && fd < 13, "close of a descriptor that is not open"); CHECK(!SK[fd - 10].closed, "descriptor closed twice"); SK[fd - 10].closed = true; return 0; }
static int openfd; extern "C" int sx_open(const char *, int, ...) { return openfd; } extern "C" int sx_open64(const char *, int, ...) { return openfd; }
// stdio: a short count is an error of the stream
#define FP(i) ((FILE *) (SK + (i)))
extern "C" size_t sx_fwrite(const void *p, size_t sz, size_t k, FILE *f) { int i = (int) ((Sink *) f - SK); CHECK(i >= 0 && i < 3 && !SK[i].closed, "write to a closed stream"); size_t n = sz * k, r = n; if (n && faults && choice(2, "fwrite")) { faults--; r = (size_t) symx_concretize(symrange("accepted", 0, n - 1)); SK[i].err = SK[i].failedonce = true; errno = ENOSPC; symx_reach("error"); } put(10 + i, p, r); return sz ? r / sz : 0; }
extern "C" int sx_ferror(FILE *f) { return ((Sink *) f)->err; } extern "C" int sx_fclose(FILE *f) { return sx_close(10 + (int) ((Sink *) f - SK)); } extern "C" int sx_fflush(FILE *) { return 0; } extern "C" void sx_clearerr(FILE *f) { ((Sink *) f)->err = false; }

static uint8_t EXP[256]; static unsigned ne; static uint8_t SRC[256];
// any sequence of pushes of any size; every byte of the stream has its own number
static void ops(ostrbuf &b, unsigned n, unsigned maxlen, bool symbolic) { for (unsigned k = 0; k < n; k++) { unsigned c = choice(4, "op"); if (c == 3) { b.flush(); continue; }
		unsigned len = c == 0 ? 1 : c == 1 ? (unsigned) symx_concretize(symrange("len", 0, maxlen)) : 3; CHECK(ne + len < sizeof EXP, "harness"); for (unsigned i = 0; i < len; i++) { uint8_t x = symbolic ? sym8("byte") : (uint8_t) (ne + 1); if (c == 2) x = (uint8_t) ('a' + ne % 26); SRC[i] = x; EXP[ne++] = x; }
		if (c == 0) b.push_back((char) SRC[0]); else if (c == 1) b.push_back(SRC, len); else { char s[4] = { (char) SRC[0], (char) SRC[1], (char) SRC[2], 0 }; if (k & 1) b.push_back(s); else b.push_back(std::string(s)); } memset(SRC, 0xee, sizeof SRC); CHECK(b.size() <= b.capacity(), "no more buffered than the buffer holds"); } }
static void full(int i, const uint8_t *pre = 0, unsigned np = 0) { CHECK(SK[i].n == np + ne, "every byte reaches the sink"); for (unsigned k = 0; k < np; k++) CHECK(SK[i].d[k] == pre[k], "earlier bytes"); for (unsigned k = 0; k < ne; k++) CHECK(SK[i].d[np + k] == EXP[k], "bytes of the sink in order"); }
static void partial(int i) { CHECK(SK[i].n <= ne, "bytes after a failure"); for (unsigned k = 0; k < SK[i].n; k++) CHECK(SK[i].d[k] == EXP[k], "what was written before a failure is a prefix of the data"); }
static unsigned cap() { return (unsigned) symx_concretize(symrange("capacity", 0, (uint64_t) symx_param("maxcap", 6))); }
extern "C" void fds() { faults = (unsigned) symx_param("faults", 2); errs = true; bool sy = true; unsigned fl = choice(2, "close"); { ostrbuf_fd b(10, fl ? ostrbuf_fd::CLOSE_ON_DELETE : 0, cap()); ops(b, (unsigned) symx_param("ops", 3), (unsigned) symx_param("maxlen", 9), sy); b.flush();
		CHECK(b.failed() == SK[0].failedonce, "a failure is reported, nothing else is"); if (b.failed()) { partial(0); CHECK(b.error()[0], "error text"); } else full(0); b.flush(); if (!b.failed()) CHECK(SK[0].n == ne, "nothing is written twice"); }
	CHECK(SK[0].closed == (fl != 0), "descriptor closed if asked for"); symx_reach("ok"); }
extern "C" void stdio() { faults = (unsigned) symx_param("faults", 2); unsigned fl = choice(2, "close"); { ostrbuf_stdio b(FP(0), fl ? ostrbuf_stdio::CLOSE_ON_DELETE : 0, cap()); ops(b, (unsigned) symx_param("ops", 3), (unsigned) symx_param("maxlen", 9), false); b.flush();
		CHECK(b.failed() == SK[0].failedonce, "a failure is reported, nothing else is"); // after the failed call at most the data passed along with it is written
		if (b.failed()) { unsigned k = 0; for (unsigned j = 0; j < SK[0].n; j++) { while (k < ne && EXP[k] != SK[0].d[j]) k++; CHECK(k < ne, "no byte is repeated, changed or reordered"); k++; } } else full(0); }
	CHECK(SK[0].closed == (fl != 0), "stream closed if asked for"); symx_reach("ok"); }
// a tee over two descriptors; nested tee
extern "C" void tees() { faults = (unsigned) symx_param("faults", 2); errs = true; unsigned nest = choice(2, "nested"); unsigned c0 = cap(); ostrbuf_fd b0(10, 0, c0), b1(11, 0, (unsigned) choice(2, "cap1") * 5), b2(12, 0, 4); ostrbuf_tee inner(&b1, &b2, 3);
	static const uint8_t pre[] = { 'P', 'Q' }; unsigned np = choice(2, "header") * 2; if (np) { b0.push_back(pre, 2); b1.push_back(pre, 2); b2.push_back(pre, 2); }
	{ ostrbuf_tee t(&b0, nest ? (ostrbuf *) &inner : (ostrbuf *) &b1, choice(2, "tcap") * 5); ops(t, (unsigned) symx_param("ops", 3), (unsigned) symx_param("maxlen", 7), false); t.flush(); bool f = SK[0].failedonce || SK[1].failedonce || SK[2].failedonce; CHECK(t.failed() == f, "failure of one of the sinks is reported"); if (f) CHECK(t.error()[0], "error text");
		if (!f) { b0.flush(); b1.flush(); b2.flush(); for (int i = 0; i < 3; i++) if (!SK[i].failedonce) { if (i < 2 || nest) full(i, pre, np); else CHECK(SK[2].n == np, "other descriptor"); } symx_reach("all"); } }
	symx_reach("ok"); }
// outputs: plain file and tee with the record formatter on top
struct numfmt : public format { virtual void process(ostrbuf &s, const data &d) { unsigned v = (unsigned) d.record->argval[0].u64; for (unsigned i = 0; i < v; i++) { uint8_t x = (uint8_t) (ne + 1); EXP[ne++] = x; s.push_back((char) x); } }
	virtual void header(ostrbuf &s, const char *, bool) { s.push_back('H'); } virtual void footer(ostrbuf &s, const char *) { s.push_back('F'); } };
extern "C" void outputs() { faults = (unsigned) symx_param("faults", 2); errs = false; static numfmt F; openfd = 10; output_plainfile *o0 = new output_plainfile("f0", F, cap()); openfd = 11; output_plainfile *o1 = new output_plainfile("f1", F, choice(2, "cap1") * 6); output_tee *t = new output_tee(o0, o1, choice(2, "tcap") * 4); record *r = (record *) calloc(1, sizeof(record)); 
	for (unsigned k = 0; k < (unsigned) symx_param("ops", 3); k++) { r->argval[0].u64 = choice(2, "size") ? 9 : 2; format::data d = {}; d.record = r; t->process(d); if (choice(2, "flush")) t->flush(); } t->flush(); CHECK(!t->failed(), "not failed"); delete t; delete o0; delete o1;
	for (int i = 0; i < 2; i++) { CHECK(SK[i].closed, "file closed"); CHECK(SK[i].n == ne + 2 && SK[i].d[0] == 'H' && SK[i].d[ne + 1] == 'F', "header, records, footer"); for (unsigned k = 0; k < ne; k++) CHECK(SK[i].d[1 + k] == EXP[k], "bytes in order"); } symx_reach("ok"); }
