// A real engine with a real engine thread and a capturing output, driven through the public API.
#ifndef HENG_H
#define HENG_H
#include "common.h"
#include <hogl/detail/engine.hpp>
#include <hogl/detail/output.hpp>
#include <hogl/detail/ostrbuf-null.hpp>
#include <hogl/detail/format.hpp>
#include <hogl/detail/internal.hpp>
#include <hogl/engine.hpp>
#include <hogl/post.hpp>
#include <hogl/flush.hpp>
#include <hogl/timesource.hpp>
using namespace hogl;
struct Out { const char *ring; char rn[4]; const hogl::area *ar; unsigned sect; uint64_t ts, seq, fmt, a1, a2; int flushed; };
static Out LOG[64]; static volatile unsigned NLOG; static volatile unsigned NFLUSH; static void (*on_out)(const format::data &d);
// capture functions are part of the observer: no scheduling points inside
extern "C" __attribute__((noinline)) void rt_cap(const format::data *d) { unsigned k = NLOG; CHECK(k < 64, "harness: too many records"); Out &o = LOG[k];
	const record *r = d->record; CHECK(d->ring_name != 0 && r != 0, "output data"); CHECK(!((record *) r)->special(), "a special mark was handed to the output");
	o.ring = d->ring_name; for (int q = 0; q < 3; q++) { o.rn[q] = d->ring_name[q]; o.rn[q + 1] = 0; if (!o.rn[q]) break; } o.ar = r->area; o.sect = r->section; o.ts = r->timestamp.to_nsec(); o.seq = r->seqnum; o.fmt = r->argval[0].u64; o.a1 = r->argval[1].u64; o.a2 = r->argval[2].u64; o.flushed = 0; NLOG = k + 1; }
extern "C" __attribute__((noinline)) void rt_flushed(void) { NFLUSH = NLOG; }
extern "C" __attribute__((noinline)) unsigned rt_nlog(void) { return NLOG; }
extern "C" __attribute__((noinline)) unsigned rt_nflush(void) { return NFLUSH; }
struct capfmt : public format { virtual void process(ostrbuf &s, const data &d) { if (on_out) on_out(d); rt_cap(&d); s.push_back('x'); } };
struct capbuf : public ostrbuf { capbuf() : ostrbuf(64) { } virtual void do_flush(const uint8_t *, size_t) { rt_flushed(); reset(); } };
struct capout : public output { capout(format &f) : output(f) { init(new capbuf()); } };
static engine *E; static capfmt *FM; static capout *OUTP; static area *AR; static int g_mode;
static inline engine *mkengine(unsigned tsocap, unsigned feat, timesource *ts = 0, const char *m = ".*") {
	FM = new capfmt(); OUTP = new capout(*FM); engine::options o = engine::default_options; o.default_mask = mask(m, 0); o.polling_interval_usec = 1000; o.tso_buffer_capacity = tsocap; o.features = feat; o.schedparam = 0; o.timesource = ts;
	E = new engine(*OUTP, o); symx_hash_ignore(&E->get_stats().loops, sizeof(unsigned long)); return E; }
// let the engine thread complete n polls
static inline void poll(unsigned n = 1) { symx_sched(g_mode); for (unsigned i = 0; i < n; i++) { unsigned long l = E->get_stats().loops; while (E->get_stats().loops == l) symx_sleep(); } symx_sched(g_mode); }
static inline bool isdrop(const Out &o) { return o.ar == E->internal_area() && o.sect == internal::DROPMARK; }
static inline bool ismark(const Out &o) { return o.ar == E->internal_area() && o.sect == internal::TSOFULLMARK; }
#endif
