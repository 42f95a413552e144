// C01: one writer, one reader: accepted records are read exactly once, in order, intact; drops leave waiting records alone.
#include "common.h"
#include <hogl/post.hpp>
#include <hogl/detail/internal.hpp>
using namespace hogl;
static ringbuf *R; static area *AR; static unsigned CAP, N;
static uint64_t val[16], val2[16]; static volatile unsigned accepted, consumed; static unsigned acc[16]; static volatile int wdone; static unsigned nread;
static int usepost;
static void put(unsigned i) {
	uint64_t d0 = R->dropcnt(); unsigned c0 = consumed;
	if (usepost) hogl::post(R, AR, 1, arg_gstr("f"), val[i], val2[i]);
	else { record *r = R->push_begin(); r->argval[1].u64 = val[i]; r->seqnum = i; r->argval[2].u64 = val2[i]; R->push_commit(); }
	uint64_t d1 = R->dropcnt(); CHECK(d1 == d0 || d1 == d0 + 1, "drop counted once");
	if (d1 != d0) { CHECK(accepted - c0 >= CAP - 1, "record dropped although the ring had room"); symx_reach("drop"); }
	else { acc[accepted] = i; accepted = accepted + 1; } }
static void writer(void *) { for (unsigned i = 0; i < N; i++) put(i); wdone = 1; }
static void look(record *r, unsigned k) { // k: how many records were read before this one
	// the record may be visible before the writer got to count it as accepted: its own number identifies it
	unsigned i = (unsigned) r->seqnum; CHECK(i < N, "sequence field of a posted record");
	CHECK(r->argval[1].u64 == val[i] && r->argval[2].u64 == val2[i], "record contents are exactly what was written");
	unsigned a = accepted; if (k < a) CHECK(i == acc[k], "accepted records are read in order, once"); else CHECK(k == a && (!k || i > acc[k - 1]), "accepted records are read in order, once"); }
static void read_plain(unsigned max) { record *r; unsigned c = 0; while (c < max && (r = R->pop_begin())) { look(r, nread); look(r, nread); R->pop_commit(); nread++; consumed = consumed + 1; c++; symx_reach("plain"); } }
static void read_iter(unsigned keep) { ringbuf::pop_iterator it(R); record *q[16]; unsigned c = 0; record *r;
	while ((r = it.next())) { look(r, nread + c); q[c++] = r; }
	for (unsigned i = 0; i < c; i++) look(q[i], nread + i);
	if (c > keep) { it.rewind(q[c - keep - 1]); it.commit(); nread += c - keep; consumed = consumed + (c - keep); symx_reach("iter"); } }
static void setup(void) {
	CAP = 1u << (1 + choice((unsigned) symx_param("logcap", 2), "logcap")); N = (unsigned) symx_param("n", 3);
	R = mkring("R", CAP); static timesource t("t", ts_cb); R->timesource(&t); AR = new area("A"); AR->enable(1);
	unsigned adv = choice((unsigned) symx_param("adv", 2), "advance") ? CAP - 1 : 0; for (unsigned i = 0; i < adv; i++) { R->push_begin(); R->push_commit(); R->pop_begin(); R->pop_commit(); }
	CHECK(R->empty(), "empty"); for (unsigned i = 0; i < N; i++) { val[i] = sym64("v"); val2[i] = sym64("w"); } usepost = symx_param("post", 0); }
static void done_checks() {
	read_iter(0); CHECK(nread == accepted, "every accepted record is read"); CHECK(R->empty() && R->size() == 0, "nothing left"); CHECK(accepted + R->dropcnt() == N, "accepted or dropped");
	symx_observe(nread); symx_reach("ok"); }
extern "C" void threads() {
	setup(); int mode = (int) choice(3, "reader"); symx_thread_create(writer, 0); symx_sched(1);
	for (int p = 0; p < symx_param("polls", 3); p++) { symx_point(); if (mode == 0) read_plain(1); else read_iter(mode - 1); }
	symx_block_while(&wdone, 0); symx_sched(0); done_checks(); }
// single thread, any sequence of pushes and partial reads, larger rings and wrap-around
extern "C" void sequence() {
	setup(); unsigned w = 0;
	while (w < N) { switch (choice(4, "op")) { case 0: case 1: put(w++); break; case 2: read_plain(choice(2, "max") + 1); put(w++); break; case 3: read_iter(choice(3, "keep")); put(w++); break; } }
	done_checks(); }
