// C02: blocking rings lose nothing, blocked writers always resume.
#include "eng.h"
static ringbuf *R; static unsigned N, NW; static volatile int ndone[3]; static unsigned got[3];
static void post_n(unsigned w) { for (unsigned i = 0; i < N; i++) { uint64_t v = (w << 8) | i; hogl::post(R, AR, 1, arg_gstr("f"), v, (uint64_t) (v * 3)); } ndone[w] = 1; }
static void writer(void *a) { post_n((unsigned) (size_t) a); }
static void take(record *r) { uint64_t v = r->argval[1].u64; unsigned w = (unsigned) (v >> 8); CHECK(w < NW && r->argval[2].u64 == v * 3, "contents"); CHECK((v & 0xff) == got[w], "records of a blocking ring arrive in order, none lost"); got[w]++; }
static void finish() { for (unsigned w = 0; w < NW; w++) CHECK(got[w] == N, "every record posted into a blocking ring is delivered"); CHECK(R->dropcnt() == 0, "blocking ring dropped records"); CHECK(R->empty(), "ring is empty"); symx_observe(got[0]); symx_reach("ok"); }
// the reader is the harness: commits some or all records, then unblocks, like the engine does in both of its modes
extern "C" void ring() {
	N = (unsigned) symx_param("n", 3); NW = (unsigned) symx_param("writers", 1); static area ar("AREA"); ar.enable(); AR = &ar; static timesource T("t", ts_cb);
	R = mkring("R", 2, ringbuf::BLOCKING | (NW > 1 ? ringbuf::SHARED : 0)); R->timesource(&T); int mode = (int) choice(2, "mode");
	for (unsigned w = 0; w < NW; w++) symx_thread_create(writer, (void *) (size_t) w); symx_sched(1); unsigned tot = 0;
	while (tot < N * NW) { unsigned c = 0; ringbuf::pop_iterator it(R); record *r, *l = 0; while ((r = it.next())) { take(r); l = r; c++; tot++; }
		if (mode == 0) { it.commit(); R->unblock(); } else if (c) { it.rewind(l); it.commit(ringbuf::NOBARRIER); R->unblock(); } if (c) symx_reach("batch"); symx_sleep(); }
	for (unsigned w = 0; w < NW; w++) symx_block_while(&ndone[w], 0); symx_sched(0); finish(); }
static void out(const format::data &d) { if (d.record->area == AR) take((record *) d.record); else CHECK(!(d.record->area == E->internal_area() && d.record->section == internal::DROPMARK), "drop report for a blocking ring"); }
static void eng_writer(void *a) { post_n((unsigned) (size_t) a); }
extern "C" void engine_thread() {
	N = (unsigned) symx_param("n", 3); NW = (unsigned) symx_param("writers", 1); static timesource T("t", ts_cb); on_out = out;
	static area ar("AREA"); ar.enable(); AR = &ar; mkengine(4, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T);
	ringbuf::options o = { .capacity = 2, .prio = 0, .flags = (unsigned) ringbuf::BLOCKING | (NW > 1 ? ringbuf::SHARED : 0), .record_tailroom = 128 }; R = E->add_ring("R", o); CHECK(R != 0, "ring");
	poll(); for (unsigned w = 1; w < NW; w++) symx_thread_create(eng_writer, (void *) (size_t) w); symx_sched(1); g_mode = 1;
	post_n(0); for (unsigned w = 1; w < NW; w++) symx_block_while(&ndone[w], 0); symx_sched(0); g_mode = 0; poll(3); finish(); }
