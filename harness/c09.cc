// C09: a successful flush means everything posted before it was processed and the output was told to flush.
#include "eng.h"
static ringbuf *R; static unsigned nacc; static uint64_t ids[16]; static uint64_t slept; static int counting;
extern "C" void rt_on_sleep(uint64_t us) { if (counting && symx_tid() == 0) slept += us; }
extern "C" __attribute__((noinline)) int rt_processed(uint64_t id) { for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR && LOG[k].a1 == id) return k < NFLUSH ? 2 : 1; return 0; }
static void post1(uint64_t id) { uint64_t d = R->dropcnt(); hogl::post(R, AR, 1, arg_gstr("f"), id); if (R->dropcnt() == d) ids[nacc++] = id; else symx_reach("drop"); }
static bool flush1(unsigned to) { slept = 0; counting = 1; bool r = hogl::flush(R, to); counting = 0; CHECK(slept <= to + 1000, "flush returns within its timeout");
	if (r) { for (unsigned i = 0; i < nacc; i++) { int p = rt_processed(ids[i]); CHECK(p != 0, "flush succeeded but a record posted before it was not handed to the output"); CHECK(p == 2, "flush succeeded but the output was not told to flush a record posted before it"); } symx_reach("success"); } else symx_reach("timeout");
	return r; }
static volatile int odone; static void other(void *) { hogl::post(R, AR, 1, arg_gstr("f"), (uint64_t) 99); odone = 1; }
extern "C" void run() {
	static timesource T("t", ts_cb); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(4, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T); 
	unsigned kind = choice(3, "kind"); ringbuf::options o = { .capacity = 2u << choice(2, "cap"), .prio = 0, .flags = kind == 1 ? (unsigned) ringbuf::SHARED : kind == 2 ? (unsigned) ringbuf::BLOCKING : 0, .record_tailroom = 128 }; R = E->add_ring("R", o); CHECK(R != 0, "ring"); 
	poll(); unsigned to = symx_param("longto", 0) ? 60000 : choice(3, "timeout") * 1000; bool oth = kind == 1 && symx_param("other", 0); if (oth) symx_thread_create(other, 0);
	symx_sched(1); g_mode = 1; unsigned n = choice((unsigned) symx_param("posts", 3), "posts"); for (unsigned i = 0; i < n; i++) post1(i);
	bool r = flush1(to); if (symx_param("second", 1)) { post1(20); r = flush1(1000); }
	if (oth) symx_block_while(&odone, 0);
	symx_sched(0); g_mode = 0; poll(4); for (unsigned i = 0; i < nacc; i++) CHECK(rt_processed(ids[i]) == 2, "accepted records are output"); if (R->room()) { post1(30); CHECK(flush1(30000), "flush succeeds when the engine processes the mark in time"); symx_reach("later"); } CHECK(R->seqnum() >= nacc, "sequence"); symx_observe(NLOG); symx_reach("ok"); }
// histories without preemption: any fill level, flushes with any timeout, engine polls at each sleep or never before the timeout
extern "C" void history() {
	static timesource T("t", ts_cb); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(1 + choice(3, "tso") * 9, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T);
	unsigned kind = choice(2, "kind"); ringbuf::options o = { .capacity = 2u << choice(2, "cap"), .prio = 0, .flags = kind == 1 ? (unsigned) ringbuf::SHARED : 0, .record_tailroom = 128 }; R = E->add_ring("R", o); CHECK(R != 0, "ring");
	for (int i = 0; i < symx_param("ops", 5); i++) switch (choice(4, "op")) { case 0: post1(i); break; case 1: poll(); break; case 2: { uint32_t to = (uint32_t) symrange("timeout", 0, 30000); bool r = flush1(to); CHECK(!r || to > 0, "flush without time cannot be acknowledged"); CHECK(r || to < 10000, "flush succeeds when the engine processes the mark in time"); break; } case 3: symx_sleep(); break; }
	symx_reach("ok"); }
