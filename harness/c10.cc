// C10: a time source change reaches every ring, including rings registered concurrently with or after the change.
#include "eng.h"
static hogl::timestamp cb1(const timesource *) { return hogl::timestamp((uint64_t) 1000); } static hogl::timestamp cb2(const timesource *) { return hogl::timestamp((uint64_t) 2000); }
static timesource *T1, *T2; static ringbuf *RA, *RB, *RC; static volatile int odone; static int how; static bool posted;
static const ringbuf::options OPT = { .capacity = 8, .prio = 0, .flags = 0, .record_tailroom = 128 };
static uint64_t stamp(ringbuf *r, uint64_t id) { CHECK(r->room() > 0, "room"); hogl::post(r, AR, 1, arg_gstr("f"), id); return 0; }
static void other(void *) { if (how == 0) { ringbuf::options o = OPT; RC = E->add_ring("RC", o); CHECK(RC != 0, "ring"); } else { RC = new ringbuf("RC", OPT); RC->hold(); bool ok = E->add_ring(RC); CHECK(ok, "registered"); } if (posted) { stamp(RC, 50); } odone = 1; }
static void checks(bool changed) {
	ringbuf *all[3] = { RA, RB, RC }; symx_sched(0); g_mode = 0; poll(3);
	for (int i = 0; i < 3; i++) if (all[i]) { stamp(all[i], 100 + i); } poll(3);
	for (unsigned k = 0; k < NLOG; k++) { Out &o = LOG[k]; if (o.ar != AR) continue; if (o.a1 >= 100) { CHECK(o.ts == (changed ? 2000 : 1000), "time stamp of a record posted after the change"); symx_reach("after"); } if (o.a1 < 10) CHECK(o.ts == 1000, "records posted before the change keep their time stamp"); }
	for (unsigned i = 0; i < 3; i++) if (all[i]) { unsigned c = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR && LOG[k].a1 == 100 + i) c++; CHECK(c == 1, "records are output"); }
	for (unsigned id = 0; id < 2; id++) { unsigned c = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR && LOG[k].a1 == id) c++; CHECK(c == 1, "records posted before the change are output"); } }
static void init(unsigned feat) { T1 = new timesource("one", cb1); T2 = new timesource("two", cb2); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(8, feat, T1);
	ringbuf::options o = OPT; o.flags = choice(2, "shared") ? ringbuf::SHARED : 0; RA = E->add_ring("RA", o); o.flags = 0; RB = E->add_ring("RB", o); CHECK(RA && RB, "rings"); CHECK(RA->timesource() == T1, "initial time source"); }
extern "C" void run() {
	init(choice(2, "notso") ? engine::DISABLE_TSO : 0); poll(); how = (int) choice(2, "how"); symx_thread_create(other, 0); symx_sched(1); g_mode = 1; stamp(RA, 0); stamp(RA, 1);
	bool r = hogl::change_timesource(RA, T2, 1000 * (1 + (unsigned) choice((unsigned) symx_param("tos", 1), "to"))); symx_reach(r ? "changed" : "timeout"); symx_block_while(&odone, 0);
	checks(true); // the mark was queued in any case: in the end all rings use the new source
	symx_observe(NLOG); symx_reach("ok"); }
static timesource *cur;
// any timeout: true = accepted; with time all rings have switched on return; without room and time nothing is queued
static void chg(timesource *t) { bool room = RA->room() != 0; uint32_t to = (uint32_t) symrange("timeout", 0, 30000); uint64_t sq = RA->seqnum(); bool r = hogl::change_timesource(RA, t, to); bool queued = RA->seqnum() != sq;
	CHECK(r || to < 10000, "change succeeds when the engine has the time to process it"); if (r && to) CHECK(RA->timesource() == t && RB->timesource() == t && (!RC || RC->timesource() == t), "all rings switched"); if (r && !to) { CHECK(room, "a ring without room cannot take the change"); symx_reach("async"); } if (!r) symx_reach("timeout"); if (r) CHECK(queued, "queued"); if (queued) { cur = t; } if (queued && !(r && to)) poll(4); }
// sequential: registration before, between and after several changes; timeouts with a full ring
extern "C" void history() {
	init(choice(2, "notso") ? engine::DISABLE_TSO : 0); stamp(RA, 0); stamp(RB, 1); cur = T1; unsigned fill = 0; how = (int) choice(2, "how"); 
	for (int i = 0; i < symx_param("ops", 4); i++) switch (choice(6, "op")) {
		case 0: { if (!RC) { other(0); CHECK(RC->timesource() == cur, "a ring registered after a change uses the new time source"); } break; }
		case 1: chg(T2); break;
		case 2: chg(T1); break;
		case 3: while (RA->room()) { hogl::post(RA, AR, 1, arg_gstr("f"), (uint64_t) 60); fill++; } break;
		case 4: poll(); break;
		case 5: if (!RC) { // a ring without owner that still holds a record, looked up again after the change
			other(0); uint64_t id = 70; RC->timesource(); hogl::post(RC, AR, 1, arg_gstr("f"), id); RC->release(); RC = 0; timesource *was = cur; bool r = hogl::change_timesource(RA, was == T1 ? T2 : T1, 20000); if (r) { cur = was == T1 ? T2 : T1; ringbuf *f = E->find_ring("RC"); if (f) { CHECK(f->timesource() == cur, "a ring found after the change uses the new time source"); symx_reach("refound"); RC = f; } } else poll(4); if (!r) symx_assume(0); } break; }
	poll(6); checks(cur == T2); unsigned c = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR && LOG[k].a1 == 60) c++; CHECK(c == fill, "a failed change leaves the ring usable"); symx_reach("ok"); }
