// C11: rings live as long as they are used; nothing posted before the last release is lost; no use after free.
#include "eng.h"
static volatile int odone; static unsigned accepted; static unsigned flags; static int op2; static ringbuf::options OPT;
extern "C" __attribute__((noinline)) void rt_acc(unsigned n) { accepted += n; }
extern "C" __attribute__((noinline)) unsigned rt_count(uint64_t id) { unsigned c = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR && LOG[k].a1 == id) c++; return c; }
static void use(ringbuf *r, uint64_t id) { CHECK(!strcmp(r->name(), "R"), "the right ring"); hogl::post(r, AR, 1, arg_gstr("f"), id); }
static volatile int got2;
static void other(void *) { ringbuf *r = 0; if (op2 == 0) r = E->find_ring("R"); else { r = E->add_ring("R", OPT); CHECK(op2 != 2 || r, "a shared ring can always be registered again"); }
	if (r) { if (op2 || flags & ringbuf::SHARED) { use(r, 7); got2 = 1; } else symx_reach("lookup"); if (!(flags & ringbuf::SHARED) && op2 == 1) symx_reach("reused"); r->release(); } odone = 1; }
static void init(void) { static timesource T("t", ts_cb); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(4, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T, ".*:(INFO|WARN|ERROR).*"); poll(); }
// owner creates, posts, releases; a second thread looks the ring up or registers the name again; engine polls all the time
extern "C" void race() {
	init(); op2 = (int) choice(3, "op"); flags = op2 == 2 ? (unsigned) ringbuf::SHARED : op2 == 1 ? (unsigned) ringbuf::REUSABLE : choice(2, "sh") ? (unsigned) ringbuf::SHARED : 0; OPT = ringbuf::options{ .capacity = 8, .prio = 0, .flags = flags, .record_tailroom = 128 };
	ringbuf *r = E->add_ring("R", OPT); CHECK(r != 0, "created"); if (choice(2, "registered")) poll(); symx_thread_create(other, 0); symx_sched(1); g_mode = 1;
	use(r, 1); r->release(); symx_block_while(&odone, 0); if (symx_param("kill", 0)) { engine *e = E; symx_sched(0); unsigned c1; delete e; c1 = rt_count(1); CHECK(c1 == 1, "posted before the last release: output"); if (got2) CHECK(rt_count(7) == 1, "posted through the second reference: output"); symx_reach("ok"); return; }
	symx_sched(0); g_mode = 0; poll(5); CHECK(rt_count(1) == 1, "posted before the last release: output"); if (got2) { CHECK(rt_count(7) == 1, "posted through the second reference: output"); symx_reach("second"); }
	ringbuf *q = E->find_ring("R"); CHECK(q == 0, "an unused ring is unregistered in the end"); engine *e = E; delete e; symx_observe(NLOG); symx_reach("ok"); }
// engine shutdown after the owner is done
extern "C" void shutdown() {
	init(); flags = choice(4, "flags"); OPT = ringbuf::options{ .capacity = 4, .prio = 0, .flags = (flags & 1 ? (unsigned) ringbuf::SHARED : 0) | (flags & 2 ? (unsigned) ringbuf::IMMORTAL : 0), .record_tailroom = 128 };
	ringbuf *r; if (choice(2, "own")) { r = new ringbuf("R", OPT); r->hold(); CHECK(E->add_ring(r), "registered"); CHECK(!E->add_ring(r), "second registration of the name fails"); } else r = E->add_ring("R", OPT);
	symx_sched(1); g_mode = 1; unsigned n = 1 + choice(3, "n"); unsigned acc = 0; for (unsigned i = 0; i < n; i++) { uint64_t d = r->dropcnt(); use(r, i); if (r->dropcnt() == d) acc |= 1u << i; } r->release(); engine *e = E; AR = AR; delete e; symx_sched(0);
	for (unsigned i = 0; i < n; i++) CHECK(rt_count(i) == (acc >> i & 1), "posted before the last release: output before the engine is gone"); if (flags & 2) { CHECK(r->refcnt() == 0 && !strcmp(r->name(), "R"), "immortal rings are not freed"); r->hold(); } symx_observe(NLOG); symx_reach("ok"); }
// sequential histories of create, find, reuse, post, release, poll against a reference model
extern "C" void history() {
	init(); flags = choice(4, "flags"); static const unsigned FL[] = { 0, ringbuf::SHARED, ringbuf::REUSABLE, ringbuf::SHARED | ringbuf::IMMORTAL }; OPT = ringbuf::options{ .capacity = 16, .prio = 0, .flags = FL[flags], .record_tailroom = 128 };
	ringbuf *h[3] = { 0, 0, 0 }; unsigned nh = 0; unsigned posts = 0; bool gone = true;
	for (int i = 0; i < symx_param("ops", 5); i++) switch (choice(5, "op")) {
		case 0: { if (nh == 3) break; ringbuf *r = E->add_ring("R", OPT); if (nh == 0) { if (gone || FL[flags]) CHECK(r != 0, "an unused name can be registered"); } else if (FL[flags] & ringbuf::SHARED) CHECK(r == h[0], "shared ring registered again"); else CHECK(r == 0, "a ring that is in use is not handed out again"); if (r) h[nh++] = r; if (r) gone = false; break; }
		case 1: { if (nh == 3) break; ringbuf *r = E->find_ring("R"); if (nh) CHECK(r == h[0], "a held ring is found"); if (r) h[nh++] = r; if (gone) CHECK(r == 0, "a ring that is gone is not found"); break; }
		case 2: if (nh) { use(h[nh - 1], posts++); } break;
		case 3: if (nh) { ringbuf *r = h[--nh]; CHECK(r->refcnt() >= 2, "references"); r->release(); h[nh] = 0; symx_reach("released"); } break;
		case 4: poll(2); if (!nh) gone = true; if (nh) CHECK(h[0]->refcnt() == (int) nh + 1, "one reference per holder and one of the engine"); break; }
	while (nh) h[--nh]->release(); poll(4); for (unsigned i = 0; i < posts; i++) CHECK(rt_count(i) == 1, "every post is output"); engine *e = E; delete e; symx_observe(NLOG); symx_reach("ok"); }
