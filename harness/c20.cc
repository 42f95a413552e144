// C20: posting is gated by the section and does exactly one thing.
#include "common.h"
#include <hogl/post.hpp>
#include <hogl/tls.hpp>
#include <hogl/detail/engine.hpp>
using namespace hogl;
static const char *SN[] = { "S0", "S1", "S2", "S3", "S4", 0 };
struct st { uint64_t seq, drop; unsigned size, room; bool empty; };
static st get(ringbuf *r) { st s = { r->seqnum(), r->dropcnt(), r->size(), r->room(), r->empty() }; return s; }
extern "C" void harness() {
	static timesource T("t", ts_cb); unsigned kind = choice(3, "kind"); ringbuf *r = mkring("R", 2u << choice(2, "cap"), kind == 1 ? (unsigned) ringbuf::SHARED : kind == 2 ? (unsigned) ringbuf::BLOCKING : 0, 160); r->timesource(&T);
	area a("A", SN); bool on[5]; for (int i = 0; i < 5; i++) { on[i] = sym8("on") & 1; a.set(i, on[i]); }
	unsigned cap = r->capacity() - 1; unsigned fill = choice(cap + 1, "fill"); area full("F"); full.enable(); for (unsigned i = 0; i < fill; i++) { g_ts = 1; hogl::post(r, &full, 1, arg_gstr("x"), (uint64_t) i); }
	if (kind == 2 && fill == cap) return; // would block
	unsigned before = fill, drops = 0; uint64_t seq0 = r->seqnum();
	for (int p = 0; p < symx_param("posts", 2); p++) {
		g_ts = symx_param("symts", 1) ? sym64("ts") : 5; uint32_t sect = sym32("sect"); uint64_t v = sym64("v"); st o = get(r); if (kind == 2 && o.room == 0) break; bool enabled = sect < 5 && (sect == 0 ? on[0] : sect == 1 ? on[1] : sect == 2 ? on[2] : sect == 3 ? on[3] : on[4]); bool pushed = enabled; char buf[4] = "abc";
		unsigned how = choice((unsigned) symx_param("hows", 5), "how"); const area *ar = &a; 
		switch (how) { case 0: hogl::post(r, &a, sect, arg_gstr("f"), v); break; case 1: hogl::post_unlocked(r, &a, sect, arg_gstr("f"), v); break; case 2: hogl::post(r, &a, sect, arg_gstr("f"), v, (const char *) buf); break; case 3: hogl::post_unlocked(r, &a, sect, arg_gstr("f"), v, (const char *) buf); break;
		case 4: sect &= 0x7ff; ar = choice(2, "null") ? 0 : &a; hogl::push(r, ar, sect, arg_gstr("f"), v); pushed = true; break; }
		memset(buf, 'z', 3); st n = get(r);
		if (!pushed) { CHECK(n.seq == o.seq && n.drop == o.drop && n.size == o.size && n.room == o.room, "a post to a disabled section changes nothing"); symx_reach("off"); continue; }
		CHECK(n.seq == o.seq + 1, "a post takes exactly one sequence number"); if (!o.room) { CHECK(n.drop == o.drop + 1 && n.size == o.size && !n.room, "a post to a full ring counts exactly one drop"); drops++; symx_reach("full"); continue; }
		CHECK(n.drop == o.drop && n.size == o.size + 1 && n.room == o.room - 1 && !n.empty, "a post stores exactly one record");
		// find it: the newest record
		for (unsigned i = 0; i < before; i++) { record *q = r->pop_begin(); CHECK(q != 0, "older records are still there"); if (q->area == &full) CHECK(q->argval[1].u64 == (uint64_t) i, "older records are unchanged"); r->pop_commit(); }
		record *q = r->pop_begin(); CHECK(q != 0, "stored"); CHECK(q->area == ar && q->section == sect, "area and section"); CHECK(q->timestamp == hogl::timestamp(g_ts), "the ring's time stamp"); CHECK(q->seqnum == (o.seq & 0xfffffffffffffull), "sequence number"); CHECK(q->get_arg_type(0) == arg::GSTR && q->get_arg_type(1) == arg::UINT64 && q->get_arg_val64(1) == v, "arguments");
		CHECK(!strcmp((const char *) q->get_arg_val64(0), "f"), "format"); if (how == 2 || how == 3) { unsigned len; const uint8_t *d = q->get_arg_data(2, len); CHECK(q->get_arg_type(2) == arg::CSTR && len == 3 && d[0] == 'a' && d[2] == 'c', "string argument"); CHECK(q->get_arg_type(3) == arg::NONE, "no more arguments"); } else CHECK(q->get_arg_type(2) == arg::NONE, "no more arguments");
		r->pop_commit(); CHECK(r->pop_begin() == 0, "exactly one record"); before = 0; symx_reach("stored"); }
	symx_observe(r->seqnum() - seq0); symx_observe(r->size()); symx_reach("ok"); }
// calls without a ring use the ring of the thread
extern "C" void tlsring() {
	static timesource T("t", ts_cb); area a("A", SN); bool on = sym8("on") & 1; a.set(1, on); ringbuf *r = mkring("R", 4, choice(2, "shared") ? (unsigned) ringbuf::SHARED : 0, 160); r->timesource(&T); tls::_ring = r; g_ts = 7; uint64_t v = sym64("v"); st o = get(r);
	switch (choice(4, "how")) { case 0: hogl::post(&a, 1, arg_gstr("f"), v); break; case 1: hogl::post_unlocked(&a, 1, arg_gstr("f"), v); break; case 2: hogl::post(&a, 1, arg_gstr("f"), v, (const char *) "s"); break; case 3: hogl::post_unlocked(&a, 1, arg_gstr("f"), v, (const char *) "s"); break; }
	st n = get(r); CHECK(n.seq == o.seq + on && n.size == o.size + on && n.drop == o.drop, "posted exactly once if enabled"); if (on) { record *q = r->pop_begin(); CHECK(q && q->area == &a && q->section == 1 && q->get_arg_val64(1) == v, "record"); } symx_observe(n.size); symx_reach("ok"); }
