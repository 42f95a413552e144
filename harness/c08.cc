// C08: ring geometry for every option combination, occupancy arithmetic, reset.
#include "common.h"
#include <hogl/detail/args.hpp>
#include <malloc.h>
using namespace hogl;
static const unsigned BIG[] = { 64, 100, 128, 129, 1000, 1024, 1025, 4096 };
// every capacity 1..maxcap (plus larger ones), every tailroom 0..maxtail: slots inside the allocation, disjoint; options honoured
extern "C" void geometry() {
	unsigned mc = symx_param("maxcap", 17), cap, tr;
	if (choice(2, "big")) { cap = BIG[choice(symx_param("nbig", 4), "bigcap")]; tr = choice(2, "bt") ? 128 : 1000; symx_reach("big"); }
	else { cap = 1 + choice(mc, "cap"); tr = (unsigned) symrange("tailroom", 0, symx_param("maxtail", 2000)); }
	unsigned fl = choice(16, "flags"), prio = sym32("prio"); 
	ringbuf::options o; o.capacity = cap; o.prio = prio; o.flags = fl; o.record_tailroom = tr;
	ringbuf *r = new ringbuf("NAME", o);
	unsigned n = r->capacity(), rs = r->record_size(), rt = r->record_tailroom();
	CHECK(n >= cap && (n & (n - 1)) == 0 && n < 2 * cap + (cap == 1), "capacity: power of two, smallest not below the request");
	CHECK((rs & (rs - 1)) == 0, "record size is a power of two"); CHECK(rt >= tr, "at least the requested tailroom"); CHECK(rt + record::header_size() <= rs && rt >= record::argval_size(), "tailroom inside the slot");
	CHECK(r->shared() == !!(fl & ringbuf::SHARED) && r->immortal() == !!(fl & ringbuf::IMMORTAL) && r->reusable() == !!(fl & ringbuf::REUSABLE) && r->blocking() == !!(fl & ringbuf::BLOCKING), "flags");
	CHECK(!strcmp(r->name(), "NAME"), "name"); if (prio <= ringbuf::PRIORITY_CEILING) CHECK((unsigned) r->prio() == prio, "priority"); CHECK(r->prio() <= ringbuf::PRIORITY_CEILING, "priority ceiling");
	CHECK(r->empty() && r->size() == 0 && r->room() == n - 1 && r->seqnum() == 0 && r->dropcnt() == 0 && r->refcnt() == 0, "fresh state"); CHECK(r->timesource() != 0, "time source");
	// walk all slots through the writer interface: distinct, inside the memory of the ring, back to the start after n
	uint8_t *first = 0, *prev = 0, *lo = 0, *hi = 0; r->hold();
	for (unsigned i = 0; i < n; i++) {
		uint8_t *p = (uint8_t *) r->push_begin(); if (!i) first = p;
		if (!lo || p < lo) lo = p; if (!hi || p > hi) hi = p; p[0] = (uint8_t) i; p[rs - 1] = (uint8_t) i; (void) prev; prev = p;
		if (i) CHECK(p != first, "slot handed out twice");
		if (n > 1) { r->push_commit(); CHECK(r->size() == 1 && r->room() == n - 2, "one waiting"); record *q = r->pop_begin(); CHECK((uint8_t *) q == p, "popped record is the pushed one"); CHECK(p[rs - 1] == (uint8_t) i, "slot content"); r->pop_commit(); CHECK(r->empty(), "empty again"); } }
	if (n > 1) CHECK((uint8_t *) r->push_begin() == first, "slots are cyclic");
	CHECK((size_t) (hi - lo) == (size_t) (n - 1) * rs, "slots are disjoint and contiguous"); size_t os = symx_objsize(lo); if (!symx_is_native()) CHECK(os >= (size_t) n * rs, "slots are inside the allocation");
	symx_observe(n); symx_observe(rs); r->release(); symx_reach("ok"); }
// any sequence of pushes/pops/resets: size + room == capacity - 1, matches a counter model
extern "C" void occupancy() {
	unsigned cap = 1u << choice(symx_param("logcap", 4), "logcap"); unsigned tr = choice(2, "tail") ? 128 : 300; ringbuf *r = mkring("R", cap, 0, tr); unsigned cnt = 0; uint64_t drops = 0, seq = 0; uint32_t in = 0, out = 0; uint32_t q[64];
	for (int i = 0; i < symx_param("ops", 8); i++) {
		switch (choice(5, "op")) {
		case 0: { record *x = r->push_begin(); x->argval[0].u64 = in; r->inc_seqnum(); seq++; r->push_commit(); if (cnt + 1 < cap) { q[(out + cnt) % 64] = in; cnt++; } else { drops++; symx_reach("drop"); } in++; break; }
		case 1: { record *x = r->pop_begin(); CHECK(!!x == (cnt > 0), "pop finds a record exactly if one waits"); if (x) { CHECK(x->argval[0].u64 == q[out % 64], "oldest record first"); r->pop_commit(); out++; cnt--; symx_reach("pop"); } break; }
		case 2: { ringbuf::pop_iterator it(r); record *x, *last = 0; unsigned c = 0, take = choice(4, "take"); while (c < take && (x = it.next())) { CHECK(x->argval[0].u64 == q[(out + c) % 64], "iterator order"); last = x; c++; } CHECK(c == (take < cnt ? take : cnt), "iterator count");
			if (last && choice(2, "commit")) { if (choice(2, "rewind")) { ringbuf::pop_iterator jt(r); jt.rewind(last); jt.commit(); } else it.commit(); out += c; cnt -= c; symx_reach("iter"); } break; }
		case 3: r->reset(); CHECK(r->empty() && r->size() == 0 && r->room() == cap - 1 && r->seqnum() == 0 && r->dropcnt() == 0, "reset restores the fresh state"); CHECK(r->capacity() == cap, "reset keeps the capacity"); cnt = 0; drops = seq = 0; out = 0; symx_reach("reset"); break;
		case 4: break;
		}
		CHECK(r->size() + r->room() == cap - 1, "waiting + room == capacity - 1"); CHECK(r->size() == cnt, "number waiting"); CHECK(r->empty() == (cnt == 0), "empty"); CHECK(r->dropcnt() == drops && r->seqnum() == seq, "counters"); }
	symx_reach("ok"); }
// extreme requests: the constructor terminates and never hands out slots outside of what was allocated
extern "C" void extreme() {
	static const struct { unsigned cap, tr; } X[] = { { 1u << 24, 128 }, { 1u << 25, 128 }, { (1u << 25) + 1, 128 }, { 1u << 28, 128 }, { 1u << 31, 128 }, { 0, 128 }, { 4, 1u << 20 }, { 4, 1u << 30 }, { 4, 0x80000001u } , { 0x80000001u, 128 } };
	unsigned i = choice(symx_param("n", 10), "case"); ringbuf::options o; o.capacity = X[i].cap; o.prio = 0; o.flags = 0; o.record_tailroom = X[i].tr;
	ringbuf *r; try { r = new ringbuf("X", o); } catch (...) { symx_reach("refused"); return; }
	uint8_t *p = (uint8_t *) r->_rec_top; size_t n = r->capacity(), rs = r->record_size();
	if (!p || n <= 1) { symx_reach("refused"); return; }
	CHECK(n >= X[i].cap, "capacity"); CHECK(r->record_tailroom() >= X[i].tr, "tailroom");
	size_t os = symx_objsize(p); if (symx_is_native()) os = malloc_usable_size(p); CHECK(os >= n * rs, "all slots inside the allocation"); symx_reach("accepted"); }
