// C26: the active ring of a thread follows the nesting of its contexts; references balance.
#include "eng.h"
#include <hogl/tls.hpp>
static ringbuf *dflt; static volatile int odone[2]; static const char *NM[] = { "RA", "RB" };
static ringbuf::options OPT[2]; static ringbuf *ringof[2]; static bool gone[2] = { true, true };
static int idx(ringbuf *r) { return r == ringof[0] && r ? 0 : r == ringof[1] && r ? 1 : -1; }
struct ctx { tls *t; ringbuf *cur, *prev; };
static void refs(ctx *c, int n, ringbuf *extra) { for (int k = 0; k < 2; k++) if (ringof[k]) { int e = 1 + (extra == ringof[k]); for (int i = 0; i < n; i++) { e += c[i].cur == ringof[k]; e += c[i].cur && c[i].prev == ringof[k]; } if (e > 1) CHECK(ringof[k]->refcnt() == e, "every context holds its ring (and the one it restores) exactly once"); } }
static void step(ctx *c, int &n, int maxd, uint64_t id) {
	ringbuf *top = n ? c[n - 1].t && c[n - 1].cur ? c[n - 1].cur : c[n - 1].prev : dflt; CHECK(tls::ring() == top, "the active ring is the one of the innermost context");
	switch (choice(n < maxd ? 5 : 3, "op")) {
	case 0: if (n) { n--; ringbuf *p = c[n].prev; delete c[n].t; c[n].t = 0; c[n].cur = 0; CHECK(tls::ring() == p, "the end of a context restores the previous ring"); symx_reach("restore"); } break;
	case 1: if (top != dflt) { uint64_t s = top->seqnum(); hogl::post(AR, 1, arg_gstr("f"), id); CHECK(top->seqnum() == s + 1, "posted to the active ring"); } break;
	case 2: poll(2); for (int k = 0; k < 2; k++) { bool u = false; for (int i = 0; i < n; i++) u |= ringof[k] && (c[i].cur == ringof[k]); if (!u) gone[k] = true; } break;
	case 3: { int k = (int) choice(2, "name"); bool inuse = false; for (int i = 0; i < n; i++) inuse |= ringof[k] && (c[i].cur == ringof[k]); bool expect = !inuse || OPT[k].flags & ringbuf::SHARED; c[n].prev = top; c[n].t = new tls(NM[k], OPT[k], E); if (c[n].t->valid()) { c[n].cur = tls::ring(); CHECK(!strcmp(c[n].cur->name(), NM[k]), "ring of that name"); CHECK(!inuse || c[n].cur == ringof[k], "same ring"); if (!inuse && !gone[k] && !(OPT[k].flags & ringbuf::SHARED)) CHECK(0, "a ring that cannot be reused is not reused"); CHECK(expect, "a ring in use is not taken over"); ringof[k] = c[n].cur; gone[k] = false; symx_reach("created"); } else { CHECK(!expect || !gone[k], "context with a free name is created"); c[n].cur = 0; CHECK(tls::ring() == top, "failed creation leaves the active ring"); symx_reach("failed"); } n++; break; }
	case 4: { if (n && choice(2, "same")) { if (top == dflt) break; c[n].prev = top; c[n].cur = top->hold(); c[n].t = new tls(top, E); n++; break; } int k = (int) choice(2, "name"); ringbuf *r = E->find_ring(NM[k]); if (!r) break; c[n].prev = top; c[n].cur = r; ringof[k] = r; c[n].t = new tls(r, E); CHECK(c[n].t->valid() && tls::ring() == r, "context with a given ring"); n++; symx_reach("given"); break; } }
	refs(c, n, 0); }
static void init(void) { static timesource T("t", ts_cb); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(8, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T, ".*:(INFO|WARN|ERROR).*"); dflt = tls::ring(); CHECK(dflt == &default_ring, "a thread without context uses the default ring");
	for (int k = 0; k < 2; k++) { OPT[k] = ringbuf::options{ .capacity = 64, .prio = 0, .flags = k ? (unsigned) ringbuf::SHARED : 0, .record_tailroom = 128 }; } poll(); }
extern "C" void history() {
	init(); ctx c[4]; memset(c, 0, sizeof c); int n = 0; int d0 = dflt->refcnt();
	for (int i = 0; i < symx_param("ops", 4); i++) step(c, n, 3, i);
	while (n) { n--; ringbuf *p = c[n].prev; delete c[n].t; c[n].t = 0; c[n].cur = 0; CHECK(tls::ring() == p, "the end of a context restores the previous ring"); refs(c, n, 0); }
	CHECK(tls::ring() == dflt && dflt->refcnt() == d0, "default ring restored, references balanced"); poll(5); CHECK(!E->find_ring("RA") && !E->find_ring("RB"), "every reference was released"); engine *e = E; delete e; symx_observe(NLOG); symx_reach("ok"); }
// several threads: contexts of one thread do not affect another
static void other(void *a) { CHECK(tls::ring() == dflt, "a thread without context uses the default ring"); { tls t(NM[1], OPT[1], E); CHECK(t.valid() && !strcmp(tls::ring()->name(), "RB"), "active ring"); hogl::post(AR, 1, arg_gstr("f"), (uint64_t) 20); { tls u("RC", OPT[0], E); CHECK(u.valid() && !strcmp(tls::ring()->name(), "RC"), "active ring"); hogl::post(AR, 1, arg_gstr("f"), (uint64_t) 21); } CHECK(!strcmp(tls::ring()->name(), "RB"), "restored"); } CHECK(tls::ring() == dflt, "restored"); odone[0] = 1; }
extern "C" void threads() {
	init(); int d0 = dflt->refcnt(); symx_thread_create(other, 0); symx_sched(1); g_mode = 1;
	{ tls t(NM[0], OPT[0], E); CHECK(t.valid() && !strcmp(tls::ring()->name(), "RA"), "active ring"); hogl::post(AR, 1, arg_gstr("f"), (uint64_t) 10); if (choice(2, "nest")) { tls u(NM[1], OPT[1], E); CHECK(u.valid() && !strcmp(tls::ring()->name(), "RB"), "active ring"); hogl::post(AR, 1, arg_gstr("f"), (uint64_t) 11); } CHECK(!strcmp(tls::ring()->name(), "RA"), "restored"); } CHECK(tls::ring() == dflt, "restored");
	symx_block_while(&odone[0], 0); symx_sched(0); g_mode = 0; CHECK(dflt->refcnt() == d0, "references balanced"); poll(5); CHECK(!E->find_ring("RA") && !E->find_ring("RB") && !E->find_ring("RC"), "every reference was released");
	unsigned c10 = 0, c20 = 0, c21 = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR) { c10 += LOG[k].a1 == 10 && !strcmp(LOG[k].rn, "RA"); c20 += LOG[k].a1 == 20 && !strcmp(LOG[k].rn, "RB"); c21 += LOG[k].a1 == 21 && !strcmp(LOG[k].rn, "RC"); } CHECK(c10 == 1 && c20 == 1 && c21 == 1, "posted through the ring of the thread"); engine *e = E; delete e; symx_observe(NLOG); symx_reach("ok"); }
