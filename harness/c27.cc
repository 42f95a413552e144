// C27: unique names, agreeing lookups and lists, priority order.
#include "eng.h"
static const char *NM[] = { "RA", "RB", "RC" }; static const char *S1[] = { "INFO", "DBG", 0 }; static const char *S2[] = { "INFO", "DBGX", 0 }; static const char *S3[] = { "INFO", 0 };
struct ent { ringbuf *r; unsigned flags, prio; int refs; bool dead; };
static ent M[3]; static unsigned posts;
static void lists(void) {
	string_list l; E->list_rings(l); unsigned total = 0; for (int k = 0; k < 3; k++) { unsigned c = 0; for (string_list::iterator i = l.begin(); i != l.end(); ++i) c += *i == NM[k]; if (M[k].refs) CHECK(c == 1, "a ring in use is listed once"); else if (M[k].dead || !M[k].r) CHECK(c == 0, "unknown names are not listed"); total += c;
		ringbuf *q = E->find_ring(NM[k]); if (M[k].refs) CHECK(q == M[k].r, "lookup returns the registered ring"); else if (!M[k].r || M[k].dead) CHECK(!q, "lookup of an unknown name"); CHECK((q != 0) == (c == 1), "lookup and list agree"); if (q) { CHECK(!strcmp(q->name(), NM[k]), "ring name"); q->release(); } }
	CHECK(l.size() == total, "nothing else is listed"); }
extern "C" void rings() {
	static timesource T("t", ts_cb); static area ar("AREA"); ar.enable(); AR = &ar; g_mode = 0; mkengine(8, choice(2, "notso") ? engine::DISABLE_TSO : 0, &T, ".*:(INFO|WARN|ERROR).*"); static const unsigned FL[] = { 0, ringbuf::SHARED, ringbuf::REUSABLE, ringbuf::SHARED | ringbuf::REUSABLE };
	for (int i = 0; i < symx_param("ops", 4); i++) { int k = (int) choice((unsigned) symx_param("names", 2), "name"); ent &m = M[k]; switch (choice(4, "op")) {
		case 0: { ringbuf::options o = { .capacity = 8, .prio = choice(3, "prio"), .flags = FL[choice(4, "flags")], .record_tailroom = 128 }; if (m.refs >= 2) break; bool exists = m.r && !m.dead; ringbuf *r = E->add_ring(NM[k], o);
			if (m.refs == 0 && !exists) { CHECK(r != 0, "a free name can be registered"); } else if (m.flags & ringbuf::SHARED) CHECK(r == m.r, "shared ring: same object"); else if (m.refs == 0 && m.flags & ringbuf::REUSABLE) CHECK(r == m.r, "reusable ring without owner: same object"); else CHECK(r == 0, "otherwise an error");
			if (r && !exists) { m.r = r; m.flags = o.flags; m.prio = o.prio; m.refs = 0; m.dead = false; } if (r) { m.refs++; symx_reach("added"); } else symx_reach("refused"); if (exists) CHECK(m.r->prio() == m.prio && m.r->shared() == !!(m.flags & ringbuf::SHARED) && m.r->reusable() == !!(m.flags & ringbuf::REUSABLE), "the existing ring is not disturbed"); if (m.refs || exists) CHECK(m.r->refcnt() == m.refs + 1, "references balanced"); break; }
		case 1: { if (m.refs >= 2) break; ringbuf::options o = { .capacity = 8, .prio = choice(3, "prio"), .flags = 0, .record_tailroom = 128 }; bool exists = m.r && !m.dead; ringbuf *n = new ringbuf(NM[k], o); n->hold(); bool ok = E->add_ring(n); CHECK(ok == !exists, "a prepared ring is registered exactly if the name is free"); if (ok) { m.r = n; m.flags = 0; m.prio = o.prio; m.refs = 1; m.dead = false; } else { CHECK(n->refcnt() == 1, "a refused ring is not held"); n->release(); } if (m.refs) CHECK(m.r->refcnt() == m.refs + 1, "references balanced"); break; }
		case 2: if (m.refs) { m.r->release(); m.refs--; } break;
		case 3: poll(2); for (int q = 0; q < 3; q++) if (m.r && !M[q].refs) M[q].dead = M[q].r != 0 || M[q].dead; for (int q = 0; q < 3; q++) if (M[q].r && !M[q].refs) M[q].dead = true; break; }
		lists(); }
	// priority order: one record in every ring that is held, then poll
	poll(2); unsigned base = NLOG; for (int k = 0; k < 3; k++) if (M[k].refs) { g_ts = 100; hogl::post(M[k].r, AR, 1, arg_gstr("f"), (uint64_t) k); } poll(2); int last = -1; unsigned n = 0; for (unsigned q = base; q < NLOG; q++) if (LOG[q].ar == AR) { int k = (int) LOG[q].a1; if (last >= 0) { CHECK(M[last].prio >= M[k].prio, "rings are polled in priority order"); symx_reach("order"); } last = k; n++; }
	unsigned h = 0; for (int k = 0; k < 3; k++) h += M[k].refs != 0; CHECK(n == h, "all records are output"); for (int k = 0; k < 3; k++) while (M[k].refs) { M[k].r->release(); M[k].refs--; } engine *e = E; delete e; symx_reach("ok"); }
// areas
static const char **SL[] = { S1, S2, S3, 0 };
extern "C" void areas() {
	static timesource T("t", ts_cb); mkengine(8, 0, &T, ".*:(INFO|WARN|ERROR).*"); area *a[2] = { 0, 0 }; int sl[2]; static const char *AN[] = { "AA", "AB" };
	for (int i = 0; i < symx_param("ops", 4); i++) { int k = (int) choice(2, "name"); int s = (int) choice(4, "sections"); unsigned long added = E->get_stats().areas_added; area *r = E->add_area(AN[k], SL[s]);
		if (!a[k]) { CHECK(r != 0, "a free name can be registered"); a[k] = r; sl[k] = s; symx_reach("added"); } else if (sl[k] == s) { CHECK(r == a[k], "same name and sections: same area"); symx_reach("same"); } else { CHECK(r == 0, "same name, other sections: an error"); symx_reach("refused"); } (void) added;
		CHECK(!strcmp(a[k]->name(), AN[k]), "area name"); unsigned cnt = sl[k] == 2 ? 1 : sl[k] == 3 ? a[k]->count() : 2; CHECK(a[k]->count() == cnt, "sections of the area are not disturbed");
		for (int q = 0; q < 2; q++) CHECK(E->find_area(AN[q]) == a[q], "lookup returns exactly the registered area"); CHECK(E->find_area("zz") == 0 && E->find_area("A") == 0, "unknown names"); string_list l; E->list_areas(l); for (int q = 0; q < 2; q++) { unsigned c = 0; for (string_list::iterator j = l.begin(); j != l.end(); ++j) c += *j == AN[q]; CHECK(c == (a[q] != 0), "listed once"); } CHECK(l.size() == 1u + (a[0] != 0) + (a[1] != 0), "nothing else is listed"); }
	engine *e = E; delete e; symx_reach("ok"); }
// names that differ only in one (symbolic) byte
extern "C" void names() {
	static timesource T("t", ts_cb); mkengine(8, 0, &T, ".*:(INFO|WARN|ERROR).*"); char x[4], y[4]; for (int i = 0; i < 2; i++) { x[i] = (char) sym8("x"); y[i] = (char) sym8("y"); } x[2] = y[2] = 0; symx_assume(x[0] != 0 && y[0] != 0); 
	area *a = E->add_area(x, S1), *b = E->add_area(y, S1); CHECK(a && b, "registered"); bool same = !strcmp(x, y); CHECK((a == b) == same, "one area per name"); CHECK(E->find_area(x) == a && E->find_area(y) == b, "lookup"); CHECK(!strcmp(b->name(), y), "name"); string_list l; E->list_areas(l); CHECK(l.size() == (same ? 2u : 3u), "list");
	ringbuf::options o = { .capacity = 8, .prio = 0, .flags = ringbuf::SHARED, .record_tailroom = 128 }; ringbuf *r = E->add_ring(x, o), *q = E->add_ring(y, o); CHECK(r && q && (r == q) == same, "one ring per name"); CHECK(!strcmp(q->name(), y), "name"); string_list m; E->list_rings(m); CHECK(m.size() == (same ? 1u : 2u), "list"); ringbuf *f = E->find_ring(y); CHECK(f == q, "lookup"); f->release(); r->release(); q->release(); engine *e = E; delete e; symx_reach(same ? "same" : "differ"); }
