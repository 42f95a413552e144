// C04/C05: any history of posts and engine polls; output order, drop reports, nothing lost. Sequential model: the engine
// thread runs whole polls between the posts (round robin), the interleavings of a poll with posts are explored by c09/c01.
#include "eng.h"
static const unsigned CAPS[] = { 4, 2, 8 };
struct P { unsigned ring; uint64_t ts; bool acc; unsigned idx; bool special; };
static P PO[32]; static unsigned np; static ringbuf *RG[3]; static const char *RN[] = { "RA", "RB", "RC" }; static unsigned cnt[3];
static int ringof(const char *n) { for (int i = 0; i < 3; i++) if (RG[i] && n == RG[i]->name()) return i; for (int i = 0; i < 3; i++) if (RG[i] && !strcmp(n, RG[i]->name())) return i; return -1; }
static bool mono; static bool want4, want5; static unsigned outn[3]; static unsigned seen; static uint64_t reported; 
static void post1(unsigned i) {
	uint64_t ts = symx_param("conc", 0) ? 1000 + np * 10 : 100 + (uint64_t) sym32("ts"); if (mono) for (unsigned k = np; k-- > 0;) if (PO[k].ring == i) { symx_assume(ts > PO[k].ts); break; }
	g_ts = ts; uint64_t d = RG[i]->dropcnt(); bool full = RG[i]->room() == 0; hogl::post(RG[i], AR, 1, arg_gstr("f"), (uint64_t) np); P &p = PO[np++]; p.ring = i; p.ts = ts; p.acc = RG[i]->dropcnt() == d; p.idx = cnt[i]++; CHECK(p.acc == !full, "accepted exactly if there is room"); if (!p.acc) symx_reach("drop"); }
static unsigned next_acc(int i) { unsigned k = 0; while (k < np && !(PO[k].ring == (unsigned) i && PO[k].acc && PO[k].idx >= outn[i])) k++; return k; }
static void skip_special(int i) { for (;;) { unsigned k = next_acc(i); if (k < np && PO[k].special && PO[k].idx == outn[i]) outn[i]++; else return; } }
static void mark1(unsigned i) { P &p = PO[np++]; p.ring = i; p.ts = 0; p.acc = true; p.idx = cnt[i]++; p.special = true; }
static void after_poll() { // examine what the last poll(s) produced
	bool marked = false; uint64_t last = 0; bool have = false;
	for (; seen < NLOG; seen++) { Out &o = LOG[seen];
		if (ismark(o)) { marked = true; symx_reach("mark"); continue; }
		if (isdrop(o)) { if (want4) { int i = ringof(o.ring); CHECK(i >= 0, "drop report names a ring"); CHECK(o.fmt && !strncmp((const char *) o.fmt, "dropped ", 8), "text of the report");
			skip_special(i); unsigned nx = next_acc(i); CHECK(nx < np, "a drop report is followed by a record"); P &x = PO[nx];
			CHECK(o.a1 == x.idx - outn[i], "number of records reported as dropped"); CHECK(o.a1 != 0, "empty drop report"); reported += o.a1; outn[i] = x.idx; symx_reach("report");
			if (!x.special) CHECK(seen + 1 < NLOG && LOG[seen + 1].ar == AR && LOG[seen + 1].a1 == nx, "a drop report stands immediately before the first record after the gap"); } continue; }
		if (o.ar != AR) continue; // engine's own messages
		int i = ringof(o.ring); CHECK(i >= 0, "ring name of an output record"); CHECK(o.a1 < np && PO[o.a1].ring == (unsigned) i, "output record was posted to this ring"); P &p = PO[o.a1];
		CHECK(!p.special, "special mark output"); CHECK(p.acc, "a record reported or counted as dropped was output"); CHECK(o.ts == p.ts && o.sect == 1, "contents");
		if (want4) skip_special(i); if (want4) CHECK(p.idx == outn[i], "posted = output + reported as dropped"); else CHECK(p.idx >= outn[i], "records of one ring are output once, in posting order"); outn[i] = p.idx + 1;
		p.acc = p.acc; if (want5 && mono && have && !marked && !(E->get_options().features & engine::DISABLE_TSO)) CHECK(last <= o.ts, "records are output in time stamp order"); last = o.ts; have = true; if (have) symx_reach("out"); } }
extern "C" void history() {
	want4 = symx_param("c04", 0); want5 = !want4; mono = symx_param("mono", 1); g_mode = 0; static timesource T("t", ts_cb);
	unsigned feat = choice((unsigned) symx_param("modes", 1), "notso") ? engine::DISABLE_TSO : 0; if (feat) want4 = false;
	unsigned tso = feat ? 4 : 1 + choice((unsigned) symx_param("tso", 4), "tsocap"); if (symx_param("bigtso", 0) && !feat) tso = tso == 1 ? (unsigned) symx_param("bigtso", 0) : tso;
	mkengine(tso, feat, &T); AR = E->add_area("A", 0); 
	static const char *sn[] = { "S0", "S1", 0 }; AR = E->add_area("AREA", sn); CHECK(AR != 0, "area"); unsigned nr = (unsigned) symx_param("rings", 2);
	for (unsigned i = 0; i < nr; i++) { ringbuf::options o = { .capacity = CAPS[i ? 0 : choice((unsigned) symx_param("caps", 2), "cap")], .prio = i, .flags = 0, .record_tailroom = 128 }; RG[i] = E->add_ring(RN[i], o); CHECK(RG[i] != 0, "ring"); }
	unsigned ops = (unsigned) symx_param("ops", 6);
	for (unsigned k = 0; k < ops; k++) { unsigned c = choice(nr + 1, "op"); if (c < nr) post1(c); else { poll(); after_poll(); } }
	for (int k = 0; k < 12; k++) { poll(); after_poll(); }
	unsigned tot = 0, acc = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR) tot++; for (unsigned k = 0; k < np; k++) acc += PO[k].acc && !PO[k].special;
	CHECK(tot == acc, "every accepted record is output"); for (unsigned i = 0; i < nr; i++) CHECK(RG[i]->empty(), "rings are empty in the end");
	if (want4) CHECK(E->get_stats().recs_dropped == reported, "statistics agree with the reports"); symx_observe(NLOG); symx_observe(reported); symx_reach("ok"); }

// an immortal ring (like the default one) handed from one engine to the next; flush and time source changes that time out
extern "C" void handover() {
	want4 = true; mono = true; g_mode = 0; static timesource T("t", ts_cb); static const char *sn[] = { "S0", "S1", 0 }; static area ar("AREA", sn); ar.enable(); AR = &ar;
	unsigned fl = choice(2, "shared") ? ringbuf::IMMORTAL | ringbuf::SHARED : (unsigned) ringbuf::IMMORTAL; RG[0] = mkring("RA", CAPS[choice(2, "cap")], fl); RG[0]->timesource(&T);
	unsigned eng = 1 + choice(2, "engines"); unsigned k0 = choice(4, "before"); for (unsigned i = 0; i < k0; i++) post1(0);
	for (unsigned e = 0; e < eng; e++) { mkengine(choice(2, "tso") ? 16 : 4, 0, &T); if (e) RG[0]->hold(); CHECK(E->add_ring(RG[0]), "registered");
		for (int i = 0; i < symx_param("ops", 3); i++) switch (choice(4, "op")) { case 0: post1(0); break; case 1: poll(); after_poll(); break;
			case 2: { unsigned n0 = RG[0]->room(); bool r = hogl::flush(RG[0], n0 ? 20000 : 0); if (r) mark1(0); after_poll(); CHECK(r == (n0 != 0), "flush with time to spare works, flush of a full ring without time does not"); symx_reach(r ? "flush" : "timeout"); break; }
			case 3: { unsigned n0 = RG[0]->room(); bool r = hogl::change_timesource(RG[0], &T, n0 ? 20000 : 0); if (r) mark1(0); CHECK(r == (n0 != 0), "time source change"); after_poll(); break; } }
		for (int k = 0; k < 4; k++) { poll(); after_poll(); } CHECK(RG[0]->empty(), "drained"); RG[0]->release(); engine *e0 = E; delete e0; }
	unsigned tot = 0, acc = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR) tot++; for (unsigned k = 0; k < np; k++) acc += PO[k].acc && !PO[k].special;
	CHECK(tot == acc, "every accepted record is output"); symx_reach("ok"); }

// many records in one poll (more than a small sort handles by insertion): time stamps from patterns, one of them symbolic
extern "C" void batch() {
	want4 = false; want5 = true; g_mode = 0; static timesource T("t", ts_cb); static const unsigned TC[] = { 64, 24, 18, 5 }; mkengine(TC[choice(4, "tsocap")], 0, &T); static const char *sn[] = { "S0", "S1", 0 }; AR = E->add_area("AREA", sn); CHECK(AR != 0, "area");
	unsigned nr = 1 + choice(2, "rings"); for (unsigned i = 0; i < nr; i++) { ringbuf::options o = { .capacity = 32, .prio = i, .flags = 0, .record_tailroom = 128 }; RG[i] = E->add_ring(RN[i], o); CHECK(RG[i] != 0, "ring"); }
	unsigned n = (unsigned) symx_param("n", 20), pat = choice(5, "pattern"), sp = n + 1; if (symx_param("sym", 1)) sp = choice(4, "symbolic") * (n / 4) + 2; uint64_t lastts[2] = { 0, 0 }; mono = true;
	for (unsigned k = 0; k < n; k++) { unsigned i = nr == 1 ? 0 : pat == 4 ? k >= n / 2 : k & 1; uint64_t ts = pat == 0 ? 1000 : pat == 1 ? 1000 - k : pat == 2 ? 1000 + (k & 3) : pat == 3 ? 1000 + k : 1000 + k % (n / 2); if (k == sp) ts = 900 + (uint64_t) (sym8("ts")); 
		g_ts = ts; if (ts <= lastts[i]) mono = false; lastts[i] = ts; hogl::post(RG[i], AR, 1, arg_gstr("f"), (uint64_t) np); P &p = PO[np++]; p.ring = i; p.ts = ts; p.acc = true; p.idx = cnt[i]++; }
	for (int k = 0; k < 8; k++) { poll(); after_poll(); } unsigned tot = 0; for (unsigned k = 0; k < NLOG; k++) if (LOG[k].ar == AR) tot++; CHECK(tot == n, "every record is output once"); for (unsigned i = 0; i < nr; i++) CHECK(RG[i]->empty(), "rings are empty in the end"); symx_observe(NLOG); symx_reach(mono ? "mono" : "back"); }
