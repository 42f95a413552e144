// C25: concurrent area registration, lookup and mask changes.
#include "eng.h"
static const char *SN[] = { "INFO", "DBG", 0 }; static area *got[3]; static volatile int done[3]; static int script[3]; static int g_k;
static mask *MA, *MB; static volatile unsigned applied; static const area *found;
static void act(int w) { switch (script[w]) { case 0: got[w] = E->add_area("X", SN); CHECK(got[w] != 0, "registered"); break; case 1: E->apply_mask(*MA); break; case 2: E->apply_mask(*MB); break; case 3: found = E->find_area("X"); break; case 4: got[w] = E->add_area("Y", SN); CHECK(got[w] != 0, "registered"); break; } }
static void other(void *a) { int w = (int) (size_t) a; act(w); done[w] = 1; }
extern "C" void race() {
	static timesource T("t", ts_cb); static const int SC[][3] = { { 0, 0, -1 }, { 0, 1, -1 }, { 0, 3, -1 }, { 1, 2, -1 }, { 0, 0, 1 }, { 0, 1, 2 }, { 4, 0, 1 } }; int c = (int) choice((unsigned) symx_param("scripts", 4), "script"); if (symx_param("only", -1) >= 0) c = (int) symx_param("only", -1);
	g_mode = 0; mkengine(4, 0, &T, ".*:INFO"); bool early = choice(2, "early") && c == 3; MA = new mask(".*:DBG", 0); MB = new mask("X:INFO", "!.*:DBG", "!HOGL:.*", 0); area *ex = 0; if (early || c == 3) ex = E->add_area("X", SN); poll(1);
	int n = SC[c][2] < 0 ? 2 : 3; for (int w = 0; w < n; w++) { script[w] = SC[c][w]; symx_thread_create(other, (void *) (size_t) w); }
	symx_sched(1); for (int w = 0; w < n; w++) symx_block_while(&done[w], 0); symx_sched(0);
	const area *x = E->find_area("X"); area *first = ex; bool ma = false, mb = false; for (int w = 0; w < n; w++) { if (script[w] == 0) { if (!first) first = got[w]; CHECK(got[w] == first, "the same area object for every caller"); } ma |= script[w] == 1; mb |= script[w] == 2; }
	CHECK(x == first && x != 0, "lookup finds the registered area"); if (found) CHECK(found == x, "concurrent lookup"); string_list l; E->list_areas(l); unsigned k = 0; for (string_list::iterator i = l.begin(); i != l.end(); ++i) k += *i == "X"; CHECK(k == 1, "the name exists once");
	bool mw = false; // which states are possible at the end
	bool info = x->test(0), dbg = x->test(1);
	if (!ma && !mb) CHECK(info && !dbg, "initial mask decides");
	else if (ma && !mb) { CHECK(dbg, "the section states are as the last applied mask decides"); }
	else if (ma && mb) { area probe("X", SN); E->get_mask().apply(&probe); bool lastA = probe.test(1); CHECK(dbg == lastA, "the section states are as the last applied mask decides"); if (!lastA) CHECK(info, "the section states are as the last applied mask decides"); symx_reach(lastA ? "A last" : "B last"); }
	(void) mw; symx_observe(info * 2 + dbg); symx_reach("ok"); }
