// C03: concurrent posts into a shared ring: complete, unmixed records, unique gap-free sequence numbers, per-thread order.
#include "eng.h"
#include <hogl/detail/argpack.hpp>
static ringbuf *R; static unsigned N, NW; static volatile int ndone[4]; static uint64_t val[3][4]; static unsigned nread; static unsigned last[3]; static uint64_t lastseq; static unsigned seqs; static char STR[3][8];
static int form; static area *ARS[3];
static void post_n(unsigned w) { for (unsigned i = 0; i < N; i++) { ndone[w] = i + 2;
		if (form == 0) hogl::post(R, ARS[w], w, arg_gstr("f"), val[w][i], (uint64_t) (w * 16 + i), ~val[w][i]);
		else if (form == 1) hogl::post(R, ARS[w], w, arg_gstr("f"), val[w][i], (uint64_t) (w * 16 + i), ~val[w][i], STR[w]); // string argument: out of line path
		else hogl::push(R, ARS[w], w, arg_gstr("f"), val[w][i], (uint64_t) (w * 16 + i), ~val[w][i]); } ndone[w] = 1; }
static void writer(void *a) { post_n((unsigned) (size_t) a); }
static void take(record *r) { uint64_t id = r->argval[2].u64; unsigned w = (unsigned) (id >> 4), i = (unsigned) (id & 15); CHECK(w < NW && i < N, "record of one of the posts");
	CHECK(r->argval[1].u64 == val[w][i] && r->argval[3].u64 == ~val[w][i] && r->area == ARS[w] && r->section == w, "all fields of a record come from a single post");
	if (form == 1) { CHECK(r->get_arg_type(4) == arg::CSTR, "type"); unsigned len; const uint8_t *p = r->get_arg_data(4, len); CHECK(len >= 6 && !memcmp(p, STR[w], 7), "string argument of the same post"); }
	CHECK(i + 1 > last[w], "records of one thread keep their order"); last[w] = i + 1;
	if (nread) CHECK(r->seqnum > lastseq, "sequence numbers are unique and increase in posting order"); lastseq = r->seqnum; nread++; }
static unsigned drain(unsigned max) { record *r; unsigned c = 0; while (c < max && (r = R->pop_begin())) { take(r); R->pop_commit(); c++; } return c; }
extern "C" void ring() {
	N = (unsigned) symx_param("n", 2); NW = (unsigned) symx_param("writers", 2); form = (int) choice(3, "form"); static timesource T("t", ts_cb); static const char *sn[] = { "a", "b", "c", 0 };
	for (unsigned w = 0; w < NW; w++) { ARS[w] = new area("A", sn); ARS[w]->enable(); strcpy(STR[w], "str-0"); STR[w][4] += w; strcat(STR[w], "!"); for (unsigned i = 0; i < N; i++) val[w][i] = sym64("v"); }
	unsigned cap = choice(2, "cap") ? 2 : 8; R = mkring("R", cap, ringbuf::SHARED, form == 1 ? 200 : 128); R->timesource(&T); int reader = symx_param("reader", 1);
	for (unsigned w = 1; w < NW; w++) symx_thread_create(writer, (void *) (size_t) w);
	if (reader) { symx_thread_create(writer, (void *) 0); symx_sched(1); for (int p = 0; p < symx_param("polls", 2); p++) { symx_point(); drain(2); } symx_block_while(&ndone[0], 0); for (int k = 2; k < 6; k++) symx_block_while(&ndone[0], k); }
	else { symx_sched(1); post_n(0); }
	for (unsigned w = 1; w < NW; w++) for (int k = 0; k < 6; k++) if (k != 1) symx_block_while(&ndone[w], k);
	symx_sched(0); drain(99); CHECK(R->seqnum() == N * NW, "one sequence number per post"); CHECK(nread + R->dropcnt() == N * NW, "every post is delivered or counted as dropped");
	if (cap == 8) CHECK(nread == N * NW && lastseq == nread - 1, "nothing lost with room to spare, sequence numbers without gaps"); if (R->dropcnt()) symx_reach("drop"); symx_observe(nread); symx_reach("ok"); }
