// C07: storing arguments of any sizes stays inside the record's storage, keeps arguments apart, marks cuts.
#include "common.h"
#include <hogl/post.hpp>
#include <hogl/detail/argpack.hpp>
using namespace hogl;
static uint8_t S[3][512];
struct A { int kind; unsigned len; const uint8_t *src; };
static const unsigned TR[] = { 128, 0, 257, 480, 129 };
// how the arguments reach the record: 0 direct set_args, 1 via argpack (post path)
static arg mkarg(A &a, arg_xdump *xd) {
	switch (a.kind) {
	case 0: { arg r; r.type = arg::CSTR; r.val = (uint64_t) a.src; r.len = a.len; return r; }
	case 1: return arg(arg_raw(a.src, a.len));
	default: *xd = arg_xdump(a.src, a.len, 'H', 1, 2, 20, ' '); return arg(*xd); } }
static unsigned lens(const char *n, unsigned room, int full) {
	// full: every length; otherwise the lengths around the edges of the room, plus one arbitrary longer than the room
	unsigned l = (unsigned) symrange(n, 0, 500);
	if (!full) symx_assume(l <= 6 || (l + 8 >= room));
	return l; }
extern "C" void harness() {
	unsigned tr = TR[choice(symx_param("tailrooms", 2), "tailroom")];
	ringbuf *ring = mkring("R", 4, 0, tr); timesource tsrc("t", ts_cb); ring->timesource(&tsrc);
	unsigned tail = ring->record_tailroom();
	// the three slots around the record hold a pattern
	unsigned rs = ring->record_size(); uint8_t *base = (uint8_t *) ring->push_begin();
	int pos = (int) choice(3, "layout"); // number of leading integers: 0, 5, 13
	static const unsigned LEAD[] = { 0, 5, 13 }; unsigned lead = LEAD[pos], n = lead + 3, room = tail - n * 8;
	A a[3]; for (int i = 0; i < 3; i++) a[i].src = S[i];
	static const int K[][3] = { {0,0,0}, {1,0,2}, {2,2,0}, {0,1,1}, {2,0,0}, {1,2,1} };
	unsigned k = choice(symx_param("kinds", 6), "kinds"); for (int i = 0; i < 3; i++) a[i].kind = K[k][i];
	int full = symx_param("full", 0);
	if (full) a[0].len = (unsigned) symx_concretize(lens("len0", room, 1));
	else { unsigned c = choice(16, "len0"); a[0].len = c < 5 ? c : c < 15 ? room - 7 + (c - 5) : (unsigned) symrange("long0", room + 3, 500); }
	 a[1].len = lens("len1", room > a[0].len ? room - a[0].len : 0, symx_param("full1", 0)); 
	a[2].len = (unsigned) choice(7, "len2");
	for (int i = 0; i < 3; i++) for (unsigned j = 0; j < 512; j++) S[i][j] = 'a' + i * 3 + j % 3; // distinct alphabets per argument
	memset(base, 0xee, 4 * rs); record *r = (record *) base;
	arg_xdump xd[3] = { arg_xdump(0, 0), arg_xdump(0, 0), arg_xdump(0, 0) };
	for (int i = 0; i < 3; i++) symx_concretize(a[i].kind);
	arg v[16]; for (unsigned i = 0; i < lead; i++) v[i] = arg((uint64_t) (0x1111111111111111ull * (i + 1))); for (int i = 0; i < 3; i++) v[lead + i] = mkarg(a[i], &xd[i]);
	#define V16 v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15]
	area ar("AR");
	if (choice(2, "path")) { push_unlocked(ring, &ar, 2, V16); symx_reach("argpack"); } else { r->area = &ar; r->section = 2; r->seqnum = 0; r->set_args(tail, V16); symx_reach("direct"); }
	CHECK(r->area == &ar && r->section == 2 && r->seqnum == 0, "header not overwritten by arguments");
	for (unsigned j = 0; j < 3 * rs; j += 8) CHECK(*(uint64_t *) (base + rs + j) == 0xeeeeeeeeeeeeeeeeull, "neighbouring record overwritten");
	for (unsigned i = 0; i < 16; i++) { unsigned t = r->get_arg_type(i); CHECK(t == (i < lead ? arg::UINT64 : i < n ? (a[i - lead].kind == 0 ? arg::CSTR : a[i - lead].kind == 1 ? arg::RAW : arg::XDUMP) : arg::NONE), "argument type"); }
	for (unsigned i = 0; i < lead; i++) CHECK(r->get_arg_val64(i) == 0x1111111111111111ull * (i + 1), "integer argument overwritten by other data");
	unsigned used = 0; const uint8_t *lo = (uint8_t *) r->argval + n * 8, *hi = (uint8_t *) r->argval + tail; const uint8_t *beg[3], *end[3];
	for (int i = 0; i < 3; i++) {
		unsigned l; const uint8_t *p = r->get_arg_data(lead + i, l); unsigned left = room - used, want = a[i].len; l = symx_concretize(l);
		beg[i] = end[i] = 0;
		if (a[i].kind == 0) {
			if (want && want + 1 <= left) { CHECK(l == want, "a string that fits is stored unchanged"); CHECK(p[l] == 0, "string terminated"); for (unsigned j = 0; j < l; j++) CHECK(p[j] == S[i][j], "string content"); symx_reach("str-fit"); }
			else if (!want || !left) { CHECK(l == 0, "no room (or empty): empty string"); if (!left) symx_reach("str-noroom"); }
			else { CHECK(l == left - 1, "string is cut to the available room"); CHECK(p[l] == 0, "cut string terminated"); unsigned keep = l > 3 ? l - 3 : l;
				for (unsigned j = 0; j < keep; j++) CHECK(p[j] == S[i][j], "cut string content"); if (l > 3) CHECK(p[l-1] == '>' && p[l-2] == '>' && p[l-3] == '>', "cut string marked"); symx_reach("str-cut"); }
			if (l) { beg[i] = p; end[i] = p + l + 1; used += l + 1; } else if (want && left) used += 1;
		} else {
			unsigned hl = a[i].kind == 2 ? 4 : 0, need = want + hl, exp = need <= left ? need : left < hl ? 0 : left;
			CHECK(l == exp, "data cut exactly to the available room"); if (exp < need) symx_reach("data-cut");
			if (l && hl) { CHECK(p[0] == 'H' && p[1] == ((2 << 4) | 1) && p[2] == 20 && p[3] == ' ', "dump parameters"); }
			for (unsigned j = hl; j < l; j++) CHECK(p[j] == S[i][j - hl], "data content");
			if (l) { beg[i] = p; end[i] = p + l; used += l; } }
		if (beg[i]) { CHECK(beg[i] >= lo && end[i] <= hi, "argument data inside the record's storage"); for (int j = 0; j < i; j++) if (beg[j]) CHECK(end[j] <= beg[i] || end[i] <= beg[j], "arguments do not overlap"); } }
	symx_observe(used); symx_reach("ok"); }
