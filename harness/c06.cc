// C06: arguments are recorded with type and value, and rendered as the caller's value.
#include "fmtcap.h"
#include <string>
struct S { int x; }; enum En { E0, E7 = 7 };
static char CS[8]; static uint8_t RAWD[8]; static std::string *STR;
static area *AR; static ringbuf *RG; static timesource *TSRC;
enum { KN = 26 };
struct Exp { unsigned type; uint64_t val; };
static void setup(unsigned tail = 256) { RG = mkring("R", 4, 0, tail); TSRC = new timesource("t", ts_cb); RG->timesource(TSRC); AR = new area("AR"); AR->enable(); }
static void ap_populate(argpack &ap, const arg a0 = arg(), const arg a1 = arg(), const arg a2 = arg(), const arg a3 = arg(), const arg a4 = arg(), const arg a5 = arg(), const arg a6 = arg(), const arg a7 = arg(), const arg a8 = arg(), const arg a9 = arg(), const arg a10 = arg(), const arg a11 = arg(), const arg a12 = arg(), const arg a13 = arg(), const arg a14 = arg(), const arg a15 = arg()) {
	ap.populate(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
static void setrec(record *r, const arg a0 = arg(), const arg a1 = arg(), const arg a2 = arg(), const arg a3 = arg(), const arg a4 = arg(), const arg a5 = arg(), const arg a6 = arg(), const arg a7 = arg(), const arg a8 = arg(), const arg a9 = arg(), const arg a10 = arg(), const arg a11 = arg(), const arg a12 = arg(), const arg a13 = arg(), const arg a14 = arg(), const arg a15 = arg()) {
	r->set_args(RG->record_tailroom(), a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
static int via; // 0 post, 1 push_unlocked, 2 packed by the caller, 3 record::set_args
template <typename T> static void doit(T v, unsigned pos, unsigned extra) { uint64_t l = 0x1111111111111111ull; const char *s = "lead";
	// leading arguments: integers, or a string first (out-of-line path)
	#define PUT(...) do { if (via == 0) hogl::post(RG, AR, 2, __VA_ARGS__); else if (via == 1) hogl::push_unlocked(RG, AR, 2, __VA_ARGS__); else { record *r = RG->push_begin(); r->area = AR; r->section = 2; r->seqnum = RG->inc_seqnum(); r->timestamp = RG->timestamp(); if (via == 2) { argpack ap; ap_populate(ap, __VA_ARGS__); r->set_args(RG->record_tailroom(), ap); } else setrec(r, __VA_ARGS__); RG->push_commit(); } } while (0)
	switch (pos) {
	case 0: if (extra) PUT(v, l, s); else PUT(v); break;
	case 1: if (extra) PUT(s, v, l); else PUT(l, v, l); break;
	case 5: if (extra) PUT(s, l, s, l, l, v, l); else PUT(l, l, l, l, l, v); break;
	default: if (extra) PUT(l, l, l, l, l, l, l, s, l, l, l, l, l, l, l, v); else PUT(l, l, l, l, l, l, l, l, l, l, l, l, l, l, l, v); } }
static Exp put(unsigned k, uint64_t v, unsigned pos, unsigned extra) {
	#define D(T, ty, val) { T x = (T) v; doit<T>(x, pos, extra); return Exp{ ty, (uint64_t) (val) }; }
	switch (k) {
	case 0: D(bool, arg::UINT32, (v ? 1 : 0)) case 1: D(uint8_t, arg::UINT32, (uint8_t) v) case 2: D(uint16_t, arg::UINT32, (uint16_t) v) case 3: D(uint32_t, arg::UINT32, (uint32_t) v)
	case 4: D(int8_t, arg::INT32, (uint32_t) (int32_t) (int8_t) v) case 5: D(int16_t, arg::INT32, (uint32_t) (int32_t) (int16_t) v) case 6: D(int32_t, arg::INT32, (uint32_t) v) case 7: D(char, arg::INT32, (uint32_t) (int32_t) (char) v)
	case 8: D(unsigned long, arg::UINT64, v) case 9: D(unsigned long long, arg::UINT64, v) case 10: D(long, arg::INT64, v) case 11: D(long long, arg::INT64, v)
	case 12: D(void *, arg::POINTER, v) case 13: D(const void *, arg::POINTER, v) case 14: D(const S *, arg::POINTER, v) case 15: D(S *, arg::POINTER, v) case 16: D(volatile int *, arg::POINTER, v) case 17: D(const volatile int *, arg::POINTER, v) case 18: D(uint8_t *, arg::POINTER, v)
	case 19: { union { uint64_t u; double d; } x; x.u = v; doit<double>(x.d, pos, extra); return Exp{ arg::DOUBLE, v }; }
	case 20: { En e = E7; doit<En>(e, pos, extra); return Exp{ arg::INT32, 7 }; }
	case 21: { doit<const char *>(CS, pos, extra); return Exp{ arg::CSTR, strlen(CS) }; }
	case 22: { doit<const std::string &>(*STR, pos, extra); return Exp{ arg::CSTR, STR->size() }; }
	case 23: { doit<arg_gstr>(arg_gstr(CS), pos, extra); return Exp{ arg::GSTR, (uint64_t) CS }; }
	case 24: { doit<arg_raw>(arg_raw(RAWD, 5), pos, extra); return Exp{ arg::RAW, 5 }; }
	default: { arg_xdump xd(RAWD, 6, 'x', 2, 3, 4, ';'); doit<const arg_xdump &>(xd, pos, extra); return Exp{ arg::XDUMP, 10 }; } } }
extern "C" void store() { setup(512); via = (int) choice(4, "via"); unsigned k = choice(KN, "kind"), pos, extra = choice(2, "extra"); static const unsigned PS[] = { 0, 1, 5, 15 }; pos = PS[choice(4, "pos")];
	symx_bytes(RAWD, 8, "raw"); uint8_t raw[8]; memcpy(raw, RAWD, 8); symx_bytes(CS, 5, "str"); for (int i = 0; i < 5; i++) symx_assume(CS[i] != 0); char cs[6]; memcpy(cs, CS, 6); STR = new std::string("abcdefg");
	uint64_t v = sym64("value"); Exp e = put(k, v, pos, extra);
	record *r = RG->pop_begin(); CHECK(r != 0, "the record is in the ring"); CHECK(r->area == AR && r->section == 2 && r->seqnum == 0, "header");
	// the caller's buffers change after the call
	if (k != 23) memset(CS, 'Z', 5); memset(RAWD, 0x5a, 8); (*STR)[0] = 'Z';
	unsigned n = pos == 15 ? 16 : pos == 0 ? (extra ? 3 : 1) : pos == 1 ? 3 : extra ? 7 : 6;
	for (unsigned i = 0; i < 16; i++) { unsigned t = r->get_arg_type(i); if (i == pos) CHECK(t == e.type, "argument type"); else if (i >= n) CHECK(t == arg::NONE, "no argument"); else if (t == arg::CSTR) { unsigned l; const uint8_t *p = r->get_arg_data(i, l); CHECK(extra && l == 4 && !memcmp(p, "lead", 5), "other string argument"); } else { CHECK(t == arg::UINT64, "other argument type"); CHECK(r->get_arg_val64(i) == 0x1111111111111111ull, "other argument value"); } }
	unsigned l = 0; const uint8_t *p = 0; if (e.type == arg::CSTR || e.type == arg::RAW || e.type == arg::XDUMP) { p = r->get_arg_data(pos, l); CHECK(l == e.val, "data length"); }
	switch (e.type) {
	case arg::UINT32: case arg::INT32: CHECK(r->get_arg_val32(pos) == (uint32_t) e.val, "32 bit value"); symx_reach("int"); break;
	case arg::CSTR: for (unsigned i = 0; i <= l; i++) CHECK(p[i] == (k == 21 ? (uint8_t) cs[i] : (uint8_t) "abcdefg"[i]), "string copied at the call"); symx_reach("str"); break;
	case arg::RAW: for (unsigned i = 0; i < 5; i++) CHECK(p[i] == raw[i], "data copied at the call"); break;
	case arg::XDUMP: CHECK(p[0] == 'x' && p[1] == (3 << 4 | 2) && p[2] == 4 && p[3] == ';', "dump parameters"); for (unsigned i = 0; i < 6; i++) CHECK(p[4 + i] == raw[i], "data copied at the call"); symx_reach("dump"); break;
	default: CHECK(r->get_arg_val64(pos) == e.val, "64 bit value"); symx_reach("wide"); } }

static const uint64_t EDGE[] = { 0, 1, 9, 10, 99, 100, 12345, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 10000000000000000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull };
static uint64_t pick(bool sy) { if (sy) { uint64_t b = sym16("v"); symx_assume(b < (uint64_t) symx_param("maxv", 200)); return b; } return EDGE[choice(15, "edge")]; }
static bool rd_int(Rd &rd, bool sgn, unsigned w, uint64_t v) { // v already truncated/sign extended
	uint64_t x; bool neg = sgn && (int64_t) v < 0; if (neg) { if (!rd.eat('-')) return false; } if (!rd.dec(x)) return false; return (neg ? 0 - x : x) == v; }
// plain (no format string) and formatted rendering of integers and pointers, text compared field by field
extern "C" void render() { setup(); unsigned plain = choice(2, "plain"), T = choice(6, "type"), pre = choice(2, "pre"); uint64_t v = pick(choice(2, "symbolic"));
	bool sgn = T == 1 || T == 3; if (T == 0) v = (uint32_t) v; if (T == 1) v = (uint64_t) (int64_t) (int32_t) v; if (choice(2, "negate") && sgn) v = 0 - v;
	if (T == 1) v = (uint64_t) (int64_t) (int32_t) v;
	#define P1(f) do { switch (T) { case 0: hogl::post(RG, AR, 2, f (uint32_t) v); break; case 1: hogl::post(RG, AR, 2, f (int32_t) v); break; case 2: hogl::post(RG, AR, 2, f (uint64_t) v); break; case 3: hogl::post(RG, AR, 2, f (int64_t) v); break; case 4: hogl::post(RG, AR, 2, f (void *) v); break; default: hogl::post(RG, AR, 2, f (bool) v); } } while (0)
	#define ARGS0
	#define ARGS1 (uint64_t) 77,
	#define ARGSF0 fm,
	#define ARGSF1 fm, "str",
	const char *spec = T == 4 ? "p" : T == 0 || T == 5 ? "u" : T == 1 ? "d" : T == 2 ? "lu" : "ld"; char fm[32]; strcpy(fm, pre ? "x%s:y%" : "y%"); strcat(fm, spec); strcat(fm, "z%%");
	if (plain) { if (pre) P1(ARGS1); else P1(ARGS0); } else { if (pre) P1(ARGSF1); else P1(ARGSF0); }
	format_basic F((uint32_t) format_basic::SEQNUM); textbuf b; record *r = RG->pop_begin(); format::data d = {}; d.ring_name = "R"; d.record = r; F.process(b, d);
	if (T == 5) v = v ? 1 : 0;
	Rd rd(b); CHECK(rd.lit("0 "), "sequence number field"); if (plain) { if (pre) CHECK(rd.lit("77 "), "first argument"); } else { if (pre) CHECK(rd.lit("xstr:"), "first argument"); CHECK(rd.lit("y"), "text"); }
	if (T == 4) { uint64_t x; CHECK(v == 0 && rd.lit("(nil)") || (rd.lit("0x") && rd.hex(x) && x == v), "pointer value"); symx_reach("ptr"); } else CHECK(rd_int(rd, sgn, 1, v), "integer value"); if (sgn && (int64_t) v < 0) symx_reach("neg");
	if (!plain) CHECK(rd.lit("z%"), "text"); CHECK(rd.lit("\n") && rd.end(), "end of the line"); symx_reach(plain ? "plain" : "fmt"); }
// width, flags, hex, several arguments of mixed types in one format string
extern "C" void mixed() { setup(); unsigned c = choice(9, "case"); uint64_t v = symx_concretize(0), x; (void) v; textbuf b; format_basic F((uint32_t) format_basic::SEQNUM); char S3[4]; symx_bytes(S3, 3, "s"); for (int i = 0; i < 3; i++) symx_assume(S3[i] != 0 && S3[i] != '%'); S3[3] = 0; uint64_t w = sym16("w"); symx_assume(w < 100); uint64_t h = sym64("h");
	char exps[4]; memcpy(exps, S3, 4);
	switch (c) {
	case 0: hogl::post(RG, AR, 2, "%x|%s", h & 0xfff, S3); break; case 1: hogl::post(RG, AR, 2, "%s=%lu", S3, w); break; case 2: hogl::post(RG, AR, 2, "%08lx|%s|%u", h, S3, (uint32_t) w); break;
	case 3: hogl::post(RG, AR, 2, arg_gstr("[%s] %d [%s]"), arg_gstr("glob"), (int) w, S3); break; case 4: hogl::post(RG, AR, 2, S3); break; case 5: hogl::post(RG, AR, 2, arg_gstr(S3)); break;
	case 6: hogl::post(RG, AR, 2, "%c%c", (int) S3[0], 'B'); break; case 7: hogl::post(RG, AR, 2, w, S3, (int) w, "end"); break; default: hogl::post(RG, AR, 2, "%s %s %s %lu %s", "one", std::string("two"), S3, w, arg_gstr("five")); }
	if (c != 5) memset(S3, '#', 3);
	record *r = RG->pop_begin(); format::data d = {}; d.ring_name = "R"; d.record = r; F.process(b, d); Rd rd(b); CHECK(rd.lit("0 "), "header");
	switch (c) {
	case 0: CHECK(rd.hex(x) && x == (h & 0xfff) && rd.eat('|') && rd.lit(exps), "%x|%s"); break; case 1: CHECK(rd.lit(exps) && rd.eat('=') && rd.dec(x) && x == w, "%s=%lu"); break;
	case 2: { unsigned k = 0; x = 0; while (rd.p < rd.n && rd.t[rd.p] != '|') { char q = rd.t[rd.p++]; k++; CHECK((q >= '0' && q <= '9') || (q >= 'a' && q <= 'f'), "hex digit"); x = x << 4 | (uint64_t) (q <= '9' ? q - '0' : q - 'a' + 10); } CHECK(k >= 8 && k <= 16 && x == h && rd.eat('|') && rd.lit(exps) && rd.eat('|') && rd.dec(x) && x == w, "%08lx|%s|%u"); break; }
	case 3: CHECK(rd.lit("[glob] ") && rd.dec(x) && x == w && rd.lit(" [") && rd.lit(exps) && rd.lit("]"), "global strings"); break; case 4: case 5: CHECK(rd.lit(exps), "single string"); break;
	case 6: CHECK(rd.eat(exps[0]) && rd.eat('B'), "%c"); break; case 7: CHECK(rd.dec(x) && x == w && rd.eat(' ') && rd.lit(exps) && rd.eat(' ') && rd.dec(x) && x == w && rd.lit(" end"), "plain list"); break;
	default: CHECK(rd.lit("one two ") && rd.lit(exps) && rd.eat(' ') && rd.dec(x) && x == w && rd.lit(" five"), "five arguments"); }
	CHECK(rd.lit("\n") && rd.end(), "end of the line"); symx_reach("ok"); }
// floating point values: fixed samples (values are not symbolic)
extern "C" void dbl() { setup(); static const struct { double v; const char *p6, *p2; } X[] = { { 0.0, "0.000000", "0.00" }, { 1.5, "1.500000", "1.50" }, { -2.25, "-2.250000", "-2.25" }, { 123456.789, "123456.789000", "123456.79" }, { 1e9, "1000000000.000000", "1000000000.00" } };
	unsigned i = choice(5, "value"), m = choice(4, "how"); textbuf b; format_basic F((uint32_t) format_basic::SEQNUM); float f = (float) 1.5;
	switch (m) { case 0: hogl::post(RG, AR, 2, X[i].v); break; case 1: hogl::post(RG, AR, 2, "%f", X[i].v); break; case 2: hogl::post(RG, AR, 2, "%.2f", X[i].v); break; default: hogl::post(RG, AR, 2, "%.2f|%s|%.1f", X[i].v, "s", f); }
	record *r = RG->pop_begin(); format::data d = {}; d.ring_name = "R"; d.record = r; F.process(b, d); Rd rd(b); CHECK(rd.lit("0 "), "header"); CHECK(rd.lit(m < 2 ? X[i].p6 : X[i].p2), "floating point value"); if (m == 3) CHECK(rd.lit("|s|1.5"), "following arguments"); CHECK(rd.lit("\n") && rd.end(), "end"); symx_reach("ok"); }
