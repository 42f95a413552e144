// C17: formatting any record terminates, stays inside the record, throws nothing.
#include "fmtcap.h"
#include <string>
static area *AR; static ringbuf *RG; static timesource *TSRC;
static void setup(unsigned tail = 256) { RG = mkring("R", 4, 0, tail); TSRC = new timesource("t", ts_cb); RG->timesource(TSRC); static const char *s[] = { "S0", "S1", "S2", 0 }; AR = new area("AR", s); AR->enable(); }
// Renders a copy of the record: the heap block ends where the storage of the record ends.
static void render(textbuf &b, uint32_t fields = format_basic::SEQNUM) { record *r = RG->pop_begin(); CHECK(r != 0, "the record is in the ring");
	unsigned n = record::header_size() + RG->record_tailroom(); if (n < sizeof(record)) n = sizeof(record); record *c = (record *) malloc(n); memcpy((void *) c, (const void *) r, n);
	format::data d = {}; d.ring_name = "R"; d.record = c; format_basic F(fields); bool thrown = false;
	try { F.process(b, d); } catch (...) { thrown = true; } CHECK(!thrown, "exception escapes from the formatter"); free(c);
	CHECK(b.n > 0 && b.t[b.n - 1] == '\n', "the line is terminated"); }
static const char *PA[] = { "", "%", "%%", "text" };
// any format string, arguments of any type
enum { NT = 10 };
static void args1(const char *fm, unsigned t, uint64_t v) {
	static const uint8_t raw[4] = { 1, 2, 3, 4 };
	#define A(x) hogl::post(RG, AR, 2, fm, x); break
	switch (t) { case 0: A((uint32_t) v); case 1: A((int32_t) v); case 2: A((uint64_t) v); case 3: A((int64_t) v); case 4: A((void *) v); case 5: A(1.5); case 6: A("str"); case 7: A(arg_gstr("glob")); case 8: { arg_xdump x(raw, 4); hogl::post(RG, AR, 2, fm, x); break; } default: A(arg_gstr((const char *) 0)); } }
static void args2(const char *fm, unsigned t, uint64_t v, unsigned u) {
	#define B(x) do { switch (t) { case 0: hogl::post(RG, AR, 2, fm, (uint32_t) v, x); break; case 1: hogl::post(RG, AR, 2, fm, 1.5, x); break; case 2: hogl::post(RG, AR, 2, fm, "str", x); break; default: hogl::post(RG, AR, 2, fm, (void *) v, x); } } while (0)
	switch (u) { case 0: B((int32_t) v); break; case 1: B("s2"); break; default: B(2.5); } }
extern "C" void fmtstr() { setup(); char fm[16]; memset(fm, 0, sizeof fm); unsigned n = (unsigned) symx_param("n", 3), lead = choice(2, "lead"), two = choice(2, "two"), p = 0; if (lead) { fm[p++] = 'a'; } fm[p++] = '%'; symx_bytes(fm + p, n, "format");
	// widths and precisions of more than two digits are left out: they only make the text longer
	unsigned run = 0; for (unsigned i = 0; i < n; i++) { bool dg = fm[p + i] >= '0' && fm[p + i] <= '9'; run = dg ? run + 1 : 0; if (run > 2) symx_assume(0); }
	for (unsigned i = 0; i < n; i++) if (fm[p + i] == '$') symx_reach("position");
	textbuf b; uint64_t v = 42; if (two) { unsigned t = choice(4, "t1"); args2(fm, t, v, choice(3, "t2")); } else { unsigned t = choice(NT, "t"); args1(fm, t, v); }
	for (unsigned i = 0; i < n; i++) fm[p + i] = '#'; // the caller's buffer may change
	render(b); symx_reach("ok"); }
// any list of argument types: with and without a format string, with missing data (no room), null strings, empty strings
static const char *ST; static uint8_t RAWD[8];
template <typename... R> static void postn(const R&... r) { hogl::post(RG, AR, 2, r...); }
extern "C" void types() { setup((unsigned) symx_param("tail", 0)); unsigned n = (unsigned) symx_param("n", 3); arg a[4]; static arg_xdump *x = new arg_xdump(RAWD, 6), *x0 = new arg_xdump(RAWD, 0), *xb = new arg_xdump(new uint8_t[300](), 300); static arg_raw *rw = new arg_raw(RAWD, 5); static std::string *big = new std::string(300, 'y');
	unsigned sect = choice(3, "section"), kinds = (unsigned) symx_param("kinds", 14), k[4] = { 0, 0, 0, 0 };
	for (unsigned i = 0; i < n; i++) { k[i] = choice(kinds, "kind"); switch (k[i]) {
		case 0: break; case 1: a[i] = arg((uint32_t) 7); break; case 2: a[i] = arg((int64_t) -7); break; case 3: a[i] = arg("%d %s"); break; case 4: a[i] = arg(""); break; case 5: a[i] = arg((const char *) 0); break; case 6: a[i] = arg(arg_gstr("%s|%x")); break; case 7: a[i] = arg(arg_gstr((const char *) 0)); break;
		case 8: a[i] = arg(*x); break; case 9: a[i] = arg(*x0); break; case 10: a[i] = arg(*rw); break; case 11: a[i] = arg(*xb); break; case 12: a[i] = arg(*big); break; default: a[i] = arg(1.5); } }
	for (unsigned i = 0; i + 1 < n; i++) if (!k[i] && k[i + 1]) symx_assume(0); // no gaps
	hogl::post(RG, AR, (unsigned) (sect == 2 ? 4095 : sect), a[0], a[1], a[2]); textbuf b; if (sect == 2) symx_reach("bad section"); 
	record *r = RG->pop_begin(); if (!r) { CHECK(sect == 2, "record lost"); return; } render(b); symx_reach("ok"); }
// dump options: all byte widths, precisions, line widths; the layout shows every value once, in order
static unsigned hexd(char c) { return c >= '0' && c <= '9' ? (unsigned) (c - '0') : c >= 'a' && c <= 'f' ? (unsigned) (c - 'a' + 10) : 99; }
extern "C" void xdump() { setup(512); static const char TY[] = { 'H', 'x', 'd', 'u', 'f', 'z' }; unsigned ti = choice(6, "type"); char ty = TY[ti]; unsigned bw = choice(ty == 'H' || ty == 'z' ? 3 : 10, "width"), pr = choice(ty == 'f' ? 7 : 2, "precision"), nv = choice((unsigned) symx_param("nv", 4), "values"), odd = choice(2, "odd"), lwi = choice(4, "line"), first = choice(2, "first");
	if (bw == 9) bw = 15; if (pr == 6) pr = 15; static const unsigned LW[] = { 0, 1, 2, 255 }; unsigned lw = LW[lwi];
	unsigned step = bw ? bw : 1; if (ty == 'H') step = 1; unsigned len = nv * step; if (odd && step > 1 && nv) len--; uint8_t data[128]; memset(data, 0, sizeof data);
	// values: the first byte (or the byte with the sign) of every value is symbolic in the hexadecimal layouts
	bool sy = ty == 'H' || ty == 'x'; uint8_t delim = ty == 'H' ? ';' : sym8("delim"); if (ty != 'H') symx_assume(!((delim >= '0' && delim <= '9') || (delim >= 'a' && delim <= 'z') || delim == '-' || delim == '.' || delim == '\n'));
	for (unsigned i = 0; i < len; i++) data[i] = ty == 'f' ? 0 : (uint8_t) (0x81 + 7 * i); if (sy && len) symx_bytes(data, 1, "data"); if (sy && len > step) symx_bytes(data + step, 1, "data");
	if (ty == 'f') { if (bw == 4) for (unsigned i = 0; i + 4 <= len; i += 4) { float f = (float) 1.5 * (float) (i + 1); memcpy(data + i, &f, 4); } if (bw == 8) for (unsigned i = 0; i + 8 <= len; i += 8) { double f = 2.25 * (double) (i + 1); memcpy(data + i, &f, 8); } }
	arg_xdump xd(data, len, (uint8_t) ty, (uint8_t) bw, (uint8_t) pr, (uint8_t) lw, (char) delim); if (first) hogl::post(RG, AR, 2, xd); else hogl::post(RG, AR, 2, "head", xd);
	uint8_t cp[128]; memcpy(cp, data, 128); memset(data, 0x55, sizeof data); textbuf b; render(b); Rd rd(b); CHECK(rd.lit("0 "), "header"); if (!first) CHECK(rd.lit("head "), "text before the dump");
	bool sup = ty == 'H' || ((ty == 'x' || ty == 'd' || ty == 'u') && (bw == 1 || bw == 2 || bw == 4 || bw == 8)) || (ty == 'f' && (bw == 4 || bw == 8));
	if (!sup) { symx_reach("unsupported"); return; }
	if (ty == 'H') { unsigned o = 0, w = lw ? lw : len; uint64_t off; while (o < len) { CHECK(rd.lit("\n\t") && rd.dec(off, 3, false) && off == o && rd.lit(": "), "offset of the line"); for (unsigned i = 0; i < w; i++) { if (o + i < len) { CHECK(rd.p + 3 <= rd.n && hexd(rd.t[rd.p]) * 16 + hexd(rd.t[rd.p + 1]) == cp[o + i] && rd.t[rd.p + 2] == ' ', "hexadecimal byte"); rd.p += 3; } else CHECK(rd.lit("   "), "padding"); } CHECK(rd.lit("  "), "gap"); for (unsigned i = 0; i < w && o + i < len; i++) CHECK(rd.eat(cp[o + i] >= 32 && cp[o + i] < 127 ? (char) cp[o + i] : '.'), "character"); o += w; } symx_reach("hexdump"); }
	else { unsigned k = len / bw; for (unsigned i = 0; i < k; i++) { if (!lw ? i == 0 : i % lw == 0) { if (lw) CHECK(rd.lit("\n\t"), "new line"); } else CHECK(rd.eat((char) delim), "delimiter");
			uint64_t v = 0; for (unsigned j = 0; j < bw; j++) v |= (uint64_t) cp[i * bw + j] << (8 * j); uint64_t x;
			if (ty == 'x') CHECK(rd.hex(x) && x == v, "hexadecimal value"); else if (ty == 'u') CHECK(rd.dec(x) && x == v, "unsigned value"); else if (ty == 'd') { int64_t s = (int64_t) (v << (64 - 8 * bw)) >> (64 - 8 * bw); bool neg = s < 0; CHECK((!neg || rd.eat('-')) && rd.dec(x) && x == (neg ? 0 - (uint64_t) s : (uint64_t) s), "signed value"); }
			else { unsigned ip = bw == 4 ? 3 * (i * 4 + 1) : 9 * (i * 8 + 1), q = bw == 4 ? 2 : 4; CHECK(rd.dec(x), "floating point value"); // ip / q
				unsigned d = pr >= 1 && pr <= 5 ? pr : 6; (void) q; CHECK(rd.eat('.'), "decimal point"); uint64_t fr = 0, sc = 1; unsigned e = 0; while (rd.p < rd.n && rd.t[rd.p] >= '0' && rd.t[rd.p] <= '9') { fr = fr * 10 + (uint64_t) (rd.t[rd.p++] - '0'); sc *= 10; e++; } CHECK(e == d, "number of decimals"); int64_t df = (int64_t) ((x * sc + fr) * q) - (int64_t) (ip * sc); CHECK(df <= (int64_t) q / 2 && df >= -(int64_t) q / 2, "floating point value"); } }
		symx_reach("values"); }
	CHECK(rd.lit("\n") && rd.end(), "nothing else"); }
