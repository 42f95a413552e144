// C16: text headers contain the selected fields, with the record's own time, sequence number and names.
#include "fmtcap.h"
#include <time.h>
#ifdef HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT
enum { TSPEC = 1 };
#else
enum { TSPEC = 0 };
#endif
// local time: any calendar fields, the argument is checked
static time_t LT; static int NLT; static struct tm TM;
extern "C" struct tm *sx_localtime_r(const time_t *t, struct tm *tm) { NLT++; LT = *t; *tm = TM; return tm; }
static const char *SECT[] = { "S0", "SECOND", 0 };
static const uint64_t BASE[] = { 5000000000ull, 5000010000ull, 5000099999ull, 123456789012345678ull, 1000000000ull, 999999999ull, 4102444800999990000ull, 18446744073709551615ull - 300 };
static unsigned last_k = ~0u;
static uint64_t mkts(const char *n, bool sym, unsigned nb) { uint64_t b = BASE[choice(nb, "base")]; if (!sym) return b + (uint64_t) choice(3, "off") * 4999; uint64_t mk = symx_param("span", 15), o = sym8(n) & mk; unsigned side = choice(2, "side"); if (last_k == side + 2 * (unsigned) (b & 0xffff)) symx_assume(0); last_k = side + 2 * (unsigned) (b & 0xffff); return side ? b + o : b - 1 - mk + o; }
static uint64_t mkseq(unsigned k) { switch (k) { case 0: return 0; case 1: return (1ull << 52) - 1; case 2: return 1000000; default: return sym8("seq"); } }
struct R1 { uint64_t ts, seq; const char *ring, *area, *sect; };
static void check(Rd &rd, unsigned f, const R1 &x, uint64_t prev, bool flexi) {
	bool ts = f & format_basic::TIMESPEC, cal = f & format_basic::TIMESTAMP, dl = f & format_basic::TIMEDELTA, rg = f & format_basic::RING, sq = f & format_basic::SEQNUM, ar = f & format_basic::AREA, se = f & format_basic::SECTION; uint64_t a, b;
	if (ts) { unsigned p = rd.p; CHECK(rd.dec(a, 1, false) && rd.p - p == 11, "seconds, 11 digits"); CHECK(rd.eat('.'), "separator"); p = rd.p; CHECK(rd.dec(b, 1, false) && rd.p - p == 9, "nanoseconds, 9 digits"); CHECK(b < 1000000000 && a * 1000000000ull + b == x.ts, "time of the record"); CHECK(rd.eat(' '), "separator"); }
	if (cal) { uint64_t v[7]; unsigned p = rd.p; CHECK(rd.dec(v[0], 8, false) && rd.p - p == 8, "date"); CHECK(v[0] == (uint64_t) (TM.tm_mon + 1) * 1000000 + (uint64_t) TM.tm_mday * 10000 + 1900 + TM.tm_year, "date of the record"); CHECK(rd.eat(' '), "separator");
		p = rd.p; CHECK(rd.dec(v[1], 2, false) && rd.p - p == 2 && rd.eat(':') && v[1] == (uint64_t) TM.tm_hour, "hour"); p = rd.p; CHECK(rd.dec(v[2], 2, false) && rd.p - p == 2 && rd.eat(':') && v[2] == (uint64_t) TM.tm_min, "minute"); p = rd.p; CHECK(rd.dec(v[3], 2, false) && rd.p - p == 2 && rd.eat('.') && v[3] == (uint64_t) TM.tm_sec, "second");
		p = rd.p; CHECK(rd.dec(b, 9, false) && rd.p - p == 9, "nanoseconds"); CHECK(b < 1000000000 && (uint64_t) LT * 1000000000ull + b == x.ts, "time of the record"); CHECK(rd.eat(' '), "separator"); }
	if (dl) { CHECK(rd.eat('('), "delta"); CHECK(rd.dec(a), "delta"); CHECK(a == (prev ? x.ts - prev : 0), "time since the previous record"); CHECK(rd.lit(") "), "delta"); }
	if (rg) { CHECK(rd.lit(x.ring), "ring name"); if (sq) CHECK(rd.eat(':'), "separator"); else CHECK(rd.eat(' '), "separator"); }
	if (sq) { CHECK(rd.dec(a), "sequence number"); CHECK(a == x.seq, "sequence number of the record"); CHECK(rd.eat(' '), "separator"); }
	if (ar) { CHECK(rd.lit(x.area), "area name"); if (se) CHECK(rd.eat(':'), "separator"); else CHECK(rd.eat(' '), "separator"); }
	if (se) { CHECK(rd.lit(x.sect), "section name"); CHECK(rd.eat(' '), "separator"); }
	CHECK(rd.lit("text\n") && rd.end(), "message follows the header"); }
static uint8_t STORE[2][256] __attribute__((aligned(8)));
static void fill(record *r, const R1 &x, const area *a, unsigned s) { r->area = a; r->section = s; r->timestamp = timestamp(x.ts); r->seqnum = x.seq; r->set_args(0, arg_gstr("text")); }
static void cal() { TM.tm_mon = (int) symrange("mon", 0, 11); TM.tm_mday = (int) symrange("mday", 1, 31); TM.tm_year = 126; TM.tm_hour = (int) choice(2, "h") * 23; TM.tm_min = (int) symrange("min", 0, 59); TM.tm_sec = 60; }
// histories of records through one formatter
extern "C" void history() { bool sym = symx_param("symbolic", 0); static const uint32_t MODES[] = { format_basic::FAST0, format_basic::FAST1, format_basic::DEFAULT, format_basic::TIMESPEC | format_basic::TIMEDELTA, format_basic::TIMEDELTA | format_basic::SECTION };
	unsigned n = symx_param("recs", 3), f = MODES[choice(sym ? 3 : 5, "fields")]; unsigned nb = symx_param("bases", 8); TM.tm_mon = 11; TM.tm_mday = 9; TM.tm_year = 70; TM.tm_hour = 7; TM.tm_min = 0; TM.tm_sec = 59;
	area a("AREA", SECT); format_basic F(f); uint64_t prev = 0;
	for (unsigned i = 0; i < n; i++) { R1 x; x.ts = mkts(i ? "off2" : "off1", sym, nb); if (TSPEC) symx_assume(x.ts / 1000000000 <= 0xffffffffull && x.ts >= prev); x.seq = i == 0 ? 0 : i == 1 ? 99 : (1ull << 52) - 1; x.ring = i & 1 ? "R" : "RING0"; x.area = "AREA"; x.sect = SECT[i & 1]; record *r = (record *) STORE[0]; fill(r, x, &a, i & 1);
		textbuf *b = new textbuf(); format::data d = {}; d.ring_name = x.ring; d.record = r; F.process(*b, d); CHECK(!b->failed(), "stream"); Rd rd(*b); check(rd, f, x, prev, false); prev = x.ts; delete b; }
	symx_reach("ok"); if (f == format_basic::FAST0) symx_reach("fast0"); if (f == format_basic::FAST1) symx_reach("fast1"); if (f == format_basic::DEFAULT) symx_reach("default"); }
// every selection of fields, symbolic numbers and names
extern "C" void fields() { unsigned f = choice(128, "fields"); cal(); R1 x; x.ts = 1234567890000000123ull + (TSPEC ? 0 : 0); x.seq = mkseq(choice(4, "seqkind")); char rn[4], an[4]; symx_bytes(rn, 3, "ring"); symx_bytes(an, 3, "area"); for (int i = 0; i < 3; i++) { symx_assume(rn[i] != 0); symx_assume(an[i] != 0); } rn[3] = an[3] = 0; x.ring = rn;
	area a(an, SECT); unsigned k = choice(3, "areakind"); x.area = k == 2 ? "INVALID" : an; unsigned s = k ? 2 : 1; x.sect = k ? "INVALID" : SECT[1]; record *r = (record *) STORE[0]; fill(r, x, k == 2 ? 0 : &a, s);
	format_basic F(f); textbuf b; format::data d = {}; d.ring_name = rn; d.record = r; F.process(b, d); Rd rd(b); check(rd, f, x, 0, true); symx_reach("ok"); if (k) symx_reach("invalid"); }
// names of any length, sequence numbers and delta of full width
extern "C" void lengths() { static const uint32_t MODES[] = { format_basic::FAST0, format_basic::FAST1, format_basic::DEFAULT }; unsigned f = MODES[choice(3, "fields")]; static const unsigned L[] = { 0, 1, 17, 63, 64, 300 }; char nm[3][304]; const char *sn[2]; for (int i = 0; i < 3; i++) { unsigned l = L[choice(6, "len")]; memset(nm[i], 'a' + i, l); nm[i][l] = 0; } sn[0] = nm[2]; sn[1] = 0; area a(nm[1], sn); TM.tm_mday = 1; TM.tm_year = 100;
	format_basic F(f); R1 x; x.ring = nm[0]; x.area = nm[1]; x.sect = nm[2]; record *r = (record *) STORE[0]; x.ts = 1; x.seq = (1ull << 52) - 1; uint64_t prev = 0;
	for (int i = 0; i < 2; i++) { fill(r, x, &a, 0); textbuf *b = new textbuf(); format::data d = {}; d.ring_name = nm[0]; d.record = r; F.process(*b, d); Rd rd(*b); check(rd, f, x, prev, false); delete b; prev = x.ts; x.ts = TSPEC ? 4294967295999999999ull : ~0ull; } symx_reach("ok"); }
// field selection by name
struct peek : public format_basic { peek(const char *s) : format_basic(s) { } uint32_t f() { return _fields; } };
extern "C" void names() { static const struct { const char *n; uint32_t f; bool set; } W[] = { { "timestamp", format_basic::TIMESTAMP, false }, { "timedelta", format_basic::TIMEDELTA, false }, { "timespec", format_basic::TIMESPEC, false }, { "ring", format_basic::RING, false }, { "seqnum", format_basic::SEQNUM, false }, { "area", format_basic::AREA, false }, { "section", format_basic::SECTION, false }, { "default", format_basic::DEFAULT, true }, { "fast0", format_basic::FAST0, true }, { "fast1", format_basic::FAST1, true }, { "bogus", 0, false } };
	unsigned n = choice(4, "n"); char s[64]; s[0] = 0; uint32_t want = 0; char sep = choice(2, "sep") ? ',' : '|'; char sp[2] = { sep, 0 };
	for (unsigned i = 0; i < n; i++) { unsigned k = choice(i < 2 ? 11 : 4, "word"); if (i) strcat(s, sp); strcat(s, W[k].n); if (W[k].set) want = W[k].f; else want |= W[k].f; }
	peek p(s); CHECK(p.f() == want, "selected fields"); peek q((const char *) 0); CHECK(q.f() == format_basic::DEFAULT, "default fields"); symx_reach("ok"); }
