// C19: masks.
#include "symx.h"
#include <hogl/detail/mask.hpp>
#include <hogl/detail/area.hpp>
#include <istream>
#include <ostream>
#include <string>
#include <string.h>
using namespace hogl;
static const char *SN[] = { "B", "AB", "BA:A", 0 }; static const unsigned NS = 3;
// pattern parts with their meaning
struct pp { const char *re; bool (*f)(const char *); };
static bool all(const char *) { return true; } static bool none(const char *) { return false; } static bool isA(const char *s) { return !strcmp(s, "A"); } static bool isB(const char *s) { return !strcmp(s, "B"); } static bool isAB(const char *s) { return !strcmp(s, "AB"); } static bool pA(const char *s) { return s[0] == 'A'; } static bool endB(const char *s) { return s[0] && s[strlen(s) - 1] == 'B'; } static bool AorB(const char *s) { return isA(s) || isB(s); } static bool col(const char *s) { return !strcmp(s, "BA:A"); } static bool one(const char *s) { return strlen(s) == 1; }
static const pp AP[] = { { ".*", all }, { "A", isA }, { "B", isB }, { "", all }, { "A.*", pA }, { "A|B", AorB }, { "AA", none } };
static const pp SP[] = { { "B", isB }, { ".*", all }, { "", all }, { "A.*", pA }, { ".*B", endB }, { "AB", isAB }, { "A|B", AorB }, { "BA:A", col }, { "[A-C]", one }, { "A", isA } };
struct ent { int a, s; bool on, colon; std::string text; bool hit(const char *area, const char *sect) const { return (!colon || AP[a].f(area)) && SP[s].f(sect); } };
static void mk(ent &e, unsigned na, unsigned ns) { e.on = choice(2, "sense"); e.colon = choice(2, "colon"); e.a = e.colon ? (int) choice(na, "area") : 0; e.s = (int) choice(ns, "sect"); if (!e.colon && (e.s == 2 || e.s == 7)) e.s = 1; e.text = std::string(e.on ? "" : "!") + (e.colon ? std::string(AP[e.a].re) + ":" : std::string("")) + SP[e.s].re; if (e.text.empty()) e.text = ".*"; }
static void check(const mask &m, const ent *e, unsigned n, const char *an, const char *what) { area ar(an, SN); bool init[NS]; for (unsigned i = 0; i < NS; i++) { init[i] = sym8("init") & 1; ar.set(i, init[i]); } m.apply(ar);
	for (unsigned i = 0; i < NS; i++) { bool x = init[i]; for (unsigned k = 0; k < n; k++) if (e[k].hit(an, SN[i])) x = e[k].on; CHECK(ar.test(i) == x, what); symx_observe(ar.test(i)); } }
extern "C" void apply() { ent e[3]; unsigned n = 1 + choice((unsigned) symx_param("n", 2), "n"), na = (unsigned) symx_param("na", 5), ns = (unsigned) symx_param("ns", 8); mask m; for (unsigned i = 0; i < n; i++) { mk(e[i], na, ns); if (i == 0 && choice(2, "add")) m.add(e[i].text.c_str()); else m << e[i].text; } static const char *AN[] = { "A", "BB" };
	check(m, e, n, AN[choice(2, "areaname")], "the last matching pattern decides"); symx_reach("ok"); }
// copies, assignments, text round trip
struct mbuf : public std::streambuf { char buf[256]; mbuf(const char *in, size_t n) { memcpy(buf, in, n); setg(buf, buf, buf + n); setp(buf + n, buf + 256); } };
static std::string dump(const mask &m) { mbuf o("", 0); std::ostream os(&o); os << m; return std::string(o.buf, o.pptr() - o.buf); }
extern "C" void copies() { ent e[3]; unsigned n = choice(3, "n"); mask m; for (unsigned i = 0; i < n; i++) { mk(e[i], 3, 3); m << e[i].text; } mask o("B:B", "!A:AB", 0); const mask *r = 0; mask tmp; 
	switch (choice(8, "how")) { case 0: { static mask *c; c = new mask(m); r = c; break; } case 1: { const mask &cm = m; r = new mask(cm); break; } case 2: o = m; r = &o; break; case 3: m = *&m; r = &m; break; case 4: { o = m; m.clear(); m << "!.*"; r = &o; break; } case 5: { mask *c = new mask(m); o = *c; delete c; r = &o; break; }
	case 6: { std::string t = dump(m); mbuf b(t.data(), t.size()); std::istream is(&b); is >> tmp; r = &tmp; symx_reach("text"); break; }
	case 7: { std::string t = dump(m); mbuf b(t.data(), t.size()); std::istream is(&b); is >> tmp; CHECK(dump(tmp) == t, "a mask that was written out and read back writes out the same"); r = &tmp; break; } }
	check(*r, e, n, "A", "copying, assigning, writing and reading back preserves the mask"); symx_reach("ok"); }
// reading text: one pattern per line, with and without the last newline, empty lines carry no pattern
extern "C" void text() { ent e[3]; unsigned n = choice(3, "n"); std::string t; for (unsigned i = 0; i < n; i++) { mk(e[i], 2, 3); t += e[i].text; if (i + 1 < n || choice(2, "lastnl")) t += "\n"; } mask m; mbuf b(t.data(), t.size()); std::istream is(&b); is >> m; check(m, e, n, "A", "every line of the text is one pattern"); std::string d = dump(m), x; for (unsigned i = 0; i < n; i++) x += e[i].text + "\n"; CHECK(d == x, "written out: the patterns in order, one per line"); symx_reach("ok"); }
// any literal pattern: bytes out of a small alphabet
extern "C" void literal() { char p[8]; unsigned len = 1 + choice((unsigned) symx_param("len", 4), "len"); for (unsigned i = 0; i < len; i++) { p[i] = (char) sym8("p"); symx_assume(p[i] == 'A' || p[i] == 'B' || p[i] == ':' || p[i] == '!'); } p[len] = 0; for (unsigned i = 1; i < len; i++) symx_assume(p[i] != '!'); mask m(p, 0);
	const char *q = p; bool on = true; if (*q == '!') { on = false; q++; } const char *c = strchr(q, ':'); char an[8] = "", sn[8]; if (c) { memcpy(an, q, c - q); an[c - q] = 0; strcpy(sn, c + 1); } else strcpy(sn, q);
	area ar("A", SN); bool init[NS]; for (unsigned i = 0; i < NS; i++) { init[i] = sym8("init") & 1; ar.set(i, init[i]); } m.apply(ar); for (unsigned i = 0; i < NS; i++) { bool hit = (!an[0] || !strcmp(an, "A")) && (!sn[0] || !strcmp(sn, SN[i])); bool x = hit ? on : init[i]; CHECK(ar.test(i) == x, "matching is against the complete area and section name"); if (hit) symx_reach("hit"); else symx_reach("miss"); } symx_reach("ok"); }
// constructor list
extern "C" void list() { ent e[3]; unsigned n = choice(4, "n"); const char *s[4] = { 0, 0, 0, 0 }; for (unsigned i = 0; i < n; i++) { mk(e[i], 2, 2); s[i] = e[i].text.c_str(); } mask m(s[0], s[1], s[2], s[3], 0); check(m, e, n, "A", "constructor with a list of patterns"); mask z; z << "A:B"; z.clear(); area ar("A", SN); ar.disable(); z.apply(ar); CHECK(!ar.test(0), "cleared mask"); symx_reach("ok"); }
