// C18: section bits of an area / bitmap, for every section number and every operation sequence within the bound.
#include "symx.h"
#include <hogl/area.hpp>
#include <hogl/detail/bitmap.hpp>
#include <string.h>
using hogl::area; using hogl::bitmap;
static const unsigned SZ[] = { 6, 1, 2, 8, 9, 63, 64, 65, 128, 130 };
static const char *names[140];
static area *mk(unsigned n) { for (unsigned i = 0; i < n; i++) names[i] = "S"; names[n] = 0; return n == 6 ? new area("A") : new area("A", names); }
static bool inr(uint32_t t, unsigned n) { return t < n; }
// the probed section t is arbitrary: its expected state e is tracked through the operations
static void ops(area *a, unsigned n, int k, uint32_t t) {
	bool e = false; CHECK(!a->test(t), "a new area has all sections off");
	for (int i = 0; i < k; i++) {
		uint32_t s = sym32("s"); bool v = sym8("v") & 1;
		switch (choice(8, "op")) {
		case 0: a->set(s, v); if (s == t) e = v; break;
		case 1: a->reset(s); if (s == t) e = false; break;
		case 2: a->enable(s, v); if (s == t) e = v; break;
		case 3: a->disable(s); if (s == t) e = false; break;
		case 4: a->set(); e = true; break;
		case 5: a->reset(); e = false; break;
		case 6: a->enable(); e = true; break;
		case 7: a->disable(); e = false; break;
		}
		bool g = a->test(t); symx_observe(g); CHECK(g == (inr(t, n) && e), "section state after the operations");
	}
	if (inr(t, n)) symx_reach("inrange"); else symx_reach("outofrange");
	CHECK(a->size() == n && a->count() == n, "number of sections"); }
extern "C" void area_ops() {
	int cfg = symx_param("sizes", 10), k = symx_param("ops", 2);
	unsigned n = SZ[choice(cfg, "size")]; area *a = mk(n); ops(a, n, k, sym32("t")); delete a; }
extern "C" void bitmap_ops() {
	unsigned n = SZ[choice(symx_param("sizes", 10), "size")]; bitmap b(n); uint32_t t = sym32("t"); bool e = false;
	for (int i = 0; i < symx_param("ops", 2); i++) { uint32_t s = sym32("s"); bool v = sym8("v") & 1;
		switch (choice(4, "op")) { case 0: b.set(s, v); if (s == t) e = v; break; case 1: b.reset(s); if (s == t) e = 0; break; case 2: b.set(); e = 1; break; case 3: b.reset(); e = 0; break; } }
	bitmap c(b); CHECK(c.size() == n && b.size() == n, "size"); CHECK(b.test(t) == (inr(t, n) && e), "bitmap bit"); CHECK(c.test(t) == (inr(t, n) && e), "copied bitmap bit");
	// the copy is independent
	uint32_t s = sym32("s2"); c.set(s, !c.test(s)); CHECK(b.test(t) == (inr(t, n) && e), "copy is independent of the original");
	bitmap d(1); if (choice(2, "assign")) { d = b; CHECK(d.size() == n, "assigned size"); CHECK(d.test(t) == (inr(t, n) && e), "assigned bitmap bit"); d.set(s, !d.test(s)); CHECK(b.test(t) == (inr(t, n) && e), "assignee is independent"); d = d; symx_reach("assign"); }
	unsigned m = SZ[choice(symx_param("sizes", 10), "size2")]; c.resize(m); c.reset(); c.set(t); CHECK(c.size() == m && c.test(t) == inr(t, m), "resized"); symx_reach("done"); }
// comparison and names
extern "C" void area_cmp() {
	char nb[2][3], sb[2][3][3]; unsigned n[2]; const char *sl[2][4]; area *a[2];
	for (int i = 0; i < 2; i++) { symx_bytes(nb[i], 2, "name"); nb[i][2] = 0; n[i] = 1 + choice(symx_param("nsec", 2), "n"); for (unsigned j = 0; j < n[i]; j++) { symx_bytes(sb[i][j], 2, "sec"); sb[i][j][2] = 0; sl[i][j] = sb[i][j]; } sl[i][n[i]] = 0; }
	for (int i = 0; i < 2; i++) a[i] = new area(nb[i], sl[i]);
	bool eq = !strcmp(nb[0], nb[1]) && n[0] == n[1]; for (unsigned j = 0; eq && j < n[0]; j++) eq = !strcmp(sb[0][j], sb[1][j]);
	if (choice(2, "en")) a[0]->set(0); // enabled sections do not take part in the comparison
	CHECK((*a[0] == *a[1]) == eq, "area comparison"); CHECK((*a[0] != *a[1]) == !eq, "area comparison (negated)");
	char k = nb[0][0]; nb[0][0] = 'x'; char k2 = sb[0][0][0]; sb[0][0][0] = 'y'; // the area keeps its own copies
	CHECK(a[0]->name()[0] == k, "area name copied"); CHECK(a[0]->section_name(0)[0] == k2, "section name copied");
	uint32_t t = sym32("t"); const char *sn = a[1]->section_name(t); if (t < n[1]) CHECK(!strcmp(sn, sb[1][t]), "section name"); else CHECK(!strcmp(sn, "INVALID"), "section name out of range");
	if (eq) symx_reach("equal"); else symx_reach("differ"); delete a[0]; delete a[1]; }
