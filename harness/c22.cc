// C22: time stamp conversions/comparisons, both representations (HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT selects).
#include "symx.h"
#include "hogl/detail/timestamp.hpp"
using hogl::timestamp;
static const uint64_t G = 1000000000ull;
struct Q { uint64_t s, n; };
static Q sq(const char *a, const char *b) { Q q; q.s = sym32(a); q.n = sym32(b); symx_assume(q.n < G); return q; }
static timestamp mk(Q q) { struct timespec t; t.tv_sec = q.s; t.tv_nsec = q.n; return timestamp(t); }
static uint64_t ns(Q q) { return q.s * G + q.n; }
static bool lt(Q a, Q b) { return a.s < b.s || (a.s == b.s && a.n < b.n); }
extern "C" void harness() {
	switch (choice(symx_param("cases", 8), "case")) {
	case 0: { // timespec -> stamp -> timespec / ns
		Q q = sq("s", "n"); timestamp t = mk(q); struct timespec o; t.to_timespec(o);
		CHECK((uint64_t)o.tv_sec == q.s && (uint64_t)o.tv_nsec == q.n, "timespec round trip"); 
		CHECK(t.to_nsec() == ns(q), "timespec to nsec"); CHECK((uint64_t)t == ns(q), "conversion operator");
		symx_observe(t.to_nsec()); symx_reach("conv"); break; }
	case 1: { // order agrees with integer order on (s,n)
		Q a = sq("s1", "n1"), b = sq("s2", "n2"); timestamp x = mk(a), y = mk(b);
		CHECK((x < y) == lt(a, b), "operator<"); CHECK((x > y) == lt(b, a), "operator>"); CHECK((x == y) == (a.s == b.s && a.n == b.n), "operator==");
		timestamp z(x), w; w = y; CHECK(z == x && w == y, "copy"); symx_observe(x < y); symx_reach("cmp"); break; }
	case 2: { // ns -> stamp -> ns, and equality with the timespec form
		Q q = sq("s", "n"); timestamp t(ns(q)); CHECK(t == mk(q), "from nsec equals from timespec"); CHECK(t.to_nsec() == ns(q), "nsec round trip");
		timestamp u; u.from_nsec(ns(q)); CHECK(u == t, "from_nsec"); symx_reach("ns"); break; }
	case 3: { // unit conversions
		uint64_t s = symrange("sec", 0, 0xffffffffull); timestamp t; t.from_sec(s); CHECK(t.to_nsec() == s * G, "from_sec"); CHECK(t.to_sec() == s, "to_sec");
		uint64_t m = symrange("ms", 0, 0xffffffffull); t.from_msec(m); CHECK(t.to_nsec() == m * 1000000, "from_msec"); CHECK(t.to_msec() == m, "to_msec");
		uint64_t u = symrange("us", 0, 0xffffffffffffull); t.from_usec(u); CHECK(t.to_nsec() == u * 1000, "from_usec"); CHECK(t.to_usec() == u, "to_usec"); symx_reach("unit"); break; }
	case 4: { // addition
		Q a = sq("s", "n"); uint64_t d = symrange("d", 0, 1ull << 40); symx_assume(a.s < 0xffff0000u); timestamp x = mk(a);
		CHECK((x + d).to_nsec() == ns(a) + d, "operator+ u64"); timestamp y = x; y += d; CHECK(y.to_nsec() == ns(a) + d, "operator+="); 
		CHECK(y > x == (d != 0), "sum ordered"); symx_reach("add"); break; }
	case 5: { // subtraction (with case 2: from_nsec is exact for every nanosecond count)
		Q a = sq("s1", "n1"), b = sq("s2", "n2"); symx_assume(!lt(a, b)); timestamp x = mk(a), y = mk(b);
		CHECK((x - y) == timestamp(ns(a) - ns(b)), "difference"); CHECK((x - ns(b)) == timestamp(ns(a) - ns(b)), "operator- u64"); symx_reach("sub"); break; }
	case 6: { // int, stamp sums, ++ --
		Q a = sq("s1", "n1"); symx_assume(a.s >= 10 && a.s < 0xffff0000u); int i = (int) sym32("i"); timestamp x = mk(a);
		CHECK((x + i).to_nsec() == ns(a) + (int64_t) i, "operator+ int"); CHECK((x - i).to_nsec() == ns(a) - (int64_t) i, "operator- int"); 
		timestamp z = x; z += i; CHECK(z.to_nsec() == ns(a) + (int64_t) i, "operator+= int");
		timestamp y = x; ++y; CHECK(y.to_nsec() == ns(a) + 1, "++"); --y; --y; CHECK(y.to_nsec() == ns(a) - 1, "--"); symx_reach("int"); break; }
	case 7: { Q a = sq("s1", "n1"), b = sq("s2", "n2"); symx_assume(a.s < 0x7fffffffu && b.s < 0x7fffffffu); CHECK((mk(a) + mk(b)).to_nsec() == ns(a) + ns(b), "stamp sum"); symx_reach("sum"); break; }
	}
	symx_reach("ok");
}
