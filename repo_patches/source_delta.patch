From aac304f87833a6dc60a6a6cdbaad394cca77c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 01/23] fix: timespec timestamps must sort by seconds first

The seconds have to be in the upper half of the 64bit value, otherwise
comparing timestamps (TSO sorting) compares nanoseconds first.
---
 include/hogl/detail/timestamp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 9a36536..276c867 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -54,11 +54,11 @@ private:
 		uint64_t u64;
 		struct {
 		#if __BYTE_ORDER == __LITTLE_ENDIAN
-			uint32_t sec;
 			uint32_t nsec;
+			uint32_t sec;
 		#else
-			uint32_t nsec;
 			uint32_t sec;
+			uint32_t nsec;
 		#endif
 		} u32;
 	} _v;
-- 
2.43.0


From c32d71ae8f418e77f4231c73c5eb8bcc50ff81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 02/23] fix: timespec timestamp::to_nsec() overflows 32 bits

---
 include/hogl/detail/timestamp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 276c867..8055fc4 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -117,7 +117,7 @@ public:
 
 	uint64_t to_nsec() const
 	{
-		return _v.u32.sec * nsec_per_sec + _v.u32.nsec;
+		return (uint64_t) _v.u32.sec * nsec_per_sec + _v.u32.nsec;
 	}
 #else
 	// This version stores timestamp in nanoseconds which means 
-- 
2.43.0


From a28443d5dfbc497a7016c72147fb22909a9d19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 03/23] fix: bitmap (area) accesses memory outside of the
 bitmap for invalid bit numbers

Section numbers that do not exist in the area read and wrote past the end
of the bitmap, and were reported as enabled after set().
---
 include/hogl/detail/bitmap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/bitmap.hpp b/include/hogl/detail/bitmap.hpp
index d46dcdd..6a47a1b 100644
--- a/include/hogl/detail/bitmap.hpp
+++ b/include/hogl/detail/bitmap.hpp
@@ -92,6 +92,9 @@ public:
 
 	void set(unsigned int bit, bool val = true)
 	{
+		if (bit >= _size)
+			return;
+
 		if (val)
 			_data[which_word(bit)] |= ((word)1 << which_bit(bit));
 		else
@@ -100,7 +103,7 @@ public:
 
 	bool test(unsigned int bit) const
 	{
-		return _data[which_word(bit)] & ((word)1 << which_bit(bit));
+		return bit < _size && (_data[which_word(bit)] & ((word)1 << which_bit(bit)));
 	}
 
 	void reset()
-- 
2.43.0


From 3ad8e54b0ea0aa574ced70d8e984722c76a2f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 04/23] fix: bitmap assignment shares and double frees the data

---
 include/hogl/detail/bitmap.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/hogl/detail/bitmap.hpp b/include/hogl/detail/bitmap.hpp
index 6a47a1b..fd535a3 100644
--- a/include/hogl/detail/bitmap.hpp
+++ b/include/hogl/detail/bitmap.hpp
@@ -130,6 +130,15 @@ public:
 		memcpy(_data, b._data, nbytes(_size));
 	}
 
+	bitmap& operator=(const bitmap &b)
+	{
+		if (this != &b) {
+			resize(b._size);
+			memcpy(_data, b._data, nbytes(_size));
+		}
+		return *this;
+	}
+
 	~bitmap()
 	{
 		delete [] _data;
-- 
2.43.0


From 495e65f820fa176226d60920752fbf0e38c19416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 05/23] fix: TSO buffer with the capacity of one record
 overflows

---
 src/engine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..8982132 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -383,10 +383,10 @@ void engine::do_flush_tso(unsigned int size)
 
 // Emergency TSO flush.
 // Called when TSO gets full and the engine must flush it.
-// We only flush half of it to avoid flushing records out-of-order.
+// We only flush half of it (rounded up) to avoid flushing records out-of-order.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 8b277b4ddd6510af09bfad4491d29d27062ab5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:34 +0000
Subject: [PATCH 06/23] fix: flush and timesource change that time out must not
 consume a sequence number

---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f3b17db 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From aa025c2ced4e67f52c212a8b8e8060d32337193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 07/23] fix: false drop report when a ring is handed to another
 engine

---
 include/hogl/detail/ringbuf.hpp | 8 ++++++++
 src/engine.cc                   | 9 ++++++---
 src/ringbuf.cc                  | 2 ++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..72f56a1 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -108,6 +108,7 @@ protected:
 	// R/W access by the reader
 	// R/O access by the writer
 	vo_uint         _head;
+	uint64_t        _pop_seqnum; /// Sequence number expected by the reader
 
 	/**
  	 * Get a pointer the record with a specific index 
@@ -321,6 +322,13 @@ public:
 	 */
 	int refcnt() const { return _refcnt.get(); }
 
+	/**
+	 * Get/Set sequence number of the next record expected by the reader.
+	 * Stays with the ring when it is handed over to a different engine.
+	 */
+	uint64_t pop_seqnum() const { return _pop_seqnum; }
+	void pop_seqnum(uint64_t s) { _pop_seqnum = s; }
+
 	/**
 	 * Increment sequence number and return the original value
 	 */ 
diff --git a/src/engine.cc b/src/engine.cc
index 8982132..8673586 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,7 +218,7 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
+		ni(i)->seqnum    = ring->pop_seqnum();
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
@@ -360,7 +360,7 @@ void engine::do_flush_tso(unsigned int size)
 		unsigned int i = te.tag;
 		record *r = te.rec;
 
-		const ringbuf *ring = _ring_index(i)->pit.ring();
+		ringbuf *ring = _ring_index(i)->pit.ring();
 
 		// Check for dropped records by comparing sequence numbers
 		if (r->seqnum != _ring_index(i)->seqnum) {
@@ -376,6 +376,7 @@ void engine::do_flush_tso(unsigned int size)
 		// Update expected seqnum and last processed record for this ring
 		_ring_index(i)->lastrec = r;
 		_ring_index(i)->seqnum  = r->seqnum + 1;
+		ring->pop_seqnum(r->seqnum + 1);
 
 		flush_record(i, r);
 	}
@@ -499,8 +500,10 @@ void engine::process_rings_notso()
 		dprint("engine processing: ring %p prio %u", (void*)it.ring(), it.ring()->prio());
 		it.reset();
 		record *r;
-		while ((r = it.next()))
+		while ((r = it.next())) {
+			it.ring()->pop_seqnum(r->seqnum + 1);
 			flush_record(i, r);
+		}
 		it.commit();
 		it.ring()->unblock();
 
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..670f382 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -87,6 +87,7 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_flags    = opts.flags;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_pop_seqnum = 0;
 	_timesource = &default_timesource;
 
 	_prio = opts.prio;
@@ -157,6 +158,7 @@ void ringbuf::reset(void)
 	_head = _capacity;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_pop_seqnum = 0;
 	unlock();
 }
 
-- 
2.43.0


From 56f2a96be325022fc6d79cc7d5aa995a215b8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:05 +0000
Subject: [PATCH 08/23] fix: lost wake-up of the writers blocked on a full ring

---
 include/hogl/detail/ringbuf.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 72f56a1..c8e2d01 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -409,8 +409,16 @@ public:
 	void block()
 	{
 		pthread_mutex_lock(&_block_mutex);
-		_block_active = true;
-		pthread_cond_wait(&_block_cond, &_block_mutex);
+		while (1) {
+			// Reader moves the head and then checks the flag.
+			// We set the flag and then re-check the head, otherwise
+			// the wake up can be lost.
+			_block_active = true;
+			barrier::memrw();
+			if (_head != _tail)
+				break;
+			pthread_cond_wait(&_block_cond, &_block_mutex);
+		}
 		pthread_mutex_unlock(&_block_mutex);
 	}
 
@@ -419,6 +427,12 @@ public:
 	 */
 	void unblock()
 	{
+		if (!blocking())
+			return;
+
+		// Make sure the head is updated before we check the flag
+		barrier::memrw();
+
 		if (hogl_unlikely(_block_active)) {
 			pthread_mutex_lock(&_block_mutex);
 			pthread_cond_signal(&_block_cond);
-- 
2.43.0


From d567a825776db126225a9cad7574ae0ceaaa65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 09/23] fix: flush must flush the output before it is
 acknowledged

---
 src/engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 8673586..b214f57 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -297,6 +297,11 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything posted before this mark was processed.
+			// Flush the output before we acknowledge.
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From 781f0eee993741c925e298b162500eb35c891114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 10/23] fix: ring added during a timesource change keeps the
 old timesource

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index b214f57..674202d 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -658,9 +658,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 5a4a745fb4e0bec4c8cd4b13a71c29da0728b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 11/23] fix: engine must not drop a ring that was looked up
 again

---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 674202d..2b7f67a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Someone may have found this ring, and even used it, since 
+		// the caller checked. New references are handed out under the mutex.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From ddf6d2d76e28b5280de95b21a92f7dbecfca560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 12/23] fix: new area must not miss, or race with, a mask
 change

---
 src/engine.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 2b7f67a..1a9898b 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -628,13 +628,12 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
+	// Apply current mask to the new area.
+	if (s.second)
+		_mask.apply(a);
 	pthread_mutex_unlock(&_area_mutex);
 
 	if (s.second != false) {
-		// New area.
-		// Apply current mask before returning the area to the caller.
-		_mask.apply(a);
-
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 586596eb5fb34c26390ba10808708ebb7b6e5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 13/23] fix: cpu-affinity list numbers must not wrap to 32 bits

---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..99bdbf8 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
-- 
2.43.0


From 3a70b9b0809b8a3658bf0978c1cd17c5614af4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 14/23] fix: cpu-affinity mask selects unrelated cpus above 30

---
 src/schedparam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 99bdbf8..a4c273e 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -185,8 +185,8 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
+		if (m & (1ULL<<i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From fcf6d2cb7f806b7173e8f32b11c3fcfe221729f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 15/23] fix: empty cpu-affinity mask is not valid

---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index a4c273e..94ce480 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -183,7 +183,7 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
 		return errno;
-	if (eptr != sptr + str.size())
+	if (eptr == sptr || eptr != sptr + str.size())
 		return EINVAL;
 	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
 		if (m & (1ULL<<i)) mask.set(i);
-- 
2.43.0


From 68f20a5eb6befd3402020fb5a1aef62e744c9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 16/23] fix: mask self-assignment uses freed memory

---
 src/mask.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..8c1c220 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,6 +183,8 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	if (this == &m)
+		return;
 	delete _list;
 	_list = new data_list(*m._list);
 }
-- 
2.43.0


From 01d5e170fbfc1b10fa41b9c76830379bf8c991f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 17/23] fix: mask read from a stream must have all the lines,
 and nothing else

---
 src/mask.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 8c1c220..1115ce0 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,13 +115,12 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string str;
 
 	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	while (std::getline(s, str)) {
+		if (!str.empty())
+			m << str;
 	}
 
 	return s;
-- 
2.43.0


From bcf9cafb5764514c016fead053dc53c0d5d83147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 18/23] fix: pointers to const data must not be recorded as
 booleans

---
 include/hogl/detail/args.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hogl/detail/args.hpp b/include/hogl/detail/args.hpp
index f705086..9e46c0d 100644
--- a/include/hogl/detail/args.hpp
+++ b/include/hogl/detail/args.hpp
@@ -143,6 +143,8 @@ struct arg {
 	hogl_force_inline arg(uint16_t i)      : type(UINT32),  val(i) {}
 	hogl_force_inline arg(void *ptr)       : type(POINTER), val((unsigned long) ptr) {}
 	hogl_force_inline arg(volatile void *ptr) : type(POINTER), val((unsigned long) ptr) {}
+	hogl_force_inline arg(const void *ptr)    : type(POINTER), val((unsigned long) ptr) {}
+	hogl_force_inline arg(const volatile void *ptr) : type(POINTER), val((unsigned long) ptr) {}
 	hogl_force_inline arg(unsigned int i)  : type(UINT32), val(i) {}
 	hogl_force_inline arg(int i)           : type(INT32),  val(i) {}
 	hogl_force_inline arg(unsigned long long u) : type(UINT64), val(u) {}
-- 
2.43.0


From 6ba50f10abb44d5fc7415d8f519d5de2602fb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 19/23] fix: hexdump with zero line width must be a single line
 instead of an endless loop

---
 src/format-basic.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..fcd1e1d 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,22 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
+	// Zero line width means single line
+	const uint32_t line_width = xf.line_width ? xf.line_width : n;
+
 	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
-- 
2.43.0


From 2b7d2aab08adc2fbdff1b7b3add17a0485796943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 20/23] fix: xdump without data or with zero byte width must
 not crash the formatter

Data that did not fit into the record is stored with zero length, the
subtraction of the header size underflowed. Classic hexdump with a byte width
other than one dumped only a part of the data.
---
 src/format-basic.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index fcd1e1d..3337337 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -150,15 +150,23 @@ static const char* __dbl_fmt(unsigned int pr)
 
 static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
+	// No data (did not fit into the record)
+	if (len < sizeof(arg_xdump::format))
+		return sb.push_back("null");
+
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
-	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
+	len -= sizeof(arg_xdump::format);
 
-	switch (xf.type) {
-	case 'H':
+	// Classic hexdump is byte oriented
+	if (xf.type == 'H')
 		return do_hexdump(sb, ptr, len, xf);
 
+	if (xf.byte_width)
+		len /= xf.byte_width;
+
+	switch (xf.type) {
 	case 'x':
 		switch (xf.byte_width) {
 		case 1: return xdump_multi(sb, (uint8_t*)  ptr, len, "%x",   xf);
-- 
2.43.0


From b37617e1cd1a09ec1cca6d9cb653c25d8a2c02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 21/23] fix: null global string must not crash the formatter

---
 src/format-basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 3337337..790f7cb 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -527,7 +527,7 @@ static const char* get_arg_str(const record& r, unsigned int type, unsigned int
 		ptr = r.get_arg_val32(i);
 	else
 		ptr = r.get_arg_val64(i);
-	return (const char *) ptr;
+	return ptr ? (const char *) ptr : "null";
 }
 
 void format_basic::process(ostrbuf &sb, const format::data &d)
-- 
2.43.0


From b634254b41ecbb00de4963904b645114f2e07cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 22/23] fix: fd output must complete short and interrupted
 writes

The rest of the data was dropped silently if the system accepted only a part
of a write, and an interrupted write was treated as a permanent failure.
---
 include/hogl/detail/ostrbuf-fd.hpp | 13 +++++++++++
 src/ostrbuf-fd.cc                  | 35 ++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..1d22964 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,9 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -59,6 +62,16 @@ public:
 	// Explicitly close the file descriptor
 	void close(); 
 
+	/**
+	 * Write all of the data. Takes care of the short and interrupted writes.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @return number of bytes written (smaller than the total if the write failed half way, see errno)
+	 * or -1 on error
+	 */
+	static ssize_t write_all(int fd, const struct iovec *iov, unsigned int iovcnt);
+
 	/**
 	 * Constructor.
 	 * @param fd file descriptor
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..accd66e 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -63,14 +63,45 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
-		if (r < 0)
+		ssize_t r = write_all(_fd, iov, i);
+		if (r < 0 || (size_t) r < _size + len)
 			ostrbuf::failure(strerror(errno));
 	}
 
 	this->reset();
 }
 
+ssize_t ostrbuf_fd::write_all(int fd, const struct iovec *iov, unsigned int iovcnt)
+{
+	size_t total = 0; // number of bytes written so far
+	size_t done  = 0; // number of bytes written from the current entry
+
+	while (1) {
+		// Skip complete entries
+		while (iovcnt && done >= iov->iov_len) {
+			done -= iov->iov_len;
+			iov++; iovcnt--;
+		}
+		if (!iovcnt)
+			return total;
+
+		ssize_t r;
+		if (done)
+			r = ::write(fd, (const uint8_t *) iov->iov_base + done, iov->iov_len - done);
+		else
+			r = ::writev(fd, iov, iovcnt);
+
+		if (r < 0) {
+			if (errno == EINTR)
+				continue;
+			return total ? (ssize_t) total : -1;
+		}
+
+		total += r;
+		done  += r;
+	}
+}
+
 void ostrbuf_fd::close()
 {
 	::close(_fd); _fd = -1;
-- 
2.43.0


From df41cac106f5be790ee7a5391a485676020552e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 23/23] fix: file output must complete short and interrupted
 writes

---
 src/output-file.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..cd72bcc 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,8 +75,8 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
-			if (r < 0)
+			ssize_t r = _of.writev(iov, i);
+			if (r < 0 || (size_t) r < _size + len)
 				ostrbuf::failure(strerror(errno));
 		}
 
@@ -310,7 +310,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	n = ostrbuf_fd::write_all(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
-- 
2.43.0

