#ifndef HCOMMON_H
#define HCOMMON_H
#include "symx.h"
#include <hogl/detail/ringbuf.hpp>
#include <hogl/detail/area.hpp>
#include <hogl/detail/args.hpp>
#include <hogl/detail/record.hpp>
#include <string.h>
#include <stdlib.h>
static inline hogl::ringbuf *mkring(const char *name, unsigned cap, unsigned flags = 0, unsigned tail = 128, unsigned prio = 0) {
	hogl::ringbuf::options o; o.capacity = cap; o.prio = prio; o.flags = flags; o.record_tailroom = tail;
	hogl::ringbuf *r = new hogl::ringbuf(name, o); r->hold(); return r; }
static uint64_t g_ts = 1;
static hogl::timestamp ts_cb(const hogl::timesource *) { return hogl::timestamp(g_ts); }
#endif
