#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the text is reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
R="include/hogl/detail/ringbuf.hpp"
p("C01","Rings deliver accepted records exactly once, in order, intact",
 "A record that a writer posts into a ring with free room is later read exactly once, after every record posted before it and before every record posted after it, and with exactly the contents that were written. A record posted into a full non-blocking ring is discarded without altering any record that is still waiting to be read. The reader never observes a record that was not completely written, whatever the relative speed of writer and reader.",
 ["schedules","inputs","configurations"],"every interleaving of one writer and the reader (plain and iterator interface), every ring capacity and fill level, any index position including wrap-around, any record contents",
 "Tests run a single thread or rely on the OS schedule; the index wrap, the full/empty boundary and the publish order are hit by chance only.",
 [R,"src/ringbuf.cc"],[("two-phase push: fill record, then publish tail",R+":push_begin/push_commit"),("pop_begin/pop_commit and pop_iterator next/rewind/commit",R)],
 ["ringbuf public push/pop interface"])
p("C02","Blocking rings lose nothing and a blocked writer always resumes",
 "Posting into a full blocking ring waits until the reader makes room and then delivers the record: nothing is dropped and the drop count stays zero. Whenever the reader frees room, every writer waiting on that ring eventually continues, whatever the interleaving of the writer's decision to wait with the reader's release.",
 ["schedules","histories"],"every interleaving of a writer (or two writers of a shared ring) and the engine thread around the full condition, with and without timestamp ordering",
 "The ring_block test runs on one timing; the lost wake-up window between checking for room and waiting is a few instructions wide.",
 [R,"src/engine.cc"],[("block()/unblock() condition variable hand-shake",R),("engine commits the head and unblocks",'src/engine.cc:process_rings_tso/process_rings_notso')],
 ["number of delivered records","termination of the writer"])
p("C03","Concurrent posts into a shared ring are neither lost, torn nor mixed",
 "When several threads post into the same shared ring concurrently, every record that is accepted is delivered once with all of its fields from a single post, records of one thread keep that thread's order, and sequence numbers of the ring's posts are unique and gap-free in posting order.",
 ["schedules","inputs"],"every interleaving of two or more posting threads with each other and with the reader, any record contents, free or full ring",
 "stress tests sample OS schedules; tearing would only be noticed if the output was parsed and cross-checked.",
 [R,"include/hogl/detail/post.hpp","include/hogl/post.hpp"],[("ring lock around the push transaction","include/hogl/detail/post.hpp"),("inc_seqnum",R)],
 ["records read back from the ring"])
p("C04","Every post is either output or counted in a dropped-records report",
 "For every ring, the records posted up to and including the last one that was output equal the records output plus the sum of the counts announced in that ring's 'dropped N record(s)' reports and nothing is reported as dropped that was output. A report appears immediately before the first record that follows the gap. The same holds in timestamp-ordered and unordered mode of processing wherever drops are reported.",
 ["histories","inputs","configurations"],"any sequence of posts and engine polls, any ring capacity and reorder-buffer capacity",
 "Tests do not compare posted counts with delivered and reported counts; overflow combined with a partially flushed reorder buffer is not exercised.",
 ["src/engine.cc",R],[("sequence number gap detection","src/engine.cc:do_flush_tso"),("drop counting on full ring",R+":push_commit")],
 ["output records","drop report records","engine statistics"])
p("C05","Timestamp-ordered output: sorted, per-ring order kept, nothing lost",
 "With timestamp ordering enabled the records present in the rings when the engine polls are output in non-decreasing timestamp order unless the reorder buffer overflows (in which case a mark saying that following records may be out of order precedes them). Records of the same ring are always output in posting order, even if their timestamps go backwards. No record is lost, duplicated or read after its slot was released, for any reorder-buffer capacity and any number of records.",
 ["inputs","histories","configurations"],"any non-zero timestamps, any number of rings/records within bound, any reorder-buffer capacity >= 1, any sequence of polls",
 "tso tests sort a fixed list; overflow, leftovers from the previous poll and capacity extremes are not covered.",
 ["include/hogl/detail/tsobuf.hpp","src/engine.cc"],[("tsobuf push/sort/pop/flip","include/hogl/detail/tsobuf.hpp"),("flush_tso/flush_full_tso, commit via last flushed record","src/engine.cc")],
 ["order of records handed to the output"])
p("C06","Log arguments are recorded and rendered with their exact value",
 "Every argument passed to a post call, of every supported type, in any position and combination of up to 16 arguments, is stored with its type and exact value and rendered according to the format string as the value the caller passed; strings and binary data are copied at the time of the call, so later changes to the caller's buffers have no effect. Pre-packed argument lists record the same thing as passing the arguments directly.",
 ["inputs"],"any argument values, types, positions and counts; any string/binary contents within the size bound",
 "args_test uses a few fixed values and looks at almost none of the output.",
 ["include/hogl/detail/args.hpp","include/hogl/detail/record.hpp","include/hogl/detail/argpack.hpp","src/format-basic.cc"],[("typed argument constructors","include/hogl/detail/args.hpp"),("record::set_args / argpack::populate","include/hogl/detail/record.hpp"),("printf argument feed","src/format-basic.cc")],
 ["record contents","text output"])
p("C07","Recording arguments never writes outside the record; cuts are marked",
 "Storing arguments of any sizes never writes outside the record's own storage and never mixes the data of two arguments. A string that does not fit is cut to the available room, stays null-terminated and ends in '>>>' when more than three characters fit; an argument for which no room is left becomes empty; everything that fits is stored unchanged.",
 ["inputs","configurations"],"any argument lengths, numbers and kinds (strings, raw data, hex dumps, special dumps) and any tailroom",
 "Tests only use strings that comfortably fit or one fixed overlong string.",
 ["include/hogl/detail/record.hpp","include/hogl/detail/argpack.hpp"],[("copy_cstr/copy_data/copy_xdump","include/hogl/detail/record.hpp")],
 ["record memory"])
p("C08","Ring geometry is sound for every option combination",
 "For any requested capacity and tailroom a ring is created with a power-of-two capacity not smaller than requested, record slots that do not overlap and lie inside the allocated memory, and at least the requested tailroom; while it is used the number of waiting records plus the free room always equals capacity minus one. Resetting a ring drops its records and restores it to the freshly created state.",
 ["inputs","configurations","histories"],"any capacity and tailroom accepted by the allocator, any sequence of push/pop/reset",
 "ring tests use a handful of small capacities and never look at the slot addresses.",
 [R,"src/ringbuf.cc"],[("rounding and allocation","src/ringbuf.cc:ringbuf::ringbuf"),("size()/room()/empty()",R),("reset()","src/ringbuf.cc")],
 ["capacity(), size(), room(), record_tailroom(), record addresses"])
p("C09","A successful flush means everything posted before it was processed",
 "When flushing a ring reports success, every record posted to that ring before the flush call has been handed to the output and the output has been told to flush what precedes the flush mark; a flush that cannot complete in time reports failure, returns within a bounded number of timeouts and leaves no trace that could acknowledge a later flush. Flush does not report failure when the engine processes the mark before the timeout.",
 ["schedules","inputs","histories"],"every interleaving of the flushing thread and the engine, any ring fill level, any timeout, plain, shared and blocking rings",
 "Tests call flush once on an otherwise idle engine.",
 ["src/flush.cc","src/engine.cc","include/hogl/detail/record.hpp"],[("special flush record and acknowledgment","src/flush.cc"),("flush_record","src/engine.cc")],
 ["flush() result and output contents"])
p("C10","Timesource switch reaches every ring and acknowledges correctly",
 "A successful timesource change makes every ring known to the engine, including rings registered concurrently with or after the change, stamp subsequent records with the new timesource; records posted before the change by the calling thread keep their time stamps and are output. A change that is reported as failed leaves rings usable, and no record or special mark is misread as a log message.",
 ["schedules","histories"],"any interleaving of the change with ring registration and posting; any number of rings",
 "The test for it switches once with a single thread.",
 ["src/timesource.cc","src/engine.cc"],[("special record SPR_TIMESOURCE_CHANGE","src/timesource.cc"),("switch_timesource","src/engine.cc"),("timesource at registration","src/engine.cc:add_ring")],
 ["record timestamps","ring timesource"])
p("C11","Rings live as long as they are used; nothing posted before release is lost",
 "Everything posted to a ring before its last owner releases it is output, after which the ring is unregistered and its memory is freed exactly once. A ring that was handed to a caller (created, found or reused by name) stays registered and is served for as long as the caller holds it, and no thread touches a ring after it was freed, whatever the interleaving of release, lookup, reuse and engine polls. Rings marked immortal are never freed.",
 ["schedules","histories"],"every interleaving of owners releasing/finding/reusing rings with engine polling; engine shutdown at any time after owners are done",
 "Tests create and release rings sequentially; the orphan clean-up racing with reuse is not exercised.",
 ["src/engine.cc",R,"include/hogl/detail/refcount.hpp"],[("orphan()/kill_orphan","src/engine.cc"),("reference counting","include/hogl/detail/refcount.hpp"),("drain on shutdown","src/engine.cc:drain_rings")],
 ["records output, allocation and release of rings"])
p("C12","Output byte stream is complete and in order under any write behaviour",
 "The bytes that reach the descriptor, file or stream are exactly the bytes that were formatted, in order, once, for every buffer size and every split of the data into pieces, also when the operating system accepts only part of a write or a write is interrupted. A failing write never corrupts, duplicates or reorders what is written before and after it, never overruns the buffer, and every attached sink of a tee receives the same bytes.",
 ["inputs","fault_sequences","configurations"],"any chunk sizes/contents, any buffer capacity, any sequence of short writes / interruptions / errors from the OS",
 "ostrbuf tests never see a short write or an error; sizes are fixed.",
 ["include/hogl/detail/ostrbuf.hpp","src/ostrbuf-fd.cc","src/ostrbuf-tee.cc","src/ostrbuf-stdio.cc","src/output-file.cc"],[("put()/flush() buffering","include/hogl/detail/ostrbuf.hpp"),("vectored write","src/ostrbuf-fd.cc:do_flush"),("tee fan-out","src/ostrbuf-tee.cc")],
 ["bytes passed to write calls"])
p("C13","Log file rotation keeps every byte and follows the naming scheme",
 "File output with rotation writes every formatted byte to exactly one file of the sequence, in order and never splitting a record across files; a file is closed and the next one opened once the size limit is reached, the index counts up and wraps to 0 after the maximum count with zero-padded width, and the link always names the current file, after which a restart continues with the next index. Construction, rotation and destruction complete for any limits and any timing, and a failing open, rename or link leaves the output writing somewhere valid.",
 ["schedules","inputs","fault_sequences","configurations"],"any max size/count/name with or without index marker, any interleaving of writer and rotation helper thread, any existing link contents, failing system calls",
 "Tests rotate a handful of times with one configuration.",
 ["src/output-file.cc","include/hogl/output-file.hpp"],[("init_name/update_name/read_link","src/output-file.cc"),("rotation helper thread hand-shake","src/output-file.cc")],
 ["sequence of open/write/close/rename/symlink calls"])
p("C14","Raw format round trip reproduces every record exactly",
 "Parsing the byte stream produced by the raw formatter yields the same sequence of records: time stamp, sequence number, ring, area and section names, argument types and values, including string and binary arguments byte for byte, so that rendering the parsed record equals rendering the original. The parser reports end of data exactly at the end of the stream.",
 ["inputs"],"any record contents with any combination of argument types that fit the parser's maximum record size",
 "rawrec_test only dumps one record.",
 ["src/format-raw.cc","tools/raw-parser.cc","include/hogl/detail/magic.hpp"],[("output_raw","src/format-raw.cc"),("raw_parser::next","tools/raw-parser.cc")],
 ["parsed records"])
p("C15","Parsing arbitrary or truncated raw data is memory safe and terminates",
 "Given any byte sequence, complete, corrupted or truncated anywhere, and however the input arrives in pieces, the raw log parser terminates, never reads or writes outside its buffers, and reports end of data or an error instead of returning a record with unset or dangling contents. Data read from a descriptor reaches the parser complete and in order regardless of short reads.",
 ["inputs","fault_sequences"],"any input bytes up to the bound and any chunking of reads",
 "No test feeds the parser malformed data.",
 ["tools/raw-parser.cc","tools/rdbuf.cc"],[("read_blob/read_str/read_args","tools/raw-parser.cc"),("file_rdbuf::read","tools/rdbuf.cc")],
 ["parser result and error state"])
p("C16","Text record headers show the true time, sequence, ring, area, section",
 "For every record and every selection of header fields the text header contains exactly the selected fields in their fixed layout, with the record's own time stamp (date, time, nanoseconds, delta to the previous record), sequence number, ring, area and section names. The output does not depend on which records were formatted before (except the documented time delta), and number rendering is exact for all values.",
 ["inputs","configurations","histories"],"any time stamp, sequence number, names, any format flags, any order of formatted records",
 "format tests compare a few fixed records; the time cache and the fast paths depend on the sequence of time stamps.",
 ["src/format-basic.cc","include/hogl/detail/ntos.hpp","include/hogl/format-basic.hpp"],[("header writers and cached time stamp","src/format-basic.cc"),("number conversion","include/hogl/detail/ntos.hpp")],
 ["formatted header bytes"])
p("C17","Formatting any record is safe: no crash, hang or escaping exception",
 "Rendering any recorded message, whatever its format string, argument count and types, mismatch between the two, dump parameters or truncated data, terminates, reads only the record's own data, and lets no exception escape into the logging engine; mismatches are rendered as text or reported in the output. All supported dump layouts render each data byte once, in order.",
 ["inputs"],"any argument types/values, any dump options, any data length including zero, any format string within the bound",
 "Tests format well-formed messages.",
 ["src/format-basic.cc","include/hogl/fmt/printf.h"],[("output_fmt/do_xdump/hexdump","src/format-basic.cc")],
 ["formatted bytes, absence of memory errors and exceptions"])
p("C18","Section enable bits of an area are independent and in range",
 "Enabling, disabling or testing a section of an area affects and reports only that section; enabling or disabling all affects every section; a section number outside the area's range is never reported enabled and changing it has no effect on memory or on any other section. Assigning, comparing or copying section sets preserves exactly the member sections, for any number of sections.",
 ["inputs","configurations"],"any section count and any section index, any sequence of enable/disable operations",
 "area_test uses three sections; word boundaries of the bit set and out-of-range indices are not tested.",
 ["include/hogl/detail/bitmap.hpp","include/hogl/detail/area.hpp","src/area.cc"],[("bitmap set/clr/test","include/hogl/detail/bitmap.hpp"),("area enable/disable/test","include/hogl/detail/area.hpp")],
 ["area test results"])
p("C19","Masks: the last matching pattern decides each section",
 "Applying a mask leaves each section of an area enabled exactly if the last pattern in the mask that matches the area and section name is an enabling one, and unchanged if no pattern matches; matching is against the complete area:section name. Copying, assigning (also to itself), writing a mask out and reading it back preserve the patterns, their order and sense.",
 ["inputs","histories"],"any list of patterns with any match outcome, any set of sections, any initial state",
 "mask tests check a few fixed regular expressions.",
 ["src/mask.cc","include/hogl/detail/mask.hpp"],[("mask::apply","src/mask.cc"),("operator>> / operator<<","src/mask.cc")],
 ["section states after apply"])
p("C20","Posting is gated by the section: off posts nothing, on posts exactly once",
 "A post to a disabled section leaves the ring, its sequence number and its drop count unchanged and consumes nothing; a post to an enabled section takes exactly one sequence number and stores exactly one record (or counts exactly one drop if full) carrying the ring's time stamp, the area, the section and all arguments; any area/section pair behaves accordingly.",
 ["inputs","configurations"],"any section state, any ring fill level and kind, every posting interface (inline, out-of-line, pushing of prepared records)",
 "Tests check that output appears, not that nothing else changed.",
 ["include/hogl/post.hpp","include/hogl/detail/post.hpp","src/post.cc"],[("section test before evaluating post","include/hogl/post.hpp"),("post_unlocked","include/hogl/detail/post.hpp")],
 ["ring state after post"])
p("C21","CPU affinity text is parsed to exactly the CPUs it names",
 "A CPU list (numbers and ranges) or hexadecimal CPU mask selects exactly the CPUs it names, for every valid text; malformed, reversed, overflowing or out-of-range text is rejected with an error and never selects an unrelated CPU or touches memory outside the set.",
 ["inputs"],"any affinity string up to the length bound",
 "Tests use a few valid and invalid strings.",
 ["src/schedparam.cc"],[("parse_cpulist/parse_cpumask","src/schedparam.cc")],
 ["resulting CPU set or error"])
p("C22","Time stamps convert and compare exactly in both representations",
 "Conversion between time stamps, seconds/nanoseconds pairs and nanosecond counts is exact and reversible over the whole documented range, and comparison, addition and subtraction agree with integer arithmetic on nanoseconds, for both the integer and the timespec based representation.",
 ["inputs","configurations"],"any seconds/nanoseconds in range, both build-time representations",
 "Tests never convert values beyond small constants and never build the alternative representation.",
 ["include/hogl/detail/timestamp.hpp"],[("timestamp constructors and operators","include/hogl/detail/timestamp.hpp")],
 ["timestamp API results"])
p("C23","Crash recovery returns every unread record and survives corrupt dumps",
 "Given the memory image of a crashed process, the recovery tool outputs every record that was in a ring but not yet output, once, in time stamp order with per-ring order for equal stamps, with its strings resolved, and nothing else. Whatever the contents of the image, corrupted headers, pointers or sizes included, it terminates and never accesses memory outside the image.",
 ["inputs","crash_points"],"any ring head/tail state at the crash, any record contents, arbitrary corrupted image bytes within bound",
 "There is no test for recovery at all.",
 ["tools/recovery-engine.cc","tools/coredump.cc","include/hogl/detail/magic.hpp"],[("ring scan and validation","tools/recovery-engine.cc"),("address remapping","tools/coredump.cc:remap")],
 ["records handed to the output"])
p("C24","The C interface records exactly what the C++ interface would",
 "Every C call (posting with any argument list, area and section handling, rings, engine start-up and options, masks, flush, timesource) has the same effect as the equivalent C++ call: same record contents, same section states, same success or failure. Invalid or null parameters are rejected or handled as in the C++ interface, never crash.",
 ["inputs","programs"],"any argument types and values expressible in C, any option values",
 "c-api tests only run a fixed sample without inspecting the records.",
 ["src/c-api.cc","include/hogl/c-api/args.h","include/hogl/c-api/post.h"],[("argument boxing and list conversion","include/hogl/c-api/args.h"),("wrappers","src/c-api.cc")],
 ["record contents through both interfaces"])
p("C25","Concurrent area registration and mask changes end in a consistent state",
 "Whatever the interleaving of registering areas, changing the mask and looking areas up, each area name exists once, every caller registering the same area gets the same object, and once the calls return each area's sections are as the last applied mask decides. No call reads mask data while it is being replaced.",
 ["schedules"],"every interleaving of two threads performing registration, mask change and lookup",
 "engine tests do these from one thread.",
 ["src/engine.cc"],[("area map mutex","src/engine.cc:add_area/apply_mask")],
 ["area pointers and section states"])
p("C26","Per-thread ring context nests, restores and balances references",
 "Within a thread the active ring is the one of the innermost live thread context; destroying it restores the previous one (or the default ring), in any properly nested sequence, and a thread without context uses the default ring. Each context holds its ring for its lifetime and releases it exactly once, also if the ring could not be created.",
 ["histories","schedules"],"any nested sequence of context creation and destruction, any outcome of ring creation, several threads",
 "Tests create one context per thread.",
 ["src/tls.cc","include/hogl/tls.hpp","src/default-engine.cc"],[("thread context constructor/destructor","src/tls.cc")],
 ["current ring, ring reference counts"])
p("C27","Ring and area names are unique in an engine; lookups and lists agree",
 "An engine holds at most one ring and one area per name: registering a name again returns the existing object when it may be shared or reused and an error otherwise, without disturbing the existing one or leaking or double-releasing anything. Lookup returns exactly the registered object or nothing, listings contain each registered name once, and rings are polled in priority order.",
 ["histories","inputs","configurations"],"any sequence of registrations and releases with any flags, names and section lists within bound",
 "Tests register one or two fixed names.",
 ["src/engine.cc","src/area.cc"],[("add_ring/find_ring/list_rings/add_area/find_area/list_areas","src/engine.cc"),("ring index sort","src/engine.cc:rebuild_ring_index")],
 ["returned pointers, reference counts, lists"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
print(len(P))
