from lib.runner import Job
COMMON_ASSUME = []
ASSUME = {}
JOBS = {}
NA = {}
NOTE = {}
def P(pid, *jobs):
    JOBS.setdefault(pid, []).extend(jobs)

P('C22', *[Job(n, 'c22.cc', defs=d, reach=['conv', 'cmp', 'ns', 'unit', 'add', 'sub', 'int', 'sum'], j=4, what='time stamp algebra, %s representation' % n,
   bounds='all 32-bit seconds, all nanoseconds < 1e9') for n, d in (('nsec', []), ('timespec', ['HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT']))])
P('C18',
  Job('area-ops', 'c18.cc', ['src/area.cc'], entry='area_ops', reach=['inrange', 'outofrange'], params=dict(sizes=10, ops=2), thorough=dict(ops=3), j=3, what='section bit operations'),
  Job('bitmap', 'c18.cc', ['src/area.cc'], entry='bitmap_ops', reach=['done', 'assign'], params=dict(sizes=5, ops=2), thorough=dict(sizes=10), j=3, what='bitmap operations and copies'),
  Job('area-cmp', 'c18.cc', ['src/area.cc'], entry='area_cmp', reach=['equal', 'differ'], thorough=dict(nsec=3), j=2, what='area comparison and names'))

RINGSRC = ['src/ringbuf.cc', 'src/area.cc', 'src/post.cc', 'src/timesource.cc', 'src/default-timesource.cc', 'src/tls.cc', 'src/default-engine.cc', 'src/default-ringopts.cc', 'src/flush.cc', 'src/engine.cc', 'src/internal.cc', 'src/mask.cc', 'src/platform.cc', 'src/schedparam.cc']
FMT = ['src/fmt-format.cc']
RB = ['src/ringbuf.cc', 'src/area.cc', 'src/post.cc', 'src/default-timesource.cc', 'src/timesource.cc'] + FMT
P('C01',
  Job('threads', 'c01.cc', RINGSRC + FMT, entry='threads', threads=True, dedupe=True, reach=['ok', 'drop', 'plain', 'iter'], params=dict(n=3, polls=3), thorough=dict(n=4, polls=4, time=800), j=4, what='writer against reader, all interleavings'),
  Job('threads-post', 'c01.cc', RINGSRC + FMT, entry='threads', threads=True, dedupe=True, reach=['ok', 'drop', 'plain', 'iter'], params=dict(n=2, polls=2, post=1, adv=1), thorough=dict(n=3, polls=3, adv=2, time=800), j=4, what='hogl::post against reader, all interleavings'),
  Job('sequence', 'c01.cc', RINGSRC + FMT, entry='sequence', reach=['ok', 'drop', 'plain', 'iter'], params=dict(n=5, logcap=3), thorough=dict(n=7, time=800), j=3, what='operation sequences with wrap-around'))
OUTP = ['src/output.cc', 'src/ostrbuf.cc']
ENG = RINGSRC + OUTP + FMT
P('C02',
  Job('ring1', 'c02.cc', ENG, entry='ring', threads=True, dedupe=True, reach=['ok', 'batch'], params=dict(n=3, writers=1, idle=40), thorough=dict(n=5, time=800), j=2, what='one writer of a blocking ring, all interleavings'),
  Job('ring2', 'c02.cc', ENG, entry='ring', threads=True, dedupe=True, reach=['ok', 'batch'], params=dict(n=2, writers=2, idle=40), thorough=dict(n=3, time=800), j=2, what='two writers of a shared blocking ring, all interleavings'),
  Job('engine1', 'c02.cc', ENG, entry='engine_thread', threads=True, dedupe=True, reach=['ok'], params=dict(n=3, writers=1, idle=40), thorough=dict(n=4, time=800), j=2, what='writer against the engine thread'),
  Job('engine2', 'c02.cc', ENG, entry='engine_thread', threads=True, dedupe=True, reach=['ok'], params=dict(n=2, writers=2, idle=40), quick=dict(pb=3), thorough=dict(pb=6, time=800), j=3, what='two writers against the engine thread'))
P('C03',
  Job('ring', 'c03.cc', ENG, entry='ring', threads=True, dedupe=True, reach=['ok', 'drop'], params=dict(n=2, writers=2, reader=1, polls=1), thorough=dict(n=2, polls=3, time=800), j=4, what='two posting threads and a reader, all interleavings'),
  Job('three', 'c03.cc', ENG, entry='ring', threads=True, dedupe=True, reach=['ok', 'drop'], params=dict(n=1, writers=3, reader=0), thorough=dict(n=2, time=800), j=4, what='three posting threads, all interleavings'))
P('C04',
  Job('history', 'c0405.cc', ENG, entry='history', threads=True, reach=['ok', 'drop', 'out', 'report', 'mark'], params=dict(c04=1, ops=5, idle=200, tso=3), thorough=dict(ops=6, tso=5, time=800), j=3, what='histories of posts and polls, any time stamps'),
  Job('deep', 'c0405.cc', ENG, entry='history', threads=True, reach=['ok', 'drop', 'out', 'report', 'mark'], params=dict(c04=1, conc=1, ops=8, idle=200, tso=4, bigtso=16), thorough=dict(ops=10, tso=5, time=800), j=4, what='longer histories, increasing time stamps'),
  Job('handover', 'c0405.cc', ENG, entry='handover', threads=True, reach=['ok', 'drop', 'out', 'report', 'flush', 'timeout'], params=dict(c04=1, conc=1, ops=3, idle=300), thorough=dict(ops=5, time=800), j=2, what='ring handed from engine to engine, flush and time source changes'))
P('C05',
  Job('sorted', 'c0405.cc', ENG, entry='history', threads=True, reach=['ok', 'out', 'mark'], params=dict(mono=1, ops=5, idle=200, tso=5), thorough=dict(ops=6, time=800), j=4, what='histories of posts and polls, per-ring increasing stamps'),
  Job('any', 'c0405.cc', ENG, entry='history', threads=True, reach=['ok', 'out', 'mark'], params=dict(mono=0, ops=5, idle=200, tso=4, modes=2), thorough=dict(ops=6, time=800), j=4, what='histories of posts and polls, arbitrary stamps'),
  Job('batch', 'c0405.cc', ENG, entry='batch', threads=True, reach=['mono', 'back', 'out', 'mark'], params=dict(n=20, idle=200), thorough=dict(n=28, time=800), j=3, what='twenty records in one poll, equal, falling and rising stamps, one stamp symbolic', bounds='20 (thorough 28) records in one or two rings, five patterns of time stamps with one 8-bit symbolic stamp'))
P('C07', Job('store', 'c07.cc', ['src/ringbuf.cc', 'src/area.cc', 'src/post.cc', 'src/default-timesource.cc', 'src/timesource.cc'] + FMT, reach=['argpack', 'direct', 'str-fit', 'str-noroom', 'str-cut', 'data-cut', 'ok'], thorough=dict(tailrooms=5, full=1, time=900), j=8,
  what='argument storage', bounds='16 argument slots, three variable-size arguments of any length up to 500 bytes'))

P('C08',
  Job('geometry', 'c08.cc', RINGSRC + FMT, entry='geometry', reach=['ok', 'big'], thorough=dict(maxcap=40, nbig=7, maxtail=9000, time=900), j=4, what='ring construction', bounds='capacities 1..17 and samples up to 1024, tailroom 0..2000, all flags and priorities'),
  Job('occupancy', 'c08.cc', RINGSRC + FMT, entry='occupancy', reach=['ok', 'drop', 'pop', 'iter', 'reset'], params=dict(ops=5), thorough=dict(ops=6, time=900), j=4, what='operation sequences against a counter model', bounds='5 operations, capacities 1..8'))
#P('C08',Job('extreme', 'c08.cc', RINGSRC + FMT, entry='extreme', reach=['accepted', 'refused'], j=1))

P('C09',
  Job('history', 'c09.cc', ENG, entry='history', threads=True, reach=['ok', 'success', 'timeout', 'drop'], params=dict(ops=4, idle=400), thorough=dict(ops=6, time=800), j=3, what='histories of posts, polls and flushes'),
  Job('run', 'c09.cc', ENG, entry='run', threads=True, dedupe=True, reach=['ok', 'success', 'timeout', 'later'], params=dict(posts=3, idle=300, second=0), quick=dict(pb=2), thorough=dict(pb=4, second=1, time=800), j=4, what='posts and a flush against the engine thread'),
  Job('other', 'c09.cc', ENG, entry='run', threads=True, dedupe=True, reach=['ok', 'success', 'timeout', 'later'], params=dict(posts=2, idle=300, second=0, other=1), quick=dict(pb=1), thorough=dict(pb=3, time=800), j=3, what='flush of a shared ring while another thread posts'))
P('C10',
  Job('history', 'c10.cc', ENG, entry='history', threads=True, reach=['ok', 'after', 'timeout', 'async', 'refound'], params=dict(ops=4, idle=400), thorough=dict(ops=6, time=800), j=3, what='histories of time source changes and registrations'),
  Job('run', 'c10.cc', ENG, entry='run', threads=True, dedupe=True, reach=['ok', 'after', 'changed', 'timeout'], params=dict(idle=300), quick=dict(pb=2), thorough=dict(pb=3, tos=3, time=800), j=4, what='time source change against a concurrent registration'))
P('C11',
  Job('history', 'c11.cc', ENG, entry='history', threads=True, reach=['ok', 'released'], params=dict(ops=5, idle=400), thorough=dict(ops=7, time=800), j=3, what='create, find, reuse, post, release, poll'),
  Job('race', 'c11.cc', ENG, entry='race', threads=True, dedupe=True, reach=['ok', 'second', 'lookup', 'reused'], params=dict(idle=300), quick=dict(pb=2), thorough=dict(pb=4, time=800), j=4, what='release against lookup and registration'),
  Job('shutdown', 'c11.cc', ENG, entry='shutdown', threads=True, dedupe=True, reach=['ok'], params=dict(idle=300), quick=dict(pb=2), thorough=dict(pb=4, time=800), j=4, what='release against engine shutdown'))
P('C25',
  Job('race', 'c25.cc', ENG, entry='race', threads=True, dedupe=True, reach=['ok'], params=dict(idle=300), quick=dict(pb=2), thorough=dict(pb=4, scripts=7, time=800), j=4, what='area registration, lookup and mask changes'))

P('C21',
  Job('list', 'c21.cc', ['src/schedparam.cc'], entry='list', reach=['rejected', 'selected'], params=dict(len=3), thorough=dict(len=4, time=800), j=4, what='CPU lists, any text', bounds='text of up to len bytes after the prefix'),
  Job('mask', 'c21.cc', ['src/schedparam.cc'], entry='mask', reach=['rejected', 'selected'], params=dict(len=2), thorough=dict(len=3, time=800), j=4, what='CPU masks, any text'),
  Job('ranges', 'c21.cc', ['src/schedparam.cc'], entry='ranges', reach=['rejected', 'selected'], params=dict(elems=1, width=2), thorough=dict(elems=1, all=1, width=4, time=800), j=4, what='ranges of CPUs'),
  Job('longlist', 'c21.cc', ['src/schedparam.cc'], entry='longlist', reach=['rejected'], j=2, what='numbers that do not fit'),
  Job('longmask', 'c21.cc', ['src/schedparam.cc'], entry='longmask', reach=['rejected', 'selected'], params=dict(), j=2, what='64 bit and longer masks'))

P('C20',
  Job('gate', 'c20.cc', RB + ['src/tls.cc', 'src/engine.cc', 'src/internal.cc', 'src/mask.cc', 'src/platform.cc', 'src/schedparam.cc', 'src/default-engine.cc', 'src/default-ringopts.cc'], reach=['ok', 'off', 'full', 'stored'], params=dict(posts=2), thorough=dict(posts=3, time=800), j=6, what='posting interfaces, any section state, any fill level'),
  Job('tls', 'c20.cc', RB + ['src/tls.cc', 'src/engine.cc', 'src/internal.cc', 'src/mask.cc', 'src/platform.cc', 'src/schedparam.cc', 'src/default-engine.cc', 'src/default-ringopts.cc'], entry='tlsring', reach=['ok'], j=2, what='posting to the ring of the thread'))
P('C26',
  Job('history', 'c26.cc', ENG, entry='history', threads=True, reach=['ok', 'restore', 'created', 'failed', 'given'], params=dict(ops=5, idle=400), thorough=dict(ops=6, time=800), j=4, what='nested contexts in one thread'),
  Job('threads', 'c26.cc', ENG, entry='threads', threads=True, dedupe=True, reach=['ok'], params=dict(idle=400), quick=dict(pb=2), thorough=dict(pb=4, time=800), j=4, what='contexts of two threads'))
P('C27',
  Job('rings', 'c27.cc', ENG, entry='rings', threads=True, reach=['ok', 'added', 'refused', 'order'], params=dict(ops=3, idle=400), thorough=dict(ops=4, time=800), j=4, what='ring registrations, lookups, lists'),
  Job('areas', 'c27.cc', ENG, entry='areas', threads=True, reach=['ok', 'added', 'same', 'refused'], params=dict(ops=4, idle=400), thorough=dict(ops=5, time=800), j=2, what='area registrations, lookups, lists'),
  Job('names', 'c27.cc', ENG, entry='names', threads=True, reach=['same', 'differ'], params=dict(idle=400), j=2, what='any two names'))

MK = ['src/mask.cc', 'src/area.cc']
P('C19',
  Job('apply', 'c19.cc', MK, entry='apply', reach=['ok'], stubs=['rt/stubs_ios.cc'], params=dict(n=2), thorough=dict(n=2, na=7, ns=10, time=800), j=3, what='pattern lists against areas'),
  Job('literal', 'c19.cc', MK, entry='literal', reach=['ok', 'hit', 'miss'], stubs=['rt/stubs_ios.cc'], params=dict(len=4), thorough=dict(len=6, time=800), j=3, what='any literal pattern'),
  Job('copies', 'c19.cc', MK, entry='copies', reach=['ok', 'text'], stubs=['rt/stubs_ios.cc'], params=dict(), j=3, what='copies, assignments, text round trip'),
  Job('text', 'c19.cc', MK, entry='text', reach=['ok'], stubs=['rt/stubs_ios.cc'], params=dict(), j=2, what='reading and writing text'),
  Job('list', 'c19.cc', MK, entry='list', reach=['ok'], stubs=['rt/stubs_ios.cc'], params=dict(), j=2, what='constructor with a list'))

FB = RB + OUTP + ['src/format-basic.cc']
P('C06',
  Job('store', 'c06.cc', RB, entry='store', reach=['int', 'str', 'dump', 'wide'], j=4, what='typed constructors, packing, positions'),
  Job('render', 'c06.cc', FB, entry='render', reach=['ptr', 'neg', 'plain', 'fmt'], thorough=dict(maxv=1000, time=800), stubs=['rt/stubs_ios.cc'], j=4, what='text of integers and pointers'),
  Job('mixed', 'c06.cc', FB, entry='mixed', reach=['ok'], stubs=['rt/stubs_ios.cc'], j=4, what='format strings with several arguments'),
  Job('dbl', 'c06.cc', FB, entry='dbl', reach=['ok'], stubs=['rt/stubs_ios.cc'], j=2, what='floating point text, fixed values'))
P('C16',
  Job('history', 'c16.cc', FB, entry='history', reach=['ok', 'fast0', 'fast1', 'default'], stubs=['rt/stubs_ios.cc'], params=dict(recs=2, bases=8), thorough=dict(recs=3, bases=6, time=800), j=3, what='records formatted one after the other'),
  Job('history-sym', 'c16.cc', FB, entry='history', reach=['ok', 'fast0', 'fast1', 'default'], stubs=['rt/stubs_ios.cc'], params=dict(recs=2, bases=2, symbolic=1), thorough=dict(bases=3, span=63, time=850), j=4, what='records formatted one after the other, symbolic times'),
  Job('history-timespec', 'c16.cc', FB, entry='history', defs=['HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT'], reach=['ok', 'fast0', 'fast1', 'default'], stubs=['rt/stubs_ios.cc'], params=dict(recs=2, bases=6), thorough=dict(recs=3, time=800), j=2, what='the same, timespec representation'),
  Job('fields', 'c16.cc', FB, entry='fields', reach=['ok', 'invalid'], stubs=['rt/stubs_ios.cc'], j=4, what='every selection of fields'),
  Job('lengths', 'c16.cc', FB, entry='lengths', reach=['ok'], stubs=['rt/stubs_ios.cc'], j=2, what='name lengths and number widths'),
  Job('names', 'c16.cc', FB, entry='names', reach=['ok'], stubs=['rt/stubs_ios.cc'], j=2, what='field selection by name'))
P('C17',
  Job('fmtstr', 'c17.cc', FB, entry='fmtstr', stubs=['rt/stubs_ios.cc'], reach=['ok', 'position'], params=dict(n=3), thorough=dict(n=4, time=850), j=4, what='any format string against any argument types', bounds='format strings of up to 3 (thorough 4) characters, one or two arguments of 10 kinds; widths of at most two digits'),
  Job('types', 'c17.cc', FB, entry='types', stubs=['rt/stubs_ios.cc'], reach=['ok', 'bad section'], params=dict(n=3), thorough=dict(tail=400, time=850), j=4, what='any sequence of argument kinds, including missing data and null strings', bounds='up to 3 arguments of 14 kinds'),
  Job('xdump', 'c17.cc', FB, entry='xdump', stubs=['rt/stubs_ios.cc'], reach=['unsupported', 'hexdump', 'values'], thorough=dict(nv=6, time=850), j=4, what='dump layouts for all options and lengths', bounds='6 types, byte widths 0..8 and 15, line widths 0, 1, 2, 255, up to 3 values'))
OSB = OUTP + ['src/ostrbuf-fd.cc', 'src/ostrbuf-stdio.cc', 'src/ostrbuf-tee.cc', 'src/output-tee.cc', 'src/output-plainfile.cc'] + FMT
P('C12',
  Job('fd', 'c12.cc', OSB, entry='fds', reach=['ok', 'short', 'interrupted', 'error'], params=dict(maxcap=4, maxlen=7), thorough=dict(ops=4, faults=2, time=850), j=4, what='descriptor sink: any sizes, any write behaviour'),
  Job('stdio', 'c12.cc', OSB, entry='stdio', reach=['ok', 'error'], thorough=dict(ops=4, time=800), j=3, what='stdio sink'),
  Job('tee', 'c12.cc', OSB, entry='tees', reach=['ok', 'all', 'short', 'interrupted', 'error'], params=dict(maxcap=2, maxlen=6, faults=1), thorough=dict(ops=3, faults=2, time=850), j=4, what='tee over two or three sinks'),
  Job('outputs', 'c12.cc', OSB, entry='outputs', reach=['ok', 'short', 'interrupted'], params=dict(maxcap=4, ops=2), thorough=dict(ops=3, faults=2, time=800), j=2, what='plain file outputs under a tee'))
