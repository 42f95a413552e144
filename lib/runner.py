"""Driver of the solver-based checks.

compile /repo sources + harness -> LLVM bitcode -> symx (symbolic execution, z3) -> results
-> native replay (ASan) of every counterexample and of sampled paths -> evidence.
"""
import hashlib, json, os, re, subprocess, sys, threading, time, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, '.build')
REPO = os.environ.get('HOGL_REPO', '/repo')
NCPU = os.cpu_count() or 8
CXX = 'clang++-18'
_lock = threading.Lock()

def log(*a):
    with _lock:
        print(*a, flush=True)

class Broken(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:20]

def build_engine():
    rc, out = sh(['bash', os.path.join(V, 'engine', 'build.sh')])
    if rc:
        raise Broken('engine build failed:\n' + out)
    return os.path.realpath(os.path.join(B, 'symx'))

BASE = ['-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
        '-fno-inline-functions-called-once', '-w', '-D_GNU_SOURCE', '-Xclang', '-disable-lifetime-markers', '-fno-stack-protector',
        '-U_FORTIFY_SOURCE', '-I' + os.path.join(V, 'rt', 'inc'), '-ffp-contract=off', '-fno-pic', '-fno-threadsafe-statics']
UBSAN = ['-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero', '-fsanitize-trap=all']

def compile_tu(src, flags, isc=False):
    """Compile one TU to bitcode, cached on the preprocessed text."""
    cc = 'clang-18' if isc else CXX
    std = ['-std=gnu11'] if isc else ['-std=gnu++17']
    base = [f for f in BASE if not (isc and f.startswith('-fno-threadsafe'))]
    cmd = [cc] + std + base + flags
    p = subprocess.run(cmd + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Broken('preprocessing %s failed:\n%s' % (src, p.stderr.decode(errors='replace')[:3000]))
    k = h(p.stdout, ' '.join(cmd))
    out = os.path.join(B, 'bc', k + '.bc')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        rc, o = sh(cmd + ['-emit-llvm', '-c', src, '-o', tmp])
        if rc:
            raise Broken('compiling %s failed:\n%s' % (src, o[:3000]))
        os.rename(tmp, out)
    return out

def pmap(fn, items, n=NCPU):
    res = [None] * len(items); errs = []
    it = iter(range(len(items))); lk = threading.Lock()
    def work():
        while True:
            with lk:
                i = next(it, None)
            if i is None or errs:
                return
            try:
                res[i] = fn(items[i])
            except BaseException as e:
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(min(n, len(items)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res

STUBS = ['rt/stubs_c.cc', 'rt/stubs_cxx.cc', 'rt/stubs_posix.cc']

class Job:
    """One symbolic-execution run.
    harness: file under harness/; srcs: files under /repo; tiers: {'quick': {...}, 'thorough': {...}} of -D params and
    limits (time, maxsteps, pb); reach: tags that must be reached (vacuity guard)."""
    def __init__(self, name, harness, srcs=(), defs=(), params=None, quick=None, thorough=None, reach=(), threads=False,
                 entry='harness', ub=True, acc=True, time=200, maxsteps=3000000, steps_violation=True, dedupe=False, pb=None,
                 j=2, stubs=(), incs=(), what='', samples=4, tiers=('quick', 'thorough'), solver_to=20000, extra=(), bounds='', cflags=()):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.params = dict(params or {}); self.quick = dict(quick or {}); self.thorough = dict(thorough or {})

    def cfg(self, tier):
        c = dict(time=self.time, maxsteps=self.maxsteps, pb=self.pb, j=self.j, params=dict(self.params))
        o = dict(self.quick) if tier == 'quick' else {**self.quick, **self.thorough}
        for k in ('time', 'maxsteps', 'pb', 'j'):
            if k in o:
                c[k] = o.pop(k)
        c['params'].update(o)
        return c

    def build(self):
        flags = ['-I' + os.path.join(V, 'rt'), '-I' + os.path.join(V, 'harness')] + ['-I' + os.path.join(V, i) for i in self.incs]
        flags += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'tools')]
        flags += ['-D' + d for d in self.defs] + list(self.cflags)
        ub = UBSAN if self.ub else []
        tus = []
        tus.append((os.path.join(V, 'harness', self.harness), flags + (['-fno-access-control'] if self.acc else []), False))
        for s in self.srcs:
            tus.append((os.path.join(REPO, s), flags + ub, s.endswith('.c')))
        for s in self.extra:
            tus.append((os.path.join(V, s), flags + (['-fno-access-control'] if self.acc and not s.endswith('.c') else []), s.endswith('.c')))
        sf = ['-I' + os.path.join(V, 'rt'), '-I' + os.path.join(REPO, 'include'), '-fno-builtin'] + ['-D' + d for d in self.defs]
        for s in list(STUBS) + list(self.stubs):
            tus.append((os.path.join(V, s), sf + ['-fno-access-control'], False))
        bcs = pmap(lambda t: compile_tu(*t), tus)
        k = h(*bcs)
        out = os.path.join(B, 'bc', 'link-' + k + '.bc')
        if not os.path.exists(out):
            tmp = out + '.%d.%s' % (os.getpid(), self.name)
            rc, o = sh(['llvm-link-18'] + bcs + ['-o', tmp])
            if rc:
                raise Broken('link failed: ' + o[:2000])
            os.rename(tmp, out)
        self.bc = out; self.key = k
        return out

def native(job, engine):
    out = os.path.join(B, 'nat', h(job.key, job.entry, os.path.basename(engine), job.threads, open(os.path.join(V, 'rt', 'native.cc')).read()))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    bc = out + '.%d.bc' % os.getpid()
    rc, o = sh([engine, job.bc, '-entry', job.entry, '-emit', bc] + (['-instrument'] if job.threads else []))
    if rc:
        raise Broken('emit failed: ' + o[:2000])
    rc, o = sh([CXX, '-O1', '-g', '-w', '-DSYMX_ENTRY=' + job.entry, '-fsanitize=address', '-fsanitize-recover=', '-fno-pie', '-no-pie', '-I' + os.path.join(V, 'rt'), bc,
                os.path.join(V, 'rt', 'native.cc'), '-o', out + '.tmp%d' % os.getpid(), '-lpthread', '-ldl', '-Wl,--unresolved-symbols=ignore-all'])
    os.unlink(bc)
    if rc:
        raise Broken('native link failed: ' + o[-3000:])
    os.rename(out + '.tmp%d' % os.getpid(), out)
    return out

def replay(binary, rfile, timeout=60):
    env = dict(os.environ, SYMX_REPLAY=rfile, LC_ALL='C')
    try:
        p = subprocess.run([binary], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, errors='replace', text=True, cwd='/tmp')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = 72, 'SYMX-VIOLATION hang\n', ''
    obs = re.findall(r'^OBS (0x[0-9a-f]+)', out, re.M)
    return rc, obs, out, err

REPRO = lambda rc: rc not in (0, 71, 77, 78)

def run_job(job, tier, outdir, engine):
    t0 = time.time()
    c = job.cfg(tier)
    bc = job.build()
    tb = time.time() - t0
    pre = os.path.join(outdir, job.name)
    shared = pre + '.shared'
    open(shared, 'w').close()
    rounds = 0
    warm = job.threads and (c['pb'] is None or c['pb'] > 2)  # cheap rounds (few preemptions) find most of the shared words
    while True:
        rounds += 1
        for f in glob.glob(pre + '.part.*') + glob.glob(pre + '.meta'):
            os.unlink(f)
        cmd = [engine, bc, '-entry', job.entry, '-o', pre, '-j', str(c['j']), '-time', str(c['time']), '-maxsteps', str(c['maxsteps']),
               '-samples', str(job.samples), '-solver-timeout', str(job.solver_to)]
        if job.threads:
            cmd += ['-instrument', '-shared', shared]
        if job.dedupe:
            cmd += ['-dedupe']
        if warm:
            cmd += ['-pb', '1']
        elif c['pb'] is not None:
            cmd += ['-pb', str(c['pb'])]
        if not job.steps_violation:
            cmd += ['-steps-incomplete']
        for k, v in c['params'].items():
            cmd += ['-D', '%s=%d' % (k, v)]
        rc, out = sh(cmd)
        if rc:
            raise Broken('%s: symx exit %d: %s' % (job.name, rc, out[-2000:]))
        parts = [json.load(open(f)) for f in glob.glob(pre + '.part.*')]
        meta = json.load(open(pre + '.meta'))
        words = sorted(set(w for p in parts for w in p['shared']))
        new = any(p['newshared'] for p in parts)
        viol = any(p['violations'] for p in parts)
        open(shared, 'w').write('\n'.join(map(str, words)) + '\n')
        if viol or not job.threads or rounds >= 12:
            break
        if not new:
            if not warm:
                break
            warm = False
    r = dict(name=job.name, what=job.what, bounds=job.bounds, params=c['params'], limits={k: c[k] for k in ('time', 'maxsteps', 'pb')}, build_s=round(tb, 2), rounds=rounds, wall=meta['wall'],
             visited=meta['visited'], stats={}, reach={}, incomplete=[], violations=[], samples=[], functions=set())
    for p in parts:
        for k, v in p['stats'].items():
            r['stats'][k] = r['stats'].get(k, 0) + v
        for k, v in p['reach'].items():
            r['reach'][k] = r['reach'].get(k, 0) + v
        r['incomplete'] += p['incomplete']; r['violations'] += p['violations']; r['samples'] += p['samples']
        r['functions'] |= set(p['functions'])
    r['incomplete'] = sorted(set(r['incomplete']))
    if job.threads and new and not viol:
        r['incomplete'].append('shared-word fixpoint not reached')
    if job.threads:
        r['shared_words'] = len(words)
    for f in glob.glob(pre + '.part.*') + glob.glob(pre + '.meta'):
        os.unlink(f)
    r['cfg'] = c
    return r

def rfile_text(r, item):
    s = ''.join('param %s %d\n' % (k, v) for k, v in r['cfg']['params'].items())
    s += ''.join('in %s\n' % x for x in item['in'])
    if item.get('sched'):
        s += 'sched %s\n' % item['sched']
    return s
