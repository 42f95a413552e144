#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [job ...]   run the checks of one property
   check.py replay <file>                          replay a recorded counterexample against the real code"""
import os, sys, time, json, threading, re, glob, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.runner import *
import lib.runner as R
import specs

def known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def is_known(kf, prop, job, v):
    for k in kf:
        if k.get('status') != 'known' or k['property'] != prop: continue
        if 'job' in k and not re.fullmatch(k['job'], job): continue
        if 'msg' in k and not re.search(k['msg'], v['kind'] + ': ' + v['msg']): continue
        if 'stack' in k and not re.search(k['stack'], v['loc'] + ' ' + v['stack']): continue
        return k
    return None

def do_replay(path):
    txt = open(path).read()
    prop, jn = re.search(r'^# property=(\S+) job=(\S+)', txt, re.M).groups()
    eng = build_engine()
    for j in specs.JOBS[prop]:
        if j.name == jn:
            j.build()
            rc, obs, out, err = replay(native(j, eng), path)
            print(out); print(err[-3000:]); print('native exit', rc, '-> reproduced' if REPRO(rc) else '-> not reproduced')
            return 1 if REPRO(rc) else 0
    return 2

def main():
    if sys.argv[1] == 'replay':
        return do_replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:]
    if only and only[0] == '-v': verbose = True; only = only[1:]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    engine = build_engine()
    jobs = [j for j in specs.JOBS[prop] if tier in j.tiers and (not only or j.name in only)]
    outdir = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=B)
    results = {}; errs = []
    tokens = [NCPU]; cv = threading.Condition()
    def work(j):
        n = min(j.cfg(tier)['j'], NCPU)
        with cv:
            while tokens[0] < n: cv.wait()
            tokens[0] -= n
        try:
            results[j.name] = run_job(j, tier, outdir, engine)
            r = results[j.name]; s = r['stats']
            log('[%s] %-26s paths %d (assumed %d) insts %d forks %d states %d queries %d (%.1fs) wall %.1fs%s%s' % (prop, j.name, s['paths'], s['assumed'], s['insts'], s['forks'], s['states'],
                s['queries'], s['solver_time'], r['wall'], ' VIOL %d' % len(r['violations']) if r['violations'] else '', ' INCOMPLETE %s' % r['incomplete'] if r['incomplete'] else ''))
        except Broken as e:
            errs.append('%s: %s' % (j.name, e)); log('[%s] %s BROKEN: %s' % (prop, j.name, e))
        except Exception as e:
            import traceback
            errs.append('%s: %r' % (j.name, e)); traceback.print_exc()
        finally:
            with cv:
                tokens[0] += n; cv.notify_all()
    # heavier jobs first
    ts = [threading.Thread(target=work, args=(j,)) for j in sorted(jobs, key=lambda j: -j.cfg(tier)['j'])]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(outdir, ignore_errors=True)
    kf = known(); kfseen = {}; viols = []; problems = list(errs); validated = 0; val_detail = []
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*')): os.unlink(f)
    for j in jobs:
        r = results.get(j.name)
        if not r: continue
        groups = {}
        for v in r['violations']: v['stack'] = v['stack'].strip().replace('\n', ' < ')
        for v in r['violations']:
            groups.setdefault((v['kind'], v['msg'], v['loc']), []).append(v)
        nat = None
        if groups or r['samples']:
            try: nat = native(j, engine)
            except Broken as e: problems.append('%s: %s' % (j.name, e))
        for gi, (k, vs) in enumerate(groups.items()):
            if gi > 12: break
            kn = is_known(kf, prop, j.name, vs[0])
            ok = False; last = ''
            for vi, v in enumerate(vs[:3]):
                path = os.path.join(rdir, '%s-%s-%d-%d.replay' % (prop, j.name, gi, vi))
                open(path, 'w').write('# property=%s job=%s\n# %s: %s\n# at %s\n# stack %s\n' % (prop, j.name, v['kind'], v['msg'], v['loc'], v['stack']) + rfile_text(r, v))
                if not nat: break
                rc, obs, out, err = replay(nat, path)
                if not REPRO(rc) and os.environ.get('DBG'): log('  replay rc', rc, out[-1500:], err[-1500:])
                last = 'rc %d %s %s' % (rc, out[-300:].replace('\n', ' | '), err[-300:])
                if REPRO(rc):
                    ok = True
                    mm = re.search(r'SYMX-VIOLATION.*|ERROR: AddressSanitizer.*', out + err)
                    if kn: kfseen[kn['id']] = kn
                    else: viols.append((j.name, v, path, mm.group(0) if mm else 'exit %d' % rc))
                    break
            if not ok: problems.append('%s: counterexample not reproduced natively: %s: %s at %s [%s] %s' % (j.name, v['kind'], v['msg'], v['loc'], v['stack'][:300], last))
            if ok and not kn: log('[%s] violation in %s: %s: %s at %s\n      stack %s\n      native: %s\n      in %s' % (prop, j.name, v['kind'], v['msg'], v['loc'], v['stack'][:600], viols[-1][3], ' ; '.join(v['in'])[:600]))
        # validate sampled paths: same observations natively
        for i, s in enumerate(r['samples'][:8]):
            if not nat: break
            path = os.path.join(B, 'sample-%d' % os.getpid()); open(path, 'w').write(rfile_text(r, s))
            rc, obs, out, err = replay(nat, path)
            if rc != 0 or [int(x, 16) for x in obs] != [int(x, 16) for x in s['obs']]:
                keep = os.path.join(rdir, '%s-%s-sample%d.replay' % (prop, j.name, i)); open(keep, 'w').write('# property=%s job=%s\n' % (prop, j.name) + open(path).read())
                problems.append('%s: model and native run differ (rc %d, obs %s vs %s) %s %s [%s]' % (j.name, rc, obs[:6], s['obs'][:6], out[-200:], err[-200:], keep))
            else: validated += 1
            os.unlink(path)
        if not r['violations']:
            for t in j.reach:
                if not r['reach'].get(t): problems.append('%s: vacuous: %s never reached' % (j.name, t))
        for i in r['incomplete']: problems.append('%s: incomplete: %s' % (j.name, i))
    tot = {}
    for r in results.values():
        for k, v in r['stats'].items(): tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results.values() for f in r['functions']))
    samples = []
    for r in results.values():
        for s in r['samples'][:2]: samples.append({'job': r['name'], 'inputs': s['in'][:40], 'schedule': s['sched'][:300], 'observed': s['obs'][:20]})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        coverage=dict(states=(tot.get('states', 0) or 0) + tot.get('paths', 0), transitions=tot.get('insts', 0), traces_validated_against_impl=validated, samples=samples,
            paths=tot.get('paths', 0), scheduling_states=tot.get('states', 0), scheduling_transitions=tot.get('transitions', 0), instructions=tot.get('insts', 0), queries=tot.get('queries', 0), sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), solver_unknown=tot.get('unknown', 0),
            assertions_checked=tot.get('asserts', 0), assertion_queries=tot.get('assert_queries', 0), memory_queries=tot.get('mem_queries', 0), solver_time_s=round(tot.get('solver_time', 0), 2),
            functions_encoded=funcs, exhaustive=not problems, explanation='states = explored path ends + distinct scheduling states; transitions = LLVM instructions interpreted symbolically',
            jobs=[dict(name=r['name'], what=r['what'], bounds=r['bounds'], params=r['params'], limits=r['limits'], stats=r['stats'], reach=r['reach'], wall_s=r['wall'], rounds=r['rounds'], shared_words=r.get('shared_words')) for r in results.values()],
            known_findings=[k for k in kfseen], problems=problems),
        assumptions=specs.ASSUME.get(prop, []) + specs.COMMON_ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in kfseen.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for jn, v, path, nm in viols: print('VIOLATION property=%s replay=%s' % (prop, path))
    for p in problems: print('PROBLEM', p[:1500])
    print('%s %s: %d jobs, %d paths, %d queries, %d validated, %.1fs: %s' % (prop, tier, len(results), tot.get('paths', 0), tot.get('queries', 0), validated, time.time() - t0,
          'VIOLATED' if viols else 'NOT DECIDED' if problems else 'held'))
    prune()
    return 1 if viols else 2 if problems else 0

def prune():
    """keep the cache bounded"""
    for d in ('bc', 'nat'):
        fs = sorted(glob.glob(os.path.join(B, d, '*')), key=os.path.getmtime)
        size = sum(os.path.getsize(f) for f in fs)
        for f in fs:
            if size < 3e9: break
            if time.time() - os.path.getmtime(f) < 7200: continue
            size -= os.path.getsize(f); os.unlink(f)

if __name__ == '__main__':
    sys.exit(main())
