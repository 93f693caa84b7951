#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> quick|thorough      decides one property on /repo's working tree
           check.py --replay FILE                  re-executes a recorded violation
Every run compiles the harnesses from /repo's current headers."""
import os, sys, json, subprocess, time, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import configs
REPO = os.environ.get('MC_REPO', '/repo')
BASE = ['-w', '-fno-lifetime-dse', '-DBOOST_ENABLE_ASSERT_HANDLER', '-I' + HERE + '/harness', '-I' + REPO + '/include',
        '-isystem', HERE + '/compat']
JOBS = int(os.environ.get('MC_JOBS', '8'))

def compile_cmd(cfg, out):
    cc = cfg.get('cc', 'g++')
    return [cc, cfg.get('std', '-std=c++17'), cfg.get('opt', '-O1'), '-g0'] + BASE + cfg['flags'] + [os.path.join(HERE, 'harness', cfg['src'])] + \
        [os.path.join(HERE, 'harness', s) if s.endswith(('.cpp', '.c', '.o')) else s for s in cfg.get('extra', [])] + ['-o', out] + cfg.get('link', [])

def build(cfg, bdir):
    out = os.path.join(bdir, cfg['name'])
    t0 = time.time()
    for attempt in (1, 2):          # a compiler ended for lack of memory is tried again
        try:
            p = subprocess.run(compile_cmd(cfg, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            rc, log = p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, log = 1, 'compiler timeout'
        if rc == 0: return out, '', time.time() - t0
        if 'Killed' not in log and 'timeout' not in log: break
    return None, log, time.time() - t0

SKIPPED = 'skipped'       # once a violation is known, what still runs a minute later is not waited for

def run_one(cfg, exe, tier, known, limit, cats, stop):
    args = [exe] + cfg.get('args', []) + (cfg.get('targs', ['--seconds', '1500']) if tier == 'thorough' else cfg.get('qargs', ['--seconds', '150']))
    args += ['--cats', ','.join(sorted(cats))]
    if known: args += ['--known', ','.join(known)]
    why = ''
    for attempt in (1, 2):
        p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE); t0 = time.time()
        while True:
            try: out, err = p.communicate(timeout=2); break
            except subprocess.TimeoutExpired: pass
            if time.time() - t0 > limit: why = 'harness did not finish within %ds' % limit
            elif stop[0] and time.time() > stop[0]: why = SKIPPED
            else: continue
            p.kill(); p.communicate()
            return None, why
        out = out.decode('utf8', 'replace')
        try:
            return json.loads(out.strip().splitlines()[-1]), ''
        except Exception:
            why = 'harness ended with status %s without a report: %s %s' % (p.returncode, out[-300:], err.decode('utf8', 'replace')[-500:])
    return None, why

def load_known(pid):
    ks, fs = [], {}
    try:
        for e in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
            ks.append(e['key']); fs.setdefault(e['key'], {})
            if pid in e['properties']: fs[e['key']] = e
    except FileNotFoundError:
        pass
    return ks, fs

def write_replay(pid, n, obj):
    d = os.path.join(HERE, 'out'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    json.dump(obj, open(p, 'w'), indent=1)
    return p

def main(pid, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = configs.PROPS[pid]
    cfgs = prop['quick'] if tier == 'quick' else prop.get('thorough', prop['quick'])
    cfgs = [configs.resolve(c) for c in cfgs]
    cats = set(prop['cats']) | {'crash', 'assert', 'hang', 'replay'}
    known, kinfo = load_known(pid)
    bdir = os.path.join(HERE, 'build', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    viols, errors, results = [], [], []
    limit = 780 if tier == 'quick' else 6 * 3600
    stop = [0]
    def job(c):
        if stop[0] and time.time() > stop[0]: return c, None, SKIPPED, '', 0
        exe, log, ct = build(c, bdir)
        if exe is None: return c, None, 'compile', log, ct
        r, why = run_one(c, exe, tier, known, min(limit, max(60, t0 + 860 - time.time())) if tier == 'quick' else limit, cats, stop)
        try: os.unlink(exe)
        except OSError: pass
        if not stop[0] and (why != SKIPPED if r is None else any(v['cat'] in cats for v in r['violations'])): stop[0] = time.time() + (60 if tier == 'quick' else 600)
        return c, r, (SKIPPED if why == SKIPPED else 'harness' if r is None else ''), why, ct
    ctime = skipped = 0
    try:
        order = sorted(cfgs, key=lambda c: -c.get('weight', 1))
        with ThreadPoolExecutor(JOBS) as ex:
            for c, r, kind, why, ct in ex.map(job, order):
                ctime += ct
                if kind == 'compile':
                    viols.append(dict(cat='compile', op='instantiation', msg='documented operations do not compile in configuration %s: %s' % (c['name'], first_error(why)), config=c, history=[], ops=[], variant=0))
                elif kind == SKIPPED: skipped += 1
                elif kind == 'harness':
                    viols.append(dict(cat='crash', op='harness', msg=why, config=c, history=[], ops=[], variant=0))
                else:
                    results.append((c, r))
                    for v in r['violations']:
                        if v['cat'] == 'internal': errors.append('%s: %s %s' % (c['name'], v['op'], v['msg']))
                        elif v['cat'] in cats:
                            v = dict(v); v['config'] = c; viols.append(v)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    # known findings
    counters = {}
    for c, r in results:
        for k, n in r.get('counters', {}).items(): counters[k] = counters.get(k, 0) + n
    for k in sorted(kinfo):
        e = kinfo[k]
        if e and counters.get('known:' + k):
            print('KNOWN-FINDING: property=%s %s (%d executions)' % (pid, e['what'], counters['known:' + k]))
    states = sum(r['states'] for c, r in results); trans = sum(r['transitions'] for c, r in results)
    valid = sum(r['validated'] for c, r in results)
    samples = []
    for c, r in results:
        for s in r['samples'][-1:]: samples.append('%s: %s' % (c['name'], s[:400]))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), coverage=dict(
        states=states, transitions=trans, traces_validated_against_impl=valid, samples=samples[:12] or ['none'],
        configurations=[dict(name=c['name'], flags=c['flags'], states=r['states'], transitions=r['transitions'], validated=r['validated'], depth=r['depth'],
                             exhausted=r['complete'], bound=r['cap'], wall_s=r['wall'], operations=r['ops'], counters=r['counters']) for c, r in results],
        compile_s=round(ctime, 1), violations=len(viols), skipped_after_violation=skipped, known_findings={k: v for k, v in counters.items() if k.startswith('known:')},
        explanation=prop.get('note', '')))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d configurations, %d states, %d transitions, %d traces replayed on the implementation, %.1fs' % (pid, tier, len(results), states, trans, valid, time.time() - t0))
    if skipped: print('  %d configurations not waited for after the first violation' % skipped)
    for c, r in results:
        if not r['complete']: print('  bound reached in %s: %s' % (c['name'], r['cap']))
    if viols:
        best = sorted(viols, key=lambda v: len(v.get('ops', [])))
        for i, v in enumerate(best[:8]):
            c = v['config']
            path = write_replay(pid, i, dict(property=pid, config=c, category=v['cat'], message=v['msg'], operation=v['op'], history=v['history'], variant=v['variant'], ops=v['ops'],
                                             how='python3 check.py --replay <this file>'))
            print('  [%s] %s %s: %s' % (v['cat'], c['name'], v['op'], v['msg'][:300]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:5]: print('ERROR harness: ' + e)
        return 2
    return 0

def first_error(log):
    for l in log.splitlines():
        if ' error: ' in l or 'error:' in l: return l[-300:]
    return log[-300:]

def replay(path):
    o = json.load(open(path)); c = o['config']
    bdir = os.path.join(HERE, 'build', 'replay-%d' % os.getpid()); os.makedirs(bdir, exist_ok=True)
    try:
        exe, log, _ = build(c, bdir)
        if exe is None: print('does not compile: ' + first_error(log)); return 1
        if not o['ops']: print('no history recorded; running the whole configuration'); return subprocess.call([exe] + c.get('args', []))
        return subprocess.call([exe] + c.get('args', []) + (['--cats', ','.join(o['cats'])] if o.get('cats') else []) + ['--replay', str(o['variant'])] + [','.join(map(str, x)) for x in o['ops']])
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[1] not in configs.PROPS or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__); sys.exit(2)
    sys.exit(main(sys.argv[1], sys.argv[2]))
