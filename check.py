#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Decides one property: every obligation the verifier generates from /repo's current source must be discharged.
  all discharged            -> exit 0
  one is not                -> a failing input is looked for by running the real code (harness/); found or not, exit 1 with
                               a VIOLATION line, unless the reason is that the changed code is out of the verifier's reach:
                               then a bounded run of the real code stands in (and is reported as bounded, never as proved).
"""
import os, sys, json, time, subprocess, tempfile, shutil, re, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import build, driver, props

P = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PROCS = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
SPEC = props.PROPS[P]
LIMIT = 800 if TIER == 'quick' else 840
left = lambda: LIMIT - (time.time() - T0)
WORK = tempfile.mkdtemp(prefix='chk_%s_' % P)


def log(*a): print(*a, flush=True)


# ------------------------------------------------------------------------------------------------ concrete runs of the real code
_bins = {}


def tester(kind):
    """build a driver of the real code; None if it does not compile"""
    if kind not in _bins:
        out = os.path.join(WORK, kind)
        try: props.TESTERS[kind]['build'](out)
        except Exception as e:
            log('the test driver %s cannot be built: %s' % (kind, str(e)[-400:]))
            out = None
        _bins[kind] = out
    return _bins[kind]


def hunt(kind, tags, secs):
    """run the real code on generated inputs and schedules; -> (found text or None, stats)"""
    b = tester(kind)
    st = {'tester': kind, 'tags': tags, 'seconds': round(secs), 'executions': 0, 'samples': [], 'gave_up': 0}
    if b is None: return None, st
    env = dict(os.environ)
    ps = []
    for i in range(PROCS):
        cmd = props.TESTERS[kind]['cmd'](b, SEED * 1000 + i, max(1, int(secs)), tags)
        d = os.path.join(WORK, '%s.%d' % (kind, i)); os.makedirs(d, exist_ok=True)
        f = open(os.path.join(d, 'out'), 'w+')
        ps.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.DEVNULL, cwd=d, env=env), f, cmd))
    end = time.time() + secs + 45
    found = None
    while any(p.poll() is None for p, _, _ in ps) and time.time() < end:
        time.sleep(0.1)
        if any(p.poll() == 1 for p, _, _ in ps): break
    for p, f, cmd in ps:
        if p.poll() is None: p.kill(); p.wait()
        f.seek(0); t = f.read(); f.close()
        m = re.search(r'runs=(\d+)', t)
        if m: st['executions'] += int(m.group(1))
        if p.returncode == 3: st['gave_up'] += 1
        for l in t.split('\n'):
            if l.startswith('SAMPLE') and len(st['samples']) < 2: st['samples'].append(l[7:400])
        if p.returncode == 1 and 'FOUND' in t and not found: found = ' '.join(cmd[1:]) + '\n' + t[:6000]
    return found, st


# ------------------------------------------------------------------------------------------------ the proof
def relevant(o): return bool(set(o['props']) & SPEC['dep'])


def problems(R):
    failed, undecided = [], []
    for k, r in R.items():
        for o in r['obls']:
            if o['status'] == 'proved' or not relevant(o): continue
            (failed if o['status'] == 'failed' else undecided).append((k, o))
        if r['error']: undecided.append((k, {'name': r['error'].split('\n')[0], 'where': '', 'fn': k[1], 'status': 'error', 'props': []}))
        elif not r['obls']: undecided.append((k, {'name': 'no obligation was generated', 'where': '', 'fn': k[1], 'status': 'error', 'props': []}))
    return failed, undecided


def describe(k, o):
    s = '%s [%s:%s] in %s %s: %s' % (o['name'], k[0], k[1], o.get('fn') or '?', ('at ' + str(o['where'])) if o.get('where') else '', o['status'])
    return s


def known():
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
        if m and m.group(1) == P: out.append((m.group(2), m.group(3).strip()))
    return out


def is_known(text): return next((d for m, d in known() if m in text.replace(' ', '_')), None)


def evidence(R, tests, violations, note=None):
    obls = [o for r in R.values() for o in r['obls'] if relevant(o)]
    allo = [o for r in R.values() for o in r['obls']]
    by = {}
    for o in obls:
        if o['status'] == 'proved': by[o['solver']] = by.get(o['solver'], 0) + 1
    fns = sorted(set(o['fn'] for o in allo))
    used = sorted(set(x for r in R.values() for x in r.get('used', ())))
    cov = {
        'obligations': len(obls), 'discharged': sum(o['status'] == 'proved' for o in obls),
        'checker_cmd': 'cd /verif && python3-vt check.py %s %s' % (P, TIER),
        'trusted_base': props.TRUSTED + SPEC.get('trusted', []),
        'discharged_by': by, 'solver_seconds': round(sum(r.get('qtime', 0) for r in R.values()), 1),
        'solver_queries': sum(r.get('queries', 0) for r in R.values()),
        'all_obligations_of_the_jobs': len(allo), 'all_discharged_of_the_jobs': sum(o['status'] == 'proved' for o in allo),
        'functions_under_contract': [f[:160] for f in fns], 'contracts_used_at_calls': used,
        'functions_verified_inline': len(set(x for r in R.values() for x in r.get('inlined', ()))),
        'assumed_externals': sorted(set(x for r in R.values() for x in r.get('assumed', ())))[:60],
        'jobs': {'%s:%s' % k: {'obligations': len(r['obls']), 'discharged': sum(o['status'] == 'proved' for o in r['obls']), 'paths': r.get('paths'), 'seconds': round(r['secs'], 1),
                               'stored_invariants': bool(r.get('had_hints')), 'error': (r['error'] or '')[:200] or None} for k, r in sorted(R.items())},
        'samples': [describe(('', ''), o) for o in obls[:3]],
        'bounded_runs_not_counted_as_proved': tests,
    }
    if note: cov['explanation'] = note
    ev = {'property': P, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': props.ASSUMPTIONS + SPEC.get('assumptions', []),
          'wall_s': round(time.time() - T0, 1), 'violations': violations}
    d = os.path.join(HERE, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, P + '.json'), 'w'), indent=1)


def violation(R, tests, failed, found, undecided):
    d = os.path.join(HERE, 'replay'); os.makedirs(d, exist_ok=True)
    text = 'property %s\n\n' % P
    if found:
        text += 'FAILING INPUT (real code): build harness/ as check.py does, then run: %s\n\n' % found
    text += 'obligations that the verifier does not discharge:\n' + ('\n'.join('  ' + describe(k, o) for k, o in failed[:40]) or '  (none; found by running the real code against the assumed contracts)') + '\n'
    for k, o in failed[:5]:
        if o.get('model'): text += '\ncounterexample for: %s\n%s\n' % (o['name'], str(o['model'])[:3000])
        if o.get('trace'): text += 'path: %s\n' % (str(o['trace'])[:1500])
    if undecided: text += '\nundecided:\n' + '\n'.join('  ' + describe(k, o) for k, o in undecided[:20]) + '\n'
    f = os.path.join(d, '%s-%s.txt' % (P, hashlib.sha1(text.encode()).hexdigest()[:8]))
    open(f, 'w').write(text)
    evidence(R, tests, max(1, len(failed)))
    for k, o in failed[:6]: log('  not discharged: ' + describe(k, o))
    if found: log('  ' + found.split('\n')[1][:300])
    log('VIOLATION property=%s replay=%s%s' % (P, os.path.relpath(f, HERE), '' if found else ' no-failing-input-found'))
    return 1


def main():
    jobs = SPEC['jobs']
    tests = []
    mods = {}
    R = driver.run_jobs(jobs, hinted=True, budget=min(300, left() - 60), procs=PROCS, mods=mods)
    failed, undecided = problems(R)
    tk, own, wide = SPEC.get('tester') or (None, '', '')
    if not failed and not undecided:
        found = None
        secs = props.CONF.get(TIER, 8) if SPEC.get('conf', True) else 0
        if tk and secs:        # the assumed contracts (operating system, library) are monitored by running the real code
            found, st = hunt(SPEC.get('monitor', tk), own, min(secs, max(1, left() - 60)))
            st['purpose'] = 'monitor of the assumed contracts'; tests.append(st)
        if found and not is_known(found): return violation(R, tests, [], found, [])
        evidence(R, tests, 0)
        for _, d in known(): log('KNOWN-FINDING: property=%s %s' % (P, d))
        log('%s: %d obligations discharged' % (P, sum(relevant(o) for r in R.values() for o in r['obls'])))
        return 0
    log('not discharged with the stored invariants: %d failed, %d undecided' % (len(failed), len(undecided)))
    found = None
    if tk:
        found, st = hunt(tk, own, min(60 if failed or undecided else 20, max(1, left() - 400)))
        st['purpose'] = 'search for a failing input'; tests.append(st)
        if found and not is_known(found): return violation(R, tests, failed, found, undecided)
    # the stored invariants may just not fit the current text: search for others
    again = sorted(set(k for k, _ in failed + undecided), key=lambda k: jobs.index(k))
    R2 = driver.run_jobs(again, hinted=False, budget=max(30, min(420, left() - 100)), procs=PROCS, mods=mods)
    R.update(R2)
    failed, undecided = problems(R)
    if failed:
        if tk and wide and left() > 60:
            found, st = hunt(tk, wide, min(60, left() - 50))
            st['purpose'] = 'search for a failing input (guarantees the property rests on)'; tests.append(st)
            if found and is_known(found): found = None
        return violation(R, tests, failed, found, undecided)
    if undecided:
        for k, o in undecided[:5]: log('  out of reach of the verifier: ' + describe(k, o))
        if tk:
            found, st = hunt(tk, own, max(5, min(150, left() - 40)))
            st['purpose'] = 'bounded stand-in for what is out of reach'; tests.append(st)
            if found and not is_known(found): return violation(R, tests, [], found, undecided)
        evidence(R, tests, 0, note='BOUNDED: %d obligations or functions are out of the reach of the verifier; a bounded run of the real code stood in for them' % len(undecided))
        log('%s: bounded, nothing found' % P)
        return 0
    evidence(R, tests, 0)
    for _, d in known(): log('KNOWN-FINDING: property=%s %s' % (P, d))
    log('%s: all obligations discharged (invariants searched for)' % P)
    return 0


if __name__ == '__main__':
    try: rc = main()
    finally: shutil.rmtree(WORK, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
