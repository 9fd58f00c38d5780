"""Runs verification jobs in parallel, first with the stored loop invariants, then (where that is not enough) with a search."""
import os, sys, json, time, multiprocessing, traceback, signal
import build, engine

HERE = os.path.dirname(os.path.abspath(__file__))
HINTS = os.path.join(HERE, 'invariants')


def sources():
    import p_map, p_hash, p_persist, p_table, p_adapter, p_clevel
    return {
        'cl': (p_clevel, lambda: build.load(os.path.join(build.VERIF, 'harness', 'clevel.cpp'), ['-DNDEBUG'])),
        **{k: (p_adapter, (lambda k: lambda: build.load(os.path.join(build.VERIF, 'harness', 'adapters.cpp'), ['-DNDEBUG', '-DA_' + k]))(k)) for k in p_adapter.JOBS},
        'map': (p_map, lambda: build.load(os.path.join(build.VERIF, 'harness', 'map.cpp'), ['-DNDEBUG'])),
        'mapassert': (p_map, lambda: build.load(os.path.join(build.VERIF, 'harness', 'map.cpp'))),
        'hash': (p_hash, lambda: build.load(os.path.join(build.VERIF, 'harness', 'hash.cpp'), ['-DNDEBUG'])),
        'table': (p_table, lambda: build.load(os.path.join(build.VERIF, 'harness', 'map.cpp'), ['-DNDEBUG'])),
        'tableassert': (p_table, lambda: build.load(os.path.join(build.VERIF, 'harness', 'map.cpp'))),
        'persist': (p_persist, lambda: build.load(os.path.join(build.VERIF, 'harness', 'map.cpp'), ['-DNDEBUG'])),
    }


def one(mod, kind, job, hinted, budget, speculate=not os.environ.get('VC_REFINE')):
    """run one job in this process; -> plain data"""
    t = time.time()
    engine.HELPERS, engine.SPECULATE = 7 if kind == 'cl' else 0, speculate
    r = {'kind': kind, 'job': job, 'error': None, 'obls': [], 'hinted': hinted}
    eng = None
    keep = []
    engine.KEEP = keep
    try:
        hints = None
        hf = os.path.join(HINTS, '%s.%s.json' % (kind, job))
        if hinted and os.path.exists(hf): hints = engine.hints_from_json(json.load(open(hf)))
        r['had_hints'] = hints is not None
        engine.DEADLINE = t + budget
        p = sources()[kind][0]
        if kind in ('map', 'mapassert'): eng = p.run(mod, job, kind == 'mapassert', hints)
        elif kind in ('table', 'tableassert'): eng = p.run(mod, job, kind == 'tableassert', hints)
        elif kind in ('stl', 'pm', 'clevel'): eng = p.run(mod, kind, job)
        elif kind == 'cl': eng = p.run(mod, job, hints=hints)
        elif kind == 'hash': eng = p.run(mod, 'quick', (job,))[0]
        elif kind == 'persist': eng = {'D01': p.run_d01, 'D02': p.run_d02}[job](mod)
        eng.settle()
        r['learnt'] = engine.hints_to_json(eng)
        r['drops'] = eng.drops
    except engine.Misfit:
        for e in keep: e.helpers.stop()
        r = one(mod, kind, job, hinted, budget - (time.time() - t), False)
        r['secs'] = time.time() - t
        return r
    except Exception as e:
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        if not isinstance(e, engine.Unsupported) and not isinstance(e, engine.Undecided): r['error'] += '\n' + traceback.format_exc()[-1500:]
        eng = max(keep, key=lambda e: len(e.obls)) if keep else None
    if eng is not None:
        if eng.helpers:
            try: eng.settle()
            except Exception: eng.helpers.stop()
            for o in eng.obls:
                if o.status == 'pending': o.status = 'unknown'
        r['obls'] = [o.as_dict() for o in eng.obls]
        r['paths'] = eng.paths
        r['qtime'] = eng.qtime
        r['queries'] = eng.nq
        r['inlined'] = sorted(eng.inlined)
        r['assumed'] = sorted(eng.assumed)
        r['used'] = sorted(getattr(eng, 'used', ()))
        r['invs'] = {k: sorted(v) for k, v in eng.invs.items()}
    r['secs'] = time.time() - t
    return r


def worker(mods, kind, job, hinted, budget, q):
    try: r = one(mods[kind], kind, job, hinted, budget)
    except BaseException as e: r = {'kind': kind, 'job': job, 'error': 'worker: %r' % e, 'obls': [], 'hinted': hinted, 'secs': 0}
    q.put(r)


def run_jobs(jobs, hinted=True, budget=int(os.environ.get("VC_BUDGET", "600")), procs=int(os.environ.get("VC_PROCS", "8")), mods=None, log=None):
    """jobs: [(kind, job)] -> {(kind, job): result}"""
    ctx = multiprocessing.get_context('fork')
    res = {}
    mods = {} if mods is None else mods
    src = sources()
    for k in set(k for k, _ in jobs):
        if k not in mods:
            try: mods[k] = src[k][1]()
            except Exception as e:
                for kk, j in jobs:
                    if kk == k: res[(kk, j)] = {'kind': kk, 'job': j, 'error': 'the current source cannot be read: %s' % str(e)[-2000:], 'obls': [], 'secs': 0, 'hinted': hinted}
    todo = [x for x in jobs if x not in res]
    live = []
    q = ctx.SimpleQueue()
    started = {}
    while todo or live:
        while todo and len(live) < procs:
            k, j = todo.pop(0)
            p = ctx.Process(target=worker, args=(mods, k, j, hinted, budget, q), daemon=True)
            p.start()
            live.append((p, k, j)); started[(k, j)] = time.time()
        while not q.empty():
            r = q.get()
            res[(r['kind'], r['job'])] = r
            if log: log(r)
        nl = []
        for p, k, j in live:
            if (k, j) in res: p.join(5); continue
            if not p.is_alive():
                time.sleep(0.2)
                while not q.empty():
                    r = q.get(); res[(r['kind'], r['job'])] = r
                    if log: log(r)
                if (k, j) not in res: res[(k, j)] = {'kind': k, 'job': j, 'error': 'the verifier process ended', 'obls': [], 'secs': 0, 'hinted': hinted}
                continue
            if time.time() - started[(k, j)] > budget + 60:
                p.kill(); p.join()
                res[(k, j)] = {'kind': k, 'job': j, 'error': 'Undecided: time budget used up', 'obls': [], 'secs': budget, 'hinted': hinted}
                continue
            nl.append((p, k, j))
        live = nl
        time.sleep(0.03)
    return res


def ok(r): return not r['error'] and r['obls'] and all(o['status'] == 'proved' for o in r['obls'])


if __name__ == '__main__':
    # driver.py learn|run  kind:job ...   (kind alone: all of its jobs)
    import p_map, p_hash, p_table, p_adapter, p_clevel
    every = {'cl': list(p_clevel.JOBS), **p_adapter.JOBS, 'table': list(p_table.JOBS), 'tableassert': list(p_table.JOBS), 'map': p_map.ALL, 'mapassert': p_map.ALL, 'hash': list(p_hash.JOBS), 'persist': ['D01', 'D02']}
    jobs = []
    for a in sys.argv[2:]:
        k, _, j = a.partition(':')
        jobs += [(k, x) for x in every[k]] if not j else [(k, j)]
    t = time.time()
    def log(r):
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        print('%-10s %-18s %6.1fs %5d obligations, %d not proved %s' % (r['kind'], r['job'], r['secs'], len(r['obls']), len(bad), r['error'] or ''), flush=True)
        for n in sorted(set((o['name'], o['status']) for o in bad))[:6]: print('      ', n)
    R = run_jobs(jobs, hinted=sys.argv[1] != 'learn', log=log)
    again = [x for x in jobs if not ok(R[x])]
    if sys.argv[1] == 'auto' and again:
        print('-- search for invariants', flush=True)
        R.update(run_jobs(again, hinted=False, log=log))
    print('%.1f s' % (time.time() - t), 'all proved' if all(ok(r) for r in R.values()) else 'NOT PROVED')
    if sys.argv[1] == 'refine':       # (VC_REFINE=1) note which of the stored invariants do not fit at which visit of a loop
        for (k, j), r in R.items():
            f = os.path.join(HINTS, '%s.%s.json' % (k, j))
            if ok(r) and os.path.exists(f):
                d = json.load(open(f))
                for h, v in d.items(): v['drops'] = {n: x for n, x in r['drops'].get(h, {}).items() if x}
                json.dump(d, open(f, 'w'), indent=0, sort_keys=True)
    if sys.argv[1] == 'learn':
        os.makedirs(HINTS, exist_ok=True)
        for (k, j), r in R.items():
            if ok(r) and any(v['inv'] or v['mod'] or v['ghosts'] for v in r['learnt'].values()):
                json.dump(r['learnt'], open(os.path.join(HINTS, '%s.%s.json' % (k, j)), 'w'), indent=0, sort_keys=True)
