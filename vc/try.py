import sys, time, build, p_map, traceback, json, os, engine
asserts = '-a' in sys.argv
mod = build.load('/verif/harness/map.cpp', [] if asserts else ['-DNDEBUG'])
t = time.time()
mp = p_map.Map(mod, asserts)
job = sys.argv[1]
hf = '/tmp/hints/%s%s.json' % (job, '.a' if asserts else '')
if '-h' in sys.argv: mp.eng.hints = engine.hints_from_json(json.load(open(hf)))
ok = True
try:
    p_map.JOBS[job](mp)
except Exception as e:
    traceback.print_exc(); ok = False
e = mp.eng
import collections
c = collections.Counter(o.status for o in e.obls)
print(job, c, 'paths', e.paths, 'secs %.1f' % (time.time() - t), 'queries', e.nq, 'inv', sum(len(v) for v in e.invs.values()), [sum(1 for _ in v) for v in e.invs.values()])
if ok and '-l' in sys.argv:
    os.makedirs('/tmp/hints', exist_ok=True)
    json.dump(engine.hints_to_json(e), open(hf, 'w'), indent=0)
seen = set()
for o in e.obls:
    if o.status != 'proved' and (o.name, o.where) not in seen:
        seen.add((o.name, o.where))
        print('*', o.status, o.name, '@', o.where[-160:], sorted(o.props))
        if len(seen) < 4:
            for l in (o.trace or [])[-12:]: print('     ', str(l)[:300])
            print('   model', {k: v for k, v in list((o.model or {}).items())[:40]} if isinstance(o.model, dict) else str(o.model)[:1500])
