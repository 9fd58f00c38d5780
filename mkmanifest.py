"""writes properties.jsonl and MANIFEST.json (run by hand after an edit; both are committed)"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, 'vc')
exec(open('mkprops.py').read())
import props
NA = dict(getattr(props, 'NOT_APPLICABLE', {}))
have = {o['id'] for o in out}
T = 'contract-based deductive verification (weakest preconditions of the LLVM IR of the real code, z3; loop invariants, rely-guarantee contracts)'
checks = []
for i in sorted(have):
    if i in NA: continue
    s = props.PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'technique': s.get('technique', T), 'level': 'proof', 'level_note': s.get('note', props.NOTE)})
for i in NA: assert i in have, i
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'hooks': {'guard': 'PMAP_VERIF', 'enable': 'the checks compile /repo headers with -DPMAP_VERIF', 'source_commits': [os.popen('git -C /repo rev-parse 045495f').read().strip()]},
           'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items())]}, open('MANIFEST.json', 'w'), indent=1)
