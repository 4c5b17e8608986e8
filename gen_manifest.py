#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR of /repo\'s code with Z3 deciding branches and assertions; counterexamples replayed natively'
BASE = ('Every verdict is a solver verdict (or exact normal-form arithmetic) over all values of the symbolic inputs on every path of the scenarios explored; '
        'scenarios bound window options, bar counts and unrolling and are listed in the evidence. Trusted: clang-18 front end and the sroa/early-cse/inline/simplifycfg/dce '
        'passes, the IR interpreter in engine/, Z3. Floating point is modelled as exact real arithmetic with explicit NaN/inf, so rounding is outside the claim. ')
CLAIMED = json.load(open(f'{HERE}/claims.json'))
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p, 'quick_cmd': f'python3-vt checks/run.py {p}', 'thorough_cmd': f'python3-vt checks/run.py {p} --thorough',
                 'technique': c.get('technique', TECH), 'level': 'model_checking', 'level_note': BASE + c['note']} for p, c in sorted(CLAIMED.items())],
     'not_applicable': [],
     'notes': 'No hooks: /repo carries only fix: commits. Fixed defects and known findings are in known_findings.json.'}
props = [json.loads(l)['id'] for l in open(f'{HERE}/properties.jsonl')]
pend = json.load(open(f'{HERE}/pending.json')) if os.path.exists(f'{HERE}/pending.json') else {}
for p in props:
    if p not in CLAIMED: m['not_applicable'].append({'property': p, 'reason': pend.get(p, 'check not built yet')})
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
