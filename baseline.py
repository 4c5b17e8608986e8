#!/usr/bin/env python3
"""records the digests of the current code of every indicator in engine/baseline.json (run by hand after a fix: commit; checks only read it)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import build
d = build.scratch()
build.copy_source(d + '/src'); build.build_ir(d + '/src', d + '/ir')
f = build.fingerprints(d + '/ir')
json.dump(f, open(os.path.dirname(os.path.abspath(__file__)) + '/engine/baseline.json', 'w'), indent=0, sort_keys=True)
print(len(f), 'indicators')

from checks.common import code_constants, modules_of
idx = dict(l.split() for l in open(d + '/ir/index.txt'))
c = {n: [sorted(x) for x in code_constants(d + '/ir', modules_of(idx, n))] for n in f}
json.dump(c, open(os.path.dirname(os.path.abspath(__file__)) + '/engine/baseline_consts.json', 'w'), sort_keys=True)

import yaml
r = {str(k): [[str(x) for x in y] for y in v[2:5]] for k, v in yaml.safe_load(open(d + '/src/indicators.yaml', encoding='utf8')).items()}
json.dump(r, open(os.path.dirname(os.path.abspath(__file__)) + '/checks/roles.json', 'w'), sort_keys=True)
