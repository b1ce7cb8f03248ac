#!/usr/bin/env python3
"""writes MANIFEST.json from pvc/props.py"""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/pvc')
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())" && clang++ --version', checks=[], not_applicable=[],
         notes='Contract-based deductive verification of the code as compiled from /repo on every run (pvc/), with labelled bounded executions (bnd/) for what is outside its reach. See DESIGN.md.')
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3-vt run_check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt run_check.py ' + i, evidence_file='evidence/%s.json' % i,
                                technique=P['technique'], level=P['level'], level_note=P['note']))
    else: m['not_applicable'].append(dict(property=i, reason=NA[i]))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
