#!/usr/bin/env python3
"""replay.py REPLAY.json : re-executes each recorded failing case against /repo's current tree (exit 1 when one still fails)."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as bnd
d = json.load(open(sys.argv[1])); w = tempfile.mkdtemp(prefix='verif_replay_'); bad = 0
try:
    fs = d.get('failures', [])
    progs = bnd.build(sorted({f['prog'] for f in fs}), w) if fs else {}
    for f in fs:
        r, _ = bnd.run_unit(progs[f['prog']], f['unit'], f['seed'], f['case'], f['case'] + 1, os.path.join(w, 'note'))
        print('%s case %d: %s' % (f['unit'], f['case'], 'passes' if r is None else '[%s] %s' % (r['kind'], r['text'][:1000]))); bad += r is not None
    for o in d.get('obligations', []): print('obligation not discharged:', json.dumps(o)[:2000])
finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if bad else 0)
