#!/usr/bin/env python3
"""seedrun.py [PATTERN]: runs each planted bug's own check on a scratch copy of /repo carrying it (development tool, not a check)"""
import sys, os, re, json, subprocess, shutil, time
H = os.path.dirname(os.path.abspath(__file__)); W = '/tmp/w/sr_run'
pat = sys.argv[1] if len(sys.argv) > 1 else '.'
rf = H + '/seed_results.json'; res = json.load(open(rf)) if os.path.exists(rf) else {}
for s in sorted(os.listdir(H + '/seeded')):
    if not re.search(pat, s): continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune']); subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s' % (W, W), shell=True, check=True)
    p = subprocess.run(['git', 'apply', '--directory', W.lstrip('/'), '--unsafe-paths', '%s/seeded/%s/patch.diff' % (H, s)], cwd='/', capture_output=True, text=True)
    if p.returncode: res[s] = 'PATCH DOES NOT APPLY'; print(s, p.stderr[:200]); continue
    prop = json.load(open('%s/seeded/%s/meta.json' % (H, s)))['property']; t = time.time()
    p = subprocess.run(['python3-vt', H + '/run_check.py', prop], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    res[s] = 'NOT caught (exit %d)' % p.returncode if not v else 'caught by %s%s' % (prop, ': refuted obligation, no failing input' if 'no-failing' in v[0] else '')
    if v:
        j = json.load(open(re.search(r'replay=(\S+)', v[0]).group(1)))
        if j.get('failures') : res[s] += ': failing input' + (' and refuted obligation' if j.get('obligations') else ' (bounded part)')
    print(s, '->', res[s], '%.0fs' % (time.time() - t), flush=True)
    json.dump(res, open(rf, 'w'), indent=1)
shutil.rmtree(W, ignore_errors=True)
