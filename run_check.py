#!/usr/bin/env python3-vt
"""run_check.py PROPERTY : decides one property on /repo's current working tree (see DESIGN.md)."""
import sys, os, re, json, time, shutil, tempfile, signal, traceback, threading, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'pvc')); sys.path.insert(0, os.path.join(HERE, 'bnd'))
REPO = os.environ.setdefault('VERIF_REPO', '/repo'); os.environ['PVC_REPO'] = REPO
import multiprocessing as mp
from props import PROPS, categories, TRUSTED
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1'))
TASK_TIMEOUT = 400 if TIER == 'quick' else 1500
PROOF_BUDGET = 520 if TIER == 'quick' else 6000

class TaskTimeout(Exception): pass
def _alarm(*_): raise TaskTimeout()

# ------------------------------------------------------------------ deductive part
def prove_task(t):
    """verify one function against one contract; returns a plain dictionary"""
    unit, bc, nm, dn, al, size, va = t
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(TASK_TIMEOUT)
    import driver, prover, check
    prover.STATS.by.clear(); prover.STATS.q = 0; prover.STATS.t = 0
    d = dict(unit=unit, fn=dn, alias='='.join(al), isa=check.SIMDTYPES.get(va, ''), status='unsupported', reason='', obls=[], n=0, ok=0)
    try:
        M = driver.module(bc)
        form = driver.form_of(M, nm, dn)
        R = driver.one(bc, nm, dn, form, al, va)
        d.update(status=R.status, reason=R.reason, loops=R.loops, paths=R.paths, assumed=list(R.assumed), callees=sorted(str(x) for x in R.used))
        kinds = {}
        for o in R.obls:
            c = categories(o.kind, form, unit)
            for p in c:
                k = kinds.setdefault(p, [0, 0]); k[0] += 1; k[1] += bool(o.ok)
            d['n'] += 1; d['ok'] += bool(o.ok)
            if not o.ok:
                d['obls'].append(dict(kind=o.kind, where=str(o.where)[:300], goal=str(o.goal)[:600], props=sorted(c), how=o.how, model=o.model))
        d['kinds'] = kinds
    except TaskTimeout:
        d['reason'] = 'time limit of %d s' % TASK_TIMEOUT
    except Exception as e:
        d['reason'] = 'verifier error: %s' % traceback.format_exc()[-1500:]
        d['crash'] = True
    finally:
        signal.alarm(0)
    d['backends'] = dict(prover.STATS.by); d['queries'] = prover.STATS.q; d['solver_s'] = round(prover.STATS.t, 3); d['time'] = round(time.time() - t0, 3)
    return d

def deduce(P, work, pool):
    import driver
    tasks = []
    for unit, sel in P.get('ded', []):
        bc = driver.build(unit, work)
        M = driver.module(bc)
        for nm, dn, form in driver.functions(M):
            if form is None or not sel(dn, form): continue
            size = sum(len(b.insts) for b in M.func(nm).bbs)
            als = [()] + [tuple(a) for a in driver.aliases(form)]
            for al in als:
                for va in driver.variants(form): tasks.append((unit, bc, nm, dn, al, size, va))
    tasks.sort(key=lambda t: (-bool(t[6] is not None and 'RgbToBgr' in t[3]), -t[5]))
    return tasks

# ------------------------------------------------------------------ main
def short(dn):
    return (dn.replace('penguinV::ImageTemplate<unsigned char>', 'Image').replace('penguinV::ImageTemplate<unsigned short>', 'Image16Bit')
            .replace('std::vector<unsigned int, std::allocator<unsigned int> >', 'vector<u32>').replace('std::vector<unsigned char, std::allocator<unsigned char> >', 'vector<u8>').replace('unsigned int', 'u32').replace('unsigned char', 'u8'))

def main(pid):
    t0 = time.time()
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try: return body(pid, P, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def body(pid, P, work, t0):
    import run as bnd
    # 1. start the proofs
    results = []; tasks = []; pool = None
    if P.get('ded'):
        tasks = deduce(P, work, None)
        ctx = mp.get_context('fork'); pool = ctx.Pool(8, maxtasksperchild=40)
        asy = pool.imap_unordered(prove_task, tasks, chunksize=1)
    # 2. meanwhile build the bounded programs
    scale = P.get('scale', 4.0) * (1 if TIER == 'quick' else 25)
    progs, berr = {}, None
    try:
        if P.get('bnd'): progs = bnd.build([p for p, _ in P['bnd']], os.path.join(work, 'b'))
    except RuntimeError as e: berr = str(e)
    if pool:
        try:
            for _ in tasks: results.append(asy.next(timeout=max(5, PROOF_BUDGET - (time.time() - t0))))
            pool.close(); pool.join()
        except mp.TimeoutError:
            pool.terminate()
            done = {(r['fn'], r['alias'], r['isa']) for r in results}
            import check
            for t in tasks:
                k = (t[3], '='.join(t[4]), check.SIMDTYPES.get(t[6], ''))
                if k not in done: results.append(dict(unit=t[0], fn=k[0], alias=k[1], isa=k[2], status='unsupported', reason='not reached within the time budget of the check', obls=[], n=0, ok=0, backends={}, queries=0, solver_s=0, time=0))
    if berr: print(berr); return 2
    # 3. bounded execution of the same functions
    sel = dict(P.get('bnd', []))
    pats = {k: re.compile(v) for k, v in sel.items()}
    fails, cases, valid, distinct, samples, units = [], 0, 0, 0, [], []
    def bounded(scale, seed, only=None):
        out = ([], 0, 0, 0, [], [])
        for p in progs:
            f = bnd.run({p: progs[p]}, work, lambda u: pats[p].search(u) and (only is None or only(u)), seed, scale, relevant=P['relevant'], timeout=600)
            for a, b in zip(out, f):
                pass
            out = tuple(a + b for a, b in zip(out, f))
        return out
    if progs:
        fails, cases, valid, distinct, samples, units = bounded(scale, SEED)
        if not units: print('no bounded unit selected'); return 2
    fails = P.get('discount', lambda f, u: f)(fails, lambda us: bounded_other(bnd, progs, work, us, scale))
    harness = [f for f in fails if f['kind'] == 'harness']
    # 4. undischarged obligations of this property
    refuted, undecided = [], []
    for r in results:
        mine = [o for o in r['obls'] if pid in o['props']]
        if r['status'] in ('unsupported', 'vacuous'): undecided.append((r, r['reason'] or r['status']))
        elif any(o['how'] == 'refuted' for o in mine): refuted.append((r, [o for o in mine if o['how'] == 'refuted']))
        elif mine: undecided.append((r, 'obligation not discharged: ' + mine[0]['kind']))
    if refuted and not fails and progs:   # search for a failing input
        for k in range(2, 5):
            f2 = bounded(scale * 10, SEED * 100 + k)
            cases += f2[1]; valid += f2[2]; distinct += f2[3]
            fails = P.get('discount', lambda f, u: f)(f2[0], lambda us: bounded_other(bnd, progs, work, us, scale))
            if fails: break
    # 5. known findings
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == pid]
    new, listed = [], set()
    for f in fails:
        for i, k in enumerate(known):
            if re.search(k['unit'], f['unit']) and re.search(k['match'], f['kind'] + ' ' + f['text']): listed.add(i); break
        else: new.append(f)
    for i, k in enumerate(known):
        if k.get('always') or i in listed: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # 6. report
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    nviol = 0
    if new:
        nviol = len(new)
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, failures=new[:20], obligations=[dict(function=r['fn'], alias=r['alias'], instruction_set=r['isa'], obligations=o) for r, o in refuted][:10],
                       replay='python3 %s/bnd/replay.py %s' % (HERE, path)), open(path, 'w'), indent=1)
        for f in new[:5]: print('  %s [%s] %s' % (f['unit'], f['kind'], f['text'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif refuted:
        nviol = len(refuted)
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, obligations=[dict(function=r['fn'], alias=r['alias'], instruction_set=r['isa'], obligations=o) for r, o in refuted],
                       note='the verifier refuted these obligations; no failing input was found by executing %d cases' % cases), open(path, 'w'), indent=1)
        for r, o in refuted[:5]: print('  %s: %s %s' % (short(r['fn'])[:200], o[0]['kind'], o[0]['where'][:120]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    evidence(pid, P, results, undecided, cases, valid, distinct, samples, units, t0, nviol, known)
    if nviol: return 1
    if harness: print('harness failure: ' + harness[0]['text']); return 2
    if any(r.get('crash') for r in results): print([r['reason'] for r in results if r.get('crash')][0])
    if P['level'] == 'proof' and not any(r['n'] for r in results): print('no obligation was generated'); return 2
    return 0

def bounded_other(bnd, progs, work, units, scale):
    """do these units fail by value?  used to attribute a failure to the right property"""
    bad = set()
    for p in progs:
        f, *_ = bnd.run({p: progs[p]}, work, lambda u: u in units, SEED, scale)
        bad |= {x['unit'] for x in f}
    return bad

def evidence(pid, P, results, undecided, cases, valid, distinct, samples, units, t0, nviol, known):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    n = sum(r.get('kinds', {}).get(pid, [0, 0])[0] for r in results); ok = sum(r.get('kinds', {}).get(pid, [0, 0])[1] for r in results)
    be = {}
    for r in results:
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    assumed = sorted({a for r in results for a in r.get('assumed', [])})
    und = {id(r) for r, _ in undecided}
    level = P['level']
    cov = dict(
        explanation=P['note'],
        evaluations=cases, distinct_nontrivial=distinct,
        rule='a case is one call (or call sequence) of the real code with generated images, regions, strides and parameters; non-trivial: parameters valid, so the result is compared; distinct: different description of shapes and parameters (pixel data differ as well)',
        samples=samples or ['none'],
        bounded_units=len(units), valid_cases=valid,
        bounded_note='bounded stand-in: image sides up to about 200 pixels, random contents; executed with AddressSanitizer and UBSan (or ThreadSanitizer); never counted as proved')
    if results:
        cov.update(obligations=n, discharged=ok, checker_cmd='python3-vt run_check.py ' + pid,
                   functions_under_contract=len({r['fn'] for r in results}), proofs=len(results),
                   proved=[short(r['fn']) + (' [in place %s]' % r['alias'] if r['alias'] else '') + (' [%s]' % r['isa'] if r['isa'] else '') for r in results if r['status'] == 'ok' or (r['status'] == 'failed' and not any(pid in o['props'] for o in r['obls']))],
                   undecided=[dict(function=short(r['fn']), alias=r['alias'], instruction_set=r['isa'], reason=w[:300]) for r, w in undecided],
                   all_obligations=sum(r['n'] for r in results), all_discharged=sum(r['ok'] for r in results),
                   backends=be, solver_queries=sum(r['queries'] for r in results), solver_s=round(sum(r['solver_s'] for r in results), 2),
                   loops_summarised=sum(r.get('loops', 0) or 0 for r in results),
                   trusted_base=TRUSTED + assumed)
    json.dump(dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=P.get('assume', []) + assumed, wall_s=round(time.time() - t0, 2), violations=nviol),
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d proofs, %d obligations of this property, %d discharged, %d undecided; %d bounded cases (%d valid, %d distinct) in %d units; %.1f s' %
          (pid, len(results), n, ok, len(undecided), cases, valid, distinct, len(units), time.time() - t0))

if __name__ == '__main__':
    try: rc = main(sys.argv[1])
    except Exception: traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
