"""Build the bounded programs from /repo's working tree and run units of them in parallel."""
import os, subprocess, sys, re, glob, hashlib, concurrent.futures as cf, time, json
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++'
FLAGS = ['-std=c++17', '-O1', '-g1', '-march=native', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
         '-fno-omit-frame-pointer', '-w', '-I' + REPO + '/src', '-I' + HERE]
SRC = {
    'image': ['image_function', 'image_function_helper', 'image_function_simd', 'function_pool', 'function_pool_task', 'thread_pool', 'penguinv/penguinv'],
}
TSAN = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-w', '-I' + REPO + '/src', '-I' + HERE]
PROGS = {  # program -> (harness files, repository sources)
    'scalar': (['main', 'ops', 'u_scalar'], ['image_function', 'image_function_helper']),
    'simd': (['main', 'ops', 'u_simd'], ['image_function', 'image_function_helper', 'image_function_simd']),
    'pool': (['main', 'ops', 'u_pool'], SRC['image']),
    'front': (['main', 'ops', 'u_front'], SRC['image']),
    'alloc': (['main', 'newcount', 'u_alloc'], []),
    'container': (['main', 'newcount', 'u_container'], []),
    'bmp': (['main', 'u_bmp'], ['file/bmp_image', 'image_function', 'image_function_helper']),
    'filter': (['main', 'u_filter'], ['filtering', 'image_function', 'image_function_helper']),
    'light': (['main', 'u_light'], ['tool/light_correction', 'image_function', 'image_function_helper']),
    'edge': (['main', 'u_edge'], ['edge_detection', 'image_function', 'image_function_helper']),
    'blob': (['main', 'u_blob'], ['blob_detection', 'image_function', 'image_function_helper']),
    'opencl': (['main', 'ops', 'u_opencl'], ['opencl/image_function_opencl', 'opencl/opencl_device', 'opencl/opencl_helper', 'image_function', 'image_function_helper'], 'plain'),
    'thread': (['main', 'u_thread'], ['thread_pool'], 'tsan'),
}
PLAIN = ['-std=c++17', '-O1', '-g1', '-w', '-I' + REPO + '/src', '-I' + HERE]
KINDS = {'asan': (FLAGS, '-fsanitize=address,undefined'), 'tsan': (TSAN, '-fsanitize=thread'), 'plain': (PLAIN, '-g', '-lOpenCL')}
def kind(p): return PROGS[p][2] if len(PROGS[p]) > 2 else 'asan'

def _key():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/src/**/*', recursive=True)) + sorted(glob.glob(HERE + '/*'))
    for f in fs:
        if os.path.isfile(f) and f.endswith(('.h', '.cpp', '.inc')):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build(progs, out, jobs=8, flags=None):
    """returns {prog: path}; raises CalledProcessError on a compile error of the code under test"""
    os.makedirs(out + '/pocl', exist_ok=True)
    objs = {}
    for p in progs:
        k = kind(p)
        for h in PROGS[p][0]: objs[os.path.join(HERE, h + '.cpp'), k] = None
        for s in PROGS[p][1]: objs[os.path.join(REPO, 'src', s + '.cpp'), k] = None
    def comp(sk):
        src, k = sk
        o = os.path.join(out, k + src.replace('/', '_')[:-4] + '.o')
        r = subprocess.run([CXX] + (flags or KINDS[k][0]) + ['-c', src, '-o', o], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('cannot compile %s:\n%s' % (src, r.stderr[-3000:]))
        return sk, o
    with cf.ThreadPoolExecutor(jobs) as ex:
        for s, o in ex.map(comp, sorted(objs, key=lambda s: -os.path.getsize(s[0]))): objs[s] = o
    res = {}
    for p in progs:
        e = os.path.join(out, 'prog_' + p); k = kind(p)
        need = [objs[os.path.join(HERE, h + '.cpp'), k] for h in PROGS[p][0]] + [objs[os.path.join(REPO, 'src', s + '.cpp'), k] for s in PROGS[p][1]]
        r = subprocess.run([CXX, KINDS[k][1]] + need + list(KINDS[k][2:]) + ['-lpthread', '-ldl', '-o', e], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('cannot link %s:\n%s' % (p, r.stderr[-3000:]))
        res[p] = e
    return res

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0',
           TSAN_OPTIONS='halt_on_error=1:exitcode=79:second_deadlock_stack=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=78')

def run_unit(prog, unit, seed, a, b, prog_file, timeout=300):
    """-> (None, (valid, distinct, sample)) when all cases passed, else (dict(kind, text, case), None)"""
    try:
        r = subprocess.run([prog, 'run', unit, str(seed), str(a), str(b), prog_file], capture_output=True, text=True, errors='replace', timeout=timeout, env=dict(ENV, POCL_CACHE_DIR=os.path.dirname(prog) + '/pocl'))
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -14, '', ''
    try:
        note = open(prog_file, 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        note = ''
    try: os.unlink(prog_file)
    except OSError: pass
    if rc == 0 and out.startswith('OK'):
        m = re.match(r'OK \d+ valid (\d+) distinct (\d+) sample (.*)', out, re.S)
        return None, (int(m.group(1)), int(m.group(2)), m.group(3).strip()) if m else (0, 0, '')
    m = re.match(r'case (\d+):', note); case = int(m.group(1)) if m else a
    d = dict(unit=unit, case=case)
    m = re.search(r'FAIL kind=(\w+) (.*)', out, re.S)
    if m: d.update(kind=m.group(1), text=m.group(2).strip())
    elif rc == 2: d.update(kind='harness', text='unit %s could not run: %s' % (unit, err[-500:]))
    elif rc in (-14, -9): d.update(kind='hang' if rc == -14 else 'harness', text=note + ' | did not finish')
    else:
        lines = [l for l in err.splitlines() if re.search(r'ERROR: AddressSanitizer|runtime error|SUMMARY|^\s+#[0-7] |terminate|what\(\)|WARNING: ThreadSanitizer', l)]
        d.update(kind='memory', text=note + ' | exit %d: ' % rc + ' / '.join(x.strip() for x in lines[:10])[:1500])
    return d, None

def list_units(prog):
    out = subprocess.run([prog, 'list'], capture_output=True, text=True, env=ENV).stdout
    return [(l.split()[0], int(l.split()[1])) for l in out.splitlines()]

def run(progs, out, select, seed=1, scale=1.0, jobs=8, timeout=300, relevant=lambda f: True, resume=12):
    """progs {name: path}; select(unit)->bool; failures that are not relevant are stepped over.
    Returns (relevant failures, cases run, valid, distinct, samples, units)"""
    work = []
    for p, e in progs.items():
        for u, n in list_units(e):
            if select(u): work.append((e, u, max(1, int(n * scale))))
    def go(k):
        e, u, n = work[k]; a = 0; other = []
        st = (0, 0, '')
        for _ in range(resume):
            f, s = run_unit(e, u, seed, a, n, os.path.join(out, 'note_%d' % k), timeout)
            if f is None: st = s; break
            f['prog'] = os.path.basename(e)[5:]; f['seed'] = seed
            if relevant(f): return f, a, n, st
            a = f['case'] + 1
            if a >= n: break
        return None, a, n, st
    fails, cases, valid, distinct, samples = [], 0, 0, 0, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, (f, a, n, st) in zip(range(len(work)), ex.map(go, range(len(work)))):
            cases += n if not f else f['case'] + 1; valid += st[0]; distinct += st[1]
            if st[2] and len(samples) < 6: samples.append(work[k][1] + ': ' + st[2])
            if f: fails.append(f)
    return fails, cases, valid, distinct, samples, [w[1] for w in work]

if __name__ == '__main__':
    t = time.time()
    out = sys.argv[1]; names = sys.argv[2].split(','); pat = sys.argv[3] if len(sys.argv) > 3 else '.'
    pr = build(names, out)
    print('built in %.1f s' % (time.time() - t)); t = time.time()
    fails, n, v, d, _, us = run(pr, out, lambda u: re.search(pat, u), int(os.environ.get('VERIF_SEED', '1')), float(os.environ.get('SCALE', '1')))
    for f in fails: print(f['prog'], f['unit'], f['kind'], f['text'][:400])
    print('%d units %d cases %d valid %d distinct %d failing %.1f s' % (len(us), n, v, d, len(fails), time.time() - t))
