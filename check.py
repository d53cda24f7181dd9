#!/usr/bin/env python3
"""Decides one property: python3 check.py <property id> [--tier quick|thorough]

Compiles the harnesses of the property against /repo's current headers to LLVM
IR, executes the IR symbolically (build/symx) for every configuration listed in
props.py, and replays every counterexample the solver returns on the same code
compiled natively with the installed PETSc. Exit 0: held on everything explored
(known findings are printed). Exit 1: VIOLATION property=<id> replay=<path>.
Exit 2: nothing could be decided."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
PETSC = '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real'
sys.path.insert(0, HERE)
import props

BUILTIN = {'memory', 'uninitialised', 'exception', 'assert', 'abort', 'int-div-by-zero', 'div-by-zero',
           'collective', 'recursion', 'unreachable', 'trap', 'nontermination'}
DEFS = ['-DPETSC_HAVE_BROKEN_RECURSIVE_MACRO', '-include', '/opt/vp/support/petsc_compat.h', '-I' + HERE + '/harness',
        '-I' + REPO + '/cafes', '-I' + REPO + '/external_packages/qhull', '-I' + PETSC + '/include', '-I/usr/include/hdf5/openmpi']
T0 = time.time()
PROCS = set()


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout=600, env=None, cwd=None, mem=None):
    def lim():
        os.setpgid(0, 0)
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, preexec_fn=lim,
                         stdin=subprocess.DEVNULL, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        out = ''
        for sig in (15, 9):  # mpirun ends its processes when it is asked to end
            try:
                os.killpg(p.pid, sig)
            except ProcessLookupError:
                pass
            try:
                out, _ = p.communicate(timeout=5 if sig == 15 else 60)
                break
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        return 124, (out or '') + '\ntimed out'


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        fs = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff)
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock('engine'):
        rc, out = run(['make', '-C', HERE + '/engine', '-j6', '-s'], timeout=900)
    if rc:
        raise RuntimeError('engine build failed:\n' + out[-3000:])


_showme = None


def mpi_flags():
    global _showme
    if _showme is None:
        _showme = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split()
    return _showme


def stale(f):
    """another run, of another tree, may still need it"""
    try:
        if time.time() - os.stat(f).st_mtime > 1800:
            os.unlink(f)
    except OSError:
        pass


def clang(src, out, inputs):
    """source -> LLVM IR; kept by content, so an edit anywhere recompiles"""
    flags = ['-std=gnu++14', '-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-access-control'] \
        + DEFS + mpi_flags() + ['-gline-tables-only', '-w', '-c', '-emit-llvm']
    key = digest(inputs, ' '.join(flags))
    tgt = os.path.join(BUILD, 'bc', out + '-' + key + '.bc')
    with Lock(out):
        if not os.path.exists(tgt):
            os.makedirs(os.path.dirname(tgt), exist_ok=True)
            for f in os.listdir(os.path.dirname(tgt)):
                if re.fullmatch(re.escape(out) + '-[0-9a-f]{24}.bc', f):
                    stale(os.path.join(os.path.dirname(tgt), f))
            tmp = tgt + '.%d' % os.getpid()
            cc = 'clang-18' if src.endswith('.c') else 'clang++-18'
            if src.endswith('.c'):
                rc, o = run([cc, '-c', '-emit-llvm', src, '-o', tmp])
            else:
                rc, o = run([cc] + flags + [src, '-o', tmp])
            if rc:
                raise RuntimeError('cannot compile %s:\n%s' % (src, '\n'.join(o.splitlines()[:40])))
            os.rename(tmp, tgt)
    return tgt


def build_bc(h):
    hd = HERE + '/harness'
    hdrs = [hd + '/' + f for f in sorted(os.listdir(hd)) if f.endswith('.h')]
    a = clang(f'{hd}/{h}.cpp', 'h_' + h, [f'{hd}/{h}.cpp', REPO + '/cafes'] + hdrs)
    b = clang(HERE + '/models/petsc_model.cpp', 'model', [HERE + '/models/petsc_model.cpp'] + hdrs)
    c = clang(HERE + '/models/mpi_globals.c', 'globals', [HERE + '/models/mpi_globals.c'])
    e = clang(HERE + '/models/stdcxx.cpp', 'stdcxx', [HERE + '/models/stdcxx.cpp'])
    tgt = os.path.join(BUILD, 'bc', 'l_%s-%s.bc' % (h, digest([], a + b + c + e)))
    with Lock('l_' + h):
        if not os.path.exists(tgt):
            for f in os.listdir(os.path.dirname(tgt)):
                if re.fullmatch('l_' + re.escape(h) + '-[0-9a-f]{24}.bc', f):
                    stale(os.path.join(os.path.dirname(tgt), f))
            tmp = tgt + '.%d' % os.getpid()
            rc, o = run(['/usr/bin/llvm-link', a, b, c, e, '-o', tmp])
            if rc:
                raise RuntimeError('llvm-link: ' + o)
            os.rename(tmp, tgt)
    return tgt


def build_native(h, san):
    hd = HERE + '/harness'
    hdrs = [hd + '/' + f for f in sorted(os.listdir(hd)) if f.endswith('.h')]
    fl = ['-std=c++14', '-O1', '-g', '-w', '-fno-access-control', '-ffp-contract=off'] + DEFS
    if san:
        fl += ['-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-DSTRICT_ARRAYS']
    key = digest([f'{hd}/{h}.cpp', hd + '/replay.cpp', REPO + '/cafes'] + hdrs, ' '.join(fl))
    out = 'n_%s%s' % (h, '_san' if san else '')
    tgt = os.path.join(BUILD, 'nat', out + '-' + key)
    with Lock(out):
        if not os.path.exists(tgt):
            os.makedirs(os.path.dirname(tgt), exist_ok=True)
            for f in os.listdir(os.path.dirname(tgt)):
                if re.fullmatch(re.escape(out) + '-[0-9a-f]{24}', f):
                    stale(os.path.join(os.path.dirname(tgt), f))
            tmp = tgt + '.%d' % os.getpid()
            rc, o = run(['bash', '-c', '. /opt/vp/support/env.sh >/dev/null 2>&1; exec "$@"', 'x', 'mpicxx'] + fl +
                        [f'{hd}/{h}.cpp', hd + '/replay.cpp', '-o', tmp, '-L' + PETSC + '/lib', '-Wl,-rpath,' + PETSC + '/lib', '-lpetsc_real', '-ldl'])
            if rc:
                raise RuntimeError('cannot build the native replay of %s:\n%s' % (h, '\n'.join(o.splitlines()[:40])))
            os.rename(tmp, tgt)
    return tgt


def native(h, r, path, san=False, valgrind=False, timeout=90):
    exe = build_native(h, san)
    np = r.get('np', 1)
    env = dict(os.environ, SX_CFG=' '.join(f'{k}={v}' for k, v in cfg_of(r).items()), SX_REPLAY=path,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_odr_violation=0', UBSAN_OPTIONS='print_stacktrace=1',
               OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    cmd = ['valgrind', '-q', '--error-limit=no', exe] if valgrind else [exe]
    scratch = os.path.join(BUILD, 'scratch', '%d-%s' % (os.getpid(), hashlib.md5((h + path + str(san) + str(valgrind)).encode()).hexdigest()[:8]))
    os.makedirs(scratch, exist_ok=True)
    try:
        return run(['bash', '-c', '. /opt/vp/support/env.sh >/dev/null 2>&1; exec "$@"', 'x', 'mpirun', '--oversubscribe', '-np', str(np)] + cmd,
                   timeout=timeout, env=env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


META = ('h', 't', 'reach', 'paths', 'tr', 'id', 'np_', 'viol', 'slow')


def cfg_of(r):
    return {k: v for k, v in r.items() if k not in META}


def name_of(r):
    return r['h'] + ''.join('.%s%s' % (k, v) for k, v in sorted(cfg_of(r).items()))


def confirm(h, r, label, path):
    """does the counterexample show on the real code?"""
    log = []
    if label not in BUILTIN:
        rc, o = native(h, r, path)
        log.append(o)
        if re.search(r'REPLAY-FAIL %s ' % re.escape(label), o):
            return 'REPLAY-ASSUME' not in o, '\n'.join(log)
        if rc not in (0, 4, 5) and 'REPLAY-DONE' not in o:  # died before the assertion
            return rc != 124 and 'REPLAY-BADSIZE' not in o, '\n'.join(log)
        return False, '\n'.join(log)
    if label == 'uninitialised':
        rc, o = native(h, r, path, valgrind=True, timeout=400)
        log.append(o[-6000:])
        ok = any('uninitialised' in b and re.search(r'cafes/|harness/|%s\.cpp' % h, b) for b in re.split(r'==\d+== \n', o))
        return ok, '\n'.join(log)
    if label == 'nontermination':
        rc, o = native(h, r, path, timeout=45)
        log.append(o[-3000:])
        return rc == 124 and 'REPLAY-BADSIZE' not in o, '\n'.join(log)
    if label in ('recursion',):
        rc, o = native(h, r, path, timeout=60)
        log.append(o[-3000:])
        return rc not in (0, 3, 4, 5), '\n'.join(log)
    rc, o = native(h, r, path, san=True)
    log.append(o[-6000:])
    if re.search(r'AddressSanitizer|runtime error|REPLAY-EXCEPTION|Assertion .* failed|terminate called|Floating point exception|SIGSEGV|SIGABRT|Segmentation', o):
        return True, '\n'.join(log)
    if label == 'collective' and rc == 124:
        return True, '\n'.join(log)
    rc, o = native(h, r, path)
    log.append(o[-3000:])
    return ('REPLAY-DONE' not in o and rc not in (0, 4, 5)) or (label == 'collective' and rc == 124), '\n'.join(log)


def load_known():
    out = []
    f = HERE + '/KNOWN_FINDINGS'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) harness=(\S+) label=(\S+)((?: (?:where|tag|cfg)=\S+)*) :: (.*)', l)
            if m:
                k = dict(property=m[1], harness=m[2], label=m[3], text=m[5].strip(), cfg={})
                for kv in m[4].split():
                    a, b = kv.split('=', 1)
                    if a == 'cfg':
                        k['cfg'] = dict(x.split('=') for x in b.split(','))
                    else:
                        k[a] = b
                out.append(k)
    return out


def known(kn, pid, r, v):
    for k in kn:
        if k['harness'] != r['h'] or k['label'] != v['label'] or k['property'] not in (pid, '*'):
            continue
        if 'where' in k and k['where'] not in v.get('stack', '') + v.get('detail', ''):
            continue
        if 'tag' in k and not re.fullmatch(k['tag'], re.sub(r'^tag ', '', v.get('detail', '').split(' at ')[0])):
            continue
        if any(str(cfg_of(r).get(a, '')) != b for a, b in k['cfg'].items()):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='substring of a run name')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[a.prop]
    budget = a.budget or (600 if tier == 'quick' else 7200)
    runs = list(P['quick'])
    if tier == 'thorough':
        runs += P.get('thorough', [])
    if a.only:
        runs = [r for r in runs if a.only in name_of(r)]
    for r in runs:
        r['id'] = name_of(r)
    labels = re.compile(P.get('labels', '.*'))
    hs = sorted({r['h'] for r in runs})
    work = os.path.join(BUILD, 'work', a.prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    pool = cf.ThreadPoolExecutor(8)
    eng = pool.submit(build_engine)
    bcs = {h: pool.submit(build_bc, h) for h in hs}
    undecided, broken = [], {}
    for h in hs:
        try:
            bcs[h] = bcs[h].result()
        except RuntimeError as e:
            broken[h] = str(e)
            undecided.append('harness %s does not compile against the current tree' % h)
            say('UNDECIDED %s: %s' % (h, str(e)[:1500]))
    eng.result()
    nat = {h: pool.submit(build_native, h, False) for h in hs if h not in broken} if P.get('trace', True) else {}

    def one(r):
        left = budget - (time.time() - T0) - 60
        if left < 5:
            return r, None, 'not started: no time left'
        out = os.path.join(work, r['id'] + '.json')
        t = min(r.get('t', 150 if tier == 'quick' else 900), left)
        cmd = [BUILD + '/symx', bcs[r['h']], '--out', out, '--max-time', str(t), '--traces', os.path.join(work, r['id'] + '.tr'), str(r.get('tr', 1))]
        if 'paths' in r:
            cmd += ['--max-paths', str(r['paths'])]
        if 'slow' in r:
            cmd += ['--slow-ms', str(r['slow'])]
        for k, v in cfg_of(r).items():
            cmd += ['--cfg', f'{k}={v}']
        rc, o = run(cmd, timeout=t + 120, mem=6 << 30)
        if os.path.exists(out):
            try:
                return r, json.load(open(out)), o
            except ValueError:
                pass
        return r, None, 'exit %d %s' % (rc, o[-1500:])

    todo = sorted([r for r in runs if r['h'] not in broken], key=lambda r: -r.get('cost', r.get('t', 0)))
    results = list(pool.map(one, todo))
    kn = load_known()
    tot = dict.fromkeys(['paths', 'infeasible', 'forks', 'steps', 'asserts', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'fallback'], 0)
    solver = 0.
    maxq = 0.
    lab, funcs, decided, perrun, cand = {}, set(), {}, [], []
    insn = 0
    for r, j, o in results:
        if j is None:
            undecided.append('%s: %s' % (r['id'], o))
            say('UNDECIDED %s: %s' % (r['id'], o))
            continue
        for k in tot:
            tot[k] += j.get(k, 0)
        solver += j['solver_s']
        maxq = max(maxq, j['max_query_s'])
        insn = max(insn, j.get('cafes_instructions', 0))
        funcs.update(j['functions'])
        for k, v in j['decided_by'].items():
            decided[k] = decided.get(k, 0) + v
        mine = {k: v for k, v in j['labels'].items() if labels.fullmatch(k)}
        for k, v in mine.items():
            lab[k] = lab.get(k, 0) + v
        viol = [v for v in j['violations'] if v['label'] in BUILTIN or labels.fullmatch(v['label'])]
        for v in viol:
            cand.append((r, v))
        miss = [x for x in r.get('reach', ()) if x not in j['reached']]
        notes = list(j['inconclusive']) + list(j['cuts'])
        if miss and not viol:
            undecided.append('%s: never reached %s' % (r['id'], ', '.join(miss)))
        if not mine and not viol:
            undecided.append('%s: no assertion of this property was met' % r['id'])
        for n in notes:
            undecided.append('%s: %s' % (r['id'], n))
        if miss or notes:
            say('UNDECIDED %s: %s' % (r['id'], '; '.join(notes + ['not reached: ' + m for m in miss])[:600]))
        perrun.append(dict(run=r['id'], paths=j['paths'], steps=j['steps'], assertions=sum(mine.values()), queries=j['queries'],
                           unsat=j['unsat'], sat=j['sat'], unknown=j['unknown'], wall_s=round(j['wall_s'], 2), solver_s=round(j['solver_s'], 2)))
        if a.v:
            say(r['id'], perrun[-1])
    # ---- counterexamples
    vdir = os.path.join(HERE, 'evidence', a.prop + '.replay')
    shutil.rmtree(vdir, ignore_errors=True)
    groups = {}
    for r, v in cand:
        k = known(kn, a.prop, r, v)
        key = (r['h'], v['label'], k['text'] if k else None)
        groups.setdefault(key, []).append((r, v, k))
    violations, found, unconfirmed, done = [], [], [], []

    def settle(item):
        key, lst = item
        tries = []
        for n, (r, v, k) in enumerate(sorted(lst, key=lambda x: x[0].get('np', 1))[:6]):
            if time.time() - T0 > (300 if done else budget + 30):
                break
            os.makedirs(vdir, exist_ok=True)
            path = os.path.join(vdir, re.sub(r'[^\w.-]', '_', '%s.%s.%d%s' % (r['id'], v['label'], n, '.known' if k else '')) + '.txt')
            with open(path, 'w') as f:
                f.write('# property %s, label %s, %s\n# %s\n# harness %s, %d process(es), SX_CFG="%s"\n' % (
                    a.prop, v['label'], v['detail'][:300], v.get('stack', '')[:300].replace('\n', ' '), r['h'], r.get('np', 1), ' '.join(f'{x}={y}' for x, y in cfg_of(r).items())))
                f.write('# run: %s/replay.sh %s\n' % (HERE, path))
                for x, y in v['model'].items():
                    f.write('V %s %s\n' % (x, y))
            try:
                ok, log = confirm(r['h'], r, v['label'], path)
            except RuntimeError as e:
                ok, log = False, str(e)
            with open(path + '.log', 'w') as f:
                f.write(log)
            tries.append((ok, path, r, v, k))
            if ok:
                if not k:
                    done.append(key)
                return key, tries[-1]
        return key, (tries[-1] if tries else None)

    for key, t in cf.ThreadPoolExecutor(3).map(settle, groups.items()):
        if t is None:
            undecided.append('%s %s: counterexample not replayed, no time left' % key[:2])
            continue
        ok, path, r, v, k = t
        if not ok:
            unconfirmed.append('%s: the solver reports %s (%s) but it does not show natively, see %s' % (r['id'], v['label'], v['detail'][:160], path))
        elif k:
            found.append(k)
            say('KNOWN-FINDING: property=%s %s' % (a.prop, k['text']))
        else:
            violations.append(path)
            say('counterexample: %s label=%s %s' % (r['id'], v['label'], v['detail'][:300]))
            say('VIOLATION property=%s replay=%s' % (a.prop, path))
    for u in unconfirmed:
        say('UNDECIDED ' + u)
        undecided.append(u)
    # ---- the model against the installed PETSc: predicted path values, natively
    tr_ok = tr_bad = tr_paths = 0
    jobs, hung = [], []
    for r, j, o in results:
        if violations:  # the code is broken: no need to compare the model with it
            break
        if j is None or not P.get('trace', True):
            continue
        for n in range(1, r.get('tr', 1) + 1):
            f = os.path.join(work, r['id'] + '.tr%d.txt' % n)
            if os.path.exists(f):
                jobs.append((r, f))
    lim = 16 if tier == 'quick' else 200
    step = max(1, len(jobs) // lim)
    jobs = jobs[::step][:lim]

    def tr(jb):
        if time.time() - T0 > budget or len(hung) > 1:
            return jb, None
        try:
            nat[jb[0]['h']].result()
            o = native(jb[0]['h'], jb[0], jb[1])
            if o[0] == 124:
                hung.append(jb)
            return jb, o
        except RuntimeError as e:
            return jb, (1, str(e))
    samples = []
    for jb, res in cf.ThreadPoolExecutor(4).map(tr, jobs):
        if res is None:
            continue
        m = re.findall(r'REPLAY-DONE fails (\d+) assumes (\d+) traces_ok (\d+) traces_bad (\d+)', res[1])
        if not m:
            say('UNDECIDED native run of %s: %s' % (jb[0]['id'], res[1][-300:]))
            undecided.append('%s: the native run of a path did not finish' % jb[0]['id'])
            continue
        okv, bad = sum(int(x[2]) for x in m), sum(int(x[3]) for x in m)
        tr_ok += okv
        tr_bad += bad
        if okv and not bad:
            tr_paths += 1
            if len(samples) < 4:
                samples.append(dict(run=jb[0]['id'], inputs=[l.strip() for l in open(jb[1]) if l.startswith('V ')][:12], predicted_values_confirmed=okv))
        if bad and not violations:
            say('UNDECIDED %s: %d values predicted by the symbolic run differ natively' % (jb[0]['id'], bad))
            undecided.append('%s: %d values predicted by the symbolic run differ from the native run' % (jb[0]['id'], bad))
    import props as _p
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(violations),
              assumptions=_p.ASSUMPTIONS + P.get('assumptions', []),
              coverage=dict(
                  states=tot['paths'] + tot['infeasible'], transitions=tot['steps'], traces_validated_against_impl=tr_paths,
                  samples=samples or [dict(run=x['run']) for x in perrun[:3]],
                  what='symbolic execution of the LLVM IR of the current headers; states: symbolic paths followed to an end, transitions: IR instructions executed',
                  forks=tot['forks'], assertions_met=lab, solver_queries=tot['queries'], unsat=tot['unsat'], sat=tot['sat'], unknown=tot['unknown'],
                  solver_s=round(solver, 2), longest_query_s=round(maxq, 3), decided_by=decided, cached_queries=tot['cached'],
                  functions_encoded=sorted(funcs), cafes_ir_instructions=insn, predicted_values_confirmed_natively=tr_ok, predicted_values_differing=tr_bad,
                  bounds=P['bounds'], outside_bounds=P.get('outside', ''), runs=perrun, undecided=undecided,
                  known_findings=sorted({k['text'] for k in found}), replays=violations))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % a.prop, 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s %s: %d runs, %d paths, %d assertions met, %d queries (%d unsat, %d sat, %d unknown) in %.1f s of solver time, %d native traces agree, %.0f s' % (
        a.prop, tier, len(perrun), tot['paths'], sum(lab.values()), tot['queries'], tot['unsat'], tot['sat'], tot['unknown'], solver, tr_paths, time.time() - T0))
    if violations:
        return 1
    if not perrun or not sum(lab.values()):
        say('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
