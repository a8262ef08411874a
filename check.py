#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]  -- decides one property by deductive verification of /repo's current sources."""
import sys, os, time, json, importlib, multiprocessing as mp, traceback, tempfile, shutil, subprocess, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vcg import contract, ir, smt


def run_unit(a):
    spec_name, uname, mods, tier, budget = a[:5]
    smt.SCALE = a[5] if len(a) > 5 else 1
    t0 = time.time()
    res = {'unit': uname, 'obls': [], 'vac': [], 'error': None, 'functions': [], 'inlined': [], 'trusted': [], 'contracts_used': [],
           'loops': [], 'assumptions': [], 'bounded': None}
    try:
        spec = importlib.import_module('specs.' + spec_name)
        fn = dict(spec.UNITS)[uname]
        contract.DEADLINE = t0 + budget
        hs = fn(mods)
        if not isinstance(hs, (list, tuple)):
            hs = [hs]
        for h in hs:
            ob, vac = h.discharge(15000 if tier == 'thorough' else 8000)
            res['obls'] += ob
            res['vac'] += vac
            res['functions'] += h.called
            res['inlined'] += sorted(h.ex.inlined)
            res['trusted'] += sorted(h.ex.trusted)
            res['contracts_used'] += sorted(h.ex.contracts_used)
            res['loops'] += h.ex.loopinfo
            res['assumptions'] += h.assumptions
            if not ob:
                res['error'] = 'vacuous: no obligation was generated in ' + h.name
            if h.npost == 0:
                res['error'] = 'vacuous: no postcondition was generated in ' + h.name
    except ir.Unsupported as e:
        res['error'] = 'not decided: %s' % e
        res['tb'] = traceback.format_exc()[-1500:]
    except Exception as e:
        res['error'] = 'verifier error: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-3000:]
    res['time'] = time.time() - t0
    res['smt'] = dict(smt.STATS)
    return res


def unit_proc(q, a):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    q.put(run_unit(a))


def run_units(jobs, budget, nproc=8):
    """own little pool: a unit that hangs in the solver is killed and reported, never waited for"""
    ctx = mp.get_context('fork')
    results = {}
    pending = list(jobs)
    live = {}
    while pending or live:
        while pending and len(live) < nproc:
            a = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=unit_proc, args=(q, a))
            p.start()
            live[a[1]] = (p, q, time.time())
        done = []
        for n, (p, q, t) in live.items():
            try:
                results[n] = q.get(timeout=0.02)
                done.append(n)
                continue
            except Exception:
                pass
            if not p.is_alive() and q.empty():
                try:
                    results[n] = q.get(timeout=0.5)
                except Exception:
                    results[n] = {'unit': n, 'obls': [], 'vac': [], 'error': 'verifier process died', 'functions': [], 'inlined': [], 'trusted': [],
                                  'contracts_used': [], 'loops': [], 'assumptions': [], 'time': time.time() - t, 'smt': {}}
                done.append(n)
            elif time.time() - t > budget + 60:
                results[n] = {'unit': n, 'obls': [], 'vac': [], 'error': 'time budget exhausted', 'functions': [], 'inlined': [], 'trusted': [],
                              'contracts_used': [], 'loops': [], 'assumptions': [], 'time': time.time() - t, 'smt': {}}
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                done.append(n)
        for n in done:
            p = live.pop(n)[0]
            p.join(0.5)
    return [results[a[1]] for a in jobs]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
    verbose = '-v' in sys.argv or '-vv' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = importlib.import_module('specs.' + pid.lower())
    tmp = tempfile.mkdtemp(prefix='vcg_')
    rc = 2
    try:
        if '--native' in sys.argv:      # development aid: only the native search, on the current tree
            exe = build_native(spec.NATIVE, tmp)
            i = sys.argv.index('--native')
            r, txt = run_native(exe, ['search', str(seed), sys.argv[i + 1] if len(sys.argv) > i + 1 else '20'], 400, tmp)
            print(r, txt)
            sys.exit(1 if r else 0)
        rc = run(pid, tier, only, verbose, seed, t0, spec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) obligation=/(.*?)/ (.*)$', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run(pid, tier, only, verbose, seed, t0, spec, tmp):
    # front end: real sources -> IR, every run
    mods = {}
    from concurrent.futures import ThreadPoolExecutor

    def build(item):
        key, (src, extra) = item
        src = src if os.path.isabs(src) else (contract.repo() + '/src/icl_core/src/' + src if not src.startswith('tu/') else os.path.join(HERE, src))
        return key, contract.compile_ir(src, os.path.join(tmp, key + '.ll'), True, extra)
    tus = {k: (v if isinstance(v, tuple) else (v, ())) for k, v in spec.TUS.items()}
    with ThreadPoolExecutor(8) as tp:
        for k, m in tp.map(build, tus.items()):
            mods[k] = m
    tbuild = time.time() - t0
    budget = 420 if tier == 'thorough' else 200
    jobs = [('%s' % pid.lower(), n, mods, tier, budget) for n, f in spec.UNITS if not only or n == only]
    results = run_units(jobs, budget)
    def summary(results):
        failed = []
        errors = []
        total = disch = 0
        kinds = {}
        back = {}
        for r in results:
            if r['error']:
                errors.append((r['unit'], r['error']))
            for o in r['obls']:
                total += 1
                kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
                if o['status'] == 'valid':
                    disch += 1
                    back[o['backend']] = back.get(o['backend'], 0) + 1
                else:
                    failed.append((r['unit'], o))
            for v in r['vac']:
                if v['result'] == 'unsat':
                    errors.append((r['unit'], 'vacuous: ' + v['name']))
        kf = known_findings(pid)
        listed = []
        real = []
        for u, o in failed:
            hit = [d for rx, d in kf if rx.search(u + ' :: ' + o['name'] + ' :: ' + o['where'])]
            if hit:
                listed.append(hit[0])
            else:
                real.append((u, o))
        if total == 0:
            errors.append(('-', 'vacuous: no obligations at all'))
        return failed, errors, total, disch, kinds, back, listed, real
    failed, errors, total, disch, kinds, back, listed, real = summary(results)
    if verbose:
        for r in results:
            print('== %s  %.1fs  obligations %d error %s' % (r['unit'], r['time'], len(r['obls']), r['error']))
            if r.get('tb') and '-vv' in sys.argv:
                print(r['tb'])
            for l in r['loops']:
                print('   loop', l)
            for o in r['obls']:
                if o['status'] != 'valid' or '-vv' in sys.argv:
                    print('   %-8s %-14s %s  [%s] %s %.2fs' % (o['status'], o['kind'], o['name'], o['where'], o['model'] or '', o['time']))
            for v in r['vac']:
                if v['result'] != 'sat':
                    print('   cover', v)
    viol = 0
    rc = 0
    replay_path = None
    nofail = ''
    if real or errors:
        viol = 1
        rc = 1
        replay_path, found = replay(pid, spec, real, errors, tier, seed, tmp, results)
        bad = {u for u, o in real} | {u for u, e in errors}
        again = [j for j in jobs if j[1] in bad]
        if not found and again and time.time() - t0 < 420:
            # nothing fails in the real code: a proof may have run out of time (a machine under load), so it gets a second attempt with wider time limits
            second = run_units([j[:4] + (300, 3) for j in again], 300)
            best = {r['unit']: r for r in second}
            results = [best.get(r['unit'], r) for r in results]
            failed, errors, total, disch, kinds, back, listed, real = summary(results)
            if real or errors:
                replay_path, found = replay(pid, spec, real, errors, tier, seed, tmp, results, False)
            else:
                viol = rc = 0
                os.unlink(replay_path)
        nofail = '' if found else ' no-failing-input-found'
    wall = time.time() - t0
    fns = sorted({f for r in results for f in r['functions']})
    inl = sorted({f for r in results for f in r['inlined']} - set(fns))
    tru = sorted({f for r in results for f in r['trusted']})
    ass = list(getattr(spec, 'ASSUMPTIONS', []))
    for r in results:
        for a in r['assumptions']:
            if a not in ass:
                ass.append(a)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'python3-vt check.py %s (own VC generator over clang-18 LLVM IR of /repo; z3 %s, cvc5 fallback)' % (pid, __import__('z3').get_version_string()),
            'trusted_base': ['clang-18 front end and opt -passes=sroa (extraction of the IR that is verified)', 'vcg/ (VC generator written for this task)', 'z3, cvc5'] +
                            ['trusted contract: ' + contract.short(t) for t in tru],
            'obligations_by_kind': kinds, 'discharged_by_backend': back,
            'functions_under_contract': [contract.short(f) for f in fns],
            'functions_verified_inline': [contract.short(f) for f in inl],
            'units': [{'unit': r['unit'], 'obligations': len(r['obls']), 'wall_s': round(r['time'], 2), 'error': r['error']} for r in results],
            'loops': [{'function': contract.short(l[0]), 'rule': l[2], 'invariants_or_iterations': l[3]} for r in results for l in r['loops']],
            'solver_time_s': round(sum(r['smt'].get('time', 0) + r['smt'].get('cvc5_time', 0) for r in results), 2),
            'solver_queries': sum(r['smt'].get('queries', 0) + r['smt'].get('cvc5_queries', 0) for r in results),
            'vacuity_covers': sum(len(r['vac']) for r in results),
            'vacuity_covers_sat': sum(1 for r in results for v in r['vac'] if v['result'] == 'sat'),
            'bounded_parts': getattr(spec, 'BOUNDED', []),
            'samples': [o['name'] + ' [' + o['where'] + ']' for r in results for o in r['obls'] if o['kind'] == 'postcondition'][:12],
        },
        'assumptions': ass,
        'wall_s': round(wall, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for d in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    print('%s: %d obligations, %d discharged, %d failed, %d errors, %d functions under contract, %.1fs (front end %.1fs)' % (
        pid, total, disch, len(failed), len(errors), len(fns), wall, tbuild))
    for u, o in real[:20]:
        print('  FAILED [%s] %s: %s (%s) %s' % (u, o['kind'], o['name'], o['status'], o['model'] or ''))
    for u, e in errors[:20]:
        print('  ERROR [%s] %s' % (u, e))
    if rc == 1:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay_path, nofail))
    return rc


def replay(pid, spec, real, errors, tier, seed, tmp, results, search=True):
    """replay the verifier's counterexample on the real code; then search for a concrete failing history near the failed obligation"""
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % pid)
    out = ['property %s' % pid, 'failed obligations:']
    for u, o in real:
        out.append('  [%s] %s: %s at %s: %s; counterexample %s' % (u, o['kind'], o['name'], o['where'], o['status'], o['model']))
    for u, e in errors:
        out.append('  [%s] %s' % (u, e))
    found = False
    nat = getattr(spec, 'NATIVE', None)
    if nat and os.environ.get('VCG_NO_NATIVE') is None:
        try:
            exe = build_native(nat, tmp)
            runs = []
            for u, o in real:
                if o['model']:
                    runs.append(['model', u] + ['%s=%s' % kv for kv in sorted(o['model'].items())])
            seen = set()
            runs = [x for x in runs if not (tuple(x) in seen or seen.add(tuple(x)))][:10] + ([['search', str(seed), '90' if tier == 'thorough' else '40']] if search else [])
            for a in runs:
                r, txt = run_native(exe, a, 20 if a[0] == 'model' else (240 if tier == 'thorough' else 120), tmp)
                if r:
                    out.append('native replay on the real code: %s %s' % (os.path.basename(nat['src']), ' '.join(a)))
                    out.append(txt)
                    found = True
                    break
        except Exception as e:
            out.append('native replay not possible: %s' % e)
    if not found:
        out.append('no failing input found by the native replay/search')
        out.append('verifier output:')
        for r in results:
            if r['error']:
                out.append('[%s] %s\n%s' % (r['unit'], r['error'], r.get('tb', '')))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return path, found


def build_native(nat, tmp):
    exe = os.path.join(tmp, 'native')
    base = contract.repo() + '/src/icl_core/src/'
    flags = contract.DEFS + contract.COMP + contract.INC + ['-I' + base, '-I' + os.path.join(HERE, 'native'), '-msse', '-msse2', '-O1', '-g', '-w', '-std=gnu++17',
                                                            '-fno-access-control'] + nat.get('flags', [])
    from concurrent.futures import ThreadPoolExecutor
    srcs = [os.path.join(HERE, nat['src'])] + [base + s for s in nat.get('sources', [])]

    def cc(i):
        o = os.path.join(tmp, 'n%d.o' % i)
        p = subprocess.run(['g++'] + flags + ['-c', srcs[i], '-o', o], capture_output=True, text=True, timeout=300)
        if p.returncode:
            raise RuntimeError('native build failed: ' + p.stderr[-1500:])
        return o
    with ThreadPoolExecutor(8) as tp:
        objs = list(tp.map(cc, range(len(srcs))))
    p = subprocess.run(['g++'] + objs + ['-o', exe] + nat.get('flags', []) + nat.get('libs', []), capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise RuntimeError('native link failed: ' + p.stderr[-1500:])
    return exe


def run_native(exe, args, timeout, tmp):
    """a run fails when the harness says so (exit 1 + FAIL line), crashes or hangs"""
    w = os.path.join(tmp, 'scratch')
    os.makedirs(w, exist_ok=True)
    try:
        p = subprocess.run([exe] + args, capture_output=True, timeout=timeout, cwd=w, env={'PATH': '/usr/bin:/bin', 'TZ': 'UTC', 'HOME': w, 'LC_ALL': 'C'})
        txt = p.stdout.decode('latin1')[-4000:] + p.stderr.decode('latin1')[-3000:]
        if p.returncode == 1 and 'FAIL' in txt:
            return True, txt
        if p.returncode < 0 or p.returncode in (134, 139):
            return True, 'crashed with status %d\n%s' % (p.returncode, txt)
        return False, txt
    except subprocess.TimeoutExpired as e:
        last = (e.stdout or b'').decode('latin1')[-2000:]
        return True, 'does not terminate within %ds\n%s' % (timeout, last)


if __name__ == '__main__':
    main()
