"""Back ends: z3 (python API) first, cvc5 as the second opinion on anything z3 leaves open."""
import time, subprocess, os, tempfile
import z3

STATS = {'queries': 0, 'time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0}
FEAS_MS = 400
SCALE = 1          # factor on all time limits (a second attempt, on a machine under load)
AUTO = False       # also try e-matching with automatic configuration (a specification may switch it on)


def _solver(ms, seed=0):
    s = z3.Solver()
    s.set('timeout', int(ms * SCALE))
    s.set('random_seed', seed)
    return s


def feasible(pc, ms=None):
    """False only when pc is certainly unsatisfiable."""
    t = time.time()
    s = _solver(ms or FEAS_MS)
    if any(has_quant(p) for p in pc):
        # e-matching only: an unknown counts as feasible
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    for p in pc:
        s.add(p)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    return r != z3.unsat


def check_sat(pc, ms=5000):
    t = time.time()
    s = _solver(ms)
    for p in pc:
        s.add(p)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    return (str(r), s.model() if r == z3.sat else None)


def cvc5_check(smt2, ms):
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt2)
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '--full-saturate-quant', nm], capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(nm)
    STATS['cvc5_queries'] += 1
    STATS['cvc5_time'] += time.time() - t
    return out if out in ('sat', 'unsat') else 'unknown'


_Q = {}


def has_quant(e):
    if isinstance(e, bool):
        return False
    k = e.get_id()
    c = _Q.get(k)
    if c is not None and c[0].eq(e):
        return c[1]
    seen = set()
    st = [e]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _Q[k] = (e, r)
    return r


def valid(pc, goal, ms=4000, use_cvc5=False, want_model=False, quick=False):
    """('valid'|'invalid'|'unknown', model, backend)"""
    g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    if z3.is_true(g):
        return ('valid', None, 'simplify')
    t = time.time()
    if has_quant(g) or any(has_quant(p) for p in pc):
        if not has_quant(g):
            # the quantifier-free hypotheses alone may do
            s0 = _solver(min(ms, 700))
            for p in pc:
                if not has_quant(p):
                    s0.add(p)
            s0.add(z3.Not(g))
            STATS['queries'] += 1
            if s0.check() == z3.unsat:
                STATS['time'] += time.time() - t
                return ('valid', None, 'z3')
        # e-matching alone decides most quantified goals at once
        for auto in ((False, True) if AUTO else (False,)):
            s0 = z3.Solver()
            s0.set('timeout', int(SCALE * min(ms, 200 if auto else 1500)))
            s0.set('smt.mbqi', False)
            if not auto:
                s0.set('auto_config', False)
            for p in pc:
                s0.add(p)
            s0.add(z3.Not(g))
            r = s0.check()
            STATS['queries'] += 1
            if r == z3.unsat:
                STATS['time'] += time.time() - t
                return ('valid', None, 'z3')
        if quick:
            STATS['time'] += time.time() - t
            return ('unknown', None, 'z3')
    s = _solver(ms)
    for p in pc:
        s.add(p)
    s.add(z3.Not(g))
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    if r == z3.unsat:
        return ('valid', None, 'z3')
    if r == z3.sat:
        return ('invalid', s.model() if want_model else None, 'z3')
    if use_cvc5 and not has_quant(g) and not any(has_quant(p) for p in pc):
        # every atom decided, not only the relevant ones
        t = time.time()
        s1 = _solver(min(ms, 8000))
        s1.set('smt.relevancy', 0)
        for p in pc:
            s1.add(p)
        s1.add(z3.Not(g))
        r1 = s1.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r1 == z3.unsat:
            return ('valid', None, 'z3')
    if use_cvc5:
        # retry with another z3 configuration, then cvc5
        t = time.time()
        s2 = z3.Solver()
        s2.set('timeout', int(ms * SCALE))
        s2.set('smt.mbqi', False)
        s2.set('random_seed', 7)
        for p in pc:
            s2.add(p)
        s2.add(z3.Not(g))
        r2 = s2.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r2 == z3.unsat:
            return ('valid', None, 'z3')
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            r3 = cvc5_check(txt, int(ms * 2 * SCALE))
        except Exception:
            r3 = 'unknown'
        if r3 == 'unsat':
            return ('valid', None, 'cvc5')
    return ('unknown', None, 'z3')
