"""trusted contracts of the POSIX locks, shared by C16..C19

Each primitive is specified by its effect on ghost counters of the calling thread:
  acq     net number of acquisitions made since the call under contract began
  rel     number of releases
  refused a primitive that waits without time-out reported an error
  timed   a primitive that waits until a deadline gave up; dl = the deadline it was given (seconds, nanoseconds)
  busy    a primitive that does not wait was refused
  waited  a primitive that may wait was used"""
from .timelib import *

EX_TIME = [NORM, NOW]


def reset(st, **kw):
    g = st.ghost
    for k in ('acq', 'racq', 'wacq', 'rel'):
        g[k] = z3.IntVal(0)
    for k in ('refused', 'timed', 'busy', 'waited'):
        g[k] = z3.BoolVal(False)
    g['kind'] = None
    g['dl'] = None
    g.pop('now', None)


def prim(ex, st, p, kind, what):
    """the primitive at p: initialised, alive"""
    o = st.mem.get(p.base) if isinstance(p, P) and p.base is not None else None
    c = o.cells.get(p.off) if o is not None else None
    ok = c is not None and isinstance(c[1], Abs) and c[1].kind == kind
    if not ok:
        ex.require(st, 'precondition', False, '%s: the lock is initialised' % what)
        raise Unsupported('%s on something that is not an initialised %s' % (what, kind))
    if not o.alive or not c[1].live:
        ex.require(st, 'use-after-destruction', False, '%s: the lock exists' % what)
    return c[1]


def setprim(st, p, v, size):
    st.w(p.base).cells[p.off] = (size, v)


# ---- mutex attributes
def attr_init(ex, st, args, m, ins):
    setprim(st, args[0], Abs('mattr', live=True, type=0), 4)
    return [('ret', st, ex.th.const(32, 0))]


def attr_type(ex, st, args, m, ins):
    a = prim(ex, st, args[0], 'mattr', m.group(0))
    t = args[1].t
    if not isinstance(t, int):
        raise Unsupported('symbolic mutex type')
    setprim(st, args[0], a.up(type=t), 4)
    return [('ret', st, ex.th.const(32, 0))]


def attr_destroy(ex, st, args, m, ins):
    a = prim(ex, st, args[0], 'mattr', m.group(0))
    setprim(st, args[0], a.up(live=False), 4)
    return [('ret', st, ex.th.const(32, 0))]


def chksize(ex, st, p, n, what):
    o = st.mem.get(p.base)
    if o is None or not o.alive or (isinstance(o.size, int) and isinstance(p.off, int) and p.off + n > o.size):
        ex.require(st, 'bounds', False, '%s: room for the lock' % what)


def mutex_init(ex, st, args, m, ins):
    t = 0
    if isinstance(args[1], P) and args[1].base is not None:
        t = prim(ex, st, args[1], 'mattr', m.group(0)).type
    chksize(ex, st, args[0], 40, m.group(0))
    setprim(st, args[0], Abs('mutex', live=True, type=t, value=z3.IntVal(0)), 40)
    st.ghost['inits'] = st.ghost.get('inits', z3.IntVal(0)) + 1
    return [('ret', st, ex.th.const(32, 0))]


def rw_init(ex, st, args, m, ins):
    chksize(ex, st, args[0], 56, m.group(0))
    setprim(st, args[0], Abs('rwlock', live=True, type=0, value=z3.IntVal(0)), 56)
    st.ghost['inits'] = st.ghost.get('inits', z3.IntVal(0)) + 1
    return [('ret', st, ex.th.const(32, 0))]


def sem_init(ex, st, args, m, ins):
    chksize(ex, st, args[0], 32, m.group(0))
    setprim(st, args[0], Abs('sem', live=True, type=args[1].t if isinstance(args[1].t, int) else -1, value=z3.IntVal(0) + ex.th.U(args[2])), 32)
    st.ghost['inits'] = st.ghost.get('inits', z3.IntVal(0)) + 1
    return [('ret', st, ex.th.const(32, 0))]


KIND = {'pthread_mutex': 'mutex', 'pthread_rwlock': 'rwlock', 'sem': 'sem'}


def destroy(ex, st, args, m, ins):
    v = prim(ex, st, args[0], KIND[m.group(1)], m.group(0))
    setprim(st, args[0], v.up(live=False), 8)
    st.ghost['destroyed'] = st.ghost.get('destroyed', z3.IntVal(0)) + 1
    return [('ret', st, ex.th.const(32, 0))]


def acquire(ex, st, args, m, ins):
    fam, op = m.group(1), m.group(2)
    prim(ex, st, args[0], KIND[fam], m.group(0))
    semaphore = fam == 'sem'
    r = ex.th.fresh(ex.uniq('osres'), 32, True)
    st.assume(Or(r.t == 0, r.t == -1) if semaphore else And(r.t >= 0, r.t <= 133))
    ok = r.t == 0
    g = st.ghost
    d = z3.If(ok, z3.IntVal(1), z3.IntVal(0))
    g['acq'] = g['acq'] + d
    mode = 'r' if 'rdlock' in op else 'w'
    g[mode + 'acq'] = g[mode + 'acq'] + d
    if op.startswith('timed'):
        q = args[1]
        s, n = ex.th.S(ex.load(st, q, ir.Ty('int', w=64))), ex.th.S(ex.load(st, P(q.base, q.idx, q.off + 8), ir.Ty('int', w=64)))
        ex.require(st, 'precondition', Or(And(n >= 0, n < G), s < 0, And(s == 0, n < 0)), '%s: nanoseconds of the deadline in range' % m.group(0))
        # a second timed wait in the same call must keep the deadline of the first
        g['dlok'] = z3.BoolVal(True) if g['dl'] is None else And(g['dlok'], g['dl'][0] == s, g['dl'][1] == n)
        g['dl'] = (s, n)
        g['timed'] = Or(g['timed'], z3.Not(ok))
        g['waited'] = z3.BoolVal(True)
    elif op.startswith('try'):
        g['busy'] = Or(g['busy'], z3.Not(ok))
    else:
        g['refused'] = Or(g['refused'], z3.Not(ok))
        g['waited'] = z3.BoolVal(True)
    return [('ret', st, r)]


def release(ex, st, args, m, ins):
    fam = m.group(1)
    prim(ex, st, args[0], KIND[fam], m.group(0))
    g = st.ghost
    g['acq'], g['rel'] = g['acq'] - 1, g['rel'] + 1
    return [('ret', st, ex.th.const(32, 0))]


LOCKS = [
    (r'@?pthread_mutexattr_init', attr_init), (r'@?pthread_mutexattr_settype', attr_type), (r'@?pthread_mutexattr_destroy', attr_destroy),
    (r'@?pthread_mutex_init', mutex_init), (r'@?pthread_rwlock_init', rw_init), (r'@?sem_init', sem_init),
    (r'@?(pthread_mutex|pthread_rwlock|sem)_destroy', destroy),
    (r'@?(pthread_mutex)_((?:timed|try)?lock)', acquire), (r'@?(pthread_rwlock)_((?:timed|try)?(?:rd|wr)lock)', acquire), (r'@?(sem)_((?:timed|try)?wait)', acquire),
    (r'@?(pthread_mutex|pthread_rwlock)_(unlock)', release), (r'@?(sem)_(post)', release)]
EX = EX_TIME + LOCKS
YEAR = 365 * 86400


class Lk:
    """a constructed lock object: the state after the constructor is the class invariant, every operation is shown to preserve it"""
    def __init__(self, mod, name, cls, size, args=(), opts=None):
        h = self.h = H(mod, name, [], opts=opts, extra=EX)
        glob_zero(h, mod)
        reset(h.st)
        self.cls = cls
        self.p = h.obj('lock', None, h.off(size))
        sig = '' if not args else 'unsigned long'
        a = []
        for n in args:
            v = h.int(n, 64, False, 0, 2 ** 31 - 1)
            a.append(v)
            self.init = v.t
        outs = h.only_ret(h.call('%s::%s(%s)' % (cls, cls.split('::')[-1], sig), [self.p] + a, var='C1'))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.o = outs[0]
        self.ctor_ghost = dict(self.o.st.ghost)
        self.prims = [(b, off, c[1]) for b, ob in self.o.st.mem.items() for off, c in ob.cells.items() if isinstance(c[1], Abs) and c[1].kind in ('mutex', 'rwlock', 'sem')]
        self.st = self.o.st.fork() if hasattr(self.o.st, 'fork') else self.o.st
        reset(self.st)

    def check_ctor(self, kind):
        h = self.h
        h.post(self.o, 'exactly one OS lock is initialised', And(len(self.prims) == 1, self.ctor_ghost.get('inits', 0) == 1))
        for b, off, v in self.prims:
            h.post(self.o, 'the OS lock has the right kind and is alive', v.kind == kind and v.live and self.o.st.mem[b].alive)
        h.post(self.o, 'construction acquires nothing', And(self.o.st.ghost['acq'] == 0, self.o.st.ghost['rel'] == 0))

    def stamp(self, name, nonneg=False):
        h = self.h
        # built in the post-constructor state
        p = h.obj(name, None, 16)
        s, n = h.int(name + '.s', 64, True), h.int(name + '.n', 32, True)
        for st in (h.st, self.st):
            if name not in st.mem:
                st.mem[name] = h.st.mem[name]
            o = st.w(name)
            o.cells[0], o.cells[8] = (8, s), (4, n)
            st.assume(And(s.t >= -BIG // 4, s.t <= BIG // 4, normalised(s.t, n.t)))
        return p, s.t, n.t

    def run(self, meth, args=(), frame=True):
        h = self.h
        outs = h.only_ret(h.call(meth, [self.p] + list(args), st=self.st))
        if frame:
            for o in outs:
                h.frame(o, [], since=self.st)
        return outs


def acquired(h, o, mode=None):
    """exactly one acquisition if true is returned, none otherwise"""
    g = o.st.ghost
    r = b2i(h, o.val)
    h.post(o, 'true is returned exactly if the lock was acquired, once', And(Or(r == 0, r == 1), g['acq'] == r, g['rel'] == 0))
    if mode:
        h.post(o, 'the lock is acquired in the requested mode', g[mode + 'acq'] == g['acq'])
    return r


def blocking(h, o, r):
    h.post(o, 'false only if the system refused a wait without time-out', z3.Implies(r == 0, o.st.ghost['refused']))


def trying(h, o, r):
    h.post(o, 'false only if the lock was not available', z3.Implies(r == 0, o.st.ghost['busy']))
    h.post(o, 'trying never waits', z3.Not(o.st.ghost['waited']))


def until(h, o, r, goal):
    """gave up only at the deadline"""
    g = o.st.ghost
    h.post(o, 'no wait without time-out', z3.Not(g['refused']))
    h.post(o, 'false only if a wait until the deadline failed', z3.Implies(r == 0, g['timed']))
    if g['dl'] is None:
        h.post(o, 'a wait has a deadline', z3.Not(g['waited']))
        return
    h.post(o, 'the wait ends exactly at the requested time', And(g['dlok'], goal(*g['dl'])))


def rel_goal(o, s, n):
    now = o.st.ghost.get('now')
    if now is None:
        return lambda a, b: z3.BoolVal(False)
    base = value(*now)
    neg = Or(s < 0, And(s == 0, n < 0))
    return lambda a, b: value(a, b) == base + z3.If(neg, YEAR * G, value(s, n))


def scoped(mods, name, lcls, lsize, cls, size, sig, extra, mode=None):
    """construction, inspection and destruction of a scoped lock; the force loop has no termination obligation (it waits for the lock)"""
    k = Lk(mods['t'], name, lcls, lsize, opts={'term': False})
    h = k.h
    q = h.obj('scoped', None, h.off(size))
    k.st.mem['scoped'] = h.st.mem['scoped']
    force = h.int('force', 8, False, 0, 1)
    for c in (force.t >= 0, force.t <= 1):
        k.st.assume(c)
    ex = extra(h)
    for v in ex:
        for c in (v.t >= 0, v.t <= 1):
            k.st.assume(c)
    short = cls.split('::')[-1]
    pre = k.st
    for o in h.only_ret(h.call('%s::%s%s' % (cls, short, sig), [q, k.p] + ex + [as_bool(h, force)], st=k.st, var='C1')):
        g = o.st.ghost
        held = g['acq']
        h.post(o, 'construction acquires the lock at most once and releases nothing', And(Or(held == 0, held == 1), g['rel'] == 0))
        h.post(o, 'an enforced lock is held after construction', z3.Implies(force.t == 1, held == 1))
        h.post(o, 'not held only if the system refused', z3.Implies(held == 0, g['refused']))
        if mode:
            h.post(o, 'the lock is acquired in the requested mode', z3.If(ex[0].t == 0, g['racq'] == held, g['wacq'] == held))
        h.frame(o, [('scoped', None)], since=pre)
        mid = o.st
        for meth in ('isLocked() const', 'operator bool() const', 'IsLocked() const'):
            if cls + '::' + meth in mods['t'].bydem:
                for o2 in h.only_ret(h.call(cls + '::' + meth, [q], st=mid)):
                    h.post(o2, '%s tells whether the lock is held' % meth, b2i(h, o2.val) == held)
                    h.frame(o2, [], since=mid)
        for o2 in h.only_ret(h.call('%s::~%s()' % (cls, short), [q], st=mid, var='D1')):
            h.post(o2, 'destruction releases exactly what construction acquired', And(o2.st.ghost['acq'] == 0, o2.st.ghost['rel'] == held))
            h.frame(o2, [('scoped', None)], since=mid)
    return h


def as_bool(h, v):
    return I(1, v.t == 1)


def b2i(h, v):
    if isinstance(v.t, bool):
        return z3.IntVal(int(v.t))
    return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v.t) else h.u(v)
