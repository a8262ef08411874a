"""C21 life cycle of a thread object

The thread of execution and the controlling thread are verified against each other by rely/guarantee. The sequence of shared effects of the thread of execution
(flag writes, mutex operations, begin and end of the client's work) is extracted from its own code by symbolic execution on every run; every access of the
controlling thread to a shared flag, every lock, sleep and clock call may happen after any number of further steps of that sequence."""
from .threadlib import *
from . import threadlib
import re

TUS = {'t': 'tu/threadlife.cpp', 'l': 'tu/logthreadlife.cpp'}
NATIVE = {'src': 'native/threadlife.cpp', 'sources': ['icl_core_thread/%s.cpp' % n for n in ('Thread', 'ThreadImplPosix', 'Mutex', 'MutexImplPosix', 'Logging')]
          + ['icl_core_logging/%s.cpp' % n for n in ('FileLogOutput', 'LogLevel', 'LogOutputStream', 'LogStream', 'Logging', 'LoggingManager', 'ScopedSemaphore', 'Semaphore', 'SemaphoreImplPosix', 'StdErrorLogOutput', 'StdLogOutput', 'Thread', 'ThreadImplPosix', 'ThreadStream', 'UdpLogOutput', 'stream_operators_impl_posix')]
          + ['icl_core_config/%s.cpp' % n for n in ('AttributeTree', 'Config', 'ConfigIterator', 'ConfigManager', 'ConfigParameter', 'ConfigPositionalParameter', 'GetoptParameter', 'GetoptParser', 'GetoptPositionalParameter')]
          + ['icl_core/%s.cpp' % n for n in ('EnumHelper', 'Noncopyable', 'StringHelper', 'TimeBase', 'TimeSpan', 'TimeStamp', 'os_fs', 'os_lxrt', 'os_posix_fs', 'os_posix_hacks', 'os_posix_mem', 'os_posix_string', 'os_posix_thread', 'os_posix_time', 'os_string')],
          'flags': ['-Wl,-export-dynamic'], 'libs': ['-lpthread', '-ldl', '-ltinyxml', '-lz', '-lboost_regex', '-lboost_filesystem', '-lboost_system']}
ASSUMPTIONS = ['one controlling thread at a time starts, waits for, joins or destroys a thread object, and it is not the thread itself; forced cancellation is excluded',
               'POSIX threads, mutexes, sleeping and the clock are trusted contracts; the flags are read and written as written in the source (sequential consistency)',
               'the client function may do anything except ending the thread or using the life-cycle operations of its own object; logging and std::string change only their own objects',
               'waiting for the system to schedule the started thread has no termination obligation']
T = 'icl_core::thread::Thread'
FLAGS = ('execute', 'finished', 'joined', 'starting')


# ---- std::string as an opaque object, logging without effect on the verified objects
def s_ctor(ex, st, args, m, ins):
    st.w(args[0].base).cells[args[0].off] = (32, Abs('string'))
    return [('ret', st, None)]


def s_self(ex, st, args, m, ins):
    return [('ret', st, args[0])]


def s_none(ex, st, args, m, ins):
    return [('ret', st, None)]


def s_cstr(ex, st, args, m, ins):
    return [('ret', st, ex.new_arr(st, ex.uniq('@cstr'), 1, ex.th.fresh(ex.uniq('len'), 64).t, {}, ro=True))]


STRING = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
OPAQUE = [
    (STRING + r'::basic_string\(.*\)', s_ctor), (STRING + r'::basic_string<.*>\(.*\)', s_ctor), (STRING + r'::~basic_string\(\)', s_none),
    (STRING + r'& ?' + STRING + r'::operator(?:\+)?=(?:<.*>)?\(.*\)', s_self), (STRING + r'::operator=\(.*\)', s_self), (STRING + r'::(?:assign|append|operator\+=)(?:<.*>)?\(.*\)', s_self),
    (STRING + r' std::operator\+<.*>\(.*\)', s_ctor), (STRING + r'::(?:c_str|data)\(\) const', s_cstr),
    (r'@?v?snprintf|icl_core::os(?:::hidden_posix)?::snprintf\(.*\)', lambda ex, st, args, m, ins: [('ret', st, ex.th.fresh(ex.uniq('printed'), 32, True))]),
    (r'.*icl_core::thread::IclCoreThread::instance.*', lambda ex, st, args, m, ins: [('ret', st, ex.new_obj(st, ex.uniq('@log'), None, 8))]),
    (r'(?:bool )?icl_core::logging::.*(?:isActive|isSet)\(.*\)(?: const)?', lambda ex, st, args, m, ins: [('ret', st, I(1, z3.Bool('logging.active')))]),
]


def log_any(ex, st, args, m, ins):
    """logging: no effect on the objects under contract; functions that yield a stream yield some stream"""
    if ins.ty is not None and ins.ty.k == 'ptr':
        return [('ret', st, args[0] if args and isinstance(args[0], P) else ex.new_obj(st, ex.uniq('@log'), None, 8))]
    if ins.ty is not None and ins.ty.k == 'int':
        return [('ret', st, ex.th.fresh(ex.uniq('log'), ins.ty.w) if ins.ty.w > 1 else I(1, z3.Bool('logging.active')))]
    return [('ret', st, None)]


LOGGING = [(r'(?:.*[ :&*])?icl_core::logging::(?:hidden::)?(?:LogStream|ThreadStream|LoggingManager|operator<<|endl|flush).*', log_any), (r'.*icl_core::logging::ThreadStream& .*', log_any)]


def clock(ex, st, args, m, ins):
    r = libc_clock(ex, st, args, m, ins)
    st.ghost.setdefault('first', st.ghost['now'])
    return r


def abs_timeout(ex, st, args, m, ins):
    """contract of the conversion of a relative limit, discharged by the unit 'relative limits'"""
    p = args[0]
    S, N = ex.th.S(ex.load(st, p, ir.Ty('int', w=64))), ex.th.S(ex.load(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=32)))
    ex.require(st, 'precondition', And(S >= -BIG // 4, S <= BIG // 4, normalised(S, N)), 'relative limit: normalised and within range')
    c, n = ex.th.fresh(ex.uniq('now.sec'), 64, True), ex.th.fresh(ex.uniq('now.sub'), 64, True)
    st.assume(And(c.t >= 0, c.t <= 2 ** 61, n.t >= 0, n.t < G))
    st.ghost['now'] = (c.t, n.t)
    st.ghost.setdefault('first', st.ghost['now'])
    a, b = ex.th.fresh(ex.uniq('lim.s'), 64, True), ex.th.fresh(ex.uniq('lim.n'), 32, True)
    st.assume(And(value(a.t, b.t) == value(c.t, n.t) + z3.If(value(S, N) < 0, YEAR * G, value(S, N)), normalised(a.t, b.t), a.t <= 2 ** 61 + BIG // 4 + YEAR, a.t >= -BIG // 4))
    return [('ret', st, (a, b))]


ABS = r'icl_core::thread::impl::getAbsoluteTimeout\(icl_core::TimeSpan const&\)'


class Captured(Exception):
    pass


class Th:
    def __init__(self, mods, name, term=False, contracts=True, key='t'):
        if key != 't':
            name += ' (logging)'
        self.key = key
        h = self.h = H(mods[key], name, [], opts={'term': term}, extra=([(ABS, abs_timeout, 'contract')] if contracts else []) + [NORM, (NOW[0], clock)] + OPAQUE + LOGGING + LOCKS)
        glob_zero(h, mods[key])
        reset(h.st)
        self.off = {f: h.off(f) for f in FLAGS}
        self.p = h.obj('thread', None, h.off('thread'))
        d = []
        if key == 't':
            d = [h.obj('description', None, 32)]
            h.put(d[0], 0, Abs('string'), 32)
        outs = h.only_ret(h.call('vcg_ctor', [self.p] + d + [h.int('priority', 32, True)]))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.ctor = outs[0]
        st = self.st = outs[0].st.fork()
        reset(st)
        for k in self.off.values():
            if k not in st.mem['thread'].cells:
                raise Unsupported('a flag is not initialised')
        for rx, f in ((r'@?pthread_create', self.create), (r'@?pthread_join', self.join), (r'@?pthread_detach', self.bad), (r'@?pthread_self', self.self_), (r'@?(?:usleep|sleep|nanosleep|sched_yield|pthread_yield)', self.sleep),
                      (r'@?(pthread_mutex)_((?:timed|try)?lock)', self.lock), (r'@?(pthread_mutex)_(unlock)', self.unlock), (r'@?(pthread_mutex)_destroy', self.destroy), (NOW[0], self.clock)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        h.ex.hcache.clear()
        h.ex.templates.append(self.late)
        h.ex.handlers.insert(0, (re.compile(r'@?vcg_client_run'), self.client, 'contract'))
        self.worker = None
        self.trace = None
        self.trace = self.extract()
        self.N = len(self.trace)
        ev = [e[0] for e in self.trace]
        self.fin = [(i, e[2]) for i, e in enumerate(self.trace) if e[0] == 'w' and e[1] == 'finished']
        self.begin = ev.index('begin') if 'begin' in ev else None
        self.end = ev.index('end') if 'end' in ev else None
        # the controlling state: no thread of execution yet
        self.begin_controller(st, h)

    def begin_controller(self, st, h):
        g = st.ghost
        g['ph'] = z3.IntVal(self.N)
        g['out'] = z3.IntVal(0)
        g['created'] = z3.IntVal(0)
        g['own'] = z3.IntVal(0)
        g['late'] = z3.IntVal(0)
        g['id'] = None
        for f, k in self.off.items():
            v = st.mem['thread'].cells[k][1]
            g['v:' + f], g['p:' + f] = z3.IntVal(0) + h.ex.th.U(v), z3.IntVal(self.N)
        # an earlier life may have left the request flag in either state
        x = h.ex.th.fresh('told', 8)
        st.assume(And(x.t >= 0, x.t <= 1))
        g['v:execute'] = x.t
        h.ex.opts['atomic'] = ('thread', self.hook, False)

    def late(self, ex, ctx):
        a, b = ('ghost', 'late'), ('ghost', 'ph')
        if a in ctx.keys and b in ctx.keys:
            return [('late means ended', lambda v: z3.Implies(v[a] != 0, v[b] == self.N)), ('late is a flag', lambda v: Or(v[a] == 0, v[a] == 1))]
        return []

    # ---------------------------------------------------------------- the thread of execution
    def extract(self):
        h = self.h
        st0 = self.st.fork()
        self.mode = 'capture'
        h.ex.opts['atomic'] = None
        rec = h.ex.recording
        try:
            h.ex.run(st0, h.fn('vcg_start'), [self.p])
        except Captured:
            pass
        finally:
            h.ex.recording = rec
        if self.worker is None:
            raise Unsupported('starting creates no thread')
        fn, arg, st = self.worker
        w = self.st.fork()
        w.mem = dict(st.mem)
        w.pc = list(st.pc)
        reset(w)
        w.ghost['ev'] = ()
        self.mode = 'worker'
        h.ex.opts['atomic'] = ('thread', self.record, False)
        outs = h.ex.run(w, self.h.mod.funcs[fn.base], [arg])
        h.ex.opts['atomic'] = None
        tr = set(o.st.ghost['ev'] for o in outs)
        if any(o.kind != 'ret' for o in outs) or len(tr) != 1:
            raise Unsupported('the thread of execution has %d different histories' % len(tr))
        self.mode = 'controller'
        return list(tr.pop())

    def record(self, ex, st, when, p, old, new, order):
        f = [n for n, k in self.off.items() if k == p.off]
        if not f or when != 'post' or new is old:
            return
        if not isinstance(new.t, (int, bool)):
            raise Unsupported('a flag gets a value that is not a constant')
        st.ghost['ev'] += (('w', f[0], int(new.t)),)

    def client(self, ex, st, args, m, ins):
        if self.mode != 'worker':
            ex.require(st, 'precondition', False, 'the work runs only in the thread of execution')
            return [('ret', st, None)]
        ex.require(st, 'postcondition', And(args[0].base == 'thread', args[0].off == 0), 'the work of this object is run')
        st.ghost['ev'] += (('begin',), ('end',))
        return [('ret', st, None)]

    # ---------------------------------------------------------------- the flags as the controlling thread sees them
    def val(self, st, f, ph=None):
        """value of a flag: what was last written by the controlling thread, overwritten by the steps of the thread of execution since"""
        g = st.ghost
        ph = g['ph'] if ph is None else ph
        r = g['v:' + f]
        for i, e in enumerate(self.trace):
            if e[0] == 'w' and e[1] == f:
                r = z3.If(And(g['p:' + f] <= i, i < ph), z3.IntVal(e[2]), r)
        return z3.simplify(r)

    def step(self, st):
        """any number of steps of the thread of execution"""
        g = st.ghost
        ph = z3.Int(self.h.ex.uniq('steps'))
        st.assume(And(ph >= g['ph'], ph <= self.N))
        for i, e in enumerate(self.trace):
            if e[0] == 'lock':
                st.assume(z3.Implies(And(g['own'] > 0, g['ph'] <= i), ph <= i))
        g['ph'] = ph

    def held(self, st):
        """the thread of execution holds the mutex"""
        r = z3.BoolVal(False)
        for i, e in enumerate(self.trace):
            if e[0] == 'lock':
                r = z3.BoolVal(True) if r is None else z3.If(st.ghost['ph'] > i, z3.BoolVal(True), r)
            elif e[0] == 'unlock':
                r = z3.If(st.ghost['ph'] > i, z3.BoolVal(False), r)
        return r

    def hook(self, ex, st, when, p, old, new, order):
        f = [n for n, k in self.off.items() if k == p.off]
        if not f:
            return
        f = f[0]
        if when == 'pre':
            self.step(st)
            v = self.val(st, f)
            st.w('thread').cells[p.off] = (1, I(8, v, 0, 1))
        elif new is not old:
            st.ghost['v:' + f], st.ghost['p:' + f] = z3.IntVal(0) + ex.th.U(new), st.ghost['ph']

    # ---------------------------------------------------------------- primitives
    def create(self, ex, st, args, m, ins):
        fn, arg = args[2], args[3]
        if self.mode == 'capture':
            self.worker = (fn, arg, st)
            raise Captured()
        if self.mode != 'controller':
            ex.require(st, 'precondition', False, 'the thread of execution starts no thread')
            return [('ret', st, ex.th.const(32, 0))]
        ex.require(st, 'postcondition', And(fn.base == self.worker[0].base, arg.base == self.worker[1].base, arg.off == self.worker[1].off), 'the thread of execution runs this object')
        g = st.ghost
        ex.require(st, 'postcondition', g['out'] == 0, 'the handle of an earlier thread of execution that was not joined is not lost')
        bad = st.fork()
        r = ex.th.fresh(ex.uniq('refusal'), 32, True)
        bad.assume(And(r.t >= 1, r.t <= 133))
        ex.store(bad, args[0], ir.Ty('int', w=64), ex.th.fresh(ex.uniq('garbage'), 64))
        i = ex.th.fresh(ex.uniq('id'), 64)
        st.assume(i.t >= 1)
        ex.store(st, args[0], ir.Ty('int', w=64), i)
        g['id'], g['out'], g['created'], g['ph'] = i.t, z3.IntVal(1), g['created'] + 1, z3.IntVal(0)
        for f in FLAGS:
            # from here on the thread of execution takes its steps
            g['v:' + f], g['p:' + f] = ex.th.U(st.mem['thread'].cells[self.off[f]][1]) if False else self.val(st, f, z3.IntVal(self.N)), z3.IntVal(0)
        return [('ret', st, ex.th.const(32, 0)), ('ret', bad, r)]

    def join(self, ex, st, args, m, ins):
        g = st.ghost
        i = ex.th.U(args[0])
        ex.require(st, 'precondition', And(g['out'] == 1, z3.BoolVal(False) if g['id'] is None else i == g['id']), 'only a thread of execution that exists and was not joined is joined')
        ex.require(st, 'deadlock', g['own'] == 0, 'no join while holding the mutex of the thread')
        g['ph'], g['out'] = z3.IntVal(self.N), z3.IntVal(0)
        return [('ret', st, ex.th.const(32, 0))]

    def bad(self, ex, st, args, m, ins):
        raise Unsupported('detached threads')

    def self_(self, ex, st, args, m, ins):
        v = ex.th.fresh(ex.uniq('self'), 64)
        st.assume(v.t >= 1)
        if self.mode == 'controller' and st.ghost['id'] is not None:
            st.assume(v.t != st.ghost['id'])
        return [('ret', st, v)]

    def sleep(self, ex, st, args, m, ins):
        if self.mode == 'controller':
            # one pause may be entered just when the thread of execution ends, no second one
            g = st.ghost
            ex.require(st, 'deadlock', Or(g['ph'] < self.N, g['late'] == 0), 'no waiting for a thread of execution that does not exist or has ended')
            g['late'] = z3.If(g['ph'] < self.N, g['late'], z3.IntVal(1))
            self.step(st)
        return [('ret', st, ex.th.const(32, 0))]

    def clock(self, ex, st, args, m, ins):
        if self.mode == 'controller':
            self.step(st)
            st.ghost['ph.now'] = st.ghost['ph']
        return clock(ex, st, args, m, ins)

    def lock(self, ex, st, args, m, ins):
        if self.mode != 'controller':
            prim(ex, st, args[0], 'mutex', m.group(0))
            if self.mode == 'worker':
                if m.group(2) != 'lock':
                    raise Unsupported('the thread of execution takes its mutex with a limit')
                st.ghost['ev'] += (('lock',),)
            return [('ret', st, ex.th.const(32, 0))]
        self.step(st)
        [(k, st, r)] = acquire(ex, st, args, m, ins)
        st.assume(z3.Implies(r.t == 0, z3.Not(self.held(st))))
        st.ghost['own'] = st.ghost['own'] + z3.If(r.t == 0, z3.IntVal(1), z3.IntVal(0))
        return [('ret', st, r)]

    def unlock(self, ex, st, args, m, ins):
        if self.mode != 'controller':
            prim(ex, st, args[0], 'mutex', m.group(0))
            if self.mode == 'worker':
                st.ghost['ev'] += (('unlock',),)
            return [('ret', st, ex.th.const(32, 0))]
        ex.require(st, 'precondition', st.ghost['own'] > 0, 'only an acquired mutex is unlocked')
        st.ghost['own'] = st.ghost['own'] - 1
        return release(ex, st, args, m, ins)

    def destroy(self, ex, st, args, m, ins):
        if self.mode == 'controller':
            ex.require(st, 'use-after-destruction', st.ghost['ph'] == self.N, 'the mutex is destroyed only after the thread of execution has used it for the last time')
        return threadlib.destroy(ex, st, args, m, ins)

    # ---------------------------------------------------------------- states between operations
    def final(self, st, f, label='later'):
        """value at any later time"""
        ph = z3.Int(self.h.ex.uniq(label))
        return ph, And(ph >= st.ghost['ph'], ph <= self.N), self.val(st, f, ph)

    def active(self):
        """a state in which the work was started: the outcome of start(), any number of steps later, possibly told to stop"""
        h = self.h
        r = []
        for o in h.only_ret(h.call('vcg_start', [self.p], st=self.st.fork())):
            st = o.st.fork()
            st.assume(b2i(h, o.val) == 1)
            if not h.ex.feas(st.pc):
                continue
            self.step(st)
            g = st.ghost
            x, ph = h.ex.th.fresh('told.stop', 8), z3.Int('told.at')
            st.assume(And(x.t >= 0, x.t <= 1, ph >= 0, ph <= g['ph']))
            st.assume(Or(And(x.t == 1, ph == 0), And(x.t == 0, self.started(ph))))
            g['v:execute'], g['p:execute'] = z3.If(x.t == 1, g['v:execute'], z3.IntVal(0)), ph
            g['created'], g['late'] = z3.IntVal(0), z3.IntVal(0)
            ghost = {k: g[k] for k in ('ph', 'late', 'out', 'created', 'own', 'id') + tuple('v:' + f for f in FLAGS) + tuple('p:' + f for f in FLAGS)}
            reset(st)
            st.ghost.pop('first', None)
            st.ghost.pop('ph.now', None)
            st.ghost.update(ghost)
            r.append(st)
        if not r:
            raise Unsupported('start never succeeds')
        return r

    def idle(self):
        return [self.st.fork()]

    def started(self, ph):
        """the thread of execution has announced itself"""
        i = max([k for k, e in enumerate(self.trace) if e[0] == 'w' and e[1] == 'starting'] + [-1])
        return ph > i

    def check(self, o, what=''):
        """the object is in one of the two states between operations"""
        h, g = self.h, o.st.ghost
        ph, ok, fin = self.final(o.st, 'finished')
        _, _, sta = ph, ok, self.val(o.st, 'starting', ph)
        j = self.val(o.st, 'joined')
        h.post(o, 'the object knows whether there is a thread of execution' + what, Or(And(j == 1, g['out'] == 0), And(j == 0, g['out'] == 1)))
        h.post(o, 'no start is pending' + what, z3.Implies(ok, sta == 0))
        h.post(o, 'at rest the object is not running' + what, z3.Implies(And(ok, g['out'] == 0), fin == 1))
        e = self.end if self.end is not None else -1
        h.post(o, 'the object is running until the work has ended, and at rest when the thread of execution has ended' + what,
               z3.Implies(And(ok, g['out'] == 1), And(z3.Implies(ph <= e, fin == 0), z3.Implies(ph == self.N, fin == 1))))
        h.post(o, 'the mutex is not held' + what, g['own'] == 0)

    def ended(self, o, what):
        g = o.st.ghost
        self.h.post(o, what + ' the work has returned and the thread of execution has ended', And(g['ph'] == self.N, g['out'] == 0))


def b2i(h, v):
    return threadlib.b2i(h, v)


BOTH = [(key, nm, states) for key in ('t', 'l') for nm, states in (('at rest', 'idle'), ('started', 'active'))]


def u_worker(mods):
    return [worker(mods, key) for key in ('t', 'l')]


def worker(mods, key):
    k = Th(mods, 'thread of execution', key=key)
    h = k.h
    ev = [e[0] for e in k.trace]
    h.post(k.ctor, 'the work is run exactly once', And(ev.count('begin') == 1, ev.count('end') == 1))
    b = ev.index('begin') if 'begin' in ev else 0
    st = k.st.fork()
    for f in FLAGS:
        st.ghost['p:' + f] = z3.IntVal(0)
    h.post(k.ctor, 'when the work begins it is told to execute', k.val(st, 'execute', z3.IntVal(b)) == 1)
    w = [i for i, e in enumerate(k.trace) if e[0] == 'w' and e[1] == 'starting']
    x = [i for i, e in enumerate(k.trace) if e[0] == 'w' and e[1] == 'execute' and e[2] == 1]
    h.post(k.ctor, 'the request flag is set only before the start is announced', bool(w) and all(i < max(w) for i in x))
    # a new object is at rest
    for f, v in (('finished', 1), ('joined', 1), ('starting', 0)):
        h.post(k.ctor, 'a new object is at rest (%s)' % f, h.u(h.ld(k.ctor, k.p, k.off[f], 8)) == v)
    return h


def u_start(mods):
    out = []
    for key, nm, states in BOTH:
        k = Th(mods, 'start, ' + nm, key=key)
        h = k.h
        for st in getattr(k, states)():
            was = st.ghost['out']
            for o in h.only_ret(h.call('vcg_start', [k.p], st=st)):
                g = o.st.ghost
                r = b2i(h, o.val)
                k.check(o)
                h.post(o, 'at most one thread of execution is created', g['created'] <= 1)
                h.post(o, 'success means that there is a thread of execution', z3.Implies(r == 1, g['out'] == 1))
                ref = [n for n in ('refusal',)]
                h.post(o, 'failure means that none was created', z3.Implies(r == 0, g['created'] == 0))
                if states == 'idle':
                    h.post(o, 'success means that a new thread of execution was created', z3.Implies(r == 1, g['created'] == 1))
                    h.post(o, 'failure means that the system refused', z3.Implies(r == 0, z3.BoolVal(any('refusal' in str(c) for c in o.st.pc))))
                else:
                    h.post(o, 'either a new thread of execution is created after the work had ended, or the work was going on',
                           z3.Implies(r == 0, Or(z3.BoolVal(any('refusal' in str(c) for c in o.st.pc)), g['ph'] > k.end)))
                ph, ok, e = k.final(o.st, 'execute')
                h.post(o, 'a new thread of execution is told to execute until it is stopped or ends', z3.Implies(And(ok, g['created'] == 1, ph <= k.end), e == 1))
        out.append(h)
    return out


def u_stop(mods):
    out = []
    for key, nm, states in BOTH:
        for f in ('vcg_stop', T + '::Stop()'):
            if f not in mods[key].bydem and not f.startswith('vcg'):
                continue
            k = Th(mods, '%s, %s' % (f, nm), key=key)
            h = k.h
            for st in getattr(k, states)():
                for o in h.only_ret(h.call(f, [k.p], st=st)):
                    k.check(o)
                    ph, ok, e = k.final(o.st, 'execute')
                    h.post(o, 'from now on it is told not to execute', z3.Implies(ok, e == 0))
                    h.post(o, 'no thread of execution is created or joined', And(o.st.ghost['created'] == 0, o.st.ghost['out'] == (1 if states == 'active' else 0)))
            out.append(h)
    return out


def u_join(mods):
    out = []
    for key, nm, states in BOTH:
        for f in ('vcg_join', T + '::Join()'):
            if f not in mods[key].bydem and not f.startswith('vcg'):
                continue
            k = Th(mods, '%s, %s' % (f, nm), key=key)
            for st in getattr(k, states)():
                for o in k.h.only_ret(k.h.call(f, [k.p], st=st)):
                    k.check(o)
                    k.ended(o, 'after joining')
            out.append(k.h)
    return out


def latest(o):
    n = o.st.ghost.get('now')
    return None if n is None else value(*n)


def u_wait(mods):
    out = []
    for nm, states in (('at rest', 'idle'), ('started', 'active')):
        for f in ('vcg_wait', T + '::Wait()'):
            if f not in mods['t'].bydem and not f.startswith('vcg'):
                continue
            k = Th(mods, '%s, %s' % (f, nm))
            h = k.h
            mx = maxtime(h, k)
            for st in getattr(k, states)():
                for o in h.only_ret(h.call(f, [k.p], st=st)):
                    r = b2i(h, o.val)
                    k.check(o)
                    n = latest(o)
                    before = z3.BoolVal(True) if n is None else n < mx
                    h.post(o, 'waiting without limit always succeeds', z3.Implies(before, r == 1))
                    h.post(o, 'success means that the work has returned and the thread of execution has ended', z3.Implies(r == 1, And(o.st.ghost['ph'] == k.N, o.st.ghost['out'] == 0)))
            out.append(h)
    return out


def maxtime(h, k):
    q = h.obj('@max', None, 16)
    st = k.st.fork()
    st.mem['@max'] = h.st.mem['@max']
    o = h.only_ret(h.call('vcg_max', [q], st=st))[0]
    return value(h.s(h.ld(o, q, 0, 64)), h.s(h.ld(o, q, 8, 32)))


def stamp(h, st, name):
    p = h.obj(name, None, 16)
    s, n = h.int(name + '.s', 64, True), h.int(name + '.n', 32, True)
    st.mem[name] = h.st.mem[name]
    o = st.w(name)
    o.cells[0], o.cells[8] = (8, s), (4, n)
    st.assume(And(s.t >= -BIG // 4, s.t <= BIG // 4, normalised(s.t, n.t)))
    return p, s.t, n.t


def u_wait_until(mods, which=None):
    out = []
    for nm, states in (('at rest', 'idle'), ('started', 'active')):
        for f, rel in (which,):
            k = Th(mods, '%s, %s' % (f, nm))
            h = k.h
            for st in getattr(k, states)():
                p, s, n = stamp(h, st, 'limit')
                for o in h.only_ret(h.call(f, [k.p, p], st=st)):
                    r = b2i(h, o.val)
                    g = o.st.ghost
                    k.check(o)
                    h.post(o, 'success means that the work has returned and the thread of execution has ended', z3.Implies(r == 1, And(g['ph'] == k.N, g['out'] == 0)))
                    if g['dl'] is None and latest(o) is None:
                        h.post(o, 'without looking at the clock it does not give up', r == 1)
                        continue
                    lim = value(s, n) if not rel else None
                    if rel and g['dl'] is not None:
                        lim = value(*g['dl'])
                        first = o.st.ghost.get('first')
                        neg = value(s, n) < 0
                        if first is not None:
                            h.post(o, 'the limit is counted from the beginning of the call', lim == value(*first) + z3.If(neg, YEAR * G, value(s, n)))
                    if not rel and g['dl'] is not None:
                        h.post(o, 'the wait ends exactly at the requested time', And(g['dlok'], value(*g['dl']) == value(s, n)))
                    if lim is not None:
                        h.post(o, 'it gives up only when the limit has passed', z3.Implies(r == 0, Or(latest(o) >= lim) if latest(o) is not None else z3.BoolVal(False)))
                    else:
                        h.post(o, 'it gives up only after waiting', r == 1)
                    h.post(o, 'it gives up only if the thread of execution has not ended when the limit has passed', z3.Implies(r == 0, g['ph.now'] < k.N if 'ph.now' in g else z3.BoolVal(False)))
                    h.post(o, 'when it gives up nothing has changed', z3.Implies(r == 0, And(g['out'] == 1, g['created'] == 0)))
            out.append(h)
    return out


def u_abs(mods):
    k = Th(mods, 'relative limits', contracts=False)
    h = k.h
    if ('icl_core::thread::impl::getAbsoluteTimeout(icl_core::TimeSpan const&)') not in mods['t'].bydem:
        return h
    st = k.st.fork()
    p, s, n = stamp(h, st, 'limit')
    h.ex.opts['atomic'] = None
    for o in h.only_ret(h.call('icl_core::thread::impl::getAbsoluteTimeout(icl_core::TimeSpan const&)', [p], st=st)):
        now = latest(o)
        a, b = h.s(o.val[0]), h.s(o.val[1])
        h.post(o, 'the absolute limit is the requested time from now (a year for a negative one)', value(a, b) == (now if now is not None else 0) + z3.If(value(s, n) < 0, YEAR * G, value(s, n)))
        h.post(o, 'the absolute limit is normalised and in range', And(normalised(a, b), a <= 2 ** 61 + BIG // 4 + YEAR, a >= -BIG // 4))
        h.frame(o, [], since=st)
    return h


def u_inspect(mods):
    out = []
    for key, nm, states in BOTH:
        k = Th(mods, 'inspection, ' + nm, key=key)
        h = k.h
        for st in getattr(k, states)():
            told = k.val(st, 'execute')
            for o in h.only_ret(h.call('vcg_running', [k.p], st=st.fork())):
                r, g = b2i(h, o.val), o.st.ghost
                h.post(o, 'running until the work has ended, not running when the thread of execution has ended or at rest',
                       And(z3.Implies(g['ph'] == k.N, r == 0), z3.Implies(And(g['ph'] <= k.end), r == 1)) if states == 'active' else r == 0)
                h.frame(o, [('thread', x) for x in k.off.values()], since=st)
                h.post(o, 'inspecting changes no flag', all(g['v:' + f] is st.ghost['v:' + f] for f in FLAGS))
            for o in h.only_ret(h.call('vcg_execute_flag', [k.p], st=st.fork())):
                r = b2i(h, o.val)
                h.post(o, 'execution is reported as requested', r == k.val(o.st, 'execute'))
                h.frame(o, [('thread', x) for x in k.off.values()], since=st)
                h.post(o, 'inspecting changes no flag', all(o.st.ghost['v:' + f] is st.ghost['v:' + f] for f in FLAGS))
        out.append(h)
    return out


def u_dtor(mods):
    out = []
    for key, nm, states in BOTH:
        k = Th(mods, 'destruction, ' + nm, key=key)
        h = k.h
        for st in getattr(k, states)():
            for o in h.only_ret(h.call('vcg_dtor', [k.p], st=st)):
                k.ended(o, 'after destruction')
                if key == 't':
                    h.post(o, 'the mutex is destroyed once', o.st.ghost.get('destroyed', z3.IntVal(0)) == 1)
                for b, ob in o.st.mem.items():
                    if isinstance(b, str) and b.startswith('@heap'):
                        h.post(o, 'no memory is left behind', not ob.alive)
        out.append(h)
    return out


UNITS = [('relative limits', u_abs), ('thread of execution', u_worker), ('start', u_start), ('stop', u_stop), ('join', u_join), ('wait', u_wait), ('wait until', lambda m: u_wait_until(m, ('vcg_wait_until', False))), ('wait for', lambda m: u_wait_until(m, ('vcg_wait_for', True))), ('inspection', u_inspect), ('destruction', u_dtor)]
