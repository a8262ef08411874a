"""C22 active objects: operations are carried out in order, one at a time, and each is disposed of exactly once

Rely/guarantee: the thread of execution (run) is verified with any number of other threads handing operations over (the list may grow whenever the thread does not
hold the mutex, as long as the request to stop has not been noticed before) and with the stop request arriving at any access; handing over and stopping are verified to keep
exactly these conditions. Ghost: operations are numbered in the order handed over; the list holds the numbers head..tail-1."""
from .threadlib import *
from . import threadlib
from .c21 import OPAQUE, LOGGING
import re

TUS = {'t': 'tu/active.cpp'}
NATIVE = {'src': 'native/active.cpp', 'sources': __import__('specs.c21', fromlist=['NATIVE']).NATIVE['sources'] + ['icl_core_thread/%s.cpp' % n for n in ('ActiveObject', 'Sem', 'SemaphoreImplPosix', 'ScopedMutexLock')],
          'flags': ['-Wl,-export-dynamic'], 'libs': __import__('specs.c21', fromlist=['NATIVE']).NATIVE['libs']}
ASSUMPTIONS = ['POSIX mutexes and semaphores and std::list are trusted contracts; the flags are read and written as written in the source (sequential consistency)',
               'operations are heap objects handed over once; carrying one out returns and does not throw; the object is stopped and waited for before it is destroyed',
               'a running object is stopped at most once per start and not started again before it has been waited for (the request flag only falls while the thread runs)',
               'waiting has no termination obligation; instead no wake-up may be lost (every operation handed over and every stop request is followed by a post that the thread still has to take)']
LST = r'(?:std::__cxx11::list|icl_core::List)<icl_core::thread::ActiveOperation ?\*(?:, std::allocator<icl_core::thread::ActiveOperation ?\*> ?)?>::'


class Act:
    def __init__(self, mods, name):
        h = self.h = H(mods['t'], name, [], opts={'term': False}, extra=EX_TIME + OPAQUE + LOGGING + LOCKS)
        glob_zero(h, mods['t'])
        reset(h.st)
        self.mod = mods['t']
        self.off = {f: h.off(f) for f in ('execute', 'starting')}
        self.p = h.obj('active', None, h.off('active'))
        g = h.st.ghost
        for k in ('head', 'tail', 'gone', 'pushed', 'begun', 'ended', 'closed', 'known0', 'told'):
            g[k] = z3.IntVal(0)
        g['taken'], g['unchecked'] = z3.IntVal(0), z3.IntVal(0)
        g['read1'] = z3.IntVal(0)
        g['fr'] = None
        self.ix = {}
        self.running = False
        hs = h.ex.handlers
        H1 = [(LST + r'(?:list|List)\(\)', self.l_ctor), (LST + r'~(?:list|List)\(\)', self.l_dtor), (LST + r'empty\(\) const', self.l_empty), (LST + r'size\(\) const', self.l_size), (LST + r'front\(\)(?: const)?', self.l_front),
              (LST + r'pop_front\(\)', self.l_pop), (LST + r'push_back\(.*\)', self.l_push), (LST + r'.*', self.l_other)]
        for rx, f in reversed(H1):
            hs.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((r'@?(pthread_mutex)_((?:timed|try)?lock)', self.lock), (r'@?(pthread_mutex)_(unlock)', self.unlock), (r'@?(sem)_((?:timed|try)?wait)', self.wait), (r'@?(sem)_(post)', self.post),
                      (r'@?(?:usleep|sleep|nanosleep|sched_yield|pthread_yield)', lambda ex, st, args, m, ins: [('ret', st, ex.th.const(32, 0))])):
            hs.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((r'@?vcg_op_invoke', self.invoke), (r'@?vcg_op_dispose', self.dispose), (r'@?vcg_on_start', self.on_start), (r'@?vcg_on_stop', self.on_stop)):
            hs.insert(0, (re.compile(rx), f, 'contract'))
        hs.insert(0, (re.compile(r'icl_core::thread::ScopedMutexLock::ScopedMutexLock\(icl_core::thread::Mutex&, bool\)'), self.scoped, 'contract'))
        h.ex.hcache.clear()
        d = h.obj('description', None, 32)
        h.put(d, 0, Abs('string'), 32)
        self.role = 'ctor'
        outs = h.only_ret(h.call('vcg_ctor', [self.p, d, h.int('priority', 32, True)]))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.ctor = outs[0]
        st = self.st = outs[0].st.fork()
        # what a concrete operation looks like
        st.mem['@proto'] = h.st.mem[h.obj('@proto', None, h.off('op')).base]
        o = h.only_ret(h.call('vcg_op_ctor', [P('@proto')], st=st.fork()))[0]
        self.proto = dict(o.st.mem['@proto'].cells)
        reset(st)

    def new_op(self, st, idx):
        b = self.h.ex.uniq('@heap.op')
        ob = self.h.ex.new_obj(st, b, None, self.h.off('op'))
        st.w(b).cells.update(self.proto)
        st.mem[b].fresh = True
        self.ix[b] = idx
        return P(b)

    # ---- the list
    def l_at(self, ex, st, p, what):
        o = st.mem.get(p.base)
        c = o.cells.get(p.off) if o is not None else None
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'list':
            raise Unsupported('%s on something that is not the list' % what)
        if what != 'constructor' and self.role != 'ctor':
            ex.require(st, 'race', st.ghost['acq'] > 0, 'the list is used only under the mutex')

    def l_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (24, Abs('list'))
        st.ghost['lists'] = st.ghost.get('lists', 0) + 1
        return [('ret', st, None)]

    def l_dtor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (24, Abs('dead'))
        return [('ret', st, None)]

    def l_other(self, ex, st, args, m, ins):
        raise Unsupported('std::list operation outside the contract: ' + m.group(0))

    def l_empty(self, ex, st, args, m, ins):
        self.l_at(ex, st, args[0], 'empty')
        g = st.ghost
        e = g['head'] >= g['tail']
        self.saw_empty(g, e)
        return [('ret', st, I(1, e))]

    def l_size(self, ex, st, args, m, ins):
        self.l_at(ex, st, args[0], 'size')
        g = st.ghost
        self.saw_empty(g, g['head'] >= g['tail'])
        return [('ret', st, I(64, g['tail'] - g['head'], 0, 2 ** 62))]

    def saw_empty(self, g, e):
        # the list was seen empty (under the mutex): nothing that was posted before is left; after the stop request was noticed nothing can follow
        g['taken'] = z3.If(e, z3.IntVal(0), g['taken'])
        g['closed'] = z3.If(And(e, g['known0'] == 1), z3.IntVal(1), g['closed'])

    def l_front(self, ex, st, args, m, ins):
        self.l_at(ex, st, args[0], 'front')
        g = st.ghost
        ex.require(st, 'precondition', g['head'] < g['tail'], 'front of a list that is not empty')
        if g['fr'] is None:
            op = self.new_op(st, g['head'])
            b = ex.uniq('@slot')
            ex.new_obj(st, b, None, 8)
            st.w(b).cells[0] = (8, op)
            g['fr'] = b
        return [('ret', st, P(g['fr']))]

    def l_pop(self, ex, st, args, m, ins):
        self.l_at(ex, st, args[0], 'pop_front')
        g = st.ghost
        ex.require(st, 'precondition', g['head'] < g['tail'], 'removal from a list that is not empty')
        if g['fr'] is not None:
            st.w(g['fr']).alive = False
        g['fr'] = None
        g['head'] = g['head'] + 1
        return [('ret', st, None)]

    def l_push(self, ex, st, args, m, ins):
        self.l_at(ex, st, args[0], 'push_back')
        v = ex.load(st, args[1], ir.Ty('ptr')) if isinstance(args[1], P) and args[1].base not in self.ix else args[1]
        g = st.ghost
        g['others'] = z3.If(g['tail'] > 0, z3.IntVal(1), z3.IntVal(0))
        ex.require(st, 'postcondition', z3.BoolVal(self.role == 'hand over' and v.base == self.mine), 'the operation handed over is appended')
        ex.require(st, 'postcondition', g['read1'] == 1, 'operations are appended only if no stop was requested when the mutex was taken')
        g['tail'] = g['tail'] + 1
        g['pushed'] = g['pushed'] + 1
        return [('ret', st, None)]

    # ---- the flags: the request flag falls at any time (role run), is anything at any time (role hand over)
    def hook(self, ex, st, when, p, old, new, order):
        f = [n for n, k in self.off.items() if k == p.off]
        if not f:
            return
        g = st.ghost
        o = st.w('active')
        if when == 'pre':
            v = ex.th.fresh(ex.uniq(f[0]), 8)
            st.assume(And(v.t >= 0, v.t <= 1))
            cur = ex.th.U(o.cells[p.off][1])
            if f[0] == 'execute' and self.role == 'run':
                st.assume(And(v.t <= cur, z3.Implies(g['known0'] == 1, v.t == 0)))
            if self.running and f[0] == 'execute':
                st.assume(v.t == 1)
            if self.role == 'stop' and f[0] == 'starting':
                st.assume(v.t <= cur)
            if self.role == 'stop' and f[0] == 'execute':
                st.assume(z3.Implies(g['told'] == 1, v.t == 0))
            o.cells[p.off] = (1, v)
            return
        if new is old:
            if f[0] == 'execute':
                x = ex.th.U(old)
                if self.role == 'run':
                    g['known0'] = z3.If(x == 0, z3.IntVal(1), g['known0'])
                    g['unchecked'] = z3.IntVal(0)
                if self.role == 'hand over':
                    g['read1'] = z3.If(And(g['acq'] > 0, x == 1), z3.IntVal(1), g['read1'])
            return
        if self.role == 'stop' and f[0] == 'execute':
            ex.require(st, 'postcondition', ex.th.U(new) == 0, 'stopping only clears the request')
            g['told'] = z3.IntVal(1)
        else:
            ex.require(st, 'guarantee', False, 'the life-cycle flags belong to the thread class')

    # ---- primitives
    def lock(self, ex, st, args, m, ins):
        g = st.ghost
        if self.role == 'run':
            # others may have handed over operations meanwhile, unless the stop request was noticed and the list was seen empty since
            t = z3.Int(ex.uniq('tail'))
            st.assume(And(t >= g['tail'], z3.Implies(Or(g['acq'] > 0, g['closed'] == 1), t == g['tail'])))
            g['tail'] = t
        if self.role == 'hand over':
            g['read1'] = z3.IntVal(0)
        return acquire(ex, st, args, m, ins)

    def scoped(self, ex, st, args, m, ins):
        """contract of the scoped lock's constructor, discharged by C16: an enforced lock is held afterwards, any other is held if it says so"""
        p, mu, force = args
        q = ex.load(st, P(mu.base, mu.idx, mu.off + self.h.off('mx_impl')), ir.Ty('ptr'))
        q = ex.load(st, P(q.base, q.idx, q.off + self.h.off('mi_mutex')), ir.Ty('ptr'))
        [(k, st, r)] = self.lock(ex, st, [q], re.match('(pthread_mutex)_(lock)', 'pthread_mutex_lock'), ins)
        st.assume(z3.Implies(force.t if z3.is_bool(force.t) or isinstance(force.t, bool) else force.t != 0, r.t == 0))
        o = st.w(p.base)
        v = ex.th.fresh(ex.uniq('is.locked'), 8)
        st.assume(v.t == z3.If(r.t == 0, z3.IntVal(1), z3.IntVal(0)))
        o.cells[p.off + self.h.off('sl_locked')] = (1, v)
        o.cells[p.off + self.h.off('sl_mutex')] = (8, mu)
        return [('ret', st, None)]

    def unlock(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', g['acq'] > 0, 'only an acquired mutex is released')
        if self.role == 'hand over':
            g['read1'] = z3.IntVal(0)
        return release(ex, st, args, m, ins)

    def wait(self, ex, st, args, m, ins):
        g = st.ghost
        if m.group(2) != 'trywait':
            ex.require(st, 'deadlock', g['acq'] == 0, 'no waiting while holding the mutex')
            ex.require(st, 'lost wake-up', g['taken'] == 0, 'it waits only if the list was empty after the last wake-up')
            ex.require(st, 'lost wake-up', g['unchecked'] == 0, 'it waits only if no stop was requested after the last wake-up')
        a = dict(g)
        [(k, st, r)] = acquire(ex, st, args, m, ins)
        for x in ('acq', 'racq', 'wacq'):
            st.ghost[x] = a[x]
        ok = r.t == 0
        g = st.ghost
        g['taken'] = z3.If(ok, z3.IntVal(1), g['taken'])
        g['unchecked'] = z3.If(ok, z3.IntVal(1), g['unchecked'])
        return [('ret', st, r)]

    def post(self, ex, st, args, m, ins):
        prim(ex, st, args[0], 'sem', m.group(0))
        g = st.ghost
        g['posts'] = g['posts'] + 1
        if self.role == 'hand over':
            g['late'] = g['late'] + z3.If(g['pushed'] > 0, z3.IntVal(1), z3.IntVal(0))
        if self.role == 'stop':
            g['late'] = g['late'] + z3.If(g['told'] == 1, z3.IntVal(1), z3.IntVal(0))
        return [('ret', st, ex.th.const(32, 0))]

    # ---- operations
    def op_of(self, ex, st, p, what):
        if not isinstance(p, P) or p.base not in self.ix or p.off != 0:
            raise Unsupported('%s: unknown operation' % what)
        if not st.mem[p.base].alive:
            ex.require(st, 'use-after-destruction', False, '%s: the operation exists' % what)
        return self.ix[p.base]

    def invoke(self, ex, st, args, m, ins):
        i, g = self.op_of(ex, st, args[0], 'carrying out'), st.ghost
        ex.require(st, 'postcondition', z3.BoolVal(self.role == 'run'), 'operations are carried out only by the thread of execution')
        ex.require(st, 'postcondition', And(i == g['gone'], i < g['tail']), 'operations are carried out in the order handed over, each after the one before was disposed of')
        ex.require(st, 'postcondition', g['invd'] < i, 'each operation is carried out at most once')
        ex.require(st, 'postcondition', g['acq'] == 0, 'no operation is carried out while the queue is locked')
        ex.require(st, 'postcondition', And(g['begun'] == 1, g['ended'] == 0), 'operations are carried out between the start and the stop hook')
        g['invd'] = i
        return [('ret', st, None)]

    def dispose(self, ex, st, args, m, ins):
        i, g = self.op_of(ex, st, args[0], 'disposal'), st.ghost
        ex.require(st, 'postcondition', g['acq'] == 0, 'no operation is disposed of while the queue is locked')
        if self.role == 'hand over':
            ex.require(st, 'postcondition', And(args[0].base == self.mine, g['pushed'] == 0), 'only an operation that was not appended is disposed of')
            g['mine gone'] = g['mine gone'] + 1
            return [('ret', st, None)]
        ex.require(st, 'postcondition', And(i == g['gone'], i < g['tail']), 'operations taken from the queue are disposed of in order, each exactly once')
        # an operation may be dropped without being carried out only when a stop was requested
        ex.require(st, 'postcondition', Or(g['invd'] == i, g['known0'] == 1), 'an operation is dropped only after a stop request')
        g['gone'] = g['gone'] + 1
        return [('ret', st, None)]

    def on_start(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(g['begun'] == 0, g['ended'] == 0, g['gone'] == 0, args[0].base == 'active'), 'the start hook runs once, before anything else')
        g['begun'] = g['begun'] + 1
        return [('ret', st, None)]

    def on_stop(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(g['begun'] == 1, g['ended'] == 0, args[0].base == 'active'), 'the stop hook runs once, after the start hook')
        g['ended'] = g['ended'] + 1
        return [('ret', st, None)]

    def enter(self, role, st):
        self.role = role
        g = st.ghost
        reset(st)
        for k in ('head', 'gone', 'pushed', 'begun', 'ended', 'closed', 'known0', 'told', 'taken', 'unchecked', 'read1', 'posts', 'late', 'others', 'mine gone'):
            g[k] = z3.IntVal(0)
        t = z3.Int('handed.over')
        st.assume(t >= 0)
        g['tail'] = t
        g['invd'] = z3.IntVal(-1)
        g['fr'] = None
        o = st.w('active')
        for f, k in self.off.items():
            v = self.h.ex.th.fresh('flag.' + f, 8)
            st.assume(And(v.t >= 0, v.t <= 1))
            o.cells[k] = (1, v)
        self.h.ex.opts['atomic'] = ('active', self.hook, False)
        return st


def held(h, o):
    h.post(o, 'the mutex is held as before', o.st.ghost['acq'] == 0)


def u_ctor(mods):
    k = Act(mods, 'construction')
    h, o = k.h, k.ctor
    h.post(o, 'there is one list, empty', And(o.st.ghost.get('lists', 0) == 1, o.st.ghost['tail'] == 0))
    sems = [c[1] for ob in o.st.mem.values() for c in ob.cells.values() if isinstance(c[1], Abs) and c[1].kind == 'sem']
    h.post(o, 'there is one semaphore', len(sems) == 1)
    for s in sems:
        h.post(o, 'nothing is announced yet', And(s.live, s.value == 0))
    h.post(o, 'a new object is not told to execute', h.u(h.ld(o, k.p, k.off['execute'], 8)) == 0)
    return h


def u_run(mods):
    k = Act(mods, 'thread of execution')
    h = k.h
    st = k.enter('run', k.st.fork())
    for o in h.only_ret(h.call('vcg_run', [k.p], st=st)):
        g = o.st.ghost
        held(h, o)
        h.post(o, 'it ends only after a stop request', g['known0'] == 1)
        h.post(o, 'everything handed over was disposed of and nothing can follow', And(g['gone'] == g['head'], g['head'] == g['tail'], g['closed'] == 1))
        h.post(o, 'both hooks ran once', And(g['begun'] == 1, g['ended'] == 1))
        h.frame(o, [('active', x) for x in k.off.values()] + [(b, None) for b in k.ix] + [(b, None) for b in o.st.mem if b.startswith(('@slot', '@heap'))], since=st)
    return h


def u_hand_over(mods):
    k = Act(mods, 'handing over')
    h = k.h
    st = k.enter('hand over', k.st.fork())
    before = st.fork()
    op = k.new_op(st, z3.Int('mine'))
    k.mine = op.base
    t = st.ghost['tail']
    for o in h.only_ret(h.call('vcg_hand_over', [k.p, op], st=st)):
        g = o.st.ghost
        held(h, o)
        h.post(o, 'the operation is appended once, or disposed of once', g['pushed'] + g['mine gone'] == 1)
        h.post(o, 'an operation disposed of no longer exists, one appended still does', z3.BoolVal(o.st.mem[op.base].alive) == (g['pushed'] == 1))
        # operations that were there before have been announced or will be, and the thread empties the queue before it waits again
        h.post(o, 'an operation appended to an empty queue is announced afterwards', z3.Implies(And(g['pushed'] == 1, g['others'] == 0), g['late'] >= 1))
        h.post(o, 'nothing but appending changes the list', And(g['head'] == 0, g['tail'] == t + g['pushed']))
        h.frame(o, [('active', x) for x in k.off.values()], since=before)
    return h


def u_accept(mods):
    """with the request flag set all along the operation is appended"""
    k = Act(mods, 'handing over to a running object')
    h = k.h
    st = k.enter('hand over', k.st.fork())
    k.running = True
    op = k.new_op(st, z3.Int('mine'))
    k.mine = op.base
    for o in h.only_ret(h.call('vcg_hand_over', [k.p, op], st=st)):
        g = o.st.ghost
        h.post(o, 'the operation is appended unless the system refused the mutex', Or(g['pushed'] == 1, g['refused']))
    return h


def u_stop(mods):
    k = Act(mods, 'stopping')
    h = k.h
    for f in ('vcg_stop', 'icl_core::thread::ActiveObject::Stop()'):
        if not f.startswith('vcg') and f not in mods['t'].bydem:
            continue
        st = k.enter('stop', k.st.fork())
        for o in h.only_ret(h.call(f, [k.p], st=st)):
            g = o.st.ghost
            held(h, o)
            h.post(o, 'the request is made', g['told'] == 1)
            h.post(o, 'the thread is woken up after the request', g['late'] >= 1)
            h.post(o, 'the list is left alone', And(g['head'] == 0, g['pushed'] == 0))
    return h


UNITS = [('construction', u_ctor), ('thread of execution', u_run), ('handing over', u_hand_over), ('handing over to a running object', u_accept), ('stopping', u_stop)]
