"""C25 log outputs: every message at or above the level is written exactly once, in the order pushed; pushes and shutdowns always wake the worker

Rely/guarantee: the worker (run) is verified with any number of threads pushing messages (the queue may grow whenever the worker does not hold its mutex) and with the stop
request arriving at any access; pushing and shutting down are verified to keep exactly these conditions. Ghost: messages are numbered in the order pushed; the queue
holds the numbers head..tail-1."""
from .threadlib import *
from .c21 import OPAQUE, LOGGING, NATIVE as NAT21
import re

TUS = {'t': 'tu/logout.cpp'}
NATIVE = {'src': 'native/logout.cpp', 'sources': NAT21['sources'], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['semaphores, threads and clock readings of the logging library are used by their contracts (C18, C21, C04); std::queue is a trusted contract',
               'the request flag is read and written as written in the source (sequential consistency) and is not withdrawn while the worker runs; an output is shut down before it is destroyed',
               'what is written is the message record made from the values pushed; its text representation is C27',
               'waiting has no termination obligation; instead no wake-up may be lost (every message pushed and every stop request is followed by a post of its own)']
LM = r'icl_core::logging::LogOutputStream::LogMessage'
Q = r'(?:std::queue<' + LM + r', .*>|icl_core::Queue<' + LM + r'>)::'
SEM = r'icl_core::logging::Semaphore::'
TH = r'icl_core::logging::Thread::'
NONE = lambda ex, st, a, m, i: [('ret', st, None)]


class Out:
    def __init__(self, mods, name, worker):
        h = self.h = H(mods['t'], name, [], opts={'term': False}, extra=EX_TIME + OPAQUE + LOGGING)
        glob_zero(h, mods['t'])
        reset(h.st)
        self.off = {'execute': h.off('execute'), 'starting': h.off('starting')}
        h.ex.templates.append(self.served)
        self.worker = worker
        g = h.st.ghost
        for k in ('head', 'tail', 'gone', 'pushed', 'written', 'begun', 'ended', 'closed', 'known0', 'told', 'taken', 'unchecked', 'posts', 'late', 'held', 'own', 'queues', 'joined', 'was'):
            g[k] = z3.IntVal(0)
        g['fr'] = None
        self.ix = {}
        self.role = 'ctor'
        self.mine = None
        hs = h.ex.handlers
        H1 = [(Q + r'.*', self.q_other), (Q + r'(?:queue|Queue)(?:<.*>)?\(\)', self.q_ctor), (Q + r'~(?:queue|Queue)\(\)', self.q_dtor), (Q + r'empty\(\) const', self.q_empty), (Q + r'size\(\) const', self.q_size),
              (Q + r'front\(\)(?: const)?', self.q_front), (Q + r'pop\(\)', self.q_pop), (r'(?:.* )?' + Q + r'(?:push|emplace<.*>)\(.*\)', self.q_push),
              (r'(?:icl_core::List|std::__cxx11::list)<icl_core::logging::LogOutputStream::LogFormatEntry(?:, .*)?>::~?(?:list|List)\(\)', NONE), (r'std::__cxx11::_List_base<icl_core::logging::LogOutputStream::LogFormatEntry, .*>::~?_List_base\(\)', NONE)]
        for rx, f in H1:
            hs.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((SEM + r'wait\(\)', self.wait), (SEM + r'post\(\)', self.post), (SEM + r'Semaphore\(unsigned long\)', self.s_ctor), (SEM + r'~Semaphore\(\)', self.s_dtor),
                      (TH + r'Thread\(int\)', self.t_ctor), (TH + r'~Thread\(\)', NONE), (TH + r'start\(\)', self.start), (TH + r'join\(\)', self.join), (TH + r'running\(\) const', self.running),
                      (LM + r'::LogMessage\(icl_core::TimeStamp const&, .*\)', self.m_ctor), (r'icl_core::TimeStamp::now\(\)', self.now),
                      (r'icl_core::logging::LogOutputStream::changeLogFormat\(.*\)', NONE), (r'icl_core::logging::LogOutputStream::pushImpl\(.*\)', self.write),
                      (r'@?vcg_on_start', self.on_start), (r'@?vcg_on_shutdown', self.on_shutdown), (r'@?vcg_write', self.write), (r'icl_core::os::(?:hidden_posix::)?(?:u|nano)?sleep\(.*\)', lambda ex, st, a, m, i: [('ret', st, ex.th.const(32, 0))]),
                      (r'@?printf', lambda ex, st, a, m, i: [('ret', st, ex.th.fresh(ex.uniq('printed'), 32, True))])):
            hs.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        self.p = h.obj('output', None, h.off('out'))
        d = h.obj('name', None, 32)
        h.put(d, 0, Abs('string'), 32)
        lv = h.int('level', 32, False, 0, 5)
        outs = h.only_ret(h.call('vcg_ctor', [self.p, d, lv, I(1, bool(worker))]))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.ctor, self.lv = outs[0], lv.t
        st = self.st = outs[0].st.fork()
        if worker:
            self.wt = st.mem['output'].cells[h.off('worker')][1]
            self.mutex, self.fill = [st.mem[self.wt.base].cells[self.wt.off + h.off(f)][1] for f in ('mutex', 'fill')]

    def served(self, ex, ctx):
        ks = [('ghost', 'taken'), ('ghost', 'refused')]
        return [('every wake-up was followed by a removal', lambda v: Or(v[ks[0]] == 0, v[ks[1]]))] if all(q in ctx.keys for q in ks) else []

    # ---- objects by contract
    def s_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (16, Abs('lsem', value=args[1].t, live=True))
        return [('ret', st, None)]

    def sem(self, ex, st, p, what):
        o = st.mem.get(p.base)
        c = o.cells.get(p.off) if o is not None else None
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'lsem':
            raise Unsupported('%s on something that is not a semaphore' % what)
        if not o.alive or not c[1].live:
            ex.require(st, 'use-after-destruction', False, '%s: the semaphore exists' % what)
        if self.role != 'ctor':
            if self.worker and (p.base, p.off) == (self.mutex.base, self.mutex.off):
                return 'mutex'
            if self.worker and (p.base, p.off) == (self.fill.base, self.fill.off):
                return 'fill'
        return 'own' if p.base == 'output' else None

    def s_dtor(self, ex, st, args, m, ins):
        self.sem(ex, st, args[0], 'destruction')
        st.w(args[0].base).cells[args[0].off] = (16, Abs('lsem', value=0, live=False))
        return [('ret', st, None)]

    def t_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off + self.off['execute']] = (1, ex.th.const(8, 0))
        return [('ret', st, None)]

    def now(self, ex, st, args, m, ins):
        return [('ret', st, (ex.th.fresh(ex.uniq('now.s'), 64, True), ex.th.fresh(ex.uniq('now.n'), 32, True)))]

    def m_ctor(self, ex, st, args, m, ins):
        """contract of the record's constructor, discharged by C27"""
        if self.mine is None:   # an empty record
            st.w(args[0].base).cells[args[0].off] = (4900, Abs('message', id=z3.IntVal(-1)))
            return [('ret', st, None)]
        ok = []
        for a, b in zip(args[2:], self.mine):
            ok.append(a.t == b.t if isinstance(b, I) else z3.BoolVal(isinstance(a, P) and (a.base, a.off) == (b.base, b.off)))
        ex.require(st, 'postcondition', And(*ok), 'the record is made from the values pushed')
        ex.require(st, 'postcondition', self.mine[0].t >= self.lv, 'only messages at or above the level are recorded')
        st.w(args[0].base).cells[args[0].off] = (4900, Abs('message', id=st.ghost['tail']))
        st.ghost['made'] = st.ghost['made'] + 1
        return [('ret', st, None)]

    # ---- the queue
    def q_at(self, ex, st, p, what):
        o = st.mem.get(p.base)
        c = o.cells.get(p.off) if o is not None else None
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'queue':
            raise Unsupported('%s on something that is not the queue' % what)
        ex.require(st, 'race', st.ghost['held'] > 0, 'the queue is used only under the mutex')

    def q_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (80, Abs('queue'))
        st.ghost['queues'] = st.ghost['queues'] + 1
        return [('ret', st, None)]

    def q_dtor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (80, Abs('dead'))
        return [('ret', st, None)]

    def q_other(self, ex, st, args, m, ins):
        raise Unsupported('std::queue operation outside the contract: ' + m.group(0))

    def saw_empty(self, g, e):
        g['taken'] = z3.If(e, z3.IntVal(0), g['taken'])
        g['closed'] = z3.If(And(e, g['known0'] == 1), z3.IntVal(1), g['closed'])

    def q_empty(self, ex, st, args, m, ins):
        self.q_at(ex, st, args[0], 'empty')
        g = st.ghost
        e = g['head'] >= g['tail']
        self.saw_empty(g, e)
        return [('ret', st, I(1, e))]

    def q_size(self, ex, st, args, m, ins):
        self.q_at(ex, st, args[0], 'size')
        g = st.ghost
        self.saw_empty(g, g['head'] >= g['tail'])
        return [('ret', st, I(64, g['tail'] - g['head'], 0, 2 ** 62))]

    def q_front(self, ex, st, args, m, ins):
        self.q_at(ex, st, args[0], 'front')
        g = st.ghost
        ex.require(st, 'precondition', g['head'] < g['tail'], 'front of a queue that is not empty')
        if g['fr'] is None:
            b = ex.uniq('@slot')
            ex.new_obj(st, b, None, 4904)
            st.w(b).cells[0] = (4900, Abs('message', id=g['head']))
            g['fr'] = b
        return [('ret', st, P(g['fr']))]

    def q_pop(self, ex, st, args, m, ins):
        self.q_at(ex, st, args[0], 'pop')
        g = st.ghost
        ex.require(st, 'precondition', g['head'] < g['tail'], 'removal from a queue that is not empty')
        if g['fr'] is not None:
            st.w(g['fr']).alive = False
        g['fr'] = None
        g['head'] = g['head'] + 1
        g['taken'] = z3.IntVal(0)
        return [('ret', st, None)]

    def message(self, ex, st, p, what):
        o = st.mem.get(p.base)
        c = o.cells.get(p.off) if o is not None else None
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'message':
            raise Unsupported('%s: not a message' % what)
        if not o.alive:
            ex.require(st, 'use-after-destruction', False, '%s: the message exists' % what)
        return c[1].id

    def q_push(self, ex, st, args, m, ins):
        self.q_at(ex, st, args[0], 'push')
        g = st.ghost
        i = self.message(ex, st, args[1], 'push')
        ex.require(st, 'postcondition', And(z3.BoolVal(self.role == 'push'), i == self.made, g['pushed'] == 0), 'the message pushed is appended once')
        g['tail'] = g['tail'] + 1
        g['pushed'] = g['pushed'] + 1
        return [('ret', st, None)]

    # ---- the request flag falls at any time
    def hook(self, ex, st, when, p, old, new, order):
        if p.off == self.wt.off + self.off['starting']:   # the thread clears it at any time
            if when == 'pre':
                v = ex.th.fresh(ex.uniq('starting'), 8)
                st.assume(And(v.t >= 0, v.t <= 1))
                st.w(self.wt.base).cells[p.off] = (1, v)
            elif new is not old:
                ex.require(st, 'guarantee', False, 'the request flag belongs to the thread class')
            return
        if p.off != self.wt.off + self.off['execute']:
            return
        g = st.ghost
        o = st.w(self.wt.base)
        if when == 'pre':
            v = ex.th.fresh(ex.uniq('execute'), 8)
            st.assume(And(v.t >= 0, v.t <= 1))
            cur = ex.th.U(o.cells[p.off][1])
            if self.role == 'run':
                st.assume(And(v.t <= cur, z3.Implies(g['known0'] == 1, v.t == 0)))
            if self.role == 'shutdown':
                st.assume(z3.Implies(g['told'] == 1, v.t == 0))
            o.cells[p.off] = (1, v)
        elif new is old:
            if self.role == 'run':
                g['known0'] = z3.If(ex.th.U(old) == 0, z3.IntVal(1), g['known0'])
                g['unchecked'] = z3.IntVal(0)
        elif self.role == 'shutdown':
            ex.require(st, 'postcondition', ex.th.U(new) == 0, 'shutting down only clears the request')
            g['told'] = z3.IntVal(1)
        else:
            ex.require(st, 'guarantee', False, 'the request flag belongs to the thread class')

    # ---- semaphores
    def wait(self, ex, st, args, m, ins):
        k = self.sem(ex, st, args[0], 'wait')
        g = st.ghost
        r = z3.Bool(ex.uniq('acquired'))
        d = z3.If(r, z3.IntVal(1), z3.IntVal(0))
        if k == 'mutex':
            ex.require(st, 'deadlock', g['held'] == 0, 'the mutex is not acquired twice')
            if self.role == 'run':   # others may have pushed messages meanwhile
                t = z3.Int(ex.uniq('tail'))
                st.assume(t >= g['tail'])
                g['tail'] = t
            g['held'] = g['held'] + d
            g['refused'] = Or(g['refused'], z3.Not(r))
        elif k == 'fill':
            ex.require(st, 'postcondition', z3.BoolVal(self.role == 'run'), 'only the worker waits for messages')
            ex.require(st, 'deadlock', g['held'] == 0, 'no waiting for messages while holding the mutex')
            ex.require(st, 'lost wake-up', Or(g['taken'] == 0, g['refused']), 'it waits again only after every wake-up was followed by the removal of a message, or the queue was seen empty')
            ex.require(st, 'lost wake-up', g['unchecked'] == 0, 'it waits only if no stop was requested after the last wake-up')
            g['taken'] = z3.If(r, g['taken'] + 1, g['taken'])
            g['unchecked'] = z3.If(r, z3.IntVal(1), g['unchecked'])
        elif k == 'own':
            ex.require(st, 'deadlock', g['own'] == 0, 'the mutex of the output is not acquired twice')
            g['own'] = g['own'] + d
            g['refused'] = Or(g['refused'], z3.Not(r))
        else:
            raise Unsupported('unknown semaphore')
        return [('ret', st, I(1, r))]

    def post(self, ex, st, args, m, ins):
        k = self.sem(ex, st, args[0], 'post')
        g = st.ghost
        if k == 'mutex':
            ex.require(st, 'precondition', g['held'] > 0, 'only an acquired mutex is released')
            g['held'] = g['held'] - 1
        elif k == 'fill':
            g['posts'] = g['posts'] + 1
            ex.require(st, 'postcondition', z3.BoolVal(self.role != 'run'), 'the worker does not announce messages')
            if self.role == 'push':
                g['late'] = g['late'] + z3.If(g['pushed'] > 0, z3.IntVal(1), z3.IntVal(0))
            if self.role == 'shutdown':
                g['late'] = g['late'] + z3.If(g['told'] == 1, z3.IntVal(1), z3.IntVal(0))
        elif k == 'own':
            ex.require(st, 'precondition', g['own'] > 0, 'only an acquired mutex is released')
            g['own'] = g['own'] - 1
        else:
            raise Unsupported('unknown semaphore')
        return [('ret', st, None)]

    # ---- threads
    def start(self, ex, st, args, m, ins):
        ex.require(st, 'postcondition', z3.BoolVal(self.worker and args[0].base == self.wt.base), 'the worker is started')
        st.ghost['begun'] = st.ghost['begun'] + 1
        return [('ret', st, I(1, z3.Bool(ex.uniq('started'))))]

    def running(self, ex, st, args, m, ins):
        g = st.ghost
        if self.role != 'shutdown':
            return [('ret', st, I(1, z3.Bool(ex.uniq('running'))))]
        r = z3.Bool(ex.uniq('running'))
        # the worker may end by itself only after a stop request; what is asked about is the moment of the call
        g['was'] = z3.If(And(g['told'] == 0, r), z3.IntVal(1), g['was'])
        g['asked'] = z3.IntVal(1)
        return [('ret', st, I(1, r))]

    def join(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'deadlock', And(g['told'] == 1, g['late'] >= 1), 'joining only after the worker was told to stop and woken up')
        ex.require(st, 'deadlock', g['held'] == 0, 'no waiting while holding the mutex')
        g['joined'] = z3.IntVal(1)
        return [('ret', st, I(1, True)) if ins.ty is not None and ins.ty.k == 'int' else ('ret', st, None)]

    # ---- the concrete output
    def write(self, ex, st, args, m, ins):
        g = st.ghost
        i = self.message(ex, st, args[1], 'writing')
        ex.require(st, 'postcondition', z3.BoolVal(args[0].base == 'output'), 'messages are written to the output they were pushed to')
        if self.role == 'run':
            ex.require(st, 'postcondition', And(i == g['gone'], i < g['tail']), 'messages are written in the order pushed, each once')
            ex.require(st, 'postcondition', And(g['begun'] == 1, g['ended'] == 0), 'messages are written between the start and the shutdown hook')
            g['gone'] = g['gone'] + 1
        else:
            ex.require(st, 'postcondition', And(z3.BoolVal(self.role == 'push' and not self.worker), i == self.made, g['written'] == 0), 'without a worker the message pushed is written once, by the caller')
            ex.require(st, 'race', g['own'] == 1, 'messages are written one at a time')
            g['written'] = g['written'] + 1
        return [('ret', st, None)]

    def on_start(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(g['begun'] == 0, g['ended'] == 0, g['gone'] == 0, z3.BoolVal(args[0].base == 'output')), 'the start hook runs once, before anything is written')
        g['begun'] = g['begun'] + 1
        return [('ret', st, None)]

    def on_shutdown(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(g['begun'] == 1, g['ended'] == 0, z3.BoolVal(args[0].base == 'output')), 'the shutdown hook runs once, after the start hook')
        g['ended'] = g['ended'] + 1
        return [('ret', st, None)]

    def enter(self, role):
        st = self.st.fork()
        self.role = role
        g = st.ghost
        reset(st)
        for k in ('head', 'gone', 'pushed', 'written', 'begun', 'ended', 'closed', 'known0', 'told', 'taken', 'unchecked', 'posts', 'late', 'held', 'own', 'joined', 'was', 'asked', 'made'):
            g[k] = z3.IntVal(0)
        t = z3.Int('pushed.before')
        st.assume(t >= 0)
        g['tail'] = t
        g['fr'] = None
        if self.worker:
            v = self.h.ex.th.fresh('flag.execute', 8)
            st.assume(And(v.t >= 0, v.t <= 1))
            st.w(self.wt.base).cells[self.wt.off + self.off['execute']] = (1, v)
            self.h.ex.opts['atomic'] = (self.wt.base, self.hook, False)
        return st


def u_ctor(mods):
    out = []
    for w in (True, False):
        k = Out(mods, 'construction, %s worker' % ('with' if w else 'without'), w)
        h, o = k.h, k.ctor
        h.post(o, 'the level is the one given', h.u(h.ld(o, k.p, h.off('level'), 32)) == k.lv)
        h.post(o, 'there is a queue exactly if there is a worker', o.st.ghost['queues'] == int(w))
        if w:
            h.post(o, 'the mutex is free and nothing is announced', And(o.st.mem[k.mutex.base].cells[k.mutex.off][1].value == 1, o.st.mem[k.fill.base].cells[k.fill.off][1].value == 0))
        own = [c[1] for c in o.st.mem['output'].cells.values() if isinstance(c[1], Abs) and c[1].kind == 'lsem']
        h.post(o, 'the mutexes of the output are free', And(len(own) >= 1, *[s.value == 1 for s in own]))
        st = k.enter('level')
        n = h.int('new level', 32, False, 0, 5)
        for o in h.only_ret(h.call('vcg_set_level', [k.p, n], st=st)):
            h.post(o, 'the level is the one set last', h.u(h.ld(o, k.p, h.off('level'), 32)) == n.t)
            h.frame(o, [('output', h.off('level'))], since=st)
        for o in h.only_ret(h.call('vcg_get_level', [k.p], st=st)):
            h.post(o, 'the level told is the current one', h.u(o.val) == k.lv)
            h.frame(o, [], since=st)
        out.append(h)
    return out


def u_run(mods):
    k = Out(mods, 'worker', True)
    h = k.h
    st = k.enter('run')
    for o in h.only_ret(h.call('vcg_run', [k.wt], st=st)):
        g = o.st.ghost
        h.post(o, 'the mutex is held as before', g['held'] == 0)
        h.post(o, 'it ends only after a stop request', g['known0'] == 1)
        h.post(o, 'the queue was seen empty after the stop request was noticed', Or(g['closed'] == 1, g['refused']))
        h.post(o, 'everything taken from the queue was written', g['gone'] == g['head'])
        h.post(o, 'both hooks ran once', And(g['begun'] == 1, g['ended'] == 1))
        h.frame(o, [(k.wt.base, k.wt.off + k.off['execute'])] + [(b, None) for b in o.st.mem if b.startswith('@slot')], since=st)
    return h


def u_push(mods):
    out = []
    for w in (True, False):
        k = Out(mods, 'pushing, %s worker' % ('with' if w else 'without'), w)
        h = k.h
        before = len(h.st.pc)
        lv = h.int('message level', 32, False, 0, 5)
        line = h.int('line', 32, True, -2 ** 31, 2 ** 31 - 1)
        for c in h.st.pc[before:]:
            k.st.assume(c)
        st = k.enter('push')
        tx = [h.obj(n, None, 8) for n in ('stream', 'file', 'class', 'object', 'function', 'text')]
        for n in ('stream', 'file', 'class', 'object', 'function', 'text'):
            st.mem[n] = h.st.mem[n]
        before = st.fork()
        k.mine = [lv, tx[0], tx[1], line] + tx[2:]
        k.made = st.ghost['tail']
        t = st.ghost['tail']
        for o in h.only_ret(h.call('vcg_push', [k.p, lv, tx[0], tx[1], line] + tx[2:], st=st)):
            g = o.st.ghost
            want = z3.If(lv.t >= k.lv, z3.IntVal(1), z3.IntVal(0))
            h.post(o, 'no mutex is kept', And(g['held'] == 0, g['own'] == 0))
            h.post(o, 'the message is passed on exactly if its level is not below that of the output, unless the system refused the mutex', Or(g['pushed' if w else 'written'] == want, And(g['refused'], g['pushed'] + g['written'] == 0)))
            h.post(o, 'nothing else is passed on', And(g['pushed'] + g['written'] <= 1, g['head'] == 0, g['tail'] == t + g['pushed']))
            if w:
                h.post(o, 'a message pushed is announced afterwards', z3.Implies(g['pushed'] == 1, g['late'] >= 1))
            h.frame(o, [(k.wt.base, k.wt.off + k.off['execute'])] if w else [], since=before)
        out.append(h)
    return out


def u_shutdown(mods):
    out = []
    for w in (True, False):
        k = Out(mods, 'starting and shutting down, %s worker' % ('with' if w else 'without'), w)
        h = k.h
        flags = [(k.wt.base, k.wt.off + k.off[f]) for f in ('execute', 'starting')] if w else []
        st = k.enter('shutdown')
        for o in h.only_ret(h.call('vcg_shutdown', [k.p], st=st)):
            g = o.st.ghost
            h.post(o, 'no mutex is kept', And(g['held'] == 0, g['own'] == 0))
            if w:
                h.post(o, 'a worker that was running was told to stop, woken up afterwards and has ended', z3.Implies(Or(g['was'] == 1, g['asked'] == 0), And(g['told'] == 1, g['late'] >= 1, g['joined'] == 1)))
            h.frame(o, flags, since=st)
        st = k.enter('start')
        for o in h.only_ret(h.call('vcg_start', [k.p], st=st)):
            h.post(o, 'the worker is started once if there is one', o.st.ghost['begun'] == int(w))
            h.frame(o, flags, since=st)
        out.append(h)
    return out


UNITS = [('construction and level', u_ctor), ('worker', u_run), ('pushing', u_push), ('starting and shutting down', u_shutdown)]
