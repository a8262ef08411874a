"""C23 periodic waiting: the timer runs with exactly the current period, a wait ends only with its expiry

Timer implementation: class invariant over the real fields and the ghost set of open timers (exactly the one the object names, or none); every operation is shown to
preserve it from an arbitrary state that satisfies it. Emulation: the loop that sleeps has the invariant "time left = due time - last reading of the clock"."""
from .threadlib import *
from .c21 import OPAQUE, LOGGING, NATIVE as NAT21
import re

TUS = {'t': 'tu/periodic.cpp'}
NATIVE = {'src': 'native/periodic.cpp', 'sources': NAT21['sources'] + ['icl_core_thread/%s.cpp' % n for n in ('PeriodicThread', 'PeriodicThreadImplTimerfd', 'PeriodicThreadImplEmulate')], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['timerfd_create, timerfd_settime, read, close, nanosleep and the clock are trusted contracts with arbitrary outcomes (also failures and interruptions)',
               'periods are normalised, positive and below 2^31 seconds; the real-time mode of the thread is not changed (no LXRT)',
               'the period is not changed by another thread while the thread is being started',
               'the emulation has no termination obligation (it depends on the clock); its clock may be set at any time']
EINTR = 4


class Per:
    def __init__(self, mods, name, emu=False):
        h = self.h = H(mods['t'], name, [], opts={'term': False}, extra=EX_TIME + OPAQUE + LOGGING + LOCKS)
        glob_zero(h, mods['t'])
        reset(h.st)
        hs = h.ex.handlers
        for rx, f in ((r'@?timerfd_create', self.create), (r'@?timerfd_settime', self.settime), (r'@?timerfd_gettime', self.gettime), (r'@?read', self.read), (r'@?close', self.close), (r'@?perror', lambda ex, st, args, m, ins: [('ret', st, None)]),
                      (r'@?__errno_location', self.errno), (r'@?nanosleep', self.nanosleep), (NOW[0], self.clock)):
            hs.insert(0, (re.compile(rx), f, 'trusted'))
        h.ex.hcache.clear()
        h.ex.opts['atomic'] = None
        g = h.st.ghost
        g['open'] = z3.K(z3.IntSort(), z3.BoolVal(False))
        for k in ('nopen', 'expired', 'failed', 'interrupted', 'armed', 'requests'):
            g[k] = z3.IntVal(0)
        g['req'] = None
        p = h.obj('errno', None, 4)
        h.put(p, 0, h.int('errno.value', 32, True), 4)
        self.span('period')
        self.emu = emu
        if emu:
            self.p = h.obj('emulation', None, h.off('emu'))
            outs = h.only_ret(h.call('vcg_emu_ctor', [self.p, P('period')]))
        else:
            self.p = h.obj('thread', None, h.off('worker'))
            d = h.obj('description', None, 32)
            h.put(d, 0, Abs('string'), 32)
            outs = h.only_ret(h.call('vcg_ctor', [self.p, d, P('period'), h.int('priority', 32, True)]))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.ctor = outs[0]
        self.st = outs[0].st.fork()
        if not emu:
            q = self.st.mem['thread'].cells[h.off('impl')][1]
            self.impl = q
            self.infop = self.cell(self.st, q, 'info')

    def span(self, name, st=None):
        h = self.h
        p = h.obj(name, None, 16)
        s, n = h.int(name + '.s', 64, True), h.int(name + '.n', 32, True)
        h.put(p, 0, s)
        h.put(p, 8, n)
        c = And(s.t >= 0, s.t < 2 ** 31, n.t >= 0, n.t < G, Or(s.t > 0, n.t > 0))
        h.assume(c)
        if st is not None:
            st.mem[name] = h.st.mem[name]
            st.assume(c)
        setattr(self, name, (s.t, n.t))
        return p

    def cell(self, st, p, f):
        c = st.mem[p.base].cells.get(p.off + self.h.off(f))
        return c[1] if c is not None else None

    # ---- the system
    def errno(self, ex, st, args, m, ins):
        return [('ret', st, P('errno'))]

    def fail(self, ex, st, no=None):
        v = ex.th.fresh(ex.uniq('error'), 32, True)
        st.assume(And(v.t > 0, v.t < 134) if no is None else v.t == no)
        st.w('errno').cells[0] = (4, v)
        return v.t

    def create(self, ex, st, args, m, ins):
        ex.require(st, 'precondition', And(ex.th.U(args[0]) == 1), 'the timer does not depend on the setting of the clock')
        ex.require(st, 'precondition', Or(ex.th.U(args[1]) == 0, ex.th.U(args[1]) == 0x80000), 'reading the timer waits for its expiry')
        bad = st.fork()
        self.fail(ex, bad)
        fd = ex.th.fresh(ex.uniq('timer'), 32, True)
        g = st.ghost
        st.assume(And(fd.t >= 0, z3.Not(z3.Select(g['open'], fd.t))))
        g['open'] = z3.Store(g['open'], fd.t, z3.BoolVal(True))
        g['nopen'] = g['nopen'] + 1
        return [('ret', st, fd), ('ret', bad, ex.th.const(32, -1))]

    def close(self, ex, st, args, m, ins):
        g, fd = st.ghost, ex.th.S(args[0])
        ex.require(st, 'precondition', z3.Select(g['open'], fd), 'only an open timer is closed')
        g['open'] = z3.Store(g['open'], fd, z3.BoolVal(False))
        g['nopen'] = g['nopen'] - 1
        return [('ret', st, ex.th.const(32, 0))]

    def settime(self, ex, st, args, m, ins):
        fd, g = ex.th.S(args[0]), st.ghost
        q = args[2]
        v = [ex.th.S(ex.load(st, P(q.base, q.idx, q.off + 8 * k), ir.Ty('int', w=64))) for k in range(4)]
        ex.require(st, 'postcondition', And(ex.th.U(args[1]) == 0), 'the timer is armed relative to now')
        if isinstance(args[3], P) and args[3].base is not None:
            for k in range(4):
                ex.store(st, P(args[3].base, args[3].idx, args[3].off + 8 * k), ir.Ty('int', w=64), ex.th.fresh(ex.uniq('old'), 64, True))
        g['requests'] = g['requests'] + 1
        bad = st.fork()
        self.fail(ex, bad)
        st.assume(And(z3.Select(g['open'], fd), *[And(v[k] >= 0, v[k] < (G if k % 2 else 2 ** 63)) for k in range(4)]))
        g['armed'] = g['armed'] + 1
        g['req'] = tuple([fd] + v)
        bad.assume(z3.BoolVal(True))
        bad.ghost['refused'] = z3.And(z3.Select(g['open'], fd), *[And(v[k] >= 0, v[k] < (G if k % 2 else 2 ** 63)) for k in range(4)])
        return [('ret', st, ex.th.const(32, 0)), ('ret', bad, ex.th.const(32, -1))]

    def gettime(self, ex, st, args, m, ins):
        q = args[1]
        for k in range(4):
            v = ex.th.fresh(ex.uniq('time.left'), 64, True)
            st.assume(And(v.t >= 0, v.t < (G if k % 2 else 2 ** 31)))
            ex.store(st, P(q.base, q.idx, q.off + 8 * k), ir.Ty('int', w=64), v)
        return [('ret', st, ex.th.const(32, 0))]

    def read(self, ex, st, args, m, ins):
        fd, q, n, g = ex.th.S(args[0]), args[1], args[2], st.ghost
        ex.require(st, 'precondition', And(ex.th.U(n) >= 8), 'room for the number of expiries')
        bad = st.fork()
        no = self.fail(ex, bad)
        g2 = bad.ghost
        g2['interrupted'] = g2['interrupted'] + z3.If(no == EINTR, z3.IntVal(1), z3.IntVal(0))
        g2['failed'] = g2['failed'] + z3.If(no == EINTR, z3.IntVal(0), z3.IntVal(1))
        c = ex.th.fresh(ex.uniq('expiries'), 64)
        st.assume(And(c.t >= 1, z3.Select(g['open'], fd)))
        ex.store(st, q, ir.Ty('int', w=64), c)
        g['expired'] = g['expired'] + z3.If(fd == self.want, z3.IntVal(1), z3.IntVal(0))
        return [('ret', st, ex.th.const(64, 8)), ('ret', bad, ex.th.const(64, -1))]

    def clock(self, ex, st, args, m, ins):
        g = st.ghost
        r = libc_clock(ex, st, args, m, ins)
        v = value(*g['now'])
        if 'due' not in g:
            d = value(*self.last0) + value(*self.per0)
            g['due'] = z3.If(v < value(*self.last0), v + value(*self.per0), d)
            g['seen'] = z3.IntVal(0)
            g['slept'] = z3.IntVal(0)
        g['reading'] = v
        g['seen'] = z3.If(v >= g['due'], z3.IntVal(1), g['seen'])
        return r

    def nanosleep(self, ex, st, args, m, ins):
        g = st.ghost
        q = args[0]
        s, n = ex.th.S(ex.load(st, q, ir.Ty('int', w=64))), ex.th.S(ex.load(st, P(q.base, q.idx, q.off + 8), ir.Ty('int', w=64)))
        ex.require(st, 'precondition', And(s >= 0, n >= 0, n < G), 'sleeping: a valid time span')
        ex.require(st, 'postcondition', z3.BoolVal('due' in g), 'the clock is read before sleeping')
        if 'due' in g:
            ex.require(st, 'postcondition', value(s, n) <= g['due'] - g['reading'], 'it never sleeps longer than until the end of the period')
            g['slept'] = z3.IntVal(1)
        if isinstance(args[1], P) and args[1].base is not None:
            a, b = ex.th.fresh(ex.uniq('rem.s'), 64, True), ex.th.fresh(ex.uniq('rem.n'), 64, True)
            ex.store(st, args[1], ir.Ty('int', w=64), a)
            ex.store(st, P(args[1].base, args[1].idx, args[1].off + 8), ir.Ty('int', w=64), b)
        r = ex.th.fresh(ex.uniq('slept'), 32, True)
        st.assume(Or(r.t == 0, r.t == -1))
        return [('ret', st, r)]

    # ---- arbitrary state within the invariant
    def state(self):
        h = self.h
        st = self.st.fork()
        cur = (h.int('current.s', 64, True), h.int('current.n', 32, True))
        st.assume(And(cur[0].t >= 0, cur[0].t < 2 ** 31, cur[1].t >= 0, cur[1].t < G, Or(cur[0].t > 0, cur[1].t > 0)))
        self.cur = (cur[0].t, cur[1].t)
        q = self.impl
        o = st.w(q.base)
        c = h.int('created', 8, False, 0, 1)
        fd = h.int('fd', 32, True)
        st.assume(And(c.t >= 0, c.t <= 1))
        o.cells[q.off + h.off('period')] = (8, cur[0])
        o.cells[q.off + h.off('period') + 8] = (4, cur[1])
        o.cells[q.off + h.off('created')] = (1, c)
        i = st.w(self.infop.base)
        i.cells[self.infop.off + h.off('fd')] = (4, fd)
        for off in list(i.cells):
            if off != self.infop.off + h.off('fd'):
                sz = i.cells[off][0]
                i.cells[off] = (sz, h.ex.th.fresh('info.%d' % off, sz * 8))
        g = st.ghost
        g['open'] = z3.Store(z3.K(z3.IntSort(), z3.BoolVal(False)), fd.t, c.t == 1)
        g['nopen'] = c.t
        st.assume(z3.Implies(c.t == 1, fd.t >= 0))
        for k in ('expired', 'failed', 'interrupted', 'armed', 'requests'):
            g[k] = z3.IntVal(0)
        g['req'] = None
        self.created, self.want, self.fd = c.t, fd.t, fd.t
        return st

    def inv(self, o, cur):
        h, st = self.h, o.st
        q = st.mem['thread'].cells[h.off('impl')][1]
        i = self.cell(st, q, 'info')
        c = self.h.u(self.cell(st, q, 'created'))
        f = self.cell(st, i, 'fd')
        g = st.ghost
        h.post(o, 'the object names exactly the timers that exist', And(Or(c == 0, c == 1), g['nopen'] == c, z3.Implies(c == 1, z3.Select(g['open'], h.s(f)) if f is not None else z3.BoolVal(False))))
        ps, pn = h.s(self.cell(st, q, 'period')), h.s(st.mem[q.base].cells[q.off + h.off('period') + 8][1])
        h.post(o, 'the period is the one set last', And(ps == cur[0], pn == cur[1]))
        h.post(o, 'the object stays alive', z3.BoolVal(st.mem[q.base].alive and st.mem[i.base].alive))
        return c, f

    def armed(self, o, when, f, cur):
        g = o.st.ghost
        r = g['req']
        if r is None:
            self.h.post(o, 'the timer is armed', z3.Not(when))
            return
        self.h.post(o, 'the timer that exists is armed once with the period as first expiry and as interval', z3.Implies(when, And(g['armed'] == 1, r[0] == self.h.s(f), value(r[1], r[2]) == value(*cur), value(r[3], r[4]) == value(*cur), r[2] < G, r[4] < G)))


def u_ctor(mods):
    k = Per(mods, 'construction and destruction')
    h, o = k.h, k.ctor
    g = o.st.ghost
    h.post(o, 'no timer exists yet', And(g['nopen'] == 0, g['requests'] == 0))
    c = k.cell(o.st, k.impl, 'created')
    h.post(o, 'the object names no timer', h.u(c) == 0)
    q = k.impl
    h.post(o, 'the period is the one given', And(h.s(k.cell(o.st, q, 'period')) == k.period[0], h.s(o.st.mem[q.base].cells[q.off + h.off('period') + 8][1]) == k.period[1]))
    # destruction in any state
    st = k.state()
    for o in h.only_ret(h.call('vcg_dtor', [k.p], st=st)):
        h.post(o, 'no timer outlives the object', o.st.ghost['nopen'] == 0)
        h.post(o, 'nothing else outlives the object', z3.BoolVal(not o.st.mem[k.impl.base].alive and not o.st.mem[k.infop.base].alive))
    return h


def u_begin(mods):
    k = Per(mods, 'becoming periodic')
    h = k.h
    for o in h.only_ret(h.call('vcg_begin', [k.p], st=k.state())):
        c, f = k.inv(o, k.cur)
        g = o.st.ghost
        ref = g.get('refused', z3.BoolVal(False))
        ref = ref if z3.is_expr(ref) else z3.BoolVal(bool(ref))
        # the timer is armed unless none could be created or the system refused a valid request
        k.armed(o, And(c == 1, z3.Not(ref)), f, k.cur)
    return h


def u_set(mods):
    k = Per(mods, 'changing the period')
    h = k.h
    st = k.state()
    p = k.span('wanted', st)
    for o in h.only_ret(h.call('vcg_set', [k.p, p], st=st)):
        c, f = k.inv(o, k.wanted)
        g = o.st.ghost
        r = b2i(h, o.val)
        h.post(o, 'no timer is created or closed', c == k.created)
        h.post(o, 'success is reported exactly if a timer was armed', And(Or(r == 0, r == 1), (r == 1) == (g['armed'] >= 1)))
        ref = g.get('refused', z3.BoolVal(False))
        ref = ref if z3.is_expr(ref) else z3.BoolVal(bool(ref))
        k.armed(o, And(c == 1, z3.Not(ref)), f, k.wanted)
    q = h.obj('result', None, 16)
    st = k.state()
    st.mem['result'] = h.st.mem['result']
    for o in h.only_ret(h.call('vcg_get', [k.p, q], st=st)):
        a, b = rd(h, o, q)
        h.post(o, 'the period is told truthfully', And(a == k.cur[0], b == k.cur[1]))
    return h


def u_wait(mods):
    k = Per(mods, 'waiting')
    h = k.h
    for o in h.only_ret(h.call('vcg_wait', [k.p], st=k.state())):
        c, f = k.inv(o, k.cur)
        g = o.st.ghost
        h.post(o, 'the timer is not touched', And(c == k.created, g['requests'] == 0))
        h.post(o, 'it returns only after exactly one wait that ended with an expiry, or after the system refused', z3.Implies(k.created == 1, Or(And(g['expired'] == 1, g['failed'] == 0), g['failed'] >= 1)))
    return h


def u_emulation(mods):
    k = Per(mods, 'emulation', emu=True)
    h, o = k.h, k.ctor
    h.post(o, 'the period is the one given', And(*[a == b for a, b in zip(rd(h, o, k.p, h.off('eperiod')), k.period)]))
    st = k.st.fork()
    p = k.span('wanted', st)
    for o in h.only_ret(h.call('vcg_emu_set', [k.p, p], st=st)):
        h.post(o, 'setting the period succeeds', b2i(h, o.val) == 1)
        h.post(o, 'the period is the one set last', And(*[a == b for a, b in zip(rd(h, o, k.p, h.off('eperiod')), k.wanted)]))
        h.frame(o, [(k.p.base, h.off('eperiod')), (k.p.base, h.off('eperiod') + 8)], since=st)
    q = h.obj('result', None, 16)
    st = k.st.fork()
    st.mem['result'] = h.st.mem['result']
    for o in h.only_ret(h.call('vcg_emu_get', [k.p, q], st=st)):
        h.post(o, 'the period is told truthfully', And(*[a == b for a, b in zip(rd(h, o, q), k.period)]))
    for o in h.only_ret(h.call('vcg_emu_begin', [k.p], st=k.st.fork())):
        h.frame(o, [], since=k.st)
    # waiting
    st = k.st.fork()
    last = (h.int('last.s', 64, True), h.int('last.n', 32, True))
    st.assume(And(last[0].t >= 0, last[0].t <= 2 ** 61, last[1].t >= 0, last[1].t < G))
    ob = st.w(k.p.base)
    ob.cells[h.off('elast')], ob.cells[h.off('elast') + 8] = (8, last[0]), (4, last[1])
    k.last0, k.per0 = (last[0].t, last[1].t), k.period

    def left(ex, ctx):
        ks = [c for c in ctx.keys if c[0] == 'cell']
        r = []
        g = ctx.base.ghost
        if 'due' not in g:
            return r
        for c in ks:
            d = ('cell', c[1], c[2] + 8)
            if d in ctx.keys and ('ghost', 'reading') in ctx.keys:
                r.append(('time left of %s+%d' % (c[1], c[2]), lambda v, c=c, d=d: value(ex.th.S(v[c]), ex.th.S(v[d])) + v[('ghost', 'reading')] == g['due']))
                r.append(('reading in %s+%d' % (c[1], c[2]), lambda v, c=c, d=d: value(ex.th.S(v[c]), ex.th.S(v[d])) == v[('ghost', 'reading')]))
                r.append(('normalised %s+%d' % (c[1], c[2]), lambda v, c=c, d=d: And(normalised(ex.th.S(v[c]), ex.th.S(v[d])), ex.th.S(v[c]) <= 2 ** 62 - 8, ex.th.S(v[c]) >= -2 ** 62 + 8)))
        if ('ghost', 'reading') in ctx.keys:
            r.append(('reading in range', lambda v: And(v[('ghost', 'reading')] >= 0, v[('ghost', 'reading')] < (2 ** 61 + 1) * G)))
        if ('ghost', 'seen') in ctx.keys:
            r.append(('seen', lambda v: z3.Implies(v[('ghost', 'reading')] >= g['due'], v[('ghost', 'seen')] == 1)))
            r.append(('sleep only if', lambda v: Or(v[('ghost', 'slept')] == 0, v[('ghost', 'slept')] == 1)))
        return r
    h.ex.templates.append(left)
    for o in h.only_ret(h.call('vcg_emu_wait', [k.p], st=st)):
        g = o.st.ghost
        h.post(o, 'it returns only after the clock has shown the end of the period', g['seen'] == 1 if 'seen' in g else False)
        h.post(o, 'the next period begins when the wait ends', value(*rd(h, o, k.p, h.off('elast'))) == g['reading'])
        h.frame(o, [(k.p.base, h.off('elast')), (k.p.base, h.off('elast') + 8)], since=st)
    return h


UNITS = [('construction and destruction', u_ctor), ('becoming periodic', u_begin), ('changing the period', u_set), ('waiting', u_wait), ('emulation', u_emulation)]
