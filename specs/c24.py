"""C24 periodic dispatch: every round carries out all registered operations once, in the order of registration, before the thread waits for the next period

Ghost: n operations are registered; pos of them have been carried out in the current round. The list is traversed through its iterators, which denote positions 0..n."""
from .threadlib import *
from .c13 import HS as FUNCTION, FN
from .c21 import OPAQUE, LOGGING, NATIVE as NAT21
import re

TUS = {'t': 'tu/dispatch.cpp'}
NATIVE = {'src': 'native/dispatch.cpp', 'sources': NAT21['sources'] + ['icl_core_thread/%s.cpp' % n for n in ('PeriodicThread', 'PeriodicThreadImplTimerfd', 'PeriodicThreadImplEmulate')]
          + ['icl_core_dispatch/%s.cpp' % n for n in ('Operation', 'CallbackOperation', 'PeriodicDispatchThread')], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['operations are registered while the thread is not running; they return, do not throw and do not change the list',
               'waiting for the period, stopping and joining are used by their contracts (C23, C21); std::list and boost::function are trusted contracts',
               'the stop request may arrive at any access to the flag (sequential consistency) and is not withdrawn while the thread runs']
OP = r'icl_core::dispatch::Operation ?\*'
LST = r'(?:std::__cxx11::list|icl_core::List)<' + OP + r'(?:, std::allocator<' + OP + r'> ?)?>::'
IT = r'std::_List_(?:const_)?iterator<' + OP + r'>::'


class Disp:
    def __init__(self, mods, name):
        h = self.h = H(mods['t'], name, [], opts={'term': False}, extra=EX_TIME + OPAQUE + LOGGING + FUNCTION + LOCKS)
        glob_zero(h, mods['t'])
        reset(h.st)
        self.off = {'execute': h.off('execute')}
        g = h.st.ghost
        for k in ('pos', 'known0', 'checked', 'waits', 'appended', 'told', 'joined'):
            g[k] = z3.IntVal(0)
        self.n = h.int('operations', 64, False, 0, 2 ** 40).t
        self.ix = {}
        self.role = 'ctor'
        for rx, f in ((LST + r'.*', self.l_other), (LST + r'(?:list|List)\(\)', self.l_ctor), (LST + r'~(?:list|List)\(\)', self.l_dtor), (LST + r'c?begin\(\)(?: const)?', self.l_begin), (LST + r'c?end\(\)(?: const)?', self.l_end),
                      (LST + r'empty\(\) const', lambda ex, st, a, m, i: [('ret', st, I(1, self.n == 0))]), (LST + r'size\(\) const', lambda ex, st, a, m, i: [('ret', st, I(64, self.n, 0, 2 ** 40))]),
                      (LST + r'push_back\(.*\)', self.l_push), (r'(?:.* )?' + LST + r'emplace_back<.*>\(.*\)', self.l_push), (LST + r'insert\(std::_List_const_iterator<[^<>]*>, ' + OP + r' ?(?:const)?&&?\)', self.l_insert), (r'std::__cxx11::_List_base<' + OP + r', .*>::_List_base\(\)', self.l_ctor), (r'std::__cxx11::_List_base<' + OP + r', .*>::~_List_base\(\)', self.l_dtor),
                      (IT + r'operator\*\(\) const', self.deref), (IT + r'operator(\+\+|--)\((int)?\)', self.step), (IT + r'operator(==|!=)\(.*\) const', self.eq),
                      (r'bool std::operator(==|!=)\(std::_List_(?:const_)?iterator<' + OP + r'>(?:::_Self)? const&, std::_List_(?:const_)?iterator<' + OP + r'>(?:::_Self)? const&\)', self.eq)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((r'@?vcg_op_execute', self.execute), (r'@?vcg_op_dispose', lambda ex, st, a, m, i: [('ret', st, None)]),
                      (r'icl_core::thread::PeriodicThread::waitPeriod\(\)', self.wait), (r'icl_core::thread::Thread::stop\(\)', self.stop), (r'icl_core::thread::Thread::join\(\)', self.join)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        self.p = h.obj('thread', None, h.off('pdt'))
        d = h.obj('description', None, 32)
        h.put(d, 0, Abs('string'), 32)
        t = h.obj('period', None, 16)
        h.put(t, 0, h.int('period.s', 64, True))
        h.put(t, 8, h.int('period.n', 32, True))
        outs = h.only_ret(h.call('vcg_ctor', [self.p, d, t, h.int('priority', 32, True)]))
        if len(outs) != 1:
            raise Unsupported('constructor with %d outcomes' % len(outs))
        self.ctor = outs[0]
        st = self.st = outs[0].st.fork()
        st.mem['@proto'] = h.st.mem[h.obj('@proto', None, h.off('op')).base]
        o = h.only_ret(h.call('vcg_op_ctor', [P('@proto')], st=st.fork()))[0]
        self.proto = dict(o.st.mem['@proto'].cells)
        reset(st)

    def new_op(self, st, idx):
        b = self.h.ex.uniq('@op')
        self.h.ex.new_obj(st, b, None, self.h.off('op'))
        st.w(b).cells.update(self.proto)
        self.ix[b] = idx
        return P(b)

    # ---- the list
    def l_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (24, Abs('list'))
        return [('ret', st, None)]

    def l_dtor(self, ex, st, args, m, ins):
        if self.role == 'dtor':
            ex.require(st, 'postcondition', And(st.ghost['told'] == 1, st.ghost['joined'] == 1), 'the list is destroyed only after the thread was told to stop and has ended')
        st.w(args[0].base).cells[args[0].off] = (24, Abs('dead'))
        return [('ret', st, None)]

    def l_other(self, ex, st, args, m, ins):
        raise Unsupported('std::list operation outside the contract: ' + m.group(0))

    def is_list(self, st, p):
        c = st.mem[p.base].cells.get(p.off)
        if p.base != 'thread' or c is None or not isinstance(c[1], Abs) or c[1].kind != 'list':
            raise Unsupported('not the list of the object')

    def l_begin(self, ex, st, args, m, ins):
        self.is_list(st, args[0])
        return [('ret', st, P('@nodes', z3.IntVal(0)))]

    def l_end(self, ex, st, args, m, ins):
        self.is_list(st, args[0])
        return [('ret', st, P('@nodes', self.n))]

    def l_push(self, ex, st, args, m, ins):
        self.is_list(st, args[0])
        v = ex.load(st, args[1], ir.Ty('ptr')) if isinstance(args[1], P) and args[1].base not in self.ix else args[1]
        ex.require(st, 'postcondition', z3.BoolVal(self.role == 'register' and v.base == self.mine), 'the operation given is appended')
        st.ghost['appended'] = st.ghost['appended'] + 1
        return [('ret', st, None)]

    def l_insert(self, ex, st, args, m, ins):
        if not isinstance(args[1], P) or args[1].base != '@nodes':
            raise Unsupported('not an iterator of the list')
        ex.require(st, 'postcondition', args[1].idx == self.n, 'the operation given is appended')
        self.l_push(ex, st, [args[0], args[2]], m, ins)
        return [('ret', st, P('@nodes', self.n))]

    def node(self, ex, st, p):
        v = ex.load(st, p, ir.Ty('ptr'))
        if not isinstance(v, P) or v.base != '@nodes':
            raise Unsupported('not an iterator of the list')
        return v.idx

    def deref(self, ex, st, args, m, ins):
        i = self.node(ex, st, args[0])
        ex.require(st, 'precondition', And(i >= 0, i < self.n), 'an iterator is followed only inside the list')
        b = ex.uniq('@slot')
        ex.new_obj(st, b, None, 8)
        st.w(b).cells[0] = (8, self.new_op(st, i))
        out = [('ret', st, P(b))]
        if self.role == 'register':   # the operation to be registered may be in the list already
            s2 = st.fork()
            s2.w(b).cells[0] = (8, P(self.mine))
            out.append(('ret', s2, P(b)))
        return out

    def step(self, ex, st, args, m, ins):
        i = self.node(ex, st, args[0])
        j = i + 1 if m.group(1) == '++' else i - 1
        ex.require(st, 'precondition', And(j >= 0, j <= self.n), 'an iterator moves only inside the list')
        ex.store(st, args[0], ir.Ty('ptr'), P('@nodes', j))
        return [('ret', st, P('@nodes', i) if m.group(2) else args[0])]

    def eq(self, ex, st, args, m, ins):
        e = self.node(ex, st, args[0]) == self.node(ex, st, args[1])
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]

    # ---- the thread of execution
    def hook(self, ex, st, when, p, old, new, order):
        if p.off != self.off['execute']:
            return
        g, o = st.ghost, st.w('thread')
        if when == 'pre':
            v = ex.th.fresh(ex.uniq('execute'), 8)
            st.assume(And(v.t >= 0, v.t <= 1, v.t <= ex.th.U(o.cells[p.off][1]), z3.Implies(g['known0'] == 1, v.t == 0)))
            o.cells[p.off] = (1, v)
        elif new is old:
            x = ex.th.U(old)
            g['known0'] = z3.If(x == 0, z3.IntVal(1), g['known0'])
            g['checked'] = z3.If(x == 0, z3.IntVal(0), z3.IntVal(1))
        else:
            ex.require(st, 'guarantee', False, 'the request flag belongs to the thread class')

    def execute(self, ex, st, args, m, ins):
        g = st.ghost
        i = self.ix.get(args[0].base)
        if i is None or args[0].off != 0:
            raise Unsupported('unknown operation')
        ex.require(st, 'postcondition', z3.BoolVal(self.role == 'run'), 'operations are carried out only by the thread of execution')
        ex.require(st, 'postcondition', i == g['pos'], 'the operations of a round are carried out in the order of registration, each once')
        ex.require(st, 'postcondition', Or(g['pos'] > 0, g['known0'] == 0), 'no round begins after a stop request was noticed')
        g['pos'] = g['pos'] + 1
        g['checked'] = z3.IntVal(0)
        return [('ret', st, None)]

    def wait(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', z3.BoolVal(self.role == 'run' and args[0].base == 'thread'), 'the thread of execution waits for its own period')
        ex.require(st, 'postcondition', g['pos'] == self.n, 'it waits only after all operations of the round were carried out')
        ex.require(st, 'postcondition', g['checked'] == 1, 'it waits only if no stop was requested before the last operation of the round ended')
        g['pos'] = z3.IntVal(0)
        g['checked'] = z3.IntVal(0)
        g['waits'] = g['waits'] + 1
        return [('ret', st, None)]

    def stop(self, ex, st, args, m, ins):
        st.ghost['told'] = z3.IntVal(1)
        return [('ret', st, None)]

    def join(self, ex, st, args, m, ins):
        ex.require(st, 'deadlock', Or(st.ghost['told'] == 1), 'joining only after the thread was told to stop')
        st.ghost['joined'] = z3.IntVal(1)
        return [('ret', st, None)]


def u_run(mods):
    k = Disp(mods, 'thread of execution')
    h = k.h
    k.role = 'run'
    st = k.st.fork()
    v = h.ex.th.fresh('flag.execute', 8)
    st.assume(And(v.t >= 0, v.t <= 1))
    st.w('thread').cells[k.off['execute']] = (1, v)
    h.ex.new_arr(st, '@nodes', 8, k.n + 1)
    h.ex.opts['atomic'] = ('thread', k.hook, False)

    def bounds(ex, ctx):
        r = []
        for q in ctx.keys:
            if q == ('ghost', 'pos'):
                r.append(('position', lambda v: And(v[('ghost', 'pos')] >= 0, v[('ghost', 'pos')] <= k.n)))
                r.append(('complete', lambda v: Or(v[('ghost', 'pos')] == 0, v[('ghost', 'pos')] == k.n)))
                if ('ghost', 'known0') in ctx.keys:
                    r.append(('interrupted', lambda v: Or(v[('ghost', 'pos')] == 0, v[('ghost', 'known0')] == 1)))
            if ('ghost', 'pos') in ctx.keys and isinstance(ctx.entry.get(q), P) and ctx.entry[q].base == '@nodes':
                r.append(('iterator %s' % (q,), lambda v, q=q: v[q].idx == v[('ghost', 'pos')]))
        return r
    h.ex.templates.append(bounds)
    for o in h.only_ret(h.call('vcg_run', [k.p], st=st)):
        g = o.st.ghost
        h.post(o, 'it ends only after a stop request', g['known0'] == 1)
        h.post(o, 'a round that was begun was completed', Or(g['pos'] == 0, g['pos'] == k.n))
        h.frame(o, [('thread', k.off['execute'])], since=st)
    return h


def u_register(mods):
    k = Disp(mods, 'registration and destruction')
    h = k.h
    k.role = 'register'
    st = k.st.fork()
    before = st.fork()
    op = k.new_op(st, z3.Int('mine'))
    k.mine = op.base
    h.ex.new_arr(st, '@nodes', 8, k.n + 1)
    before = st.fork()
    for o in h.only_ret(h.call('vcg_add', [k.p, op], st=st)):
        h.post(o, 'the operation is appended once', o.st.ghost['appended'] == 1)
        h.frame(o, [], since=before)
    k.role = 'dtor'
    st = k.st.fork()
    for o in h.only_ret(h.call('vcg_dtor', [k.p], st=st)):
        h.post(o, 'the thread has ended', And(o.st.ghost['told'] == 1, o.st.ghost['joined'] == 1))
    return h


def u_callback(mods):
    h = H(mods['t'], 'callback operations', [], extra=FUNCTION)
    h.st.ghost['runs'], h.st.ghost['ran'] = z3.IntVal(0), z3.IntVal(-1)
    f = h.obj('function', None, 32)
    i = h.int('action', 64, False, 1, 2 ** 40).t
    h.put(f, 0, Abs('fn', id=i), 32)
    p = h.obj('operation', None, h.off('cb'))
    for o in h.only_ret(h.call('vcg_cb_ctor', [p, f])):
        h.post(o, 'nothing is called yet', o.st.ghost['runs'] == 0)
        h.frame(o, [('operation', None)])
        # the original may be gone by the time the operation is carried out
        st = o.st.fork()
        st.w('function').cells[0] = (32, Abs('fn', id=z3.IntVal(0)))
        for o2 in h.only_ret(h.call('vcg_cb_execute', [p], st=st)):
            h.post(o2, 'carrying it out calls the given function exactly once', And(o2.st.ghost['runs'] == 1, o2.st.ghost['ran'] == i))
            for o3 in h.only_ret(h.call('vcg_cb_execute', [p], st=o2.st)):
                h.post(o3, 'and again at the next round', And(o3.st.ghost['runs'] == 2, o3.st.ghost['ran'] == i))
            for o3 in h.only_ret(h.call('vcg_cb_dtor', [p], st=o2.st)):
                h.post(o3, 'destruction calls nothing', o3.st.ghost['runs'] == 1)
    return h


UNITS = [('thread of execution', u_run), ('registration and destruction', u_register), ('callback operations', u_callback)]
