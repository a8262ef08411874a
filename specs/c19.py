"""C19 spin locks: mutual exclusion, truthful results, acquire/release ordering; every schedule of the other threads is covered by letting the shared cell
change between any two accesses of the thread under contract (rely: the others only take a free lock or give back their own)"""
from .threadlib import *

TUS = {'t': 'tu/thread.cpp'}
NATIVE = {'src': 'native/spin.cpp', 'sources': ['icl_core/Noncopyable.cpp'], 'flags': ['-fsanitize=thread'], 'libs': ['-lpthread']}
ASSUMPTIONS = ['boost::atomic is compiled and verified with the code; the hardware realises the ordering of the emitted atomic instructions (LLVM memory model trusted)',
               'other threads follow the lock protocol (rely condition): they change the cell only from free to taken, or from taken to free when they hold it',
               'a lock is given back only by the thread that holds it (precondition); lock() has no termination obligation (it waits)']
C, SC = 'icl_core::thread::SpinLock', 'icl_core::thread::ScopedSpinLock'
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')


class K:
    def __init__(self, mods, name, own, term):
        h = self.h = H(mods['t'], name, [], opts={'term': term})
        self.p = h.obj('lock', None, h.off('spin'))
        outs = h.only_ret(h.call(C + '::SpinLock()', [self.p]))
        if len(outs) != 1:
            raise Unsupported('constructor')
        st = self.st = outs[0].st.fork()
        cells = [(off, sz, v) for off, (sz, v) in st.mem['lock'].cells.items() if isinstance(v, I)]
        if len(cells) != 1:
            raise Unsupported('a spin lock consists of %d cells' % len(cells))
        self.off, self.sz, v = cells[0]
        if not isinstance(v.t, int):
            raise Unsupported('the initial state of a spin lock is not a constant')
        self.U = v
        self.w = v.w
        # the taken state: what an uncontended lock() leaves behind
        h2 = H(mods['t'], name, [], opts={'term': False})
        p2 = h2.obj('lock', None, h2.off('spin'))
        h2.put(p2, self.off, self.U)
        ls = set()
        for o in h2.ex.run(h2.st, h2.fn(C + '::lock()'), [p2]):
            c = o.st.mem['lock'].cells[self.off][1]
            if not isinstance(c.t, int):
                raise Unsupported('the taken state of a spin lock is not a constant')
            ls.add(c.t)
        if len(ls) != 1:
            raise Unsupported('taken states %r' % ls)
        self.L = h.ex.th.const(self.w, ls.pop())
        h.post(st, 'the taken state differs from the free state', self.L.t != self.U.t)
        if own:
            st.w('lock').cells[self.off] = (self.sz, self.L)
        else:
            st.w('lock').cells[self.off] = (self.sz, self.anystate(st))
        g = st.ghost
        for k in ('acq', 'rel'):
            g[k] = z3.IntVal(0)
        g['own'] = z3.BoolVal(own)
        g['bad'], g['saw'], g['ord'] = z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(True)
        h.ex.opts['atomic'] = ('lock', self.hook)

    def anystate(self, st):
        v = self.h.ex.th.fresh(self.h.ex.uniq('shared'), self.w, False)
        st.assume(Or(v.t == self.U.t, v.t == self.L.t))
        return v

    def hook(self, ex, st, when, p, old, new, order):
        g = st.ghost
        if p.off != self.off:
            ex.require(st, 'precondition', False, 'the lock consists of one cell')
            return
        if when == 'pre':
            o = st.w('lock')
            cur = o.cells[self.off][1]
            o.cells[self.off] = (self.sz, ex.th.ite(g['own'], cur, self.anystate(st)))
            return
        a, b, u, l = ex.th.U(old), ex.th.U(new), self.U.t, self.L.t
        take = And(z3.Not(g['own']), a == u, b == l)
        give = And(g['own'], a == l, b == u)
        g['bad'] = Or(g['bad'], And(z3.Not(take), z3.Not(give), a != b))
        g['saw'] = Or(g['saw'], And(z3.Not(g['own']), a == l))
        g['ord'] = And(g['ord'], z3.Implies(take, z3.BoolVal(order in ACQ)), z3.Implies(give, z3.BoolVal(order in REL)))
        g['acq'] = g['acq'] + z3.If(take, z3.IntVal(1), z3.IntVal(0))
        g['rel'] = g['rel'] + z3.If(give, z3.IntVal(1), z3.IntVal(0))
        g['own'] = z3.simplify(z3.If(take, z3.BoolVal(True), z3.If(give, z3.BoolVal(False), g['own'])))

    def protocol(self, o):
        g = o.st.ghost
        self.h.post(o, 'the lock is only taken when it is free and given back when it is held', z3.Not(g['bad']))
        self.h.post(o, 'taking it has acquire, giving it back release ordering', g['ord'])


def u_ctor(mods):
    k = K(mods, 'SpinLock::SpinLock', False, True)
    return k.h


def u_lock(mods):
    k = K(mods, 'SpinLock::lock', False, False)
    for o in k.h.only_ret(k.h.call(C + '::lock()', [k.p], st=k.st)):
        k.protocol(o)
        k.h.post(o, 'the lock is held afterwards, taken once', And(o.st.ghost['own'], o.st.ghost['acq'] == 1, o.st.ghost['rel'] == 0))
        k.h.post(o, 'success is reported', b2i(k.h, o.val) == 1)
    return k.h


def u_try(mods):
    k = K(mods, 'SpinLock::tryLock', False, True)
    for o in k.h.only_ret(k.h.call(C + '::tryLock()', [k.p], st=k.st)):
        k.protocol(o)
        g = o.st.ghost
        r = b2i(k.h, o.val)
        k.h.post(o, 'success is reported exactly if the lock was taken', And(g['own'] == (r == 1), g['acq'] == r, g['rel'] == 0))
        k.h.post(o, 'it fails only if the lock was not free', z3.Implies(r == 0, g['saw']))
    return k.h


def u_unlock(mods):
    k = K(mods, 'SpinLock::unlock', True, True)
    for o in k.h.only_ret(k.h.call(C + '::unlock()', [k.p], st=k.st)):
        k.protocol(o)
        g = o.st.ghost
        k.h.post(o, 'the lock is given back once', And(z3.Not(g['own']), g['rel'] == 1, g['acq'] == 0))
    return k.h


def u_scoped(mods):
    k = K(mods, 'ScopedSpinLock', False, False)
    h = k.h
    q = h.obj('scoped', None, h.off('sspin'))
    k.st.mem['scoped'] = h.st.mem['scoped']
    for o in h.only_ret(h.call(SC + '::ScopedSpinLock(icl_core::thread::SpinLock&)', [q, k.p], st=k.st, var='C1')):
        k.protocol(o)
        h.post(o, 'held during its lifetime', And(o.st.ghost['own'], o.st.ghost['acq'] == 1, o.st.ghost['rel'] == 0))
        mid = o.st
        for meth in ('isLocked() const', 'operator bool() const'):
            for o2 in h.only_ret(h.call(SC + '::' + meth, [q], st=mid)):
                h.post(o2, '%s says so' % meth, And(b2i(h, o2.val) == 1, o2.st.ghost['own']))
        for o2 in h.only_ret(h.call(SC + '::~ScopedSpinLock()', [q], st=mid, var='D1')):
            k.protocol(o2)
            h.post(o2, 'given back exactly once at the end', And(z3.Not(o2.st.ghost['own']), o2.st.ghost['rel'] == 1, o2.st.ghost['acq'] == 1))
    return h


UNITS = [('construction', u_ctor), ('lock', u_lock), ('tryLock', u_try), ('unlock', u_unlock), ('scoped spin lock', u_scoped)]
