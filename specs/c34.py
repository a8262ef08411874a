"""C34 singletons: created once, by one thread, complete before others see it, the same object for all, destroyed once

The policies of the generic singleton are arbitrary (only their contracts are used); the library's own policies and threading models are executed in further units.
Rely/guarantee over the pointer to the instance: while the lock is not held it may change from null to the object another thread created, at any access; it is written only with the lock held."""
from .threadlib import *
from .c21 import NATIVE as NAT21
import re

TUS = {'t': 'tu/singleton.cpp'}
NATIVE = {'src': 'native/singleton.cpp', 'sources': NAT21['sources'] + ['icl_core_thread/ScopedMutexLock.cpp'], 'flags': NAT21['flags'] + ['-fno-access-control'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['the lock is constructed before the first access and excludes other threads (C16, C18); the system grants it; the constructor of the object does not ask for the singleton itself',
               'reading and writing the pointer to the instance is indivisible (plain accesses on this machine); the memory barrier of a threading model orders what is before and behind it',
               'destruction takes place when no other thread uses the singleton; scheduling it does not throw; creation may throw']
OBJ = 'Obj'
KINDS = {'any policies': ('Singleton<Obj, C, L, M>', '@_ZN8icl_core9SingletonI3Obj1C1L1ME', 'vcg_s', 'any'),
         'mutex': ('Singleton<Obj, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::thread::STMMultiThreadedWithMutex>', '@_ZN8icl_core9SingletonI3ObjNS_17SCPCreateUsingNewENS_18SLPDefaultLifetimeENS_6thread25STMMultiThreadedWithMutexEE', 'vcg_sm', 'throw'),
         'semaphore': ('Singleton<Obj, icl_core::SCPCreateUsingNew, icl_core::SLPNoDestroy, icl_core::logging::STMMultiThreadedWithSemaphore>', '@_ZN8icl_core9SingletonI3ObjNS_17SCPCreateUsingNewENS_12SLPNoDestroyENS_7logging29STMMultiThreadedWithSemaphoreEE', 'vcg_ss', 'nothing'),
         'one thread': ('Singleton<Obj, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::STMSingleThreaded>', '@_ZN8icl_core9SingletonI3ObjNS_17SCPCreateUsingNewENS_18SLPDefaultLifetimeENS_17STMSingleThreadedEE', 'vcg_s1', 'throw')}
MAXREADS = 6
ONE = z3.Int('one')


def holds(b):
    """a fact about the path executed, as a formula (so that it is counted and reported as an obligation)"""
    return ONE == (1 if b else 0)



class Single:
    def __init__(self, mods, kind, name):
        self.kind = kind
        self.cls, self.pre, self.entry, self.dead = KINDS[kind]
        self.threads = kind != 'one thread'
        h = self.h = H(mods['t'], name, [], opts={'term': True})
        self.inst, self.gone, self.lock = self.pre + '10m_instanceE', self.pre + '11m_destroyedE', self.pre + '6m_lockE'
        self.destroyer = self.pre + '16destroySingletonEv'
        T = [(r'C<Obj>::create\(\)', self.create), (r'C<Obj>::destroy\(Obj\*\)', self.destroy), (r'Obj::Obj\(\)', self.ctor), (r'Obj::~Obj\(\)', self.destroy),
             (r'(?:L<Obj>::scheduleDestruction|@?atexit)(?:\(.*\))?', self.schedule), (r'L<Obj>::onDeadReference\(\)', self.on_dead), (r'(?:M|icl_core::\w+::STM\w+|icl_core::STM\w+)<Obj>::memoryBarrier\(\)', self.barrier),
             (r'Grd::Grd\(Mtx&\)|icl_core::thread::ScopedMutexLock::ScopedMutexLock\(.*\)|icl_core::logging::ScopedSemaphore::ScopedSemaphore\(.*\)', self.acquire),
             (r'Grd::~Grd\(\)|icl_core::thread::ScopedMutexLock::~ScopedMutexLock\(\)|icl_core::logging::ScopedSemaphore::~ScopedSemaphore\(\)', self.release)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        h.ex.new_obj(h.st, '@old', None, 4)
        for g in (self.inst, self.gone, self.lock):
            h.ex.glob(h.st, g)
        self.gone0 = h.int('destroyed before', 8, False, 0, 1)
        h.st.w(self.gone).cells[0] = (1, self.gone0)
        h.assume(ONE == 1)
        g = h.st.ghost
        for k in ('reads', 'held', 'created', 'told', 'dead', 'barrier', 'seen', 'ordered', 'destroyed', 'locked', 'others', 'failed'):
            g[k] = 0        # counted along each path
        g['object'] = None
        self.when = None
        h.ex.opts['atomic'] = (self.inst, self.hook, False)

    def cell(self, st):
        return st.mem[self.inst].cells[0][1]

    def null(self, st):
        return self.cell(st).base is None

    def put(self, st, p):
        st.w(self.inst).cells[0] = (8, p)

    def other(self, st):
        """another thread creates the object"""
        self.put(st, P('@old'))
        st.w(self.gone).cells[0] = (1, self.h.ex.th.const(8, 0))
        st.ghost['others'] = 1

    def hook(self, ex, st, when, p, old, new, order):
        g = st.ghost
        if when == 'pre':
            if g.get('final'):
                return
            if not g['held']:
                if g['reads'] == self.when and self.null(st) and self.threads and not g['created']:
                    self.other(st)
                g['reads'] += 1
                ex.require(st, 'guarantee', holds(g['reads'] <= MAXREADS), 'the instance is looked at without the lock a few times only')
        elif new is old:
            if not self.null(st):
                g['seen'] = 1
        else:
            ex.require(st, 'guarantee', holds(bool(g['held']) or not self.threads or self.role == 'destroy'), 'the instance is written only with the lock held')
            if isinstance(new, P) and new.base is not None:
                ex.require(st, 'guarantee', holds(new.base == g['object'] and bool(g['created'])), 'what is published is the object created')
                ex.require(st, 'guarantee', holds(bool(g['barrier']) or not self.threads), 'the object is complete before it is published (memory barrier)')
                ex.require(st, 'guarantee', holds(old.base is None), 'an instance is not replaced by another one')

    def may_create(self, ex, st):
        g = st.ghost
        ex.require(st, 'postcondition', holds(self.role == 'access' and (bool(g['held']) or not self.threads)), 'an object is created only by an access that holds the lock')
        ex.require(st, 'postcondition', holds(self.null(st) and not g['created']), 'an object is created only if there is none')
        d = self.gone0.t == 1
        c = holds(g['dead'] == 1)
        ex.require(st, 'postcondition', d == c if self.dead == 'any' else z3.Not(d) if self.dead == 'throw' else z3.BoolVal(True), 'after destruction, the lifetime policy decides first whether another object may be created, and only then')

    def made(self, ex, st, b):
        g = st.ghost
        g['created'], g['object'], g['barrier'] = 1, b, 0

    def create(self, ex, st, args, m, ins):
        self.may_create(ex, st)
        s2 = st.fork()
        s2.ghost['failed'] = 1
        b = ex.uniq('@object')
        ex.new_obj(st, b, None, 4)
        self.made(ex, st, b)
        return [('ret', st, P(b)), ('throw', s2, '@_ZTISt9bad_alloc')]

    def ctor(self, ex, st, args, m, ins):
        self.may_create(ex, st)
        s2 = st.fork()
        s2.ghost['failed'] = 1
        self.made(ex, st, args[0].base)
        return [('ret', st, None), ('throw', s2, '@_ZTISt9bad_alloc')]

    def destroy(self, ex, st, args, m, ins):
        ex.require(st, 'postcondition', holds(self.role == 'destroy' and args[0].base == '@old'), 'only the instance is destroyed, and only when it is time')
        st.ghost['destroyed'] += 1
        return [('ret', st, None)]

    def schedule(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', holds(isinstance(args[0], P) and args[0].base == self.destroyer and bool(g['created'])), 'the destruction of the object created is scheduled')
        g['told'] += 1
        return [('ret', st, ex.th.const(32, 0) if ins.ty.k == 'int' else None)]

    def on_dead(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(holds(self.null(st) and (bool(g['held']) or not self.threads)), self.gone0.t == 1), 'the policy is asked only if the instance was destroyed')
        g['dead'] += 1
        s2 = st.fork()
        s2.ghost['failed'] = 1
        return [('ret', st, None), ('throw', s2, '@_ZTISt11logic_error')]

    def barrier(self, ex, st, args, m, ins):
        g = st.ghost
        g['barrier'] = 1 if g['created'] else 0
        if g['seen']:
            g['ordered'] = 1
        return [('ret', st, None)]

    def acquire(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', holds(isinstance(args[1], P) and args[1].base == self.lock and args[1].off == 0), 'the lock of the singleton is taken')
        ex.require(st, 'deadlock', holds(not g['held']), 'the lock is not taken twice')
        g['held'], g['locked'] = 1, 1
        out = [('ret', st, None)]
        if self.null(st) and not g['created']:
            s2 = st.fork()
            self.other(s2)
            out.append(('ret', s2, None))
        return out

    def release(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', holds(bool(g['held'])), 'the lock is released only if it is held')
        if g['created']:
            ex.require(st, 'guarantee', holds(self.cell(st).base == g['object']), 'the object created is published before the lock is released')
        g['held'] = 0
        return [('ret', st, None)]

    def base(self, st):
        return self.gone0


def u_access(kind):
    def u(mods):
        r = []
        there = [('there is an instance', True, None)] + [('no instance, another thread creates one before access %d' % i if i is not None else 'no instance', False, i) for i in ([None] + list(range(MAXREADS)) if kind != 'one thread' else [None])]
        for name, has, when in there:
            k = Single(mods, kind, kind + ': ' + name)
            h = k.h
            k.role, k.when = 'access', when
            st = h.st.fork()
            k.put(st, P('@old') if has else NULL)
            if has:
                st.w(k.gone).cells[0] = (1, h.ex.th.const(8, 0))
                st.assume(k.gone0.t == 0)
            for o in h.call(k.entry, [], st=st):
                g = o.st.ghost
                c = k.cell(o.st)
                B = holds
                h.ex.require(o.st, 'postcondition', B(not g['held']), 'the lock is released')
                h.npost += 1
                if o.kind == 'ret':
                    h.ex.require(o.st, 'postcondition', B(isinstance(o.val, P) and o.val.base is not None and o.val.base == c.base and o.val.off == 0), 'the instance is returned')
                    h.ex.require(o.st, 'postcondition', B(c.base == ('@old' if not g['created'] else g['object'])), 'it is the one there is, or else the one created')
                    want = 1 if g['created'] and kind != 'semaphore' else 0
                    h.ex.require(o.st, 'postcondition', B(g['told'] == want), 'the destruction of an object is scheduled once, by the thread that created it')
                    h.ex.require(o.st, 'postcondition', B(bool(g['locked'] or g['ordered'] or not k.threads)), 'the object is looked at behind the memory barrier')
                    h.ex.require(o.st, 'postcondition', h.ex.th.U(o.st.mem[k.gone].cells[0][1]) == 0, 'the instance is not taken as destroyed')
                    h.ex.require(o.st, 'postcondition', B(g['created'] == 0) if has else B(g['created'] == 1 or g['others'] == 1), 'an object is created if there is none')
                else:
                    h.ex.require(o.st, 'postcondition', B(not g['created'] and g['told'] == 0 and not has), 'an access fails only if no object could be created')
                    h.ex.require(o.st, 'postcondition', And(B(c.base in (None, '@old')), B(c.base is None or bool(g['others']))), 'a failed access leaves no instance behind')
                    if k.dead == 'throw':
                        h.ex.require(o.st, 'postcondition', Or(B(bool(g['failed'])), And(k.gone0.t == 1, h.ex.th.U(o.st.mem[k.gone].cells[0][1]) == 1)), 'and the next access after destruction fails again')
                    else:
                        h.ex.require(o.st, 'postcondition', B(bool(g['failed'])), 'it fails only if the policy or the creation does')
            r.append(h)
        return r
    return u


def u_destroy(mods):
    r = []
    for kind in KINDS:
        k = Single(mods, kind, kind + ': destruction')
        h = k.h
        k.role, k.threads = 'destroy', False
        st = h.st.fork()
        k.put(st, P('@old'))
        st.mem['@old'].fresh = True
        for o in h.only_ret(h.call('icl_core::' + k.cls + '::destroySingleton()', [], st=st)):
            h.ex.require(o.st, 'postcondition', holds(o.st.ghost['destroyed'] == 1 and k.null(o.st)), 'the instance is destroyed once and forgotten')
            h.ex.require(o.st, 'postcondition', h.ex.th.U(o.st.mem[k.gone].cells[0][1]) == 1, 'its destruction is remembered')
            h.npost += 1
        r.append(h)
    return r


UNITS = [('access, ' + k, u_access(k)) for k in KINDS] + [('destruction', u_destroy)]
