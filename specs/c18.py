"""C18 semaphores: start at the given count; a wait that succeeds takes exactly one, a post gives exactly one; a scoped semaphore gives back exactly what it took"""
from .threadlib import *
from .c16 import gone, TSr, TPr

TUS = {'t': 'tu/thread.cpp', 'l': 'tu/logthread.cpp'}
NATIVE = {'src': 'native/sem.cpp', 'sources': ['icl_core/Noncopyable.cpp', 'icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_posix_time.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp', 'icl_core_thread/SemaphoreImplPosix.cpp', 'icl_core_thread/Sem.cpp', 'icl_core_logging/SemaphoreImplPosix.cpp', 'icl_core_logging/Semaphore.cpp', 'icl_core_logging/ScopedSemaphore.cpp'], 'libs': ['-lpthread', '-ldl']}
ASSUMPTIONS = ['POSIX semaphores and the system clock are trusted contracts (a wait returns 0 exactly if it decremented the semaphore, failure is possible at any time, e.g. by a signal)',
               'initial counts up to 2^31-1']
NS = {'t': 'icl_core::thread::', 'l': 'icl_core::logging::'}


def mk(mods, key, name):
    m = mods[key]
    cls = NS[key] + 'Semaphore'
    return Lk(m, name, cls, 'sem', args=('initial',)), cls


def u_ctor(mods):
    out = []
    for key in NS:
        k, cls = mk(mods, key, NS[key] + 'Semaphore::Semaphore')
        k.check_ctor('sem')
        for b, off, v in k.prims:
            k.h.post(k.o, 'it starts at the given count', v.value == k.init)
            k.h.post(k.o, 'it belongs to this process', v.type == 0)
        out.append(k.h)
    return out


def u_dtor(mods):
    out = []
    for key in NS:
        k, cls = mk(mods, key, NS[key] + 'Semaphore::~Semaphore')
        for o in k.h.only_ret(k.h.call(cls + '::~Semaphore()', [k.p], st=k.st, var='D1')):
            gone(k, o)
        out.append(k.h)
    return out


def op(names, arg):
    def f(mods):
        out = []
        for key in NS:
            for n in names:
                k, cls = mk(mods, key, NS[key] + 'Semaphore::' + n)
                dem = cls + '::' + n
                if dem not in mods[key].bydem:
                    continue
                args = []
                if arg:
                    p, s, x = k.stamp('timeout')
                    args = [p]
                for o in k.run(dem, args):
                    r = acquired(k.h, o)
                    if arg == 'abs':
                        until(k.h, o, r, lambda a, b: value(a, b) == value(s, x))
                    elif arg == 'rel':
                        until(k.h, o, r, rel_goal(o, s, x))
                    elif 'ry' in n:
                        trying(k.h, o, r)
                    else:
                        blocking(k.h, o, r)
                out.append(k.h)
        if not out:
            raise Unsupported('no function %s' % names[0])
        return out
    return f


def u_post(mods):
    out = []
    for key in NS:
        for n in ('post()', 'Post()'):
            k, cls = mk(mods, key, NS[key] + 'Semaphore::' + n)
            if cls + '::' + n not in mods[key].bydem:
                continue
            for o in k.run(cls + '::' + n):
                k.h.post(o, 'post increments exactly once', And(o.st.ghost['rel'] == 1, o.st.ghost['acq'] == -1))
            out.append(k.h)
    return out


def u_scoped(mods):
    k, cls = mk(mods, 'l', 'ScopedSemaphore')
    h = k.h
    q = h.obj('scoped', None, h.off('ssem'))
    k.st.mem['scoped'] = h.st.mem['scoped']
    pre = k.st
    c = NS['l'] + 'ScopedSemaphore'
    for o in h.only_ret(h.call(c + '::ScopedSemaphore(icl_core::logging::Semaphore&)', [q, k.p], st=k.st, var='C1')):
        g = o.st.ghost
        held = g['acq']
        h.post(o, 'construction takes at most one and gives nothing', And(Or(held == 0, held == 1), g['rel'] == 0))
        h.post(o, 'nothing is taken only if the system refused', z3.Implies(held == 0, g['refused']))
        h.frame(o, [('scoped', None)], since=pre)
        mid = o.st
        for meth in ('isDecremented() const', 'operator bool() const', 'IsDecremented() const'):
            if c + '::' + meth in mods['l'].bydem:
                for o2 in h.only_ret(h.call(c + '::' + meth, [q], st=mid)):
                    h.post(o2, '%s tells whether one was taken' % meth, b2i(h, o2.val) == held)
                    h.frame(o2, [], since=mid)
        for o2 in h.only_ret(h.call(c + '::~ScopedSemaphore()', [q], st=mid, var='D1')):
            h.post(o2, 'destruction gives back exactly what was taken', And(o2.st.ghost['acq'] == 0, o2.st.ghost['rel'] == held))
            h.frame(o2, [('scoped', None)], since=mid)
    return h


UNITS = [('construction', u_ctor), ('destruction', u_dtor), ('wait', op(['wait()', 'Wait()'], None)), ('tryWait', op(['tryWait()', 'TryWait()'], None)),
         ('wait until', op(['wait(%s)' % TSr, 'Wait(%s)' % TSr], 'abs')), ('wait for', op(['wait(%s)' % TPr, 'Wait(%s)' % TPr], 'rel')),
         ('post', u_post), ('scoped semaphore', u_scoped)]
