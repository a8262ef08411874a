"""C16 mutexes: a call that acquires reports so truthfully, waits as long as asked, and a scoped lock releases exactly what it acquired"""
from .threadlib import *

TUS = {'t': 'tu/thread.cpp'}
NATIVE = {'src': 'native/mutex.cpp', 'sources': ['icl_core/Noncopyable.cpp', 'icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_posix_time.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp', 'icl_core_thread/MutexImplPosix.cpp', 'icl_core_thread/Mutex.cpp', 'icl_core_thread/ScopedMutexLock.cpp'], 'libs': ['-lpthread', '-ldl']}
ASSUMPTIONS = ['POSIX mutexes and the system clock are trusted contracts (a lock call returns 0 exactly if it acquired the mutex, any other result is possible at any time)',
               'mutexes are unlocked only by the thread that owns them (precondition)']
M = 'icl_core::thread::Mutex'
TSr, TPr = 'icl_core::TimeStamp const&', 'icl_core::TimeSpan const&'


def names(mods, *l):
    return [n for n in l if n in mods['t'].bydem]


def mk(mods, name):
    return Lk(mods['t'], name, M, 'mutex')


def u_ctor(mods):
    k = mk(mods, 'Mutex::Mutex')
    k.check_ctor('mutex')
    for b, off, v in k.prims:
        k.h.post(k.o, 'the owner may lock the mutex again', v.type == 1)
    return k.h


def u_dtor(mods):
    k = mk(mods, 'Mutex::~Mutex')
    for o in k.h.only_ret(k.h.call(M + '::~Mutex()', [k.p], st=k.st, var='D1')):
        gone(k, o)
    return k.h


def gone(k, o):
    h = k.h
    for b, off, v in k.prims:
        c = o.st.mem[b].cells.get(off)
        h.post(o, 'the OS lock is destroyed', c is not None and isinstance(c[1], Abs) and not c[1].live)
        h.post(o, 'its memory is released', not o.st.mem[b].alive)
    h.post(o, 'it is destroyed once', o.st.ghost.get('destroyed', z3.IntVal(0)) == 1)
    for b, ob in o.st.mem.items():
        if isinstance(b, str) and b.startswith('@heap'):
            h.post(o, 'no memory is left behind', not ob.alive)


def u_lock(mods):
    out = []
    for n in names(mods, M + '::lock()', M + '::Lock()'):
        k = mk(mods, n)
        for o in k.run(n):
            blocking(k.h, o, acquired(k.h, o))
        out.append(k.h)
    return out


def u_try(mods):
    out = []
    for n in names(mods, M + '::tryLock()', M + '::TryLock()'):
        k = mk(mods, n)
        for o in k.run(n):
            trying(k.h, o, acquired(k.h, o))
        out.append(k.h)
    return out


def u_abs(mods):
    out = []
    for n in names(mods, M + '::lock(%s)' % TSr, M + '::Lock(%s)' % TSr):
        k = mk(mods, n)
        p, s, x = k.stamp('timeout')
        for o in k.run(n, [p]):
            until(k.h, o, acquired(k.h, o), lambda a, b: value(a, b) == value(s, x))
        out.append(k.h)
    return out


def u_rel(mods):
    out = []
    for n in names(mods, M + '::lock(%s)' % TPr, M + '::Lock(%s)' % TPr):
        k = mk(mods, n)
        p, s, x = k.stamp('timeout')
        for o in k.run(n, [p]):
            until(k.h, o, acquired(k.h, o), rel_goal(o, s, x))
        out.append(k.h)
    return out


def u_unlock(mods):
    out = []
    for n in names(mods, M + '::unlock()', M + '::Unlock()'):
        k = mk(mods, n)
        for o in k.run(n):
            k.h.post(o, 'unlock gives up exactly one acquisition', And(o.st.ghost['rel'] == 1, o.st.ghost['acq'] == -1))
        out.append(k.h)
    return out


def u_scoped(mods):
    h = scoped(mods, 'ScopedMutexLock', M, 'mutex', 'icl_core::thread::ScopedMutexLock', 'sml', '(icl_core::thread::Mutex&, bool)', lambda h: [])
    return h


UNITS = [('construction', u_ctor), ('destruction', u_dtor), ('lock', u_lock), ('tryLock', u_try), ('lock until', u_abs), ('lock for', u_rel), ('unlock', u_unlock), ('scoped lock', u_scoped)]
