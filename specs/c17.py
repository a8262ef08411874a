"""C17 readers-writer locks: acquired in the requested mode exactly when reported, waiting as long as asked; a scoped lock releases exactly what it acquired"""
from .threadlib import *
from .c16 import gone, TSr, TPr

TUS = {'t': 'tu/thread.cpp'}
NATIVE = {'src': 'native/rwlock.cpp', 'sources': ['icl_core/Noncopyable.cpp', 'icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_posix_time.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp', 'icl_core_thread/RWLockImplPosix.cpp', 'icl_core_thread/RWLock.cpp', 'icl_core_thread/ScopedRWLock.cpp'], 'libs': ['-lpthread', '-ldl']}
ASSUMPTIONS = ['POSIX readers-writer locks and the system clock are trusted contracts (a lock call returns 0 exactly if it acquired the lock, any other result is possible at any time)',
               'a lock is released only by a thread that holds it (precondition)']
M = 'icl_core::thread::RWLock'


def mk(mods, name):
    return Lk(mods['t'], name, M, 'rwlock')


def u_ctor(mods):
    k = mk(mods, 'RWLock::RWLock')
    k.check_ctor('rwlock')
    return k.h


def u_dtor(mods):
    k = mk(mods, 'RWLock::~RWLock')
    for o in k.h.only_ret(k.h.call(M + '::~RWLock()', [k.p], st=k.st, var='D1')):
        gone(k, o)
    return k.h


def op(mode, names, arg):
    def f(mods):
        out = []
        for n in names:
            dem = M + '::' + n
            if dem not in mods['t'].bydem:
                continue
            k = mk(mods, dem)
            args = []
            if arg:
                p, s, x = k.stamp('timeout')
                args = [p]
            for o in k.run(dem, args):
                r = acquired(k.h, o, mode)
                if arg == 'abs':
                    until(k.h, o, r, lambda a, b: value(a, b) == value(s, x))
                elif arg == 'rel':
                    until(k.h, o, r, rel_goal(o, s, x))
                elif 'ry' in n:
                    trying(k.h, o, r)
                else:
                    blocking(k.h, o, r)
            out.append(k.h)
        return out
    return f


def u_unlock(mods):
    out = []
    for n in ('unlock()', 'Unlock()'):
        if M + '::' + n not in mods['t'].bydem:
            continue
        k = mk(mods, M + '::' + n)
        for o in k.run(M + '::' + n):
            k.h.post(o, 'unlock gives up exactly one acquisition', And(o.st.ghost['rel'] == 1, o.st.ghost['acq'] == -1))
        out.append(k.h)
    return out


def u_scoped(mods):
    return scoped(mods, 'ScopedRWLock', M, 'rwlock', 'icl_core::thread::ScopedRWLock', 'srw', '(icl_core::thread::RWLock&, icl_core::thread::ScopedRWLock::LockMode, bool)',
                  lambda h: [h.int('mode', 32, False, 0, 1)], mode=True)


UNITS = [('construction', u_ctor), ('destruction', u_dtor)]
for m, w, W in (('r', 'read', 'Read'), ('w', 'write', 'Write')):
    UNITS += [(w + 'Lock', op(m, [w + 'Lock()', W + 'Lock()'], None)), ('try%sLock' % W, op(m, ['try%sLock()' % W, 'Try%sLock()' % W], None)),
              (w + 'Lock until', op(m, ['%sLock(%s)' % (x, TSr) for x in (w, W)], 'abs')), (w + 'Lock for', op(m, ['%sLock(%s)' % (x, TPr) for x in (w, W)], 'rel'))]
UNITS += [('unlock', u_unlock), ('scoped lock', u_scoped)]
