"""C06 unit conversions of time spans and the calendar-style components"""
from .timelib import *
from .c04 import NATIVE

TUS = {'time': 'tu/time.cpp'}
ASSUMPTIONS = ['conversions to ms/us/ns are required exact only where the exact result fits 64 bits without an intermediate overflow: |secs| <= (2^63-1)/factor - 1',
               'fromSec takes |sec| <= 2^62']
I64 = 2 ** 63 - 1


def tdiv(a, k):
    """C++ truncating division of a term by a positive constant"""
    return z3.If(a >= 0, a / k, -((-a) / k))


def trem(a, k):
    return a - k * tdiv(a, k)


def alt(n):
    return n[0].upper() + n[1:]


def acc(mods, cls, name, f, w=64, pre=None):
    out = []
    for nm in (name, alt(name)):
        dem = '%s::%s() const' % (cls, nm)
        if dem not in mods['time'].bydem:
            if nm == name:
                raise Unsupported('function under contract not found: ' + dem)
            continue
        h = H(mods['time'], '%s::%s' % (cls, nm), [], extra=EXTRA)
        p, s, n = tb(h, 't', lim=None)
        if pre:
            h.assume(pre(s))
        goal = f(s, n)
        if isinstance(goal, str):
            # definition of the calendar components of |secs| (they exist and are unique: division with remainder)
            d, hh, mi, se = z3.Ints('D H M X')
            h.assume(And(z3.If(s >= 0, s, -s) == 86400 * d + 3600 * hh + 60 * mi + se, d >= 0, hh >= 0, hh < 24, mi >= 0, mi < 60, se >= 0, se < 60))
            a = z3.If(s >= 0, s, -s)
            A = z3.Int('A')
            h.assume(A == a)
            for k, q in ((86400, d), (3600, 24 * d + hh), (60, 1440 * d + 60 * hh + mi)):
                h.lemma('quotient by %d' % k, z3.And(A / k == q, A % k == A - k * q))
            h.lemma('nested quotients', z3.And((24 * d + hh) % 24 == hh, (1440 * d + 60 * hh + mi) % 60 == mi))
            h.lemma('signs', z3.And(*[z3.If(s >= 0, z3.And(s / k == A / k, s % k == A % k), z3.And((-s) / k == A / k, (-s) % k == A % k)) for k in (86400, 3600, 60)]))
            c = {'d': d, 'h': hh, 'm': mi, 's': se}[goal]
            goal = z3.If(s >= 0, c, -c)
        for o in h.only_ret(h.call(dem, [p])):
            r = h.s(o.val)
            h.post(o, '%s is the exact conversion' % nm, r == goal)
            h.frame(o, [])
        out.append(h)
    return out


def rng(k):
    lim = I64 // k - 1
    return lambda s: And(s >= -lim, s <= lim)


# the specification is over the represented time in nanoseconds, truncated towards zero
ACC = [
    (TB, 'days', lambda s, n: 'd', None),
    (TB, 'hours', lambda s, n: 'h', None),
    (TB, 'minutes', lambda s, n: 'm', None),
    (TB, 'seconds', lambda s, n: 's', None),
    (TB, 'milliSeconds', lambda s, n: tdiv(n, 10 ** 6), None),
    (TB, 'microSeconds', lambda s, n: tdiv(n, 10 ** 3), None),
    (TB, 'nanoSeconds', lambda s, n: trem(n, 1000), None),
    (TB, 'tbSec', lambda s, n: s, None),
    (TB, 'tbNSec', lambda s, n: n, None),
    (TP, 'tsSec', lambda s, n: s, None),
    (TP, 'tsNSec', lambda s, n: n, None),
    (TP, 'tsUSec', lambda s, n: tdiv(n, 1000), None),
    (TS, 'tsSec', lambda s, n: s, None),
    (TS, 'tsNSec', lambda s, n: n, None),
    (TS, 'tsUSec', lambda s, n: tdiv(n, 1000), None),
    (TP, 'toMSec', lambda s, n: tdiv(value(s, n), 10 ** 6), rng(1000)),
    (TP, 'toUSec', lambda s, n: tdiv(value(s, n), 1000), rng(10 ** 6)),
    (TP, 'toNSec', lambda s, n: value(s, n), rng(10 ** 9)),
]
UNITS = [('%s::%s' % (a[0].split('::')[1], a[1]), lambda mods, a=a: acc(mods, a[0], a[1], a[2], pre=a[3])) for a in ACC]


def conv(mods, name, k, create):
    out = []
    for nm in (name, alt(name)):
        dem = '%s::%s(long)' % (TP, nm)
        if dem not in mods['time'].bydem:
            continue
        h = H(mods['time'], nm, [], extra=EXTRA)
        x = h.int('x', 64, True)
        h.small += [And(x.t > -5000, x.t < 5000)]
        if k == 10 ** 9:
            h.assume(And(x.t >= -BIG, x.t <= BIG))
        args = []
        if create:
            slot = h.obj('ret', None, 16) if len(h.fn(dem).params) == 2 else None
            args = [slot] if slot else []
        else:
            slot, _, _ = tb(h, 't', lim=None)
            args = [slot]
        for o in h.only_ret(h.call(dem, args + [x])):
            a, b = retpair(h, o, slot)
            h.post(o, 'the span represents exactly the given count', value(a, b) == x.t * k)
            h.post(o, 'the span is normalised', normalised(a, b))
            if not create:
                h.post(o, 'returns the object itself', o.val.base == slot.base and o.val.off == 0)
            h.frame(o, [(slot.base, None)] if slot else [])
        out.append(h)
    return out


for nm, k in (('Sec', 10 ** 9), ('MSec', 10 ** 6), ('USec', 10 ** 3)):
    UNITS.append(('from' + nm, lambda mods, nm=nm, k=k: conv(mods, 'from' + nm, k, False)))
    UNITS.append(('createFrom' + nm, lambda mods, nm=nm, k=k: conv(mods, 'createFrom' + nm, k, True)))


def tspec(mods, fn):
    h = H(mods['time'], fn, [], extra=EXTRA)
    p, s, n = tb(h, 't', lim=None)
    dem = '%s::%s() const' % (TB, fn)
    slot = h.obj('ret', None, 16) if len(h.fn(dem).params) == 2 else None
    for o in h.only_ret(h.call(dem, ([slot] if slot else []) + [p])):
        if slot:
            a, b = h.s(h.ld(o, slot, 0, 64)), h.s(h.ld(o, slot, 8, 64))
        else:
            a, b = h.s(o.val[0]), h.s(o.val[1])
        h.post(o, 'timespec carries the same seconds and nanoseconds', And(a == s, b == n))
        h.frame(o, [('ret', None)])
    return h


UNITS.append(('timespec', lambda mods: tspec(mods, 'timespec')))
UNITS.append(('systemTimespec', lambda mods: tspec(mods, 'systemTimespec')))



