"""C05 the six comparisons of times agree with the represented value (a total order)"""
from .timelib import *
from .c04 import NATIVE

TUS = {'time': 'tu/time.cpp'}
ASSUMPTIONS = ['both operands are normalised (every public way to make one normalises: C04)']
OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def unit(mods, cls, op, alias):
    h = H(mods['time'], '%s %s%s' % (cls, op, ' with itself' if alias else ''), [], extra=EXTRA)
    p, s, n = tb(h, 't', lim=None)
    q, s2, n2 = (p, s, n) if alias else tb(h, 'u', lim=None)
    for o in h.only_ret(h.call('%s::operator%s(%s const&) const' % (cls, op, cls), [p, q])):
        h.post(o, 'comparison %s agrees with the represented times' % op, Bz(o.val.t) == Bz(OPS[op](value(s, n), value(s2, n2))))
        h.frame(o, [])
    return h


UNITS = [('%s %s' % (c.split('::')[1], op), lambda mods, c=c, op=op: [unit(mods, c, op, False), unit(mods, c, op, True)]) for c in (TB, TP, TS) for op in OPS]


def lemma(mods):
    """the value order used as the specification is a strict total order compatible with equality of the stored pair"""
    h = H(mods['time'], 'lemma: equal represented time means equal stored pair', [], extra=EXTRA)
    p, s, n = tb(h, 't', lim=None)
    q, s2, n2 = tb(h, 'u', lim=None)
    h.post(h.st, 'value equality is representation equality', (value(s, n) == value(s2, n2)) == And(s == s2, n == n2))
    return h


UNITS.append(('lemma', lemma))
