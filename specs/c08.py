"""C08 wrapping sequence numbers"""
from vcg.contract import *

TUS = {'seq': 'tu/seq.cpp'}
NATIVE = {'src': 'native/seq.cpp', 'sources': []}
ASSUMPTIONS = ['verified for seven instantiations of the template (8 to 64 bits, signed and unsigned, with and without a minimum); other instantiations share the source text',
               'numbers from the minimum up to, but not including, the maximum (the values counting produces)']
# (template arguments as demangled, width, signed, max, min, initial)
INST = [('unsigned char, (unsigned char)255, (unsigned char)0, (unsigned char)0', 8, False, 255, 0, 0),
        ('unsigned char, (unsigned char)200, (unsigned char)10, (unsigned char)10', 8, False, 200, 10, 10),
        ('unsigned short, (unsigned short)1000, (unsigned short)3, (unsigned short)17', 16, False, 1000, 3, 17),
        ('unsigned int, 4294967295u, 0u, 0u', 32, False, 4294967295, 0, 0),
        ('unsigned long, 18446744073709551615ul, 0ul, 0ul', 64, False, 2 ** 64 - 1, 0, 0),
        ('unsigned long, 7ul, 1ul, 1ul', 64, False, 7, 1, 1),
        ('int, 2147483647, 0, 0', 32, True, 2147483647, 0, 0)]
TY = {8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}


class Seq:
    def __init__(self, h, a, name):
        self.h, self.a = h, a
        self.v = h.int(name, a[1], a[2], a[4], a[3] - 1)
        self.p = h.obj(name, None, a[1] // 8)
        h.put(self.p, 0, self.v)
        self.x = self.v.t
        self.name = name


def setup(mods, a, f):
    h = H(mods['seq'], 'SequenceNumber<%s>::%s' % (a[0], f), [])
    return h


def cls(a):
    return 'icl_core::SequenceNumber<%s>' % a[0]


def val(h, v, a):
    return h.s(v) if a[2] else h.u(v)


def each(f):
    return lambda mods: [x for a in INST for x in f(mods, a)]


def compare(mods, a):
    half = a[3] // 2
    out = []
    for op in ('<', '<=', '>', '>=', '==', '!='):
        h = setup(mods, a, 'operator' + op)
        p, q = Seq(h, a, 'a'), Seq(h, a, 'b')
        d = z3.If(p.x < q.x, q.x - p.x, p.x - q.x)
        lt = z3.Or(z3.And(p.x < q.x, d < half), z3.And(p.x > q.x, d > half))
        gt = z3.Or(z3.And(q.x < p.x, d < half), z3.And(q.x > p.x, d > half))
        eq = p.x == q.x
        want = {'<': lt, '<=': z3.Or(lt, eq), '>': gt, '>=': z3.Or(gt, eq), '==': eq, '!=': z3.Not(eq)}[op]
        if op not in ('==', '!='):
            h.assume(d != half)
        for o in h.only_ret(h.call('%s::operator%s(%s const&) const' % (cls(a), op, cls(a)), [p.p, q.p])):
            h.post(o, 'a %s b agrees with the shorter way around' % op, Bz(o.val.t) == want)
            h.frame(o, [])
        out.append(h)
    h = setup(mods, a, 'order')
    p, q = Seq(h, a, 'a'), Seq(h, a, 'b')
    d = z3.If(p.x < q.x, q.x - p.x, p.x - q.x)
    h.assume(d != half)
    lt = z3.Or(z3.And(p.x < q.x, d < half), z3.And(p.x > q.x, d > half))
    gt = z3.Or(z3.And(q.x < p.x, d < half), z3.And(q.x > p.x, d > half))
    h.post(h.st, 'exactly one of earlier, equal, later', z3.PbEq([(lt, 1), (gt, 1), (p.x == q.x, 1)], 1))
    out.append(h)
    return out


def increment(mods, a):
    out = []
    nxt = lambda x: z3.If(x + 1 >= a[3], a[4], x + 1)
    h = setup(mods, a, 'operator++()')
    p = Seq(h, a, 'a')
    for o in h.only_ret(h.call('%s::operator++()' % cls(a), [p.p])):
        v = val(h, h.ld(o, p.p, 0, a[1]), a)
        h.post(o, 'counts up by one and continues at the minimum instead of reaching the maximum', And(v == nxt(p.x), v >= a[4], v < a[3]))
        h.post(o, 'returns itself', o.val.base == 'a' and o.val.off == 0)
        h.frame(o, [('a', 0)])
    out.append(h)
    h = setup(mods, a, 'operator++(int)')
    p = Seq(h, a, 'a')
    dem = '%s::operator++(int)' % cls(a)
    n = len(h.fn(dem).params)
    if n == 3:      # result through a hidden pointer
        r = h.obj('ret', None, a[1] // 8)
        outs = h.call(dem, [r, p.p, h.int('dummy', 32)])
    else:
        outs = h.call(dem, [p.p, h.int('dummy', 32)])
    for o in h.only_ret(outs):
        v = val(h, h.ld(o, p.p, 0, a[1]), a)
        h.post(o, 'post-increment counts up by one', v == nxt(p.x))
        rv = val(h, h.ld(o, r, 0, a[1]), a) if n == 3 else val(h, o.val, a)
        h.post(o, 'post-increment returns the old number', rv == p.x)
        h.frame(o, [('a', 0), ('ret', None)])
    out.append(h)
    return out


def values(mods, a):
    out = []
    C = cls(a)
    ty = re.match(r'[\w ]+', a[0]).group(0)
    h = setup(mods, a, 'construction')
    v = h.int('value', a[1], a[2])
    r = h.obj('a', None, a[1] // 8)
    for o in h.only_ret(h.call('%s::SequenceNumber(%s)' % (C, ty), [r, v])):
        h.post(o, 'has the given value', val(h, h.ld(o, r, 0, a[1]), a) == v.t)
        h.frame(o, [('a', None)])
    out.append(h)
    for dem in ('%s::SequenceNumber(%s const&)' % (C, C), '%s::operator=(%s const&)' % (C, C)):
        h = setup(mods, a, 'copy')
        p, q = Seq(h, a, 'a'), Seq(h, a, 'b')
        for o in h.only_ret(h.call(dem, [p.p, q.p])):
            h.post(o, 'has the value of the other', val(h, h.ld(o, p.p, 0, a[1]), a) == q.x)
            h.frame(o, [('a', None)])
        out.append(h)
    h = setup(mods, a, 'assignment of a number')
    p = Seq(h, a, 'a')
    v = h.int('value', a[1], a[2])
    for o in h.only_ret(h.call('%s::operator=(%s)' % (C, ty), [p.p, v])):
        h.post(o, 'has the assigned value', val(h, h.ld(o, p.p, 0, a[1]), a) == v.t)
        h.frame(o, [('a', None)])
    out.append(h)
    h = setup(mods, a, 'conversion to a number')
    p = Seq(h, a, 'a')
    for o in h.only_ret(h.call('%s::operator %s() const' % (C, ty), [p.p])):
        h.post(o, 'converts to its value', val(h, o.val, a) == p.x)
        h.frame(o, [])
    out.append(h)
    for f, w in (('maxValue', a[3]), ('minValue', a[4])):
        h = setup(mods, a, f)
        for o in h.only_ret(h.call('%s::%s()' % (C, f), [])):
            h.post(o, '%s is the declared bound' % f, val(h, o.val, a) == w)
        out.append(h)
    return out


def u_default(mods):
    h = H(mods['seq'], 'default construction', [])
    for o in h.only_ret(h.call('vcg_default', [])):
        h.post(o, 'starts at the declared initial value', h.u(o.val) == 17)
    return h


UNITS = [('default', u_default), ('comparison', each(compare)), ('increment', each(increment)), ('values', each(values))]
