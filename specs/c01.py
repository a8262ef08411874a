"""C01 a ring buffer is a bounded first-in first-out sequence"""
from .ringlib import *

TUS = {'ring': 'tu/ring.cpp'}
NATIVE = {'src': 'native/ring.cpp', 'sources': []}
ASSUMPTIONS = ['the templates are verified instantiated for uint32_t elements; other element types share the source text',
               'std::vector follows its standard contract; allocation does not fail']


def u_clear(h, rb, dem):
    for o in h.only_ret(h.call(dem, [rb.p])):
        seq_is(h, o, 'clear', rb.post(o), 0, lambda i: 0, rb.N - 1)
        h.frame(o, rb.all)


def query(f):
    def b(h, rb, dem):
        for o in h.only_ret(h.call(dem, [rb.p])):
            v = o.val.t if o.val.w == 1 else h.u(o.val)
            e = f(rb)
            h.post(o, 'answers about the current sequence', Bz(v) == Bz(e) if o.val.w == 1 else v == e)
            h.frame(o, [])
    return b


def u_write(h, rb, dem):
    p, v = val(h, 'val')
    ow = h.ex.th.fresh('overwrite', 1)
    h.inputs['overwrite'] = ow.t
    n, cap = rb.size(), rb.N - 1
    for o in h.call(dem, [rb.p, p, ow]):
        if o.kind == 'throw':
            h.post(o, 'write refuses only when full and not overwriting, or when the capacity is zero', And(n == cap, Or(z3.Not(ow.t), cap == 0)))
            h.post(o, 'the refusal is an out_of_range error', o.val == OUT)
            seq_is(h, o, 'a refused write changes nothing', rb.post(o), n, rb.at, cap)
        else:
            over = n == cap
            h.post(o, 'write succeeds only with room or when overwriting', And(cap > 0, Or(n < cap, ow.t)))
            k = z3.If(over, 1, 0)
            seq_is(h, o, 'write appends (dropping the oldest element only when full)', rb.post(o), n + 1 - k,
                   lambda i: z3.If(i == n - k, v, rb.at(i + k)), cap)
        h.frame(o, rb.all)


def u_write_alias(h, rb, dem):
    """the value to write may be an element of the buffer itself (e.g. b.write(b.front(), true))"""
    j = h.int('j', 64, False)
    n, cap = rb.size(), rb.N - 1
    h.assume(And(j.t >= 0, j.t < n))
    ow = h.ex.th.fresh('overwrite', 1)
    h.inputs['overwrite'] = ow.t
    p = P(('v', rb.base, rb.ob, rb.gen), rb.pos(j.t), 0)
    v = rb.at(j.t)
    for o in h.call(dem, [rb.p, p, ow]):
        if o.kind == 'throw':
            h.post(o, 'write refuses only when full and not overwriting', And(n == cap, z3.Not(ow.t)))
            continue
        k = z3.If(n == cap, 1, 0)
        seq_is(h, o, 'writing an element of the buffer', rb.post(o), n + 1 - k, lambda i: z3.If(i == n - k, v, rb.at(i + k)), cap)


def u_at(h, rb, dem):
    pos = h.int('pos')
    n = rb.size()
    for o in h.call(dem, [rb.p, pos]):
        if o.kind == 'throw':
            h.post(o, 'at() refuses only positions outside the sequence', And(pos.t >= n, o.val == OUT))
        else:
            h.post(o, 'at() accepts only positions inside the sequence', pos.t < n)
            h.post(o, 'at() is the element at that position', And(o.val.base == ('v', rb.base, rb.ob, rb.gen), o.val.off == 0,
                                                                 o.val.idx == rb.pos(pos.t)))
        h.frame(o, [])


def u_front(h, rb, dem):
    n = rb.size()
    for o in h.call(dem, [rb.p]):
        if o.kind == 'throw':
            h.post(o, 'front() refuses only an empty buffer', And(n == 0, o.val == OUT))
        else:
            h.post(o, 'front() is the oldest element', And(n > 0, o.val.base == ('v', rb.base, rb.ob, rb.gen), o.val.off == 0, o.val.idx == rb.pos(0)))
        h.frame(o, [])


def u_read(h, rb, dem):
    n = rb.size()
    for o in h.call(dem, [rb.p]):
        if o.kind == 'throw':
            h.post(o, 'read() refuses only an empty buffer', And(n == 0, o.val == OUT))
            seq_is(h, o, 'a refused read changes nothing', rb.post(o), n, rb.at, rb.N - 1)
        else:
            h.post(o, 'read() returns the oldest element', And(n > 0, h.u(o.val) == rb.at(0)))
            seq_is(h, o, 'read removes the oldest element', rb.post(o), n - 1, lambda i: rb.at(i + 1), rb.N - 1)
        h.frame(o, rb.all)


def u_skip(h, rb, dem):
    n = rb.size()
    for o in h.call(dem, [rb.p]):
        if o.kind == 'throw':
            h.post(o, 'skip() refuses only an empty buffer', And(n == 0, o.val == OUT))
            seq_is(h, o, 'a refused skip changes nothing', rb.post(o), n, rb.at, rb.N - 1)
        else:
            h.post(o, 'skip() needs an element', n > 0)
            seq_is(h, o, 'skip removes the oldest element', rb.post(o), n - 1, lambda i: rb.at(i + 1), rb.N - 1)
        h.frame(o, rb.all)


def u_skipn(h, rb, dem):
    c = h.int('count')
    n = rb.size()
    k = z3.If(c.t < n, c.t, n)
    for o in h.only_ret(h.call(dem, [rb.p, c])):
        seq_is(h, o, 'skip(count) removes the oldest elements', rb.post(o), n - k, lambda i: rb.at(i + k), rb.N - 1)
        h.frame(o, rb.all)


def u_ctor(mods):
    out = []
    for cls, lay in ((RB, 'rb'), (TRB, 'trb')):
        dem = '%s::%s(unsigned long)' % (cls, cls.split('::')[1].split('<')[0])
        h = H(mods['ring'], dem, [])
        rb = Ring(h, cls=lay, fresh=False)
        c = h.int('capacity', 64, False, 0, 2 ** 60)
        for o in h.only_ret(h.call(dem, [rb.p, c])):
            seq_is(h, o, 'a new buffer is empty and has the requested capacity', rb.post(o), 0, lambda i: 0, c.t)
            h.frame(o, [('rb', None)])
        out.append(h)
    return out


def u_copy(mods):
    out = []
    for cls, lay in ((RB, 'rb'), (TRB, 'trb')):
        nm = cls.split('::')[1].split('<')[0]
        for dem, old in (('%s::%s(%s const&)' % (cls, nm, cls), False), ('%s::operator=(%s const&)' % (cls, cls), True)):
            for alias in ((False, True) if old else (False,)):
                h = H(mods['ring'], dem + (' self' if alias else ''), [])
                src = Ring(h, 'other', cls=lay)
                rb = src if alias else Ring(h, 'rb', cls=lay, fresh=old)
                for o in h.only_ret(h.call(dem, [rb.p, src.p])):
                    seq_is(h, o, 'the copy holds the same sequence', rb.post(o), src.size(), src.at, src.N - 1)
                    seq_is(h, o, 'the source keeps its sequence', src.post(o), src.size(), src.at, src.N - 1)
                    h.frame(o, rb.all if old else [(rb.base, None)])
                out.append(h)
    return out


T = 'unsigned int'
UNITS = [
    ('constructor', u_ctor), ('copy and assignment', u_copy),
    ('clear', lambda m: units(m, ['clear'], '()', u_clear)),
    ('empty', lambda m: units(m, ['empty'], '() const', query(lambda r: r.size() == 0))),
    ('full', lambda m: units(m, ['full'], '() const', query(lambda r: r.size() == r.N - 1))),
    ('size', lambda m: units(m, ['size'], '() const', query(lambda r: r.size()))),
    ('capacity', lambda m: units(m, ['capacity'], '() const', query(lambda r: r.N - 1))),
    ('reserve', lambda m: units(m, ['reserve'], '() const', query(lambda r: r.N - 1 - r.size()))),
    ('write', lambda m: units(m, ['write'], '(%s const&, bool)' % T, u_write)),
    ('write of own element', lambda m: units(m, ['write'], '(%s const&, bool)' % T, u_write_alias)),
    ('at const', lambda m: units(m, ['at'], '(unsigned long) const', u_at)),
    ('at', lambda m: units(m, ['at'], '(unsigned long)', u_at)),
    ('front const', lambda m: units(m, ['front'], '() const', u_front)),
    ('front', lambda m: units(m, ['front'], '()', u_front)),
    ('read', lambda m: units(m, ['read'], '()', u_read)),
    ('skip', lambda m: units(m, ['skip'], '()', u_skip)),
    ('skip(count)', lambda m: units(m, ['skip'], '(unsigned long)', u_skipn)),
]
