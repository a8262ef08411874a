"""abstraction of the ring buffer used by C01..C03: the sequence of its elements, oldest first"""
from vcg.contract import *

RB, TRB = 'icl_core::RingBuffer<unsigned int>', 'icl_core::tRingBuffer<unsigned int>'
OUT = '@_ZTISt12out_of_range'
ELEM = lambda a, i: z3.Select(a, i)


class Ring:
    """arbitrary ring buffer satisfying the class invariant: at least one slot, both positions inside"""

    def __init__(self, h, name='rb', cls='rb', fresh=True):
        self.h, self.name = h, name
        self.ob, self.ow, self.orr = h.off(cls + '_buffer'), h.off(cls + '_write'), h.off(cls + '_read')
        self.p = h.obj(name, None, h.off(cls + '_size'))
        self.base = name
        if fresh:
            v = h.vec(self.p, self.ob, name + '.buf', 'unsigned int')
            self.N, self.a, self.gen = v.len, v.fields[0], v.gen
            w, r = h.int(name + '.w'), h.int(name + '.r')
            h.put(self.p, self.ow, w)
            h.put(self.p, self.orr, r)
            self.w, self.r = w.t, r.t
            h.assume(And(self.N >= 1, self.w >= 0, self.w < self.N, self.r >= 0, self.r < self.N))
            h.small += [self.N <= 4, self.N <= 8, self.N <= 40, self.N <= 2000]
        self.all = [(name, self.ob), (name, self.ow), (name, self.orr)]

    def size(self):
        return size(self.N, self.w, self.r)

    def pos(self, i):
        return wrap(self.N, self.r + i)

    def at(self, i):
        return ELEM(self.a, self.pos(i))

    def post(self, o):
        h = self.h
        v = h.vecof(o, self.p, self.ob)
        n = Ring.__new__(Ring)
        n.h, n.name, n.p, n.N, n.a, n.gen, n.ob = h, self.name, self.p, v.len, v.fields[0], v.gen, self.ob
        n.w, n.r = h.u(h.ld(o, self.p, self.ow, 64)), h.u(h.ld(o, self.p, self.orr, 64))
        return n

    def inv(self):
        return And(self.N >= 1, self.w >= 0, self.w < self.N, self.r >= 0, self.r < self.N)


def size(N, w, r):
    return Ite(w >= r, w - r, w + N - r)


def wrap(N, x):
    return Ite(x < N, x, x - N)


def seq_is(h, o, what, n, length, elem, cap=None):
    """the new ring n holds exactly `length` elements, element i being elem(i) (i arbitrary)"""
    i = z3.Int('i')
    h.inputs.setdefault('i', i)
    h.post(o, what + ': positions stay inside the buffer', n.inv())
    if cap is not None:
        h.post(o, what + ': capacity', n.N - 1 == cap)
    h.post(o, what + ': number of elements', n.size() == length)
    h.post(o, what + ': elements and their order', z3.Implies(z3.And(i >= 0, i < length), n.at(i) == elem(i)))


def val(h, name, v=None):
    p = h.obj(name, None, 4)
    x = v or h.int(name, 32)
    h.put(p, 0, x)
    return p, x.t


def both(*names):
    """(class, layout prefix, function name) for the current and the deprecated class, deprecated spelling included"""
    r = []
    for n in names:
        a = n[0].upper() + n[1:]
        r += [(RB, 'rb', n), (RB, 'rb', a), (TRB, 'trb', a), (TRB, 'trb', n)]
    return r


def units(mods, names, sig, body):
    """one harness per spelling that exists; the first one is mandatory"""
    out = []
    for k, (cls, lay, n) in enumerate(both(*names)):
        dem = '%s::%s%s' % (cls, n, sig)
        if not any(f.body_text is not None for f in mods['ring'].bydem.get(dem, [])):
            if k == 0:
                raise Unsupported('function under contract not found: ' + dem)
            continue
        h = H(mods['ring'], dem, [])
        rb = Ring(h, cls=lay)
        body(h, rb, dem)
        out.append(h)
    return out
