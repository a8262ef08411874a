"""C03 iterators walk the sequence"""
from .ringlib import *
from .c01 import NATIVE, ASSUMPTIONS

TUS = {'ring': 'tu/ring.cpp'}
CI, IT = RB + '::const_iterator', RB + '::iterator'


class It:
    """iterator standing at sequence position k (0 <= k <= size) of ring rb"""

    def __init__(self, h, rb, name, k=None):
        self.h, self.rb, self.name = h, rb, name
        self.o = {f: h.off('it_' + f) for f in ('current', 'cbegin', 'cend', 'begin')}
        self.p = h.obj(name, None, h.off('it_size'))
        if k is not None:
            self.k = k
            vb = ('v', rb.base, rb.ob, rb.gen)
            for f, ix in (('current', rb.pos(k)), ('cbegin', 0), ('cend', rb.N), ('begin', rb.r)):
                h.put(self.p, self.o[f], P(vb, ix), 8)

    def at(self, o, p=None):
        st = o.st
        p = p or self.p
        return {f: st.mem[p.base].cells[p.off + x][1] for f, x in self.o.items()}

    def standing(self, o, what, k, p=None):
        c = self.at(o, p)
        rb = self.rb
        vb = ('v', rb.base, rb.ob, rb.gen)
        self.h.post(o, what, And(*[And(c[f].base == vb, c[f].off == 0) for f in c], c['current'].idx == rb.pos(k), c['cbegin'].idx == 0, c['cend'].idx == rb.N, c['begin'].idx == rb.r))


def pos(h, rb, name, lo=0, hi=None):
    k = h.int(name)
    h.assume(And(k.t >= lo, k.t <= (rb.size() if hi is None else hi)))
    return k.t


def setup(mods, dem):
    h = H(mods['ring'], dem, [])
    return h, Ring(h)


def u_ends(mods):
    out = []
    for fn, f in (('begin', lambda r: 0), ('end', lambda r: r.size())):
        for c in ('', ' const'):
            dem = '%s::%s()%s' % (RB, fn, c)
            h, rb = setup(mods, dem)
            it = It(h, rb, 'it')
            for o in h.only_ret(h.call(dem, [it.p, rb.p])):
                it.standing(o, '%s() stands at the %s of the sequence' % (fn, 'first element' if fn == 'begin' else 'end'), f(rb))
                h.frame(o, [('it', None)])
            out.append(h)
    return out


def step(mods):
    out = []
    for op, d in (('++', 1), ('--', -1)):
        dem = '%s::operator%s()' % (CI, op)
        h, rb = setup(mods, dem)
        k = pos(h, rb, 'k')
        h.assume(k < rb.size() if d == 1 else k > 0)
        it = It(h, rb, 'it', k)
        for o in h.only_ret(h.call(dem, [it.p])):
            it.standing(o, 'pre-%s moves by one element' % op, k + d)
            h.post(o, 'returns itself', o.val.base == 'it' and o.val.off == 0)
            h.frame(o, [('it', None)])
        out.append(h)
        dem = '%s::operator%s(int)' % (CI, op)
        h, rb = setup(mods, dem)
        k = pos(h, rb, 'k')
        h.assume(k < rb.size() if d == 1 else k > 0)
        it, r = It(h, rb, 'it', k), It(h, rb, 'ret')
        for o in h.only_ret(h.call(dem, [r.p, it.p, h.int('dummy', 32)])):
            it.standing(o, 'post-%s moves by one element' % op, k + d)
            r.standing(o, 'post-%s returns the old position' % op, k)
            h.frame(o, [('it', None), ('ret', None)])
        out.append(h)
    return out


def jump(mods):
    out = []
    for op, d in (('+=', 1), ('-=', -1), ('+', 1), ('-', -1)):
        const = ' const' if len(op) == 1 else ''
        dem = '%s::operator%s(long)%s' % (CI, op, const)
        h, rb = setup(mods, dem)
        k = pos(h, rb, 'k')
        x = h.int('offset', 64, True)
        h.small.append(And(x.t >= -8, x.t <= 8))
        h.assume(And(k + d * x.t >= 0, k + d * x.t <= rb.size()))
        it = It(h, rb, 'it', k)
        if const:
            r = It(h, rb, 'ret')
            for o in h.only_ret(h.call(dem, [r.p, it.p, x])):
                r.standing(o, 'it %s n stands n elements away' % op, k + d * x.t)
                it.standing(o, 'the operand is unchanged', k)
                h.frame(o, [('ret', None)])
        else:
            for o in h.only_ret(h.call(dem, [it.p, x])):
                it.standing(o, 'it %s n moves n elements' % op, k + d * x.t)
                h.post(o, 'returns itself', o.val.base == 'it' and o.val.off == 0)
                h.frame(o, [('it', None)])
        out.append(h)
    return out


def compare(mods):
    out = []
    for op in ('-', '==', '!='):
        dem = '%s::operator%s(%s const&) const' % (CI, op, CI)
        h, rb = setup(mods, dem)
        k, l = pos(h, rb, 'k'), pos(h, rb, 'l')
        a, b = It(h, rb, 'a', k), It(h, rb, 'b', l)
        for o in h.only_ret(h.call(dem, [a.p, b.p])):
            if op == '-':
                h.post(o, 'difference is the number of elements between', h.s(o.val) == k - l)
            else:
                h.post(o, 'iterators are equal exactly at the same position', Bz(o.val.t) == Bz((k == l) if op == '==' else (k != l)))
            h.frame(o, [])
        out.append(h)
    return out


def deref(mods):
    out = []
    for cls in (CI, IT):
        for op in ('*', '->'):
            dem = '%s::operator%s() const' % (cls, op)
            h, rb = setup(mods, dem)
            k = pos(h, rb, 'k')
            h.assume(k < rb.size())
            it = It(h, rb, 'it', k)
            for o in h.only_ret(h.call(dem, [it.p])):
                h.post(o, 'dereference reaches the element at that position', And(o.val.base == ('v', rb.base, rb.ob, rb.gen), o.val.off == 0, o.val.idx == rb.pos(k)))
                h.frame(o, [])
            out.append(h)
    return out


def copies(mods):
    out = []
    for cls in (CI, IT):
        nm = cls.split('::')[-1]
        for dem in ('%s::%s(%s const&)' % (cls, nm, cls), '%s::operator=(%s const&)' % (cls, cls)):
            h, rb = setup(mods, dem)
            k = pos(h, rb, 'k')
            src = It(h, rb, 'src', k)
            if '=' in dem:      # the target stood anywhere in any other buffer (or an earlier state of this one)
                rb2 = Ring(h, 'rb2')
                dst = It(h, rb2, 'dst', pos(h, rb2, 'l'))
                dst.rb = rb
            else:
                dst = It(h, rb, 'dst')
            for o in h.only_ret(h.call(dem, [dst.p, src.p])):
                dst.standing(o, 'the copy stands where the original stands', k)
                h.frame(o, [('dst', None)])
            out.append(h)
    return out


def lemma(mods):
    """different positions of one ring are different slots (so equality of iterators is equality of positions), begin==end iff empty"""
    h = H(mods['ring'], 'lemma: positions are distinct slots', [])
    rb = Ring(h)
    k, l = pos(h, rb, 'k'), pos(h, rb, 'l')
    h.post(h.st, 'distinct positions are distinct slots', (rb.pos(k) == rb.pos(l)) == (k == l))
    return h


UNITS = [('begin/end', u_ends), ('++ and --', step), ('jumps', jump), ('comparison', compare), ('dereference', deref), ('copies', copies), ('lemma', lemma)]
