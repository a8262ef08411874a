"""C02 changing the capacity and bulk access keep the sequence"""
from .ringlib import *
from .c01 import NATIVE, ASSUMPTIONS

TUS = {'ring': 'tu/ring.cpp'}


def copy_template(h, rb, drop):
    """loop of setCapacity: slots [0,k) of the new storage hold the elements after the dropped ones"""
    def t(ex, ctx):
        r = []
        vecs = [k for k in ctx.keys if isinstance(ctx.entry[k], Abs) and ctx.entry[k].kind == 'vec']
        ints = [k for k in ctx.keys if isinstance(ctx.entry[k], I) and ctx.entry[k].w == 64]
        j = z3.Int('j!q')
        for a in vecs:
            for k in ints:
                r.append(('copied prefix', lambda v, a=a, k=k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex.th.U(v[k])), z3.Select(v[a].fields[0], j) == rb.at(drop + j)))))
        for a in vecs:
            n0 = ctx.entry[a].len
            r.append(('storage size', lambda v, a=a, n0=n0: v[a].len == n0))
        for k in ints:
            for k2 in ints:
                if k != k2:
                    r.append(('source position', lambda v, k=k, k2=k2: And(ex.th.U(v[k]) == wrap(rb.N, wrap(rb.N, rb.r + drop) + ex.th.U(v[k2])))))
            r.append(('source inside', lambda v, k=k: ex.th.U(v[k]) < rb.N))
        return r
    return t


def u_setcap(h, rb, dem):
    c = h.int('capacity', 64, False, 0, 2 ** 60)
    n = rb.size()
    k = z3.If(c.t < n, c.t, n)
    h.ex.templates.append(copy_template(h, rb, n - k))
    for o in h.only_ret(h.call(dem, [rb.p, c])):
        seq_is(h, o, 'setCapacity keeps the newest elements that fit, in order', rb.post(o), k, lambda i: rb.at(n - k + i), c.t)
        h.frame(o, rb.all)


def u_fake(h, rb, dem):
    c = h.int('count')
    n = rb.size()
    room = rb.N - 1 - n
    k = z3.If(c.t < room, c.t, room)
    for o in h.only_ret(h.call(dem, [rb.p, c])):
        seq_is(h, o, 'fakeWrite appends the slots behind the sequence', rb.post(o), n + k, rb.at, rb.N - 1)
        h.frame(o, [(rb.base, rb.ow)])


def ranges(one, two, first, total, what):
    """the two array ranges together are exactly the given slots, in order: slot(i) is element first+i"""
    def b(mods, const):
        h = H(mods['ring'], what + const, [])
        rb = Ring(h)
        i = z3.Int('i')
        h.inputs['i'] = i
        for o1 in h.only_ret(h.call('%s::%s()%s' % (RB, one, const), [rb.p])):
            h.frame(o1, [])
            for o2 in h.only_ret(h.call('%s::%s()%s' % (RB, two, const), [rb.p], st=o1.st)):
                p1, n1 = o1.val[0], h.u(o1.val[1])
                p2, n2 = o2.val[0], h.u(o2.val[1])
                vb = ('v', rb.base, rb.ob, rb.gen)
                h.post(o2, 'both ranges lie in the storage', And(p1.base == vb, p2.base == vb, p1.off == 0, p2.off == 0, n1 >= 0, n2 >= 0, p1.idx >= 0, p2.idx >= 0,
                                                                p1.idx + n1 <= rb.N, p2.idx + n2 <= rb.N))
                h.post(o2, 'the lengths add up', n1 + n2 == total(rb))
                slot = z3.If(i < n1, p1.idx + i, p2.idx + i - n1)
                h.post(o2, 'the slots are the right ones in order', z3.Implies(z3.And(i >= 0, i < n1 + n2), slot == wrap(rb.N, rb.pos(0) + first(rb) + i) if first(rb) is not None else True))
                h.frame(o2, [])
        return h
    return lambda mods: [b(mods, ''), b(mods, ' const')]


UNITS = [
    ('setCapacity', lambda m: units(m, ['setCapacity'], '(unsigned long)', u_setcap)),
    ('fakeWrite', lambda m: units(m, ['fakeWrite'], '(unsigned long)', u_fake)),
    ('filled ranges', ranges('arrayOne', 'arrayTwo', lambda r: 0, lambda r: r.size(), 'filled ranges')),
    ('empty ranges', ranges('emptyArrayOne', 'emptyArrayTwo', lambda r: r.size(), lambda r: r.N - 1 - r.size(), 'empty ranges')),
]
