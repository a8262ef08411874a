"""C10 Z-buffer: every position keeps the best value offered since it was last emptied"""
from vcg.contract import *

TUS = {'z': 'tu/zbuffer.cpp'}
NATIVE = {'src': 'native/zbuffer.cpp', 'sources': []}
ASSUMPTIONS = ['verified instantiated for uint32_t values with a stateful comparator that is an arbitrary function of its state and its two arguments',
               'std::vector follows its standard contract; allocation does not fail', 'positions lie inside the buffer (precondition)']
Z = 'icl_core::ZBuffer<unsigned int, Cmp>'
OT = 'boost::optional<unsigned int>'
less = z3.Function('comes_before', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
i = z3.Int('i')
VIN, VVAL = 0, 4


def cmp_call(ex, st, args, m, ins):
    v = [ex.th.U(ex.load(st, a, ir.Ty('int', w=32))) for a in args]
    return [('ret', st, I(1, less(*v)))]


def H_(mods, f):
    h = H(mods['z'], 'ZBuffer::' + f, [], opts={'eltypes': {OT: (8, {VIN: ir.Ty('int', w=8), VVAL: ir.Ty('int', w=32)}, {})}},
          extra=[(r'Cmp::operator\(\)\(unsigned int const&, unsigned int const&\) const', cmp_call)])
    if (h.off('o_size'), h.off('o_init'), h.off('o_val')) != (8, VIN, VVAL):
        raise Unsupported('layout of boost::optional changed')
    return h


def rng(a, hi):
    q = z3.Int('q!rng')
    return z3.ForAll([q], z3.And(z3.Select(a, q) >= 0, z3.Select(a, q) <= hi), patterns=[z3.Select(a, q)])


class Zb:
    def __init__(self, h, name='z', fresh=True):
        self.h, self.name = h, name
        self.od, self.oc = h.off('z_data'), h.off('z_cmp')
        self.p = h.obj(name, None, h.off('z_size'))
        if fresh:
            v = h.vec(self.p, self.od, name + '.cells', OT)
            c = h.int(name + '.cmp', 32)
            h.put(self.p, self.oc, c)
            self.n, self.init, self.val, self.gen, self.cmp = v.len, v.fields[VIN], v.fields[VVAL], v.gen, c.t
            h.assume(And(rng(self.init, 1), rng(self.val, 2 ** 32 - 1)))
            h.small += [self.n <= 2, self.n <= 10]

    def is_(self, o, what, n, full, val):
        h = self.h
        v = h.vecof(o, self.p, self.od)
        h.inputs.setdefault('i', i)
        h.post(o, what + ': number of positions', v.len == n)
        inr = z3.And(i >= 0, i < n)
        h.post(o, what + ': which positions hold a value', z3.Implies(inr, (z3.Select(v.fields[VIN], i) == 1) == Bz(full(i))))
        h.post(o, what + ': emptiness flags', z3.Implies(inr, z3.Or(z3.Select(v.fields[VIN], i) == 1, z3.Select(v.fields[VIN], i) == 0)))
        h.post(o, what + ': the values held', z3.Implies(z3.And(inr, Bz(full(i))), z3.Select(v.fields[VVAL], i) == val(i)))


def u_ctor(mods):
    h = H_(mods, 'constructor')
    z = Zb(h, fresh=False)
    n, c, cp = h.int('n'), h.int('cmp', 32), h.obj('comparator', None, 4)
    h.put(cp, 0, c)
    h.assume(n.t <= 2 ** 58)
    for o in h.only_ret(h.call('%s::ZBuffer(unsigned long, Cmp const&)' % Z, [z.p, n, cp])):
        z.is_(o, 'a new buffer is empty', n.t, lambda i: False, lambda i: 0)
        h.post(o, 'it uses the given comparator', h.u(h.ld(o, z.p, z.oc, 32)) == c.t)
        h.frame(o, [('z', None)])
    return h


def u_update(mods):
    h = H_(mods, 'update')
    z = Zb(h)
    x, v, vp = h.int('position'), h.int('value', 32), h.obj('value', None, 4)
    h.put(vp, 0, v)
    h.assume(x.t < z.n)
    had = z3.Select(z.init, x.t) == 1
    take = z3.Or(z3.Not(had), less(z.cmp, v.t, z3.Select(z.val, x.t)))
    for o in h.only_ret(h.call('%s::update(unsigned long, unsigned int const&)' % Z, [z.p, x, vp])):
        h.post(o, 'update reports whether the value was taken', Bz(o.val.t) == take)
        z.is_(o, 'update changes only that position, and only for a better value', z.n, lambda i: z3.Or(i == x.t, z3.Select(z.init, i) == 1),
              lambda i: z3.If(z3.And(i == x.t, take), v.t, z3.Select(z.val, i)))
        h.frame(o, [('z', z.od)])
    return h


def u_rest(mods):
    out = []
    h = H_(mods, 'reset')
    z = Zb(h)
    for o in h.only_ret(h.call(Z + '::reset()', [z.p])):
        z.is_(o, 'reset empties every position', z.n, lambda i: False, lambda i: 0)
        h.frame(o, [('z', z.od)])
    out.append(h)
    h = H_(mods, 'size')
    z = Zb(h)
    for o in h.only_ret(h.call(Z + '::size() const', [z.p])):
        h.post(o, 'size', h.u(o.val) == z.n)
        h.frame(o, [])
    out.append(h)
    h = H_(mods, 'buffer')
    z = Zb(h)
    for o in h.only_ret(h.call(Z + '::buffer() const', [z.p])):
        h.post(o, 'the whole buffer', And(o.val.base == z.p.base, o.val.off == z.od))
        h.frame(o, [])
    out.append(h)
    for f in ('at', 'operator[]'):
        h = H_(mods, f)
        z = Zb(h)
        x = h.int('position')
        h.assume(x.t < z.n)
        fn = h.fn('%s::%s(unsigned long) const' % (Z, f))
        args, r = [z.p, x], None
        if len(fn.params) == 3:
            r = h.obj('result', None, 8)
            args = [r] + args
        for o in h.only_ret(h.call('%s::%s(unsigned long) const' % (Z, f), args)):
            if r is not None:
                fl, v = h.ld(o, r, 0, 8), h.ld(o, r, 4, 32)
                h.post(o, 'access tells whether the position holds a value', h.u(fl) == z3.Select(z.init, x.t))
                h.post(o, 'access gives the value', z3.Implies(z3.Select(z.init, x.t) == 1, h.u(v) == z3.Select(z.val, x.t)))
                h.frame(o, [('result', None)])
            else:
                h.post(o, 'access gives flag and value', h.u(o.val) % 256 == z3.Select(z.init, x.t))
                h.post(o, 'access gives the value', z3.Implies(z3.Select(z.init, x.t) == 1, h.u(o.val) / 2 ** 32 == z3.Select(z.val, x.t)))
                h.frame(o, [])
        out.append(h)
    return out


UNITS = [('construction', u_ctor), ('update', u_update), ('reset and access', u_rest)]
