"""C12 a value made final never changes again"""
from vcg.contract import *

TUS = {'s': 'tu/scope.cpp'}
NATIVE = {'src': 'native/final.cpp', 'sources': []}
ASSUMPTIONS = ['verified instantiated for uint32_t values', 'only the member functions are considered (no access around the interface)']
F = 'icl_core::Finalizable<unsigned int>'
LOGIC = '@_ZTISt11logic_error'


class Fin:
    def __init__(self, h, name, fresh=True):
        self.h, self.name = h, name
        self.ov, self.of = h.off('f_val'), h.off('f_final')
        self.p = h.obj(name, None, h.off('f_size'))
        if fresh:
            v, f = h.int(name + '.value', 32), h.int(name + '.final', 8, False, 0, 1)
            h.put(self.p, self.ov, v)
            h.put(self.p, self.of, f)
            self.v, self.f = v.t, f.t

    def is_(self, o, what, v, f):
        self.h.post(o, what + ': value', self.h.u(self.h.ld(o, self.p, self.ov, 32)) == v)
        self.h.post(o, what + ': final', self.h.u(self.h.ld(o, self.p, self.of, 8)) == f)


def H_(mods, f):
    return H(mods['s'], 'Finalizable::' + f, [])


def val(h):
    v, p = h.int('value', 32), h.obj('value', None, 4)
    h.put(p, 0, v)
    return v.t, p


def u_ctor(mods):
    out = []
    h = H_(mods, 'from value')
    a = Fin(h, 'a', False)
    v, p = val(h)
    for o in h.only_ret(h.call('%s::Finalizable(unsigned int const&)' % F, [a.p, p])):
        a.is_(o, 'a new object holds the value and is not final', v, 0)
        h.frame(o, [('a', None)])
    out.append(h)
    h = H_(mods, 'copy')
    a, b = Fin(h, 'a', False), Fin(h, 'b')
    for o in h.only_ret(h.call('%s::Finalizable(%s const&)' % (F, F), [a.p, b.p])):
        a.is_(o, 'a copy has the same value and is final exactly if the original is', b.v, b.f)
        h.frame(o, [('a', None)])
    out.append(h)
    return out


def u_assign(mods):
    out = []
    for kind in ('value', 'object', 'self'):
        h = H_(mods, 'operator= from ' + kind)
        a = Fin(h, 'a')
        if kind == 'value':
            v, p = val(h)
            outs = h.call('%s::operator=(unsigned int const&)' % F, [a.p, p])
        else:
            b = Fin(h, 'b') if kind == 'object' else a
            v = b.v
            outs = h.call('%s::operator=(%s const&)' % (F, F), [a.p, b.p])
        for o in outs:
            if o.kind == 'ret':
                h.post(o, 'only a value that is not final can be assigned to', a.f == 0)
                a.is_(o, 'assignment takes the new value and leaves it assignable', v, 0)
                h.frame(o, [('a', a.ov)])
            else:
                h.post(o, 'assignment is refused with a logic error', o.val == LOGIC)
                h.post(o, 'assignment is refused only if the value is final', a.f == 1)
                h.frame(o, [])
        out.append(h)
    return out


def u_rest(mods):
    out = []
    h = H_(mods, 'operator T')
    a = Fin(h, 'a')
    for o in h.only_ret(h.call('%s::operator unsigned int() const' % F, [a.p])):
        h.post(o, 'reading gives the value', h.u(o.val) == a.v)
        h.frame(o, [])
    out.append(h)
    h = H_(mods, 'isFinal')
    a = Fin(h, 'a')
    for o in h.only_ret(h.call('%s::isFinal() const' % F, [a.p])):
        h.post(o, 'isFinal', Bz(o.val.t) == (a.f == 1))
        h.frame(o, [])
    out.append(h)
    h = H_(mods, 'finalize')
    a = Fin(h, 'a')
    for o in h.only_ret(h.call('%s::finalize()' % F, [a.p])):
        a.is_(o, 'finalize keeps the value', a.v, 1)
        h.frame(o, [('a', a.of)])
    out.append(h)
    return out


UNITS = [('construction', u_ctor), ('assignment', u_assign), ('reading and finalizing', u_rest)]
