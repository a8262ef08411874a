"""C14 bit field helpers touch exactly the bits of the mask"""
from vcg.contract import *

TUS = {'b': 'tu/bits.cpp'}
NATIVE = {'src': 'native/bits.cpp', 'sources': []}
ASSUMPTIONS = ['verified instantiated for the signed and unsigned 8, 16, 32 and 64 bit integer types and for an enumeration type']
TYPES = [('unsigned char', 8), ('unsigned short', 16), ('unsigned int', 32), ('unsigned long', 64), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64), ('En', 32)]


def conv(m, w):
    """an int mask converted to a field of w bits"""
    return z3.Extract(w - 1, 0, m) if w <= 32 else z3.SignExt(w - 32, m)


def unit(f):
    def u(mods):
        out = []
        for t, w in TYPES:
            h = H(mods['b'], '%s<%s>' % (f, t), [], bv=True)
            m = h.ex.th.fresh('mask', 32)
            x = h.ex.th.fresh('field', w)
            h.inputs.update(mask=m.t, field=x.t)
            p = h.obj('field', None, w // 8)
            h.put(p, 0, x, w // 8)
            k = conv(m.t, w)
            ret = 'bool' if f == 'isBitSet' else 'void'
            dem = r'%s icl_core::%s<%s>\(int, icl_core::ConvertToRef<%s>::To(Const)?Ref\)' % (ret, f, t, t)
            for o in h.only_ret(h.call(dem, [m, p])):
                if f == 'isBitSet':
                    h.post(o, 'the test tells whether a bit of the mask is set', Bz(o.val.t) == ((x.t & k) != 0))
                    h.frame(o, [])
                    continue
                y = h.ex.load(o.st, p, ir.Ty('int', w=w))
                h.post(o, 'exactly the bits of the mask are ' + ('set' if f == 'setBits' else 'cleared'), y.t == (x.t | k if f == 'setBits' else x.t & ~k))
                h.frame(o, [('field', 0)])
            out.append(h)
        return out
    return u


UNITS = [('setting', unit('setBits')), ('clearing', unit('clearBits')), ('testing', unit('isBitSet'))]
