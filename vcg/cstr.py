"""Contracts of the C string and memory functions on character arrays (trusted): memcpy, memset, strncpy, strlen, strcmp/strncmp, snprintf, vsnprintf, strcpy/strcat.
A region is a character array inside an object (or an array object): its cells are one SMT array; texts end at their first NUL."""
import re, z3
from . import ir
from .ir import Unsupported
from .sym import I, P, Abs, ArrV, simp, And, Or, Not, NULL
Byte = ir.Ty('int', w=8)


def char_field(mod, ty, off, base=0):
    """(start, count) of the character array that contains offset off"""
    ty = mod.resolve(ty)
    if ty.k == 'struct':
        for i, f in enumerate(ty.fields):
            fo = base + mod.field_off(ty, i)
            if fo <= off < fo + max(1, mod.size(f)):
                return char_field(mod, f, off, fo)
        return None
    if ty.k == 'arr':
        el = mod.resolve(ty.el)
        s = mod.size(el)
        if el.k == 'int' and el.w == 8:
            return base, ty.n
        return char_field(mod, el, off, base + (off - base) // s * s)
    return None


class Region:
    """n characters of an object from character i on"""
    def __init__(self, ex, st, p, what):
        if not isinstance(p, P) or p.base is None:
            ex.require(st, 'null-dereference', False, what)
            raise Unsupported('%s: not a character array' % what)
        p = ex.norm(st, p)
        o = st.mem.get(p.base)
        if o is None and isinstance(p.base, str) and p.base.startswith('@'):
            ex.glob(st, p.base)
            o = st.mem.get(p.base)
        if o is None or isinstance(o, Abs):
            raise Unsupported('%s: unknown region' % what)
        if not o.alive:
            ex.require(st, 'use-after-free', False, what)
        self.ex, self.base = ex, p.base
        if o.kind == 'arr':
            if o.stride != 1 or p.off != 0:
                raise Unsupported('%s: not a character array' % what)
            self.start, self.n, self.i, self.a = None, o.len, p.idx, o.fields[0]
            return
        if o.kind != 'obj':
            raise Unsupported('%s: not a character array' % what)
        if isinstance(p.off, tuple):
            _, start, es, n, ix, inner = p.off
            if es != 1 or inner:
                raise Unsupported('%s: not a character array' % what)
            self.start, self.n, self.i = start, n, ix
        else:
            f = char_field(ex.mod, o.ty, p.off) if o.ty is not None else ex.opts.get('chars', {}).get(p.base, lambda off: None)(p.off)
            if f is None:
                if o.ty is None and o.size and all(isinstance(c[0], int) and c[0] == 1 or isinstance(c[1], ArrV) for c in o.cells.values()):
                    f = (0, o.size)
                else:
                    raise Unsupported('%s: no character array at %r' % (what, p))
            self.start, self.n = f
            self.i = p.off - self.start
        self.a = ex.as_array(st, p.base, self.start, 1, self.n, Byte)

    def at(self, k):
        return z3.Select(self.a, self.ex.ix(simp(self.i + k)))

    def room(self):
        return self.n - self.i

    def put(self, ex, st, a):
        o = st.w(self.base)
        if o.ro:
            ex.require(st, 'write-to-constant', False)
        if self.start is None:
            o.fields[0] = a
        else:
            o.cells[self.start] = ((1, self.n), ArrV(a))


def U(ex, v):
    return ex.th.U(v)


def fits(ex, st, r, n, what):
    ex.require(st, 'bounds', And(r.i >= 0, n >= 0, r.i + n <= r.n), what)


def fill(ex, st, r, n, f, name='chars'):
    """characters 0..n-1 of the region := f(k), the rest unchanged"""
    if isinstance(n, int) and n == 0:
        return
    if isinstance(n, int) and n <= 16 and isinstance(r.i, int):
        a = r.a
        vals = [f(k) for k in range(n)]
        for k in range(n):
            a = z3.Store(a, z3.IntVal(r.i + k), vals[k])
        return r.put(ex, st, a)
    new = z3.Array(ex.uniq(name), z3.IntSort(), z3.IntSort())
    q = z3.Int('q!c')
    st.assume(z3.ForAll([q], z3.Select(new, q) == z3.If(z3.And(q >= r.i, q < r.i + n), f(simp(q - r.i)), z3.Select(r.a, q)), patterns=[z3.Select(new, q)]))
    r.put(ex, st, new)


def copy(ex, st, d, s, n, what='memcpy'):
    """memcpy of n (possibly symbolic) characters"""
    rs, rd = Region(ex, st, s, what), Region(ex, st, d, what)
    fits(ex, st, rs, n, '%s reads inside the source' % what)
    fits(ex, st, rd, n, '%s writes inside the destination' % what)
    fill(ex, st, rd, n, rs.at)


def length(ex, st, r, what):
    """position of the first NUL at or after the start of the region: (term, terminated-inside obligation)"""
    key = ('len', r.a.get_id(), str(r.i))
    c = ex.__dict__.setdefault('cstr_len', {})
    known = ex.opts.get('texts', {}).get(r.base)
    L = known(r) if known else None
    if L is None:
        if key in c:
            L = c[key][0]
        else:
            L = z3.Int(ex.uniq('strlen'))
            c[key] = (L, r.a)
    q = z3.Int('q!l')
    ex.require(st, 'bounds', terminated(ex, r), '%s: the text is terminated inside its array' % what)
    st.assume(And(L >= 0, r.i + L < r.n, r.at(L) == 0))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= r.i, q < r.i + L), z3.Select(r.a, q) != 0), patterns=[z3.Select(r.a, q)]))
    return L


def terminated(ex, r):
    """some character of the region is NUL: by the witnesses offered (the last character, and whatever the unit names)"""
    w = [r.n - 1 - r.i] + [f(r) for f in ex.opts.get('nul', [])]
    return z3.Or([z3.And(k >= 0, r.i + k < r.n, r.at(k) == 0) for k in w if k is not None])


def strncpy(ex, st, args, m, ins):
    d, s = Region(ex, st, args[0], 'strncpy'), Region(ex, st, args[1], 'strncpy')
    n = U(ex, args[2])
    fits(ex, st, d, n, 'strncpy writes inside the destination')
    # reads up to the first NUL or n characters
    if isinstance(n, int) or True:
        L = z3.Int(ex.uniq('strnlen'))
        q = z3.Int('q!l')
        ex.require(st, 'bounds', Or(s.i + n <= s.n, terminated(ex, s)), 'strncpy reads inside the source')
        st.assume(And(L >= 0, L <= n, s.i + L <= s.n, z3.Implies(L < n, And(s.i + L < s.n, s.at(L) == 0))))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= s.i, q < s.i + L), z3.Select(s.a, q) != 0), patterns=[z3.Select(s.a, q)]))
    fill(ex, st, d, n, lambda k: z3.If(k < L, s.at(k), z3.IntVal(0)))
    return [('ret', st, args[0])]


def strlen(ex, st, args, m, ins):
    r = Region(ex, st, args[0], 'strlen')
    return [('ret', st, I(64, length(ex, st, r, 'strlen'), 0, 2 ** 62))]


def memset_hook(ex, st, d, v, n):
    o = st.mem.get(d.base) if isinstance(d, P) else None
    if o is None or isinstance(o, Abs) or o.kind not in ('obj', 'arr'):
        return False
    if o.kind == 'obj' and not isinstance(d.off, tuple) and (o.ty is None or char_field(ex.mod, o.ty, d.off) is None):
        return False
    x, c = U(ex, n), U(ex, v)
    r = Region(ex, st, d, 'memset')
    fits(ex, st, r, x, 'memset writes inside the array')
    c = z3.IntVal(c % 256) if isinstance(c, int) else c % 256
    if isinstance(x, int) and isinstance(r.i, int) and r.i == 0 and isinstance(r.n, int) and x == r.n:
        r.put(ex, st, z3.K(z3.IntSort(), c))
        return True
    fill(ex, st, r, x, lambda k: c)
    return True


def memcpy_hook(ex, st, d, s, n):
    def chars(p):
        o = st.mem.get(p.base) if isinstance(p, P) else None
        if o is None and isinstance(p, P) and isinstance(p.base, str) and p.base.startswith('@'):
            ex.glob(st, p.base)
            o = st.mem.get(p.base)
        if o is None or isinstance(o, Abs):
            return False
        if o.kind == 'arr':
            return o.stride == 1
        if o.kind != 'obj':
            return False
        return isinstance(p.off, tuple) or o.ty is not None and char_field(ex.mod, o.ty, p.off) is not None
    if not (chars(d) and chars(s)):
        return False
    copy(ex, st, d, s, U(ex, n))
    return True


HANDLERS = [(r'@?strncpy', strncpy), (r'@?strlen', strlen)]
OPTS = {'memcpy': memcpy_hook, 'memset': memset_hook}
