"""C09 two-dimensional arrays: width x height cells, row by row"""
from vcg.contract import *

TUS = {'a': 'tu/array2d.cpp'}
NATIVE = {'src': 'native/array2d.cpp', 'sources': []}
ASSUMPTIONS = ['verified instantiated for uint32_t cells', 'std::vector follows its standard contract; allocation does not fail',
               'width times height fits the address space (no wrap-around of the cell count)']
A = 'icl_core::Array2D<unsigned int, std::allocator<unsigned int>>'
i = z3.Int('i')
VS = 'std::vector<unsigned int, std::allocator<unsigned int>>'


class Arr:
    def __init__(self, h, name='a', fresh=True):
        self.h, self.name = h, name
        self.od, self.ow, self.oh = h.off('a_data'), h.off('a_width'), h.off('a_height')
        self.p = h.obj(name, None, h.off('a_size'))
        if fresh:
            v = h.vec(self.p, self.od, name + '.cells', 'unsigned int')
            w, k = h.int(name + '.width'), h.int(name + '.height')
            h.put(self.p, self.ow, w)
            h.put(self.p, self.oh, k)
            self.w, self.k, self.n, self.a, self.gen = w.t, k.t, v.len, v.fields[0], v.gen
            h.assume(And(self.w >= 0, self.k >= 0, v.len == self.w * self.k, v.len <= 2 ** 60))
            h.small += [And(self.w <= 4, self.k <= 4), And(self.w <= 50, self.k <= 50)]
        self.all = [(name, self.od), (name, self.ow), (name, self.oh)]

    def vb(self):
        return ('v', self.name, self.od, self.gen)

    def is_(self, o, what, w, k, cell, upto=None):
        """the array is w x k and cell i (row by row) holds cell(i)"""
        h = self.h
        v = h.vecof(o, self.p, self.od)
        h.inputs.setdefault('i', i)
        h.post(o, what + ': width', h.u(h.ld(o, self.p, self.ow, 64)) == w)
        h.post(o, what + ': height', h.u(h.ld(o, self.p, self.oh, 64)) == k)
        h.post(o, what + ': number of cells', v.len == w * k)
        if cell is not None:
            h.post(o, what + ': cells', z3.Implies(z3.And(i >= 0, i < (v.len if upto is None else upto)), z3.Select(v.fields[0], i) == cell(i)))


def H_(mods, f):
    return H(mods['a'], 'Array2D::' + f, [], opts={'divmod_link': True})


def dims(h):
    w, k = h.int('w'), h.int('k')
    h.assume(And(w.t * k.t <= 2 ** 60))
    h.small += [And(w.t <= 4, k.t <= 4)]
    return w, k


def value(h):
    p = h.obj('value', None, 4)
    v = h.int('value', 32)
    h.put(p, 0, v)
    return p, v.t


def alloc(h):
    return h.obj('alloc', None, 8)


def u_ctor(mods):
    out = []
    h = H_(mods, 'Array2D()')
    a = Arr(h, fresh=False)
    for o in h.only_ret(h.call('%s::Array2D(std::allocator<unsigned int> const&)' % A, [a.p, alloc(h)])):
        a.is_(o, 'a default array is empty', 0, 0, None)
        h.frame(o, [('a', None)])
    out.append(h)
    h = H_(mods, 'Array2D(w, h, value)')
    a = Arr(h, fresh=False)
    w, k = dims(h)
    p, v = value(h)
    for o in h.only_ret(h.call('%s::Array2D(unsigned long, unsigned long, unsigned int const&, std::allocator<unsigned int> const&)' % A, [a.p, w, k, p, alloc(h)])):
        a.is_(o, 'a new array holds the value everywhere', w.t, k.t, lambda i: v)
        h.frame(o, [('a', None)])
    out.append(h)
    for f in ('Array2D(%s const&)' % A, 'operator=(%s const&)' % A):
        h = H_(mods, f.split('(')[0] + ' copy')
        b = Arr(h, 'b')
        a = Arr(h, 'a', fresh='=' in f)
        for o in h.only_ret(h.call('%s::%s' % (A, f), [a.p, b.p])):
            a.is_(o, 'a copy equals the original', b.w, b.k, lambda i: z3.Select(b.a, i))
            h.frame(o, [('a', None)])
        out.append(h)
    h = H_(mods, 'self assignment')
    a = Arr(h)
    for o in h.only_ret(h.call('%s::operator=(%s const&)' % (A, A), [a.p, a.p])):
        a.is_(o, 'self assignment changes nothing', a.w, a.k, lambda i: z3.Select(a.a, i))
    out.append(h)
    return out


def u_shape(mods):
    out = []
    for f, kind in (('resize(unsigned long, unsigned long)', 'r0'), ('resize(unsigned long, unsigned long, unsigned int const&)', 'rv'),
                    ('assign(unsigned long, unsigned long)', 'a0'), ('assign(unsigned long, unsigned long, unsigned int const&)', 'av')):
        h = H_(mods, f)
        a = Arr(h)
        w, k = dims(h)
        args = [a.p, w, k]
        v = z3.IntVal(0)
        if kind[1] == 'v':
            p, v = value(h)
            args.append(p)
        for o in h.only_ret(h.call('%s::%s' % (A, f), args)):
            if kind[0] == 'a':
                a.is_(o, 'assign fills the new shape', w.t, k.t, lambda i: v)
            else:
                a.is_(o, 'resize keeps the leading cells and fills the rest', w.t, k.t, lambda i: z3.If(i < a.n, z3.Select(a.a, i), v))
            h.frame(o, a.all)
        out.append(h)
    for f, val in (('reset()', False), ('set(unsigned int const&)', True)):
        h = H_(mods, f)
        a = Arr(h)
        args = [a.p]
        v = z3.IntVal(0)
        if val:
            p, v = value(h)
            args.append(p)
        for o in h.only_ret(h.call('%s::%s' % (A, f), args)):
            a.is_(o, 'all cells are overwritten, the shape stays', a.w, a.k, lambda i: v)
            h.frame(o, a.all)
        out.append(h)
    return out


def u_access(mods):
    out = []
    for f in ('at', 'operator[]'):
        for c in ('', ' const'):
            h = H_(mods, f + c)
            a = Arr(h)
            x = h.int('x')
            h.assume(x.t < a.n)
            for o in h.only_ret(h.call('%s::%s(unsigned long)%s' % (A, f, c), [a.p, x])):
                h.post(o, 'linear access reaches that cell', And(o.val.base == a.vb(), o.val.idx == x.t, o.val.off == 0))
                h.frame(o, [])
            out.append(h)
    for f in ('at', 'operator()'):
        for c in ('', ' const'):
            h = H_(mods, f + c)
            a = Arr(h)
            col, row = h.int('column'), h.int('row')
            h.assume(And(col.t < a.w, row.t < a.k))
            h.lemma('the cell lies inside', And(row.t * a.w + col.t < a.w * a.k, row.t * a.w >= 0, row.t * a.w <= 2 ** 60))
            for o in h.only_ret(h.call('%s::%s(unsigned long, unsigned long)%s' % (A, f, c), [a.p, col, row])):
                h.post(o, 'access by column and row reaches that cell', And(o.val.base == a.vb(), o.val.idx == row.t * a.w + col.t, o.val.off == 0))
                h.frame(o, [])
            out.append(h)
    # different coordinates are different cells, and every cell has coordinates
    h = H_(mods, 'index1D')
    a = Arr(h)
    col, row = h.int('column'), h.int('row')
    h.assume(And(col.t < a.w, row.t < a.k))
    h.lemma('the cell lies inside', And(row.t * a.w + col.t < a.w * a.k, row.t * a.w >= 0, row.t * a.w <= 2 ** 60))
    for o in h.only_ret(h.call('%s::index1D(unsigned long, unsigned long) const' % A, [a.p, col, row])):
        h.post(o, 'the linear index counts the cells row by row', h.u(o.val) == row.t * a.w + col.t)
        h.frame(o, [])
    out.append(h)
    h = H_(mods, 'indexTo2D')
    a = Arr(h)
    x = h.int('x')
    h.assume(x.t < a.n)
    h.lemma('there is a column', And(a.w > 0, a.k > 0))
    pc, pr = h.obj('column', None, 8), h.obj('row', None, 8)
    for o in h.only_ret(h.call('%s::indexTo2D(unsigned long, unsigned long&, unsigned long&) const' % A, [a.p, x, pc, pr])):
        c, r = h.u(h.ld(o, pc, 0, 64)), h.u(h.ld(o, pr, 0, 64))
        h.post(o, 'the column lies inside', And(c >= 0, c < a.w))
        h.post(o, 'column and row lead back to the index', r * a.w + c == x.t)
        h.post(o, 'the row lies inside', And(r >= 0, r < a.k))
        h.frame(o, [('column', None), ('row', None)])
    out.append(h)
    return out


def u_swap(mods):
    h = H_(mods, 'swap')
    a, b = Arr(h), Arr(h, 'b')
    for o in h.only_ret(h.call('%s::swap(%s&)' % (A, A), [a.p, b.p])):
        a.is_(o, 'swap exchanges the arrays', b.w, b.k, lambda i: z3.Select(b.a, i))
        b.is_(o, 'swap exchanges the arrays (other)', a.w, a.k, lambda i: z3.Select(a.a, i))
        h.frame(o, a.all + b.all)
    return h


def u_query(mods):
    out = []
    for f, e in (('width', lambda a: a.w), ('height', lambda a: a.k), ('size', lambda a: a.n), ('empty', None)):
        h = H_(mods, f)
        a = Arr(h)
        for o in h.only_ret(h.call('%s::%s() const' % (A, f), [a.p])):
            if f == 'empty':
                h.post(o, 'empty means no cells', Bz(o.val.t) == (a.n == 0))
            else:
                h.post(o, f, h.u(o.val) == e(a))
            h.frame(o, [])
        out.append(h)
    for f, e in (('begin', lambda a: 0), ('end', lambda a: a.n)):
        for c in ('', ' const'):
            h = H_(mods, f + c)
            a = Arr(h)
            for o in h.only_ret(h.call('%s::%s()%s' % (A, f, c), [a.p])):
                h.post(o, 'iteration covers all cells in order', And(o.val.base == a.vb(), o.val.idx == e(a), o.val.off == 0))
                h.frame(o, [])
            out.append(h)
    return out


UNITS = [('construction and copies', u_ctor), ('shape', u_shape), ('access', u_access), ('swap', u_swap), ('queries', u_query)]
