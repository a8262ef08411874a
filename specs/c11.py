"""C11 searchable stack: last in, first out, iterable and searchable from the bottom"""
from vcg.contract import *

TUS = {'s': 'tu/stack.cpp'}
NATIVE = {'src': 'native/stack.cpp', 'sources': []}
ASSUMPTIONS = ['verified instantiated for uint32_t elements, with a stateful equality that is an arbitrary function of its state and its two arguments and with std::equal_to',
               'std::vector follows its standard contract; allocation does not fail', 'pop() and top() are used on non-empty stacks only (precondition)']
CLS = {'Eq': 'icl_core::SearchableStack<unsigned int, Eq, std::allocator<unsigned int>>',
       'std::equal_to': 'icl_core::SearchableStack<unsigned int, std::equal_to<unsigned int>, std::allocator<unsigned int>>'}
same_ = z3.Function('equal_for', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
look = z3.Function('look', z3.IntSort(), z3.BoolSort())
i = z3.Int('i')


def eq_call(ex, st, args, m, ins):
    v = [ex.th.U(ex.load(st, a, ir.Ty('int', w=32))) for a in args]
    return [('ret', st, I(1, same_(*v)))]


def H_(mods, f):
    return H(mods['s'], 'SearchableStack::' + f, [], extra=[(r'Eq::operator\(\)\(unsigned int const&, unsigned int const&\) const', eq_call)])


class Stk:
    def __init__(self, h, name='s', fresh=True):
        self.h, self.name = h, name
        self.oc = h.off('s_cmp')
        self.p = h.obj(name, None, h.off('s_size'))
        if fresh:
            v = h.vec(self.p, 0, name + '.elements', 'unsigned int')
            c = h.int(name + '.cmp', 32)
            h.put(self.p, self.oc, c)
            self.n, self.a, self.gen, self.c = v.len, v.fields[0], v.gen, c.t
            h.assume(v.len < 2 ** 60)
            h.small += [self.n <= 2, self.n <= 10]

    def is_(self, o, what, n, elem):
        h = self.h
        v = h.vecof(o, self.p, 0)
        h.inputs.setdefault('i', i)
        h.post(o, what + ': number of elements', v.len == n)
        if elem is not None:
            h.post(o, what + ': the elements', z3.Implies(z3.And(i >= 0, i < n), z3.Select(v.fields[0], i) == elem(i)))
        h.frame(o, [(self.name, 0)])

    def points(self, p, k):
        return And(p.base == ('v', self.name, 0, self.gen), p.idx == k, p.off == 0)


def u_ops(mods):
    out = []
    for nm, C in CLS.items():
        h = H_(mods, 'constructor')
        s = Stk(h, fresh=False)
        for o in h.only_ret(h.call('%s::SearchableStack()' % C, [s.p])):
            h.post(o, 'a new stack is empty', h.vecof(o, s.p, 0).len == 0)
            h.frame(o, [('s', None)])
        out.append(h)
        h = H_(mods, 'clear')
        s = Stk(h)
        for o in h.only_ret(h.call('%s::clear()' % C, [s.p])):
            s.is_(o, 'clear empties the stack', 0, None)
        out.append(h)
        h = H_(mods, 'push')
        s = Stk(h)
        v, vp = h.int('value', 32), h.obj('value', None, 4)
        h.put(vp, 0, v)
        for o in h.only_ret(h.call('%s::push(unsigned int const&)' % C, [s.p, vp])):
            s.is_(o, 'push puts the element on top', s.n + 1, lambda i: z3.If(i == s.n, v.t, z3.Select(s.a, i)))
        out.append(h)
        h = H_(mods, 'pop')
        s = Stk(h)
        h.assume(s.n > 0)
        for o in h.only_ret(h.call('%s::pop()' % C, [s.p])):
            s.is_(o, 'pop removes the top element only', s.n - 1, lambda i: z3.Select(s.a, i))
        out.append(h)
        for c in ('', ' const'):
            h = H_(mods, 'top' + c)
            s = Stk(h)
            h.assume(s.n > 0)
            for o in h.only_ret(h.call('%s::top()%s' % (C, c), [s.p])):
                h.post(o, 'top is the element pushed last', s.points(o.val, s.n - 1))
                h.frame(o, [])
            out.append(h)
        for f in ('empty', 'size'):
            h = H_(mods, f)
            s = Stk(h)
            for o in h.only_ret(h.call('%s::%s() const' % (C, f), [s.p])):
                h.post(o, f, Bz(o.val.t) == (s.n == 0) if f == 'empty' else h.u(o.val) == s.n)
                h.frame(o, [])
            out.append(h)
        for f, k in (('begin', lambda s: 0), ('end', lambda s: s.n)):
            h = H_(mods, f)
            s = Stk(h)
            for o in h.only_ret(h.call('%s::%s() const' % (C, f), [s.p])):
                h.post(o, 'iteration runs from bottom to top', s.points(o.val, k(s)))
                h.frame(o, [])
            out.append(h)
        for f, k in (('rbegin', lambda s: s.n), ('rend', lambda s: 0)):
            h = H_(mods, f)
            s = Stk(h)
            r = h.obj('result', None, 8)
            for o in h.only_ret(h.call('%s::%s() const' % (C, f), [r, s.p])):
                c = o.st.mem['result'].cells.get(0)
                h.post(o, 'reverse iteration runs from top to bottom', s.points(c[1], k(s)) if c else False)
                h.frame(o, [('result', None)])
            out.append(h)
    return out


def u_find(mods):
    out = []
    for nm, C in CLS.items():
        h = H_(mods, 'find')
        s = Stk(h)
        v, vp = h.int('value', 32), h.obj('value', None, 4)
        h.put(vp, 0, v)
        hit = (lambda k: same_(s.c, z3.Select(s.a, k), v.t)) if nm == 'Eq' else (lambda k: z3.Select(s.a, k) == v.t)
        q = z3.Int('q!f')

        def tmpl(ex, ctx, s=s, hit=hit):
            r = []
            for k in ctx.keys:
                e = ctx.entry[k]
                if isinstance(e, P) and e.base == ('v', s.name, 0, s.gen):
                    r.append(('no earlier match', lambda v, k=k: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v[k].idx), z3.Not(hit(q))), patterns=[z3.Select(s.a, q)])))
                if isinstance(e, I) and e.w == 64:
                    r.append(('no earlier match', lambda v, k=k: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ex.th.U(v[k])), z3.Not(hit(q))), patterns=[z3.Select(s.a, q)])))
            return r
        h.ex.templates.append(tmpl)
        for o in h.only_ret(h.call('%s::find(unsigned int const&) const' % C, [s.p, vp])):
            h.post(o, 'find stays inside the stack', And(o.val.base == ('v', s.name, 0, s.gen), o.val.idx >= 0, o.val.idx <= s.n, o.val.off == 0))
            h.post(o, 'find stops at a match or at the end', z3.Or(Bz(o.val.idx == s.n), hit(o.val.idx)))
            h.inputs['i'] = i
            h.post(o, 'nothing below the found element matches', z3.Implies(z3.And(i >= 0, i < o.val.idx), z3.Not(hit(i))))
            h.frame(o, [])
        out.append(h)
    return out


UNITS = [('operations', u_ops), ('find', u_find)]
