"""C15 the relation of two sets
A set is its elements in ascending order (arrays a, b with lengths n, m); rank() embeds the comparator's order into the integers."""
from vcg.contract import *
from vcg import stl

TUS = {'s': 'tu/setrel.cpp'}
NATIVE = {'src': 'native/setrel.cpp', 'sources': []}
ASSUMPTIONS = ['std::set is a trusted contract: iteration visits the elements strictly ascending in its comparator\'s order, size/find/count as specified by the standard',
               'verified for uint32_t elements with an arbitrary strict total order (represented by an injective rank) and with std::less; two elements are equivalent in the order only if they are equal']
rank, unrank = z3.Function('rank', z3.IntSort(), z3.IntSort()), z3.Function('unrank', z3.IntSort(), z3.IntSort())
inA, inB = z3.Function('inA', z3.IntSort(), z3.BoolSort()), z3.Function('inB', z3.IntSort(), z3.BoolSort())
posA, posB = z3.Function('posA', z3.IntSort(), z3.IntSort()), z3.Function('posB', z3.IntSort(), z3.IntSort())
IT = r'std::_Rb_tree_const_iterator<unsigned int>'
SET = r'std::set<unsigned int, .*, std::allocator<unsigned int>>'
p, q = z3.Int('p!s'), z3.Int('q!s')


def it(ex, st, a):
    v = ex.load(st, a, ir.PTR)
    if not isinstance(v, P) or not (isinstance(v.base, tuple) and v.base[0] == 'v'):
        raise Unsupported('set iterator')
    return v, stl.vec_at(ex, st, P(v.base[1], 0, v.base[2]))


def i_deref(ex, st, args, m, ins):
    v, s = it(ex, st, args[0])
    ex.require(st, 'bounds', And(v.idx >= 0, v.idx < s.len), 'the iterator dereferenced stands at an element')
    return [('ret', st, v)]


def i_step(d):
    def f(ex, st, args, m, ins):
        v, s = it(ex, st, args[0])
        ex.require(st, 'bounds', And(v.idx >= 0, v.idx < s.len) if d > 0 else And(v.idx > 0, v.idx <= s.len), 'the iterator moved stays inside the set')
        ex.store(st, args[0], ir.PTR, P(v.base, simp(v.idx + d), 0))
        return [('ret', st, args[0] if len(args) == 1 else v)]
    return f


def s_end(f):
    def g(ex, st, args, m, ins):
        s = stl.vec_at(ex, st, args[0])
        return [('ret', st, stl.data_ptr(args[0], s, 0 if f == 'begin' else s.len))]
    return g


def s_size(ex, st, args, m, ins):
    s = stl.vec_at(ex, st, args[0])
    return [('ret', st, stl.lenI(ex, s) if m.group(1) == 'size' else I(1, s.len == 0))]


def s_find(ctx):
    def f(ex, st, args, m, ins):
        s = stl.vec_at(ex, st, args[0])
        x = ex.th.U(ex.load(st, args[1], ir.Ty('int', w=32)))
        inn, pos = (inA, posA) if args[0].base == 'a' else (inB, posB)
        if args[0].base not in ('a', 'b'):
            raise Unsupported('find in another set')
        if m.group(1) == 'find':
            return [('ret', st, stl.data_ptr(args[0], s, simp(z3.If(inn(x), pos(x), s.len))))]
        if m.group(1) == 'count':
            return [('ret', st, I(64, z3.If(inn(x), z3.IntVal(1), z3.IntVal(0)), 0, 1))]
        return [('ret', st, I(1, inn(x)))]
    return f


def cmp_call(ex, st, args, m, ins):
    v = [ex.th.U(ex.load(st, a, ir.Ty('int', w=32))) for a in args[1:]]
    return [('ret', st, I(1, rank(v[0]) < rank(v[1])))]


def unit(cmp):
    def u(mods):
        h = H(mods['s'], 'setRelation<%s>' % cmp, [], extra=[(IT + r'::operator\*\(\) const', i_deref), (IT + r'::operator\+\+\((int)?\)', i_step(1)), (IT + r'::operator--\((int)?\)', i_step(-1)),
                  (SET + r'::c?begin\(\) const', s_end('begin')), (SET + r'::c?end\(\) const', s_end('end')), (SET + r'::(size|empty)\(\) const', s_size),
                  (SET + r'::(find|count|contains)\(unsigned int const&\) const', s_find(None)),
                  (r'Cmp::operator\(\)\(unsigned int const&, unsigned int const&\) const', cmp_call)])
        A, B = h.obj('a', None, h.off('size')), h.obj('b', None, h.off('size'))
        va, vb = h.vec(A, 0, 'a', 'unsigned int'), h.vec(B, 0, 'b', 'unsigned int')
        a, n, b, m = va.fields[0], va.len, vb.fields[0], vb.len
        rk = rank if cmp == 'Cmp' else (lambda x: x)
        S = z3.Select
        x = z3.Int('x!s')
        h.assume(z3.ForAll([x], unrank(rank(x)) == x, patterns=[rank(x)]))
        for arr, ln, inn, pos in ((a, n, inA, posA), (b, m, inB, posB)):
            h.assume(z3.ForAll([q], z3.And(S(arr, q) >= 0, S(arr, q) < 2 ** 32), patterns=[S(arr, q)]))
            h.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < ln), rk(S(arr, p)) < rk(S(arr, q))), patterns=[z3.MultiPattern(S(arr, p), S(arr, q))]))
            h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ln), z3.And(inn(S(arr, q)), pos(S(arr, q)) == q)), patterns=[S(arr, q)]))
            h.assume(z3.ForAll([x], z3.Implies(inn(x), z3.And(pos(x) >= 0, pos(x) < ln, S(arr, pos(x)) == x)), patterns=[inn(x)]))
        SUB, SUP, INT = z3.Bools('first_within_second second_within_first common_element')
        wa, wb, wi = z3.Ints('only_in_first only_in_second in_both')
        h.assume(z3.If(SUB, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), inB(S(a, q))), patterns=[S(a, q)]), z3.And(wa >= 0, wa < n, z3.Not(inB(S(a, wa))))))
        h.assume(z3.If(SUP, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), inA(S(b, q))), patterns=[S(b, q)]), z3.And(wb >= 0, wb < m, z3.Not(inA(S(b, wb))))))
        h.assume(z3.If(INT, z3.And(wi >= 0, wi < n, inB(S(a, wi))), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(inB(S(a, q)))), patterns=[S(a, q)])))
        h.small += [And(n <= 2, m <= 2), And(n <= 3, m <= 3)]

        def tmpl(ex, ctx):
            r = []
            pa = [k for k in ctx.keys if isinstance(ctx.entry[k], P) and ctx.entry[k].base == ('v', 'a', 0, va.gen)]
            pb = [k for k in ctx.keys if isinstance(ctx.entry[k], P) and ctx.entry[k].base == ('v', 'b', 0, vb.gen)]
            fl = [k for k in ctx.keys if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (1, 8)]
            T = lambda v: Bz(v.t) if v.w == 1 else ex.th.U(v) != 0
            for k in fl:
                if ctx.entry[k].w == 8:
                    r.append(('flag', lambda v, k=k: And(ex.th.U(v[k]) >= 0, ex.th.U(v[k]) <= 1)))
                for c, nm in ((SUB, 'sub'), (SUP, 'super'), (INT, 'common'), (And(SUB, SUP), 'equal')):
                    r.append(('a flag that is on means ' + nm, lambda v, k=k, c=c: z3.Implies(T(v[k]), c)))
                    r.append(('a flag that is off means not ' + nm, lambda v, k=k, c=c: z3.Implies(z3.Not(T(v[k])), z3.Not(c))))
                    r.append(('a flag that is on means not ' + nm, lambda v, k=k, c=c: z3.Implies(T(v[k]), z3.Not(c))))
                for pol, P_ in (('on', lambda v, k=k: T(v[k])), ('off', lambda v, k=k: z3.Not(T(v[k])))):
                    for ka in pa:
                        r.append(('flag %s: the first element missing in the second set is still to come' % pol, lambda v, ka=ka, P_=P_: z3.Implies(P_(v), z3.Or(SUB, wa >= v[ka].idx))))
                        r.append(('flag %s: the first common element is still to come' % pol, lambda v, ka=ka, P_=P_: z3.Implies(P_(v), z3.Or(z3.Not(INT), wi >= v[ka].idx))))
                    for kb in pb:
                        r.append(('flag %s: the first element missing in the first set is still to come' % pol, lambda v, kb=kb, P_=P_: z3.Implies(P_(v), z3.Or(SUP, wb >= v[kb].idx))))
                for k2 in fl:
                    for k3 in fl:
                        if len({k, k2, k3}) == 3 and str(k2) < str(k3):
                            r.append(('a flag is on exactly if two others are', lambda v, k=k, k2=k2, k3=k3: T(v[k]) == z3.And(T(v[k2]), T(v[k3]))))
            for ka in pa:
                for kb in pb:
                    r.append(('elements passed in the first set precede the rest of the second', lambda v, ka=ka, kb=kb: z3.Implies(z3.And(v[ka].idx > 0, v[kb].idx < m), rk(S(a, v[ka].idx - 1)) < rk(S(b, v[kb].idx)))))
                    r.append(('elements passed in the second set precede the rest of the first', lambda v, ka=ka, kb=kb: z3.Implies(z3.And(v[kb].idx > 0, v[ka].idx < n), rk(S(b, v[kb].idx - 1)) < rk(S(a, v[ka].idx)))))
            return r
        h.ex.templates.append(tmpl)

        def msr(ex, ctx):
            pa = [k for k in ctx.keys if isinstance(ctx.entry[k], P) and ctx.entry[k].base == ('v', 'a', 0, va.gen)]
            pb = [k for k in ctx.keys if isinstance(ctx.entry[k], P) and ctx.entry[k].base == ('v', 'b', 0, vb.gen)]
            return [('elements left', lambda v, ka=ka, kb=kb: n - v[ka].idx + m - v[kb].idx) for ka in pa for kb in pb]
        h.ex.measures.append(msr)
        C = {k: h.off(k) for k in ('equal', 'super', 'sub', 'inter', 'disjunct')}
        dem = r'icl_core::SetRelation icl_core::setRelation<unsigned int, %s>\(.*\)' % (cmp if cmp == 'Cmp' else 'std::less<unsigned int>')
        for o in h.only_ret(h.call(dem, [A, B])):
            r = h.u(o.val)
            h.post(o, 'equal exactly if the sets have the same elements', (r == C['equal']) == And(SUB, SUP))
            h.post(o, 'proper superset exactly if the first contains the second and more', (r == C['super']) == And(SUP, Not(SUB)))
            h.post(o, 'proper subset exactly if the second contains the first and more', (r == C['sub']) == And(SUB, Not(SUP)))
            h.post(o, 'overlap exactly if they share an element and neither contains the other', (r == C['inter']) == And(Not(SUB), Not(SUP), INT))
            h.post(o, 'disjoint exactly if they share nothing and neither contains the other', (r == C['disjunct']) == And(Not(SUB), Not(SUP), Not(INT)))
            h.frame(o, [])
        return h
    return u


UNITS = [('any order', unit('Cmp')), ('std::less', unit('less'))]
