"""C07 union-find maintains a partition.
Ghost state: R(i), the representative of the set of element i, and D(i), its distance to the representative in the parent forest."""
from vcg.contract import *

TUS = {'uf': 'tu/unionfind.cpp'}
NATIVE = {'src': 'native/unionfind.cpp', 'sources': []}
ASSUMPTIONS = ['std::vector follows its standard contract; allocation does not fail',
               'at most 2^60 elements (an index and a length never wrap)']
UF = 'icl_core::UnionFind'
OUT = '@_ZTISt12out_of_range'
IntA = z3.ArraySort(z3.IntSort(), z3.IntSort())
i, j = z3.Int('i'), z3.Int('j')


def forall(v, body, *pats):
    return z3.ForAll([v], body, patterns=list(pats)) if pats else z3.ForAll([v], body)


def inv_at(n, p, R, D, x):
    """the class invariant at element x"""
    s = z3.Select
    return z3.Implies(z3.And(x >= 0, x < n),
                      z3.And(s(p, x) >= 0, s(p, x) < n, s(R, x) >= 0, s(R, x) < n, s(R, s(p, x)) == s(R, x), s(p, s(R, x)) == s(R, x), s(R, s(R, x)) == s(R, x), s(D, x) >= 0,
                             (s(D, x) == 0) == (s(R, x) == x), (s(p, x) == x) == (s(R, x) == x), z3.Implies(s(p, x) != x, s(D, s(p, x)) < s(D, x))))


def inv(n, p, R, D):
    q = z3.Int('q!inv')
    return z3.ForAll([q], inv_at(n, p, R, D, q), patterns=[look(q)])


# marks the elements at which a proof looks (instances of the invariant); it carries no assumption
look = z3.Function('look', z3.IntSort(), z3.BoolSort())


def at(terms, goal):
    return z3.Implies(z3.And(*[look(t) for t in terms]), Bz(goal))


class Uf:
    def __init__(self, h, name='uf', fresh=True):
        self.h = h
        self.op, self.orr = h.off('uf_parent'), h.off('uf_rank')
        self.p = h.obj(name, None, h.off('uf_size'))
        if fresh:
            a = h.vec(self.p, self.op, name + '.parent', 'unsigned long')
            b = h.vec(self.p, self.orr, name + '.rank', 'unsigned long')
            self.n, self.par = a.len, a.fields[0]
            h.assume(And(b.len == a.len, a.len <= 2 ** 60))
            self.R, self.D = z3.Const('R', IntA), z3.Const('D', IntA)
            h.assume(inv(self.n, self.par, self.R, self.D))
            h.assume(range_u64(a.fields[0]))
            h.assume(range_u64(b.fields[0]))
            h.small += [self.n <= 3, self.n <= 6, self.n <= 20]
        self.all = [(name, self.op), (name, self.orr)]

    def vecs(self, o):
        return self.h.vecof(o, self.p, self.op), self.h.vecof(o, self.p, self.orr)


def range_u64(a):
    q = z3.Int('q!rng')
    return z3.ForAll([q], z3.And(z3.Select(a, q) >= 0, z3.Select(a, q) < 2 ** 64), patterns=[z3.Select(a, q)])


def holds(h, o, u, what, n, R, D, terms=()):
    """after the call the structure represents the partition with representatives R over n elements"""
    a, b = u.vecs(o)
    h.inputs.setdefault('i', i)
    h.post(o, what + ': number of elements', And(a.len == n, b.len == n))
    h.post(o, what + ': the sets are as expected', at([i, z3.Select(u.par, i), z3.Select(u.R, i), z3.Select(a.fields[0], i)] + list(terms) if hasattr(u, 'R') else [i],
                                                      inv_at(n, a.fields[0], R, D, i)))


def find_contract(st_u):
    """contract of find(), discharged by the unit 'find' (partial correctness by induction on D, which the recursive call must decrease)"""
    def f(ex, st, args, m, ins):
        u = st_u['u']
        if args[0].base != u.p.base or args[0].off != 0:
            raise Unsupported('find() on another object')
        x = ex.th.U(args[1])
        c = st.mem[u.p.base].cells[u.op][1]
        r = st.mem[u.p.base].cells[u.orr][1]
        R, D, n = st.ghost.get('R', u.R), st.ghost.get('D', u.D), u.n
        xs = z3.Int(ex.uniq('x'))
        ex.require(st, 'precondition', And(c.len == n, r.len == n), 'find(): the number of elements is unchanged')
        ex.require(st, 'precondition', at([xs, z3.Select(c.fields[0], xs)], inv_at(n, c.fields[0], R, D, xs)), 'find(): the class invariant holds')
        if st_u.get('bound') is not None:
            ex.require(st, 'termination', at([x, st_u['x']], And(x >= 0, x < n, z3.Select(D, x) < st_u['bound'])), 'the recursion descends towards the representative')
        s2 = st.fork()
        out = []
        st.assume(And(x < n, inv(n, c.fields[0], R, D)))
        if ex.feas(st.pc):
            np = z3.Const(ex.uniq('parent'), IntA)
            st.assume(And(inv(n, np, R, D), range_u64(np)))
            o = st.w(u.p.base)
            o.cells[u.op] = (24, c.up(fields={0: np}))
            res = z3.Select(R, x)
            st.assume(And(look(x), look(res), res >= 0, res < n))
            out.append(('ret', st, I(64, res, 0, 2 ** 64 - 1)))
        s2.assume(x >= n)
        if ex.feas(s2.pc):
            out.append(('throw', s2, OUT))
        return out
    return (r'icl_core::UnionFind::find\(unsigned long\)', f, 'contract')


def harness(mods, name, contract=True):
    ctx = {}
    h = H(mods['uf'], name, [], extra=[find_contract(ctx)] if contract else [])
    return h, ctx


def u_find(mods):
    h, ctx = harness(mods, UF + '::find')
    u = ctx['u'] = Uf(h)
    x = h.int('x')
    ctx['bound'], ctx['x'] = z3.Select(u.D, x.t), x.t
    h.assume(look(x.t))
    for o in h.call(UF + '::find(unsigned long)', [u.p, x]):
        if o.kind == 'throw':
            h.post(o, 'find refuses only an element that does not exist', And(x.t >= u.n, o.val == OUT))
            h.frame(o, [])
            continue
        h.post(o, 'find accepts only elements that exist', x.t < u.n)
        h.post(o, 'find answers the representative of the set', h.u(o.val) == z3.Select(u.R, x.t))
        holds(h, o, u, 'find changes no set', u.n, u.R, u.D, [x.t])
        h.frame(o, [(u.p.base, u.op)])
    return h


def u_merge(mods):
    h, ctx = harness(mods, UF + '::merge')
    u = ctx['u'] = Uf(h)
    x, y = h.int('x'), h.int('y')
    rx, ry = z3.Select(u.R, x.t), z3.Select(u.R, y.t)
    for o in h.call(UF + '::merge(unsigned long, unsigned long)', [u.p, x, y]):
        if o.kind == 'throw':
            h.post(o, 'merge refuses only elements that do not exist', And(Or(x.t >= u.n, y.t >= u.n), o.val == OUT))
            holds(h, o, u, 'a refused merge changes no set', u.n, u.R, u.D)
            h.frame(o, u.all)
            continue
        h.post(o, 'merge accepts only elements that exist', And(x.t < u.n, y.t < u.n))
        a, b = u.vecs(o)
        p2 = a.fields[0]
        # witness: the new representative is whichever of the two the code left as a root
        top = z3.If(z3.Select(p2, rx) == rx, rx, ry)
        low = z3.If(z3.Select(p2, rx) == rx, ry, rx)
        q = z3.Int('q!w')
        R2 = z3.Lambda([q], z3.If(z3.Or(z3.Select(u.R, q) == rx, z3.Select(u.R, q) == ry), top, z3.Select(u.R, q)))
        D2 = z3.Lambda([q], z3.If(z3.And(rx != ry, z3.Select(u.R, q) == low), z3.Select(u.D, q) + 1, z3.Select(u.D, q)))
        holds(h, o, u, 'merge joins exactly the two sets', u.n, R2, D2, [x.t, y.t, rx, ry])
        h.inputs.setdefault('j', j)
        h.post(o, 'same set afterwards exactly if same set before or joined by this merge', at([i, j, x.t, y.t, rx, ry], z3.Implies(
            z3.And(i >= 0, j >= 0, i < u.n, j < u.n),
            (z3.Select(R2, i) == z3.Select(R2, j)) == z3.Or(z3.Select(u.R, i) == z3.Select(u.R, j), z3.And(z3.Select(u.R, i) == rx, z3.Select(u.R, j) == ry),
                                                            z3.And(z3.Select(u.R, i) == ry, z3.Select(u.R, j) == rx)))))
        h.frame(o, u.all)
    return h


def identity_template(old, lo):
    """loops that make new elements their own representative: below the counter the entry is the identity, old entries untouched"""
    def t(ex, ctx):
        r = []
        vecs = [k for k in ctx.keys if isinstance(ctx.entry[k], Abs) and ctx.entry[k].kind == 'vec']
        ints = [k for k in ctx.keys if isinstance(ctx.entry[k], I) and ctx.entry[k].w == 64]
        q = z3.Int('q!id')
        for a in vecs:
            n0, f0 = ctx.entry[a].len, ctx.entry[a].fields[0]
            r.append(('length', lambda v, a=a, n0=n0: v[a].len == n0))
            r.append(('old elements untouched', lambda v, a=a, f0=f0: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < lo), z3.Select(v[a].fields[0], q) == z3.Select(f0, q)))))
            for k in ints:
                r.append(('new elements stand alone', lambda v, a=a, k=k: z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < ex.th.U(v[k])), z3.Select(v[a].fields[0], q) == q))))
        return r
    return t


def u_ctor(mods):
    h, ctx = harness(mods, UF + '::UnionFind')
    u = Uf(h, fresh=False)
    n = h.int('n', 64, False, 0, 2 ** 60)
    h.ex.templates.append(identity_template(None, 0))
    q = z3.Int('q!w')
    for o in h.only_ret(h.call(UF + '::UnionFind(unsigned long)', [u.p, n])):
        holds(h, o, u, 'every element starts alone', n.t, z3.Lambda([q], q), z3.K(z3.IntSort(), z3.IntVal(0)))
        h.frame(o, [(u.p.base, None)])
    return h


def u_grow(mods):
    h, ctx = harness(mods, UF + '::grow')
    u = Uf(h)
    n = h.int('n', 64, False, 0, 2 ** 59)
    h.assume(u.n <= 2 ** 59)
    h.ex.templates.append(identity_template(u, u.n))
    q = z3.Int('q!w')
    R2 = z3.Lambda([q], z3.If(q < u.n, z3.Select(u.R, q), q))
    D2 = z3.Lambda([q], z3.If(q < u.n, z3.Select(u.D, q), 0))
    for o in h.only_ret(h.call(UF + '::grow(unsigned long)', [u.p, n])):
        holds(h, o, u, 'grow keeps the sets and adds lone elements', u.n + n.t, R2, D2)
        h.frame(o, u.all)
    return h


def u_size(mods):
    h, ctx = harness(mods, UF + '::size')
    u = Uf(h)
    for o in h.only_ret(h.call(UF + '::size() const', [u.p])):
        h.post(o, 'size is the number of elements', h.u(o.val) == u.n)
        h.frame(o, [])
    return h


UNITS = [('constructor', u_ctor), ('grow', u_grow), ('find', u_find), ('merge', u_merge), ('size', u_size)]
