"""Equivalence of two large bit-vector terms by cut points.

Both terms are rebuilt bottom-up into one graph of classes.  Two nodes whose values agree on random inputs are candidates; they
are merged when z3 proves them equal with everything below a few levels replaced by fresh variables (a generalisation, so a
merge is a proof).  Sums and bitwise operations are flattened, so association and order do not matter."""
import random, z3, time

AC = {z3.Z3_OP_BADD: 'add', z3.Z3_OP_BXOR: 'xor', z3.Z3_OP_BAND: 'and', z3.Z3_OP_BOR: 'or'}


class Classes:
    def __init__(self, samples=12, seed=1, ms=2000):
        self.rng = random.Random(seed)
        self.n, self.ms = samples, ms
        self.rep = {}          # id of original term -> node
        self.keep = []
        self.nodes = {}        # structural key -> node
        self.bysig = {}
        self.vars = {}
        self.proofs = 0
        self.time = 0.0
        self.side = 0
        self.uses = {}

    # node: dict(key, term (over nodes' own terms), sig tuple, w, kids, op, par)
    def find(self, n):
        while n['rep'] is not n:
            n = n['rep']
        return n

    def mk(self, key, build, sig, w, kids):
        n = self.nodes.get(key)
        if n is not None:
            n = self.find(n)
            n['side'] |= self.side
            return n
        n = {'key': key, 'side': self.side, 'sig': sig, 'w': w, 'kids': kids, 'build': build, 'id': len(self.nodes)}
        n['rep'] = n
        self.nodes[key] = n
        cands = self.bysig.setdefault((w, sig), [])
        if key[0] != 'const':
            for c in cands:
                if self.prove(n, c):
                    n['rep'] = c
                    c['side'] |= self.side
                    return c
        cands.append(n)
        return n

    def cone(self, roots, cut):
        """both roots as terms; nodes for which cut(node, distance) holds become variables (the same one everywhere)"""
        dist, todo = {}, []
        for r in roots:
            if r['id'] not in dist:
                dist[r['id']] = 0
                todo.append(r)
        inner, q = {}, 0
        while q < len(todo):
            n = todo[q]
            q += 1
            d = dist[n['id']]
            if n['key'][0] == 'const' or not n['kids'] or (d > 0 and cut(n, d)):
                continue
            inner[n['id']] = n
            for c in n['kids']:
                c = self.find(c)
                if c['id'] not in dist:
                    dist[c['id']] = d + 1
                    todo.append(c)
        memo = {}

        def term(n):
            n = self.find(n) if n['id'] not in inner else n
            st = [n]
            while st:
                x = st[-1]
                if x['id'] in memo:
                    st.pop()
                    continue
                if x['key'][0] == 'const':
                    memo[x['id']] = z3.BitVecVal(x['sig'][0], x['w'])
                elif x['id'] not in inner:
                    memo[x['id']] = z3.BitVec('n%d' % x['id'], x['w'])
                else:
                    ks = [self.find(c) for c in x['kids']]
                    todo = [c for c in ks if c['id'] not in memo]
                    if todo:
                        st.extend(todo)
                        continue
                    memo[x['id']] = x['build']([memo[c['id']] for c in ks])
            return memo[n['id']]
        return [term(r) for r in roots]

    def prove(self, a, b):
        t0 = time.time()
        try:
            for cut in (lambda n, d: n['side'] == 3, lambda n, d: d >= 2, lambda n, d: d >= 4, lambda n, d: n['side'] == 3 and d >= 3):
                x, y = self.cone([a, b], cut)
                s = z3.Solver()
                s.set('timeout', self.ms)
                s.add(x != y)
                if s.check() == z3.unsat:
                    self.proofs += 1
                    return True
            return False
        finally:
            self.time += time.time() - t0

    def const(self, v, w):
        return self.mk(('const', v, w), None, (v,) * self.n, w, [])

    def var(self, t):
        w = t.size()
        nm = t.decl().name()
        return self.mk(('var', nm, w), None, tuple(self.rng.getrandbits(w) for _ in range(self.n)), w, [])

    def add(self, term):
        """class of a term"""
        st = [term]
        while st:
            t = st[-1]
            if t.get_id() in self.rep:
                st.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in self.rep]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            self.keep.append(t)
            self.rep[t.get_id()] = self.one(t, [self.find(self.rep[c.get_id()]) for c in ch])
        return self.find(self.rep[term.get_id()])

    def one(self, t, ch):
        d = t.decl()
        k = d.kind()
        w = t.size()
        M = (1 << w) - 1
        if z3.is_bv_value(t):
            return self.const(t.as_long(), w)
        if not ch:
            return self.var(t)
        if all(c['key'][0] == 'const' for c in ch):
            v = z3.simplify(d(*[z3.BitVecVal(c['sig'][0], c['w']) for c in ch]))
            return self.const(v.as_long(), w)
        if k in AC:
            op = AC[k]
            ks, cv = [], {'add': 0, 'xor': 0, 'and': M, 'or': 0}[op]
            f = {'add': lambda a, b: (a + b) & M, 'xor': lambda a, b: a ^ b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b}[op]
            for c, ct in zip(ch, t.children()):
                for x in (c['kids'] if c['key'][0] == op and self.uses.get(ct.get_id(), 0) < 2 else [c]):
                    x = self.find(x)
                    if x['key'][0] == 'const':
                        cv = f(cv, x['sig'][0])
                    else:
                        ks.append(x)
            if op in ('and', 'or'):
                ks = list({x['id']: x for x in ks}.values())
            ks.sort(key=lambda x: x['id'])
            ident = {'add': 0, 'xor': 0, 'and': M, 'or': 0}[op]
            if cv != ident:
                ks.append(self.const(cv, w))
            if not ks:
                return self.const(ident, w)
            if len(ks) == 1:
                return ks[0]

            def build(a, op=op):
                r = a[0]
                for x in a[1:]:
                    r = r + x if op == 'add' else r ^ x if op == 'xor' else r & x if op == 'and' else r | x
                return r
            sig = []
            for i in range(self.n):
                v = ks[0]['sig'][i]
                for x in ks[1:]:
                    v = f(v, x['sig'][i])
                sig.append(v)
            return self.mk((op, w) + tuple(x['id'] for x in ks), build, tuple(sig), w, ks)
        par = tuple(d.params())
        sig = tuple(z3.simplify(d(*[z3.BitVecVal(c['sig'][i], c['w']) for c in ch])).as_long() for i in range(self.n))
        return self.mk((d.name(), w, str(par)) + tuple(c['id'] for c in ch), lambda a, d=d: d(*a), sig, w, ch)

    def count(self, terms):
        """how often each subterm is used (sums are flattened only through terms used once)"""
        seen, st = set(), list(terms)
        for t in terms:
            self.uses[t.get_id()] = self.uses.get(t.get_id(), 0) + 2
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            for c in t.children():
                self.uses[c.get_id()] = self.uses.get(c.get_id(), 0) + 1
                st.append(c)

    def equal(self, pairs):
        """for each pair of terms: proved equal?"""
        out = []
        self.count([a for a, b in pairs])
        self.count([b for a, b in pairs])
        self.side = 1
        for a, b in pairs:
            self.add(a)
        self.side = 2
        for a, b in pairs:
            self.add(b)
        return [self.find(self.rep[a.get_id()]) is self.find(self.rep[b.get_id()]) for a, b in pairs]
