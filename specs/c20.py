"""C20 SHA-2 digests follow FIPS 180-4 however the message is split"""
from vcg.contract import *
from vcg import equiv, fmtlib, smt
import re

smt.AUTO = True

TUS = {'s': 'tu/sha2.cpp'}
NATIVE = {'src': 'native/sha2.cpp', 'sources': []}
ASSUMPTIONS = ['messages are shorter than 2^61 bytes', 'the input data does not overlap the digest object',
               'std::string::c_str/size and the stream formatting of one unsigned number with std::hex, std::setw, std::setfill follow their standard contracts']
ALGS = ['Sha224', 'Sha256', 'Sha384', 'Sha512']


# ------------------------------------------------------------------ FIPS 180-4, from its definition
def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % q for q in r):
            r.append(k)
        k += 1
    return r


def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        lo, hi = (mid, hi) if mid ** k <= x else (lo, mid - 1)
    return lo


def frac(p, k, bits):
    """first bits of the fractional part of the k-th root of p"""
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)


PR = primes(80)
INIT = {'Sha224': [frac(p, 2, 64) & 0xffffffff for p in PR[8:16]], 'Sha256': [frac(p, 2, 32) for p in PR[:8]],
        'Sha384': [frac(p, 2, 64) for p in PR[8:16]], 'Sha512': [frac(p, 2, 64) for p in PR[:8]]}


class Alg:
    def __init__(self, name):
        self.name = name
        self.w = 32 if name in ('Sha224', 'Sha256') else 64
        self.B = self.w * 2
        self.rounds = 64 if self.w == 32 else 80
        self.K = [frac(p, 3, self.w) for p in PR[:self.rounds]]
        self.out = {'Sha224': 7, 'Sha256': 8, 'Sha384': 6, 'Sha512': 8}[name]
        self.S0, self.S1, self.s0, self.s1 = ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)) if self.w == 32 else ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))

    def compress(self, H, M):
        """the compression function on bit-vector terms: 8 words, block of bytes"""
        w = self.w
        R = lambda x, n: z3.LShR(x, n) | (x << (w - n))
        big = lambda x, t: R(x, t[0]) ^ R(x, t[1]) ^ R(x, t[2])
        small = lambda x, t: R(x, t[0]) ^ R(x, t[1]) ^ z3.LShR(x, t[2])
        n = w // 8
        W = [z3.Concat(*M[n * t:n * t + n]) for t in range(16)]
        for t in range(16, self.rounds):
            W.append(small(W[t - 2], self.s1) + W[t - 7] + small(W[t - 15], self.s0) + W[t - 16])
        a, b, c, d, e, f, g, h = H
        for t in range(self.rounds):
            T1 = h + big(e, self.S1) + ((e & f) ^ (~e & g)) + z3.BitVecVal(self.K[t], w) + W[t]
            T2 = big(a, self.S0) + ((a & b) ^ (a & c) ^ (b & c))
            h, g, f, e, d, c, b, a = g, f, e, d + T1, c, b, a, T1 + T2
        return [x + y for x, y in zip(H, (a, b, c, d, e, f, g, h))]


class Sh:
    def __init__(self, h, alg):
        self.h, self.a = h, Alg(alg)
        self.m = None
        for k in ('size', 'digest', 'total', 'buffer', 'fill', 'word', 'bsize'):
            setattr(self, k, h.off(alg + '_' + k))
        if self.word * 8 != self.a.w or self.bsize != self.a.B:
            raise Unsupported('word or block size changed')

    def ty(self):
        """the layout, as the compiler reports it"""
        T = ir.Ty
        f = sorted([(self.digest, T('arr', n=8, el=T('int', w=self.a.w))), (self.total, T('int', w=64)), (self.buffer, T('arr', n=self.a.B, el=T('int', w=8))), (self.fill, T('int', w=64))],
                   key=lambda x: x[0])
        return T('struct', fields=[x for _, x in f], packed=False)

    def lenbyte(self, j):
        """byte j of the 64-bit big-endian message length in bits"""
        return (8 * self.n0) / (1 << (56 - 8 * j)) % 256

    # while a message is streamed the chaining value is opaque: "the digest of the first k blocks"
    def set_blocks(self, st, k):
        st.w('s').cells[self.digest] = (8 * self.word, Abs('digest', k=k))

    def blocks(self, st):
        c = st.mem['s'].cells.get(self.digest)
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'digest':
            raise Unsupported('the digest is changed outside the compression function')
        return c[1].k

    def digest_cells(self):
        return [self.digest + self.word * k for k in range(8)]


def u_block(mods):
    out = []
    for alg in ALGS:
        h = H(mods['s'], alg + ': compression of one block', [], bv=True)
        s = Sh(h, alg)
        p = h.obj('s', None, s.size)
        n = s.word
        H0 = [h.ex.th.fresh('h%d' % k, s.a.w) for k in range(8)]
        M0 = [h.ex.th.fresh('m%d' % k, 8) for k in range(s.a.B)]
        for k, v in enumerate(H0):
            h.put(p, s.digest + n * k, v, n)
        for k, v in enumerate(M0):
            h.put(p, s.buffer + k, v, 1)
        fill = h.ex.th.fresh('fill', 64)
        total = h.ex.th.fresh('total', 64)
        h.put(p, s.fill, fill, 8)
        h.put(p, s.total, total, 8)
        ref = s.a.compress([v.t for v in H0], [v.t for v in M0])
        for o in h.only_ret(h.call('vcg_%s_block' % alg, [p])):
            C = equiv.Classes()
            pairs = [(h.ld(o, p, s.digest + n * k, s.a.w).t, ref[k]) for k in range(8)]
            try:
                res = C.equal(pairs)
            except Exception:
                res = [False] * 8
            for k, (x, y) in enumerate(pairs):
                ob = Obl('digest word %d is that of the FIPS 180-4 compression function' % k, 'postcondition', list(o.st.pc), x == y, h.name)
                ob.status, ob.backend = ('valid', 'z3 (cut points, %d lemmas)' % C.proofs) if res[k] else ('unknown', 'z3 (cut points)')
                h.npost += 1
                h.ex.obls.append(ob)
            h.frame(o, [('s', c) for c in s.digest_cells()])
        out.append(h)
    return out



MAX = 1 << 61
M = z3.Array('message', z3.IntSort(), z3.IntSort())     # the whole message, and for finalisation the padding that follows it


def u_start(mods):
    out = []
    for alg in ALGS:
        for f in ('ctor', 'clear'):
            h = H(mods['s'], '%s: %s' % (alg, 'construction' if f == 'ctor' else 'clearing'), [])
            s = Sh(h, alg)
            p = h.obj('s', None, s.size)
            for o in h.only_ret(h.call('vcg_%s_%s' % (alg, f), [p])):
                for k in range(8):
                    h.post(o, 'word %d starts with the initial hash value of FIPS 180-4' % k, h.u(h.ld(o, p, s.digest + s.word * k, s.a.w)) == INIT[alg][k])
                h.post(o, 'no data yet', And(h.u(h.ld(o, p, s.fill, 64)) == 0, h.u(h.ld(o, p, s.total, 64)) == 0))
            out.append(h)
    return out


def put_array(ex, st, s, base, ix, n, src, sidx):
    """bytes [ix, ix+n) of the block buffer := src[sidx ...]"""
    old = ex.as_array(st, base, s.buffer, 1, s.a.B, ir.Ty('int', w=8))
    new = z3.Array(ex.uniq('buf'), z3.IntSort(), z3.IntSort())
    q = z3.Int('q!cpy')
    st.assume(z3.ForAll([q], z3.Select(new, q) == z3.If(z3.And(q >= ix, q < ix + n), z3.Select(src, q - ix + sidx), z3.Select(old, q)), patterns=[z3.Select(new, q)]))
    st.w(base).cells[s.buffer] = ((1, s.a.B), ArrV(new))


def stream_setup(mods, alg, what):
    """an object in the middle of a message: k blocks processed, the rest in the buffer"""
    h = H(mods['s'], '%s: %s' % (alg, what), [], opts={'houdini_ms': 2500})
    s = Sh(h, alg)
    B = s.a.B
    p = s.p = h.obj('s', s.ty(), None)
    ex = h.ex

    def memcpy(ex, st, d, src, n):
        if d.base != 's' or not isinstance(src, P) or src.base != 'data':
            return False
        if isinstance(d.off, tuple):
            _, start, es, cnt, ix, inner = d.off
            if start != s.buffer or es != 1 or inner:
                return False
        else:
            ix = d.off - s.buffer
            if not 0 <= ix <= B:
                return False
        n = ex.th.U(n)
        ex.require(st, 'bounds', And(ix >= 0, n >= 0, ix + n <= B), 'copy inside the block buffer')
        ex.require(st, 'bounds', And(src.idx >= 0, src.idx + n <= st.mem['data'].len), 'copy inside the input data')
        put_array(ex, st, s, 's', ix, n, st.mem['data'].fields[0], src.idx)
        return True
    ex.opts['memcpy'] = memcpy

    def compress(ex, st, args, m, ins):
        k = s.blocks(st)
        a = ex.as_array(st, 's', s.buffer, 1, B, ir.Ty('int', w=8))
        q = z3.Int('q!blk')
        nm = 'the block given to the compression function is the next block of the message'
        whole = lambda lo, hi: z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), z3.Select(a, q) == z3.Select(M, B * k + q)), patterns=pat(a, q))
        ex.require(st, 'postcondition', whole(0, B - 8), nm)
        last = s.m is not None and ex.valid(st.pc, k + 1 == s.m, 4000)
        if last:
            ex.require(st, 'lemma', k + 1 == s.m, 'lemma: this is the last block')
        for j in range(B - 8, B):
            if last:
                ex.require(st, 'postcondition', z3.Select(a, j) == s.lenbyte(j - B + 8), nm + ' (byte %d)' % j)
                continue
            ex.require(st, 'postcondition', z3.Select(a, j) == z3.Select(M, B * k + j), nm + ' (byte %d)' % j)
        s.set_blocks(st, k + 1)
        return [('ret', st, None)]
    ex.handlers.insert(0, (re.compile(r'icl_core::crypt::Sha2(Impl)?<.*>::processBuffer\(\)', re.S), compress, 'contract'))
    k = h.int('blocks').t
    fill, total = h.int('fill'), h.int('length')
    h.put(p, s.fill, fill, 8)
    h.put(p, s.total, total, 8)
    s.set_blocks(h.st, k)
    h.assume(And(k >= 0, fill.t >= 0, fill.t <= B, total.t == B * k + fill.t, total.t < MAX))
    buf = z3.Array('buffer', z3.IntSort(), z3.IntSort())
    h.st.w('s').cells[s.buffer] = ((1, B), ArrV(buf))
    h.assume(prefix(s, buf, fill.t, k))
    s.k, s.n0 = k, total.t

    def tmpl(ex, ctx):
        def cell(vals, off):
            v = vals.get(('cell', 's', off))
            if v is None:
                c = ctx.base.mem['s'].cells.get(off)
                v = c[1] if c else None
            return v.a if isinstance(v, ArrV) else ex.th.U(v)

        def kk(vals):
            v = vals.get(('cell', 's', s.digest))
            return v.k if v is not None else s.blocks(ctx.base)
        out = [('length is blocks plus buffered bytes', lambda v: And(cell(v, s.total) == B * kk(v) + cell(v, s.fill), kk(v) >= s.k)),
               ('fill level in range', lambda v: And(cell(v, s.fill) >= 0, cell(v, s.fill) <= B)),
               ('the buffer holds the message after the processed blocks', lambda v: prefix(s, cell(v, s.buffer), cell(v, s.fill), kk(v)))]
        for key in ctx.keys:
            e = ctx.entry[key]
            if isinstance(e, P) and e.base == 'data':
                out.append(('input position', lambda v, key=key: And(v[key].idx == B * kk(v) + cell(v, s.fill) - s.n0, v[key].idx >= 0, v[key].idx <= s.size_in)))
            elif isinstance(e, I) and e.w > 8 and e.w <= 64:
                # a loop that copies bytes: fill level plus counter, or a counter that starts at the fill level
                out.append(('the bytes copied so far are those of the message', lambda v, key=key: prefix(s, cell(v, s.buffer), cell(v, s.fill) + ex.th.U(v[key]), kk(v))))
                out.append(('the bytes copied so far are those of the message, counter from the start', lambda v, key=key: prefix(s, cell(v, s.buffer), ex.th.U(v[key]), kk(v))))
        return out
    ex.templates.append(tmpl)

    def meas(ex, ctx):
        def full(v):
            c = v.get(('cell', 's', s.fill)) or ctx.base.mem['s'].cells[s.fill][1]
            return z3.If(Bz(ex.th.U(c) == B), 1, 0)
        return [('rest of the input', lambda v, key=key: 2 * (s.size_in - v[key].idx) + full(v)) for key in ctx.keys if isinstance(ctx.entry[key], P) and ctx.entry[key].base == 'data']
    ex.measures.append(meas)
    return h, s


def pat(a, q):
    return [z3.Select(a, q)] if z3.is_const(a) else []


def prefix(s, buf, fill, k):
    q = z3.Int('q!pre')
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < fill), z3.Select(buf, q) == z3.Select(M, s.a.B * k + q)), patterns=pat(buf, q))


def data(h, s, text):
    """the input: size bytes, for a C string followed by the terminator"""
    n = h.int('size').t
    s.size_in = n
    d = z3.Array('data', z3.IntSort(), z3.IntSort())
    q = z3.Int('q!dat')
    h.assume(And(n >= 0, s.n0 + n < MAX))
    h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(d, q) == z3.Select(M, s.n0 + q)), patterns=[z3.Select(d, q)]))
    if text:
        h.assume(z3.Select(d, n) == 0)
        h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(d, q) != 0), patterns=[z3.Select(d, q)]))
    return h.ex.new_arr(h.st, 'data', 1, n + 1 if text else n, {0: d}, ro=True)


def check(h, s, o, size):
    fill, total = h.u(h.ld(o, s.p, s.fill, 64)), h.u(h.ld(o, s.p, s.total, 64))
    k = s.blocks(o.st)
    h.post(o, 'the length grows by the size of the data', total == s.n0 + size)
    h.post(o, 'length is blocks plus buffered bytes', And(total == s.a.B * k + fill, fill >= 0, fill <= s.a.B))
    q = z3.Int('q!post')
    a = h.ex.as_array(o.st, 's', s.buffer, 1, s.a.B, ir.Ty('int', w=8))
    h.post(o, 'the buffer holds the message after the processed blocks', z3.Implies(z3.And(q >= 0, q < fill), z3.Select(a, q) == z3.Select(M, s.a.B * k + q)))


def u_data(mods):
    out = []
    for alg in ALGS:
        h, s = stream_setup(mods, alg, 'process(data, size)')
        d = data(h, s, False)
        for o in h.only_ret(h.call('vcg_%s_data' % alg, [s.p, d, I(64, s.size_in, 0, MAX)])):
            check(h, s, o, s.size_in)
        out.append(h)
    return out


def u_cstr(mods):
    out = []
    for alg in ALGS:
        h, s = stream_setup(mods, alg, 'process(text)')
        d = data(h, s, True)
        h.ex.handlers.insert(0, (re.compile(r'@?strlen'), strlen(s), 'trusted'))
        for o in h.only_ret(h.call('vcg_%s_cstr' % alg, [s.p, d])):
            check(h, s, o, s.size_in)
        out.append(h)
    return out


def strlen(s):
    def f(ex, st, args, m, ins):
        p = args[0]
        if not isinstance(p, P) or p.base != 'data':
            return 'inline'
        ex.require(st, 'bounds', And(p.idx >= 0, p.idx <= s.size_in), 'strlen inside the text')
        return [('ret', st, I(64, s.size_in - p.idx, 0, MAX))]
    return f


def u_string(mods):
    out = []
    for alg in ALGS:
        h, s = stream_setup(mods, alg, 'process(string)')
        d = data(h, s, False)
        STR = r'std::__cxx11::basic_string<char, .*>::'
        h.ex.handlers.insert(0, (re.compile(STR + r'(c_str|data)\(\) const'), lambda ex, st, args, m, ins: [('ret', st, d)], 'trusted'))
        h.ex.handlers.insert(0, (re.compile(STR + r'(size|length)\(\) const'), lambda ex, st, args, m, ins: [('ret', st, I(64, s.size_in, 0, MAX))], 'trusted'))
        t = h.obj('str', None, 32)
        for o in h.only_ret(h.call('vcg_%s_string' % alg, [s.p, t])):
            check(h, s, o, s.size_in)
        out.append(h)
    return out


def u_final(mods):
    out = []
    for alg in ALGS:
        h, s = stream_setup(mods, alg, 'finalisation')
        B, n = s.a.B, s.n0
        s.size_in = 0
        lf = B // 8
        m = z3.Int('padded.blocks')
        h.assume(And(B * m >= n + 1 + lf, B * (m - 1) < n + 1 + lf))
        q = z3.Int('q!pad')
        h.assume(z3.Select(M, n) == 128)
        h.assume(z3.ForAll([q], z3.Implies(z3.And(q > n, q < B * m - 8), z3.Select(M, q) == 0), patterns=[z3.Select(M, q)]))
        for j in range(8):
            h.assume(z3.Select(M, B * m - 8 + j) == s.lenbyte(j))
        s.m = m
        for o in h.only_ret(h.call('vcg_%s_finalize' % alg, [s.p])):
            h.post(o, 'exactly the blocks of the padded message were processed', s.blocks(o.st) == m)
        out.append(h)
    return out


def u_hex(mods):
    out = []
    for alg in ALGS:
        h = H(mods['s'], alg + ': text form', [], extra=fmtlib.HANDLERS)
        s = Sh(h, alg)
        p, r = h.obj('s', None, s.size), h.obj('result', None, 32)
        v = []
        for k in range(8):
            v.append(h.ex.th.fresh('h%d' % k, s.a.w))
            h.put(p, s.digest + s.word * k, v[k], s.word)
        for o in h.only_ret(h.call('vcg_%s_hex' % alg, [r, p])):
            c = o.st.mem['result'].cells.get(0)
            if c is None or not isinstance(c[1], Abs) or c[1].kind != 'text':
                raise Unsupported('text built in another way')
            it = c[1].items
            h.post(o, 'as many words as the digest has', len(it) == s.a.out)
            for k, (x, w) in enumerate(zip(it, v)):
                h.post(o, 'word %d is printed in full, in lower case hexadecimal' % k, And(x[0] == 'num', x[1] in ('unsigned int', 'unsigned long'), x[2:5] == (16, s.a.w // 4, 48), h.u(x[5]) == w.t))
            h.frame(o, [('result', None)])
        out.append(h)
    return out


UNITS = [('compression', u_block), ('start', u_start), ('data', u_data), ('text', u_cstr), ('string', u_string), ('finalisation', u_final), ('hex', u_hex)]
