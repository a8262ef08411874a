"""C29 text helpers: splitting and joining lose nothing, trimming, padding and changing the case are exact, names of values are found

A string is a view (first position, length) of a source: the characters of the text given, of a literal, or of pieces put together.
For split, Ex(q)/Mt(q) say whether and where the delimiter next occurs from position q of the text on (std::string::find); At is the position up to which the text has been handed out (ghost): every piece appended has to begin there and to end at the next delimiter.
For join, the pieces appended are counted (ghost): the next one has to be the delimiter or the element whose turn it is."""
from .threadlib import *
from vcg import cstr
from vcg.cstr import Region
import re

TUS = {'t': 'tu/text.cpp'}
NATIVE = {'src': 'native/text.cpp', 'sources': ['icl_core/StringHelper.cpp', 'icl_core/EnumHelper.cpp'], 'flags': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], 'libs': []}
ASSUMPTIONS = ['std::string, the vector of strings that split fills, strcmp, isspace, tolower and toupper are trusted contracts (those of characters: for every value a character or an unsigned character has, as the C library in use defines them)',
               'texts and vectors are shorter than 2^31; memory is available']
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
SV = r'std::vector<' + STR + r', std::allocator<' + STR + r' ?> ?>::'
NONE = lambda ex, st, a, m, i: [('ret', st, None)]
Sel = z3.Select
K = z3.Int('position')
MAX = 2 ** 31 - 1
NPOS = 2 ** 64 - 1
Ex = z3.Function('delimiter.follows', z3.IntSort(), z3.BoolSort())
Mt = z3.Function('next.delimiter', z3.IntSort(), z3.IntSort())
EL = z3.Function('length.of.element', z3.IntSort(), z3.IntSort())
SP = z3.Function('is.space', z3.IntSort(), z3.BoolSort())
CASE = {n: z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('tolower', 'toupper')}
SAME, LAST = z3.Function('same.text', z3.IntSort(), z3.BoolSort()), z3.Function('is.end.marker', z3.IntSort(), z3.BoolSort())
BUILD = Abs('src', f=None, base=None, pieces=None)


class Text:
    def __init__(self, mods, name, **opts):
        self.name = name
        h = self.h = H(mods['t'], name, [], opts=dict(dict(cstr.OPTS), **opts), extra=[])
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.ctor), (STR + r'::~basic_string\(\)', self.dtor), (STR + r'::(?:size|length)\(\) const', self.size), (STR + r'::empty\(\) const', self.empty), (STR + r'::substr\(unsigned long, unsigned long\) const', self.substr),
             (STR + r'::(find)\(.*\) const', self.find), (STR + r'::(erase)\(unsigned long, unsigned long\)', self.erase), (STR + r'::operator=\(.*\)', self.assign), (STR + r'::assign\(' + STR + r'.*\)', self.assign), (STR + r'::reserve\(unsigned long\)', NONE), (STR + r'::swap\(.*\)', self.swap), (STR + r'::clear\(\)', self.clear),
             (STR + r'::(?:operator\+=|append)\(.*\)', self.append), (STR + r'::push_back\(char\)', self.append), (r'(?:.* )?std::operator\+<char, .*', self.plus), (STR + r'::insert\(unsigned long, .*\)', self.insert), (STR + r'::(operator\[\]|at)\(unsigned long\)( const)?', self.index), (STR + r'::(front|back)\(\)( const)?', self.index),
             (STR + r'::(c_str|data)\(\) const', self.data), (STR + r'::(c?begin|c?end)\(\)( const)?', self.iter),
             (SV + r'vector\(\)', self.v_ctor), (SV + r'~vector\(\)', NONE), (SV + r'reserve\(unsigned long\)', NONE), (SV + r'push_back\(.*\)', self.v_push), (r'(?:.* )?' + SV + r'emplace_back<.*>\(.*\)', self.v_push), (SV + r'empty\(\) const', self.v_empty),
             (r'@?isspace', self.isspace), (r'@?(tolower|toupper)', self.case), (r'@?strcmp', self.strcmp), (r'(?:bool )?std::operator(==|!=)<char, .*', self.equal), (STR + r'::compare\(.*\) const', self.compare), (r'std::(?:__)?new_allocator<char>::.*|std::allocator<char>::.*', NONE)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        if not name.startswith('split'):
            # (the real code of the vector)
            h.ex.handlers.insert(0, (re.compile(SV + r'.*'), self.v_real, 'contract'))
        h.ex.hcache.clear()
        self.text = self.delim = None

    # ---- strings
    def put(self, st, p, n, o, src):
        w = st.w(p.base).cells
        for c in [c for c in w if p.off <= c < p.off + 32]:
            del w[c]
        n, o = simp(n), simp(o)
        w[p.off] = (8, I(64, n, n, n) if isinstance(n, int) else I(64, n, 0, 2 ** 40))
        w[p.off + 8] = (8, I(64, o, o, o) if isinstance(o, int) else I(64, o, 0, 2 ** 40))
        w[p.off + 16] = (16, src)

    def get(self, st, p):
        """(length, first position, source) of the string at p"""
        if not isinstance(p, P) or p.base is None:
            return None
        if p.base == 'elems':
            i = z3.IntVal(0) + p.idx
            return EL(i), 0, Abs('src', f=None, base=None, pieces=(('E', i),))
        o = st.mem.get(p.base)
        if o is None or isinstance(o, Abs) or o.kind != 'obj':
            return None
        c = o.cells.get(p.off + 16)
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'src' or p.off not in o.cells:
            return None
        return o.cells[p.off][1].t, o.cells[p.off + 8][1].t, c[1]

    def need(self, st, p):
        s = self.get(st, p)
        if s is None:
            raise Unsupported('unknown string')
        return s

    def given(self, base, size, ro=True):
        """a text given by the caller"""
        h = self.h
        n = h.int(base + '.length', 64, False, 0, MAX)
        A = z3.Array(base, z3.IntSort(), z3.IntSort())
        q = z3.Int('q!' + base)
        h.ex.new_arr(h.st, base, 1, n.t + 1, {0: A}, ro=ro)
        h.assume(And(Sel(A, n.t) == 0, z3.ForAll([q], And(Sel(A, q) >= 0, Sel(A, q) < 256), patterns=[Sel(A, q)])))
        p = h.obj(base + '.string', None, 32)
        src = Abs('src', f=None, base=base, pieces=(('S', base),))
        self.put(h.st, p, n.t, 0, src)
        return p, n.t, A

    def char(self, st, s, k):
        n, o, src = s
        if src.base is not None:
            return Sel(st.mem[src.base].fields[0], z3.IntVal(0) + o + k)
        if src.f is None:
            raise Unsupported('the characters of this string')
        return src.f(simp(o + k))

    def value(self, st, s):
        """the characters as they are now"""
        n, o, src = s
        if src.base is not None and not st.mem[src.base].ro:
            a = st.mem[src.base].fields[0]
            return n, o, Abs('src', f=lambda k: Sel(a, z3.IntVal(0) + k), base=None, pieces=None)
        return s

    def literal(self, ex, st, p):
        r = Region(ex, st, p, 'text')
        cs = []
        while len(cs) < 200:
            c = simp(r.at(len(cs)))
            if not isinstance(c, int):
                return None
            if c == 0:
                return cs
            cs.append(c)

    def of(self, ex, st, v):
        """what is appended or copied: a string, a character, a literal"""
        s = self.get(st, v) if isinstance(v, P) else None
        if s is not None:
            return s
        if isinstance(v, P):
            if v.base in st.mem and st.mem[v.base].kind == 'arr' and self.text and v.base in self.text:
                raise Unsupported('characters of a string')
            cs = self.literal(ex, st, v)
            if cs is None:
                raise Unsupported('unknown characters')
            return len(cs), 0, Abs('src', f=lambda k: self.pick(cs, k), base=None, pieces=None if cs else ())
        c = ex.th.U(v)
        return 1, 0, Abs('src', f=lambda k: z3.IntVal(0) + c, base=None, pieces=None)

    def pick(self, cs, k):
        if isinstance(k, int):
            return z3.IntVal(cs[k] if 0 <= k < len(cs) else 0)
        r = z3.IntVal(0)
        for i in range(len(cs) - 1, -1, -1):
            r = z3.If(k == i, z3.IntVal(cs[i]), r)
        return r

    def ctor(self, ex, st, args, m, ins):
        rest = m.group(0)[m.group(0).rindex('basic_string'):]
        if len(args) == 1:
            return self.fresh(ex, st, args[0])
        if isinstance(args[1], I):
            c, n = ex.th.U(args[2]), ex.th.U(args[1])
            self.put(st, args[0], n, 0, Abs('src', f=lambda k: z3.IntVal(0) + c, base=None, pieces=None))
        elif len(args) >= 4 and isinstance(args[2], I) and isinstance(args[3], I):
            return self.substr(ex, st, args[:4], m, ins)
        elif len(args) >= 3 and isinstance(args[2], I):
            s = self.get(st, args[1])
            if s is None:
                raise Unsupported('part of an array')
            return self.substr(ex, st, list(args[:3]) + [I(64, NPOS, NPOS, NPOS)], m, ins)
        elif len(args) >= 3 and isinstance(args[2], P) and '__normal_iterator' in rest:
            a, b = args[1], args[2]
            ex.require(st, 'precondition', z3.BoolVal(a.base == b.base), 'a range of one text')
            ex.require(st, 'precondition', z3.IntVal(0) + a.idx <= b.idx, 'the range is not reversed')
            self.put(st, args[0], simp(b.idx - a.idx), a.idx, Abs('src', f=None, base=a.base, pieces=None))
        else:
            s = self.of(ex, st, args[1])
            if s[0] == 0 and isinstance(s[0], int):
                return self.fresh(ex, st, args[0])
            if not ('&&' in rest and self.get(st, args[1]) is not None):
                s = self.value(st, s)
            self.put(st, args[0], *s)
            if '&&' in rest and args[1].base != 'elems' and s[2] is not BUILD:
                self.put(st, args[1], 0, 0, Abs('src', f=lambda k: z3.IntVal(0), base=None, pieces=()))
        return [('ret', st, None)]

    def fresh(self, ex, st, p):
        if self.name == 'join' and not st.ghost['built']:
            # (the string that is built up)
            st.ghost['built'] = True
            self.put(st, p, 0, 0, BUILD)
        else:
            self.put(st, p, 0, 0, Abs('src', f=lambda k: z3.IntVal(0), base=None, pieces=()))
        return [('ret', st, None)]

    def dtor(self, ex, st, args, m, ins):
        p = args[0]
        s = self.get(st, p)
        if s is not None and p.base != 'elems' and s[2] is not BUILD:
            w = st.w(p.base).cells
            for c in [c for c in w if p.off <= c < p.off + 32]:
                del w[c]
        return [('ret', st, None)]

    def size(self, ex, st, args, m, ins):
        n = self.need(st, args[0])[0]
        if isinstance(n, z3.ExprRef):
            st.assume(And(n >= 0, n <= MAX)) if args[0].base == 'elems' else None
        return [('ret', st, I(64, n, n, n) if isinstance(n, int) else I(64, n, 0, 2 ** 40))]

    def empty(self, ex, st, args, m, ins):
        n = self.need(st, args[0])[0]
        return [('ret', st, I(1, n == 0))]

    def clear(self, ex, st, args, m, ins):
        self.put(st, args[0], 0, 0, Abs('src', f=lambda k: z3.IntVal(0), base=None, pieces=()))
        return [('ret', st, None)]

    def part(self, ex, st, n, p, l):
        """[(state, length)] of the part of at most l characters from p on; where p is outside, None"""
        out = []
        inside = z3.IntVal(0) + n >= p
        t = st.fork()
        t.assume(z3.Not(inside))
        if ex.feas(t.pc):
            out.append((t, None))
        st.assume(inside)
        if not ex.feas(st.pc):
            return out
        rest = simp(n - p)
        if isinstance(l, int) and l >= MAX:
            out.append((st, rest))
        elif ex.valid(st.pc, z3.IntVal(0) + rest >= l, 2000):
            out.append((st, l))
        elif ex.valid(st.pc, z3.IntVal(0) + rest <= l, 2000):
            out.append((st, rest))
        else:
            out.append((st, z3.If(z3.IntVal(0) + rest >= l, z3.IntVal(0) + l, z3.IntVal(0) + rest)))
        return out

    def substr(self, ex, st, args, m, ins):
        n, o, src = self.value(st, self.need(st, args[1]))
        p, l = ex.th.U(args[2]), ex.th.U(args[3])
        out = []
        for t, k in self.part(ex, st, n, p, l):
            if k is None:
                out.append(('throw', t, '@_ZTISt12out_of_range'))
            else:
                self.put(t, args[0], k, o + p, src.up(pieces=None) if src.pieces != (('S', 'text'),) else src)
                out.append(('ret', t, None))
        return out

    def erase(self, ex, st, args, m, ins):
        n, o, src = self.value(st, self.need(st, args[0]))
        p, l = ex.th.U(args[1]), ex.th.U(args[2])
        out = []
        for t, k in self.part(ex, st, n, p, l):
            if k is None:
                out.append(('throw', t, '@_ZTISt12out_of_range'))
                continue
            if ex.valid(t.pc, z3.IntVal(0) + p == 0, 2000):
                self.put(t, args[0], n - k, o + k, src)
            elif ex.valid(t.pc, z3.IntVal(0) + p + k == n, 2000):
                self.put(t, args[0], p, o, src)
            else:
                raise Unsupported('characters are taken out of the middle of a string')
            out.append(('ret', t, args[0]))
        return out

    def find(self, ex, st, args, m, ins):
        n, o, src = self.need(st, args[0])
        d = self.get(st, args[1]) if isinstance(args[1], P) else None
        if src.base != 'text' or d is None or d[2].base != 'delimiter' or '::find(' not in m.group(0):
            raise Unsupported('search for something else than the delimiter')
        p = ex.th.U(args[2])
        tn, dn = self.tn, self.dn
        ex.require(st, 'precondition', And(z3.IntVal(0) + o + n == tn, z3.IntVal(0) + d[0] == dn), 'the whole rest is searched for the whole delimiter')
        q = simp(z3.IntVal(0) + o + p)
        q = z3.IntVal(q) if isinstance(q, int) else q
        yes = And(z3.IntVal(0) + p <= n, Ex(q))
        t = st.fork()
        t.assume(z3.Not(yes))
        st.assume(And(yes, Mt(q) >= q, Mt(q) <= tn - dn))
        return [('ret', t, I(64, NPOS, NPOS, NPOS)), ('ret', st, I(64, Mt(q) - o, 0, 2 ** 40))]

    def assign(self, ex, st, args, m, ins):
        d, s = self.get(st, args[0]), self.of(ex, st, args[1])
        if d is not None and d[2] is BUILD:
            ex.require(st, 'postcondition', st.ghost['J'] == 0, 'nothing that has been joined is dropped')
            self.joined(ex, st, args[0], s)
            return [('ret', st, args[0])]
        move = '&&' in m.group(0)
        s = s if move else self.value(st, s)
        self.put(st, args[0], *s)
        if move and args[1].base != 'elems' and self.get(st, args[1]) is not None and (args[0].base, args[0].off) != (args[1].base, args[1].off):
            self.put(st, args[1], 0, 0, Abs('src', f=lambda k: z3.IntVal(0), base=None, pieces=()))
        return [('ret', st, args[0])]

    def swap(self, ex, st, args, m, ins):
        a, b = self.need(st, args[0]), self.need(st, args[1])
        self.put(st, args[0], *b)
        self.put(st, args[1], *a)
        return [('ret', st, None)]

    def concat(self, st, a, b):
        a, b = self.value(st, a), self.value(st, b)
        pieces = a[2].pieces + b[2].pieces if a[2].pieces is not None and b[2].pieces is not None and self.name == 'join' else None
        na = a[0]

        def f(k):
            c = z3.simplify(z3.IntVal(0) + k < na)
            x = (lambda: self.char(st, a, k)), (lambda: self.char(st, b, simp(k - na)))
            return x[0]() if z3.is_true(c) else x[1]() if z3.is_false(c) else z3.If(c, x[0](), x[1]())
        return simp(a[0] + b[0]), 0, Abs('src', f=f, base=None, pieces=pieces)

    def joined(self, ex, st, p, s):
        if s[2].pieces is None:
            ex.require(st, 'postcondition', z3.BoolVal(isinstance(s[0], int) and s[0] == 0), 'only elements and delimiters are joined')
            return
        g = st.ghost
        for x in s[2].pieces:
            if x[0] == 'E':
                ex.require(st, 'postcondition', And(x[1] == g['J'], z3.Or(g['J'] == 0, g['Dn'] == g['J'])), 'the elements are joined in order, each behind a delimiter')
                g['J'] = g['J'] + 1
            elif x == ('S', 'delimiter'):
                ex.require(st, 'postcondition', And(g['J'] >= 1, g['Dn'] == g['J'] - 1), 'the delimiter stands between two elements')
                g['Dn'] = g['Dn'] + 1
            else:
                ex.require(st, 'postcondition', z3.BoolVal(False), 'only elements and delimiters are joined')
        L = ex.uniq('length')
        n = z3.Int(L)
        # (how long the string built up is does not matter beyond this)
        st.assume(And(n >= 0, n < 2 ** 40, z3.Implies(z3.IntVal(0) + s[0] > 0, n > 0), z3.Implies(z3.IntVal(0) + s[0] == 0, n == self.get(st, p)[0])))
        self.put(st, p, n, 0, BUILD)

    def append(self, ex, st, args, m, ins):
        d = self.need(st, args[0])
        if len(args) == 3:
            if not isinstance(args[1], I):
                raise Unsupported('part of a text is appended')
            c = ex.th.U(args[2])
            s = ex.th.U(args[1]), 0, Abs('src', f=lambda k: z3.IntVal(0) + c, base=None, pieces=None)
        else:
            s = self.of(ex, st, args[1])
        if d[2] is BUILD:
            self.joined(ex, st, args[0], s)
        else:
            self.put(st, args[0], *self.concat(st, d, s))
        return [('ret', st, args[0] if 'push_back' not in m.group(0) else None)]

    def insert(self, ex, st, args, m, ins):
        d = self.need(st, args[0])
        if ex.th.U(args[1]) != 0 or d[2] is BUILD:
            raise Unsupported('insertion into a string')
        if len(args) == 4 and isinstance(args[2], I):
            c = ex.th.U(args[3])
            s = ex.th.U(args[2]), 0, Abs('src', f=lambda k: z3.IntVal(0) + c, base=None, pieces=None)
        elif len(args) == 3:
            s = self.of(ex, st, args[2])
        else:
            raise Unsupported('insertion into a string')
        self.put(st, args[0], *self.concat(st, s, d))
        return [('ret', st, args[0])]

    def plus(self, ex, st, args, m, ins):
        a, b = self.of(ex, st, args[1]), self.of(ex, st, args[2])
        if a[2] is BUILD:
            self.joined(ex, st, args[1], b)
            a = self.get(st, args[1])
            self.put(st, args[0], *a)
        else:
            self.put(st, args[0], *self.concat(st, a, b))
        return [('ret', st, None)]

    # ---- characters of a string in memory
    def memory(self, ex, st, p, const):
        n, o, src = self.need(st, p)
        if src.base is None or (st.mem[src.base].ro and not const):
            if not isinstance(n, int) and src.base is None:
                raise Unsupported('the characters of this string in memory')
            raise Unsupported('a string is changed in place')
        return n, o, src.base

    def index(self, ex, st, args, m, ins):
        const = m.group(2) is not None
        n, o, b = self.memory(ex, st, args[0], const)
        which = m.group(1)
        i = ex.th.U(args[1]) if which in ('operator[]', 'at') else 0 if which == 'front' else n - 1
        if which == 'at':
            t = st.fork()
            t.assume(z3.IntVal(0) + i >= n)
            st.assume(z3.IntVal(0) + i < n)
            return [('throw', t, '@_ZTISt12out_of_range'), ('ret', st, P(b, simp(o + i), 0))]
        ex.require(st, 'bounds', And(z3.IntVal(0) + i >= 0, z3.IntVal(0) + i <= n) if which == 'operator[]' else z3.IntVal(0) + n > 0, 'a character of the text')
        return [('ret', st, P(b, simp(o + i), 0))]

    def data(self, ex, st, args, m, ins):
        n, o, b = self.memory(ex, st, args[0], True)
        if not ex.valid(st.pc, z3.IntVal(0) + o + n == st.mem[b].len - 1, 2000):
            raise Unsupported('a part of a text as a terminated text')
        return [('ret', st, P(b, o, 0))]

    def iter(self, ex, st, args, m, ins):
        n, o, b = self.memory(ex, st, args[0], m.group(2) is not None or m.group(1).startswith('c') or st.mem[self.need(st, args[0])[2].base or args[0].base].ro)
        return [('ret', st, P(b, simp(o + n) if m.group(1).endswith('end') else o, 0))]

    def isspace(self, ex, st, args, m, ins):
        c = ex.th.S(args[0])
        ex.require(st, 'precondition', And(z3.IntVal(0) + c >= -1, z3.IntVal(0) + c <= 255), 'isspace: the value of an unsigned character')
        v = ex.th.fresh(ex.uniq('isspace'), 32, True)
        st.assume((v.t != 0) == SP(c))
        return [('ret', st, v)]

    def case(self, ex, st, args, m, ins):
        f = CASE[m.group(1)]
        c = z3.IntVal(0) + ex.th.S(args[0])
        ex.require(st, 'precondition', And(c >= -128, c <= 255), m.group(1) + ': the value of a character')
        u = z3.If(c < 0, c + 256, c)
        v = I(32, z3.Int(ex.uniq('case')), -128, 255)
        st.assume(And(f(u) >= 0, f(u) <= 255, z3.Or(v.t == f(u), v.t == f(u) - 256), v.t >= -128))
        return [('ret', st, v)]

    # ---- vector of the pieces of split
    def v_ctor(self, ex, st, args, m, ins):
        w = st.w(args[0].base).cells
        w[args[0].off] = (24, Abs('pieces'))
        if st.ghost['vector']:
            raise Unsupported('a second vector')
        st.ghost['vector'] = True
        return [('ret', st, None)]

    def v_real(self, ex, st, args, m, ins):
        if m.group(0).endswith('::size() const') and args[0].base == 'vector':
            n = st.mem['vector'].cells[8][1].idx
            return [('ret', st, I(64, n, 0, MAX))]
        return 'inline'

    def isvec(self, st, p):
        c = st.mem[p.base].cells.get(p.off)
        return c is not None and isinstance(c[1], Abs) and c[1].kind == 'pieces'

    def v_empty(self, ex, st, args, m, ins):
        return [('ret', st, I(1, st.ghost['C'] == 0))]

    def v_push(self, ex, st, args, m, ins):
        if not self.isvec(st, args[0]):
            raise Unsupported('another vector')
        n, o, src = self.of(ex, st, args[1]) if len(args) > 1 else (0, 0, Abs('src', f=None, base=None, pieces=()))
        if len(args) > 2:
            raise Unsupported('a string from parts')
        g, tn, dn = st.ghost, self.tn, self.dn
        G = g['At']
        e = And(Ex(G), dn > 0)
        E = z3.If(e, Mt(G), tn)
        st.assume(z3.Implies(Ex(G), And(Mt(G) >= G, Mt(G) <= tn - dn)))
        own = src.base == 'text'
        n = z3.IntVal(0) + n
        ex.require(st, 'postcondition', z3.Not(g['done']), 'nothing follows the last piece')
        ex.require(st, 'postcondition', n == E - G, 'the piece ends at the next delimiter, or at the end of the text')
        ex.require(st, 'postcondition', z3.Or(n == 0, o == G) if own else n == 0, 'the piece begins behind the delimiter before')
        ex.require(st, 'postcondition', z3.Or(e, G < tn, g['C'] == 0), 'behind a delimiter at the end of the text there is no piece')
        g['done'] = z3.Or(g['done'], z3.Not(e))
        g['At'] = z3.If(e, E + dn, tn)
        g['C'] = g['C'] + 1
        return [('ret', st, None if 'push_back' in m.group(0) else P(args[0].base, 0, args[0].off))]

    # ---- comparison of texts
    def ident(self, st, v):
        if isinstance(v, P):
            if v.base == 'elems':
                return ('E', z3.IntVal(0) + v.idx)
            if v.base == '@names':
                return ('N', v.idx)
            if v.base == '@end':
                return ('end',)
            if v.base == 'text':
                return ('text',) if isinstance(v.idx, int) and v.idx == 0 else None
            s = self.get(st, v)
            if s is not None and s[2].base == 'text' and isinstance(s[1], int) and s[1] == 0:
                return ('text',)
        return None

    def eq(self, st, a, b):
        x, y = self.ident(st, a), self.ident(st, b)
        if x is None or y is None:
            raise Unsupported('comparison of other texts')
        if x[0] in ('text', 'end'):
            x, y = y, x
        if x[0] in ('text', 'end') or y[0] not in ('text', 'end'):
            raise Unsupported('comparison of other texts')
        return (SAME if y[0] == 'text' else LAST)(x[1])

    def strcmp(self, ex, st, args, m, ins):
        for a in args[:2]:
            if isinstance(a, P) and (a.base is None or a.base == '@names'):
                ex.require(st, 'null-dereference', z3.BoolVal(False) if a.base is None else a.idx != 0, 'strcmp')
        e = self.eq(st, args[0], args[1])
        v = ex.th.fresh(ex.uniq('strcmp'), 32, True)
        st.assume((v.t == 0) == e)
        return [('ret', st, v)]

    def compare(self, ex, st, args, m, ins):
        if len(args) != 2:
            raise Unsupported('comparison of parts')
        return self.strcmp(ex, st, args, m, ins)

    def equal(self, ex, st, args, m, ins):
        e = self.eq(st, args[0], args[1])
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]


def u_split(mods):
    k = Text(mods, 'split')
    h = k.h
    p, tn, A = k.given('text', 0)
    d, dn, B = k.given('delimiter', 0)
    k.tn, k.dn = tn, dn
    h.small += [And(tn < 6, dn < 3)]
    h.st.ghost.update(At=z3.IntVal(0), C=z3.IntVal(0), done=z3.BoolVal(False), vector=False)
    h.obj('pieces', None, 24)

    def inv(ex, ctx):
        G, C = ('ghost', 'At'), ('ghost', 'C')
        r = []
        if G not in ctx.keys:
            return r
        r.append(('handed out', lambda v: And(v[G] >= 0, v[G] <= tn)))
        r.append(('pieces', lambda v: And(v[C] >= 0, z3.Or(v[C] > 0, v[G] == 0))))
        if ('ghost', 'done') in ctx.keys:
            r.append(('not done', lambda v: z3.Not(v['ghost', 'done'])))
            r.append(('not before done', lambda v: And(ctx.base.ghost['done'] == v['ghost', 'done'])))
        for c in ctx.keys:
            v0 = ctx.entry.get(c)
            if isinstance(v0, I) and v0.w == 64:
                r.append(('%s is handed out' % (c,), lambda v, c=c: ex.th.U(v[c]) == v[G]))
                r.append(('%s is where the next delimiter is' % (c,), lambda v, c=c: And(ex.th.U(v[c]) == z3.If(Ex(v[G]), Mt(v[G]), NPOS), z3.Implies(Ex(v[G]), And(Mt(v[G]) >= v[G], Mt(v[G]) <= tn - dn)))))
                r.append(('%s is the rest' % (c,), lambda v, c=c: ex.th.U(v[c]) == tn - v[G]))
        return r
    h.ex.templates.append(inv)
    h.ex.measures.append(lambda ex, ctx: [('rest of the text', lambda v: tn - v['ghost', 'At'])] if ('ghost', 'At') in ctx.keys else [])
    for o in h.call('icl_core::split(' + 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)', [P('pieces'), p, d]):
        if o.kind != 'ret':
            h.post(o, 'every text is split', False)
            continue
        g = o.st.ghost
        G = g['At']
        h.post(o, 'the pieces are returned', z3.BoolVal(k.isvec(o.st, P('pieces'))))
        h.post(o, 'the pieces cover the text, up to its end or to a delimiter at its end', z3.Or(g['done'], And(G == tn, g['C'] > 0, z3.Or(dn == 0, z3.Not(Ex(G))))))
        h.post(o, 'there is at least one piece', g['C'] > 0)
        h.frame(o, [('pieces', None)])
    return h


def u_join(mods):
    k = Text(mods, 'join')
    h = k.h
    d, dn, B = k.given('delimiter', 0)
    N = h.int('elements', 64, False, 0, MAX).t
    h.ex.new_arr(h.st, 'elems', 32, N, {}, ro=True)
    q = z3.Int('q!e')
    h.assume(z3.ForAll([q], And(EL(q) >= 0, EL(q) <= MAX), patterns=[EL(q)]))
    v = h.obj('vector', None, 24)
    for off, i in ((0, 0), (8, N), (16, N)):
        h.put(v, off, P('elems', i, 0), 8)
    h.st.ghost.update(J=z3.IntVal(0), Dn=z3.IntVal(0), built=False)
    h.obj('result', None, 32)

    def inv(ex, ctx):
        J, D = ('ghost', 'J'), ('ghost', 'Dn')
        r = []
        if J not in ctx.keys:
            return r
        dof = (lambda v: v[D]) if D in ctx.keys else (lambda v: ctx.base.ghost['Dn'])
        r.append(('elements', lambda v: And(v[J] >= 0, v[J] <= N)))
        r.append(('delimiters', lambda v: dof(v) == z3.If(v[J] == 0, 0, v[J] - 1)))
        r.append(('some element', lambda v: v[J] >= 1))
        for c in ctx.keys:
            v0 = ctx.entry.get(c)
            if isinstance(v0, P) and v0.base == 'elems':
                r.append(('%s is the next' % (c,), lambda v, c=c: z3.IntVal(0) + v[c].idx == v[J]))
            elif isinstance(v0, I) and v0.w == 64 and c[0] == 'phi':
                r.append(('%s is the next' % (c,), lambda v, c=c: ex.th.U(v[c]) == v[J]))
            elif isinstance(v0, I) and v0.w in (1, 8):
                b = (lambda v, c=c: v[c].t if v[c].w == 1 else v[c].t != 0)
                if v0.w == 8:
                    r.append(('a truth value', lambda v, c=c: z3.IntVal(0) + v[c].t <= 1))
                r.append(('%s: first' % (c,), lambda v, b=b: b(v) == (v[J] == 0)))
                r.append(('%s: not first' % (c,), lambda v, b=b: b(v) == (v[J] != 0)))
        return r
    h.ex.templates.append(inv)
    for o in h.call(r'icl_core::join\(.*\)', [P('result'), v, d]):
        if o.kind != 'ret':
            h.post(o, 'every list of texts is joined', False)
            continue
        s = k.get(o.st, P('result'))
        if s is not None and s[2] is not BUILD:
            o.st.ghost.update(J=z3.IntVal(0), Dn=z3.IntVal(0))
            k.joined(h.ex, o.st, P('result'), s)
        g = o.st.ghost
        h.post(o, 'a text is returned', z3.BoolVal(s is not None))
        h.post(o, 'all elements have been joined, with a delimiter between each two', And(g['J'] == N, g['Dn'] == z3.If(N == 0, 0, N - 1)))
        h.frame(o, [('result', None)])
    return h


def u_trim(mods):
    k = Text(mods, 'trim')
    h = k.h
    p, n, A = k.given('text', 0)
    h.small += [n < 6]
    h.obj('result', None, 32)
    sp = lambda i: SP(Sel(A, i))

    def inv(ex, ctx):
        r = []
        for c in ctx.keys:
            v0 = ctx.entry.get(c)
            if isinstance(v0, I) and v0.w == 64 or isinstance(v0, P) and v0.base == 'text':
                x = (lambda v, c=c: ex.th.U(v[c])) if isinstance(v0, I) else (lambda v, c=c: z3.IntVal(0) + v[c].idx)
                e = ex.th.U(v0) if isinstance(v0, I) else v0.idx
                r.append(('%s inside' % (c,), lambda v, x=x: And(x(v) >= 0, x(v) <= n)))
                r.append(('spaces before %s' % (c,), lambda v, x=x: z3.Implies(And(K >= 0, K < x(v)), sp(K))))
                r.append(('spaces behind %s' % (c,), lambda v, x=x: z3.Implies(And(K > x(v), K < n), sp(K))))
                r.append(('spaces from %s on' % (c,), lambda v, x=x: z3.Implies(And(K >= x(v), K < n), sp(K))))
        return r
    h.ex.templates.append(inv)
    for o in h.call(r'icl_core::trim\(.*\)', [P('result'), p]):
        if o.kind != 'ret':
            h.post(o, 'every text is trimmed', False)
            continue
        s = k.get(o.st, P('result'))
        if s is None:
            h.post(o, 'a text is returned', False)
            continue
        ln, off, src = s
        ln, off = z3.IntVal(0) + ln, z3.IntVal(0) + off
        if src.base != 'text':
            h.post(o, 'only from a text of nothing but spaces nothing is left', And(ln == 0, z3.Implies(And(K >= 0, K < n), sp(K))))
        else:
            h.post(o, 'only spaces are removed', z3.Implies(And(K >= 0, K < n, z3.Or(ln == 0, K < off, K >= off + ln)), sp(K)))
            h.post(o, 'no space is left in front', z3.Implies(ln > 0, z3.Not(sp(off))))
            h.post(o, 'no space is left at the end', z3.Implies(ln > 0, z3.Not(sp(off + ln - 1))))
        h.frame(o, [('result', None)])
    return h


def u_pad(mods, side):
    k = Text(mods, 'pad ' + side)
    h = k.h
    p, n, A = k.given('text', 0)
    w, c = h.int('width', 64, False, 0, MAX), h.int('pad', 8, False, 0, 255)
    h.small += [And(n < 6, w.t < 9)]
    h.obj('result', None, 32)
    for o in h.call('vcg_pad_' + side, [P('result'), p, w, c]):
        if o.kind != 'ret':
            h.post(o, 'every text is padded', False)
            continue
        s = k.get(o.st, P('result'))
        if s is None:
            h.post(o, 'a text is returned', False)
            continue
        L = z3.If(n < w.t, w.t, n)
        h.post(o, 'the text has at least the width asked for and is not cut', z3.IntVal(0) + s[0] == L)
        at = k.char(o.st, s, K)
        q = (K - (L - n)) if side == 'left' else K
        h.post(o, 'the text stands at its side, the rest is filled', z3.Implies(And(K >= 0, K < L), at == z3.If(And(q >= 0, q < n), Sel(A, q), c.t)))
        h.frame(o, [('result', None)])
    return h


def u_case(mods, which):
    k = Text(mods, which)
    h = k.h
    p, n, A = k.given('text', 0, False)
    F = CASE['to' + which[2:].lower()]
    h.obj('result', None, 32)

    def inv(ex, ctx):
        r = []
        f = [c for c in ctx.keys if c[0] == 'fld' and c[1] == 'text']
        for c in ctx.keys:
            v0 = ctx.entry.get(c)
            if isinstance(v0, I) and v0.w == 64 and c[0] == 'phi' or isinstance(v0, P) and v0.base == 'text':
                x = (lambda v, c=c: ex.th.U(v[c])) if isinstance(v0, I) else (lambda v, c=c: z3.IntVal(0) + v[c].idx)
                r.append(('%s inside' % (c,), lambda v, x=x: And(x(v) >= 0, x(v) <= n)))
                for a in f:
                    r.append(('changed before %s' % (c,), lambda v, x=x, a=a: Sel(v[a], K) == z3.If(And(K >= 0, K < x(v)), F(Sel(A, K)), Sel(A, K))))
                    q = z3.Int('q!c')
                    r.append(('unchanged from %s on' % (c,), lambda v, x=x, a=a: z3.ForAll([q], z3.Implies(q >= x(v), Sel(v[a], q) == Sel(A, q)))))
        return r
    h.ex.templates.append(inv)
    for o in h.call(r'icl_core::%s\(.*\)' % which, [P('result'), p]):
        if o.kind != 'ret':
            h.post(o, 'every text is changed', False)
            continue
        s = k.get(o.st, P('result'))
        if s is None:
            h.post(o, 'a text is returned', False)
            continue
        h.post(o, 'the length is kept', z3.IntVal(0) + s[0] == n)
        h.post(o, 'every character is the one of the other case, or itself', z3.Implies(And(K >= 0, K < n), k.char(o.st, s, K) == F(Sel(A, K))))
        h.frame(o, [('result', None), ('text', None), ('text.string', None)])
    return h


def u_name(mods, width, kind):
    k = Text(mods, 'name')
    h = k.h
    p, n, A = k.given('text', 0)
    N = h.int('names', 64, False, 0, MAX - 1).t
    old = h.int('value', width, True)
    val = h.obj('value', None, width // 8)
    h.put(val, 0, old, width // 8)
    if kind == 'vector':
        h.ex.new_arr(h.st, 'elems', 32, N, {}, ro=True)
        v = h.obj('vector', None, 24)
        for off, i in ((0, 0), (8, N), (16, N)):
            h.put(v, off, P('elems', i, 0), 8)
        same = lambda i: SAME(z3.IntVal(0) + i)
        args = [p, val, v]
        sig = r'icl_core::string2Enum\(.*, %s&, std::vector.*\)' % ('int' if width == 32 else 'long')
    else:
        D = z3.Array('names', z3.IntSort(), z3.IntSort())
        a = h.ex.new_arr(h.st, 'table', 8, N + 1, {0: D}, ro=True)
        h.st.mem['table'].ptrf = {0: '@names'}
        for b in ('@names', '@end'):
            h.st.mem[b] = type(h.st.mem['table'])('pool' if b == '@names' else 'obj', None, None, b, False)
            h.st.mem[b].ro = True
        q = z3.Int('q!n')
        body = And(Sel(D, q) > 0, z3.Not(LAST(Sel(D, q)))) if kind == 'marker' else Sel(D, q) > 0
        h.assume(z3.ForAll([q], z3.Implies(And(q >= 0, q < N), body), patterns=[Sel(D, q)]))
        h.assume(And(Sel(D, N) > 0, LAST(Sel(D, N))) if kind == 'marker' else Sel(D, N) == 0)
        same = lambda i: SAME(Sel(D, z3.IntVal(0) + i))
        args = [p, val, a, P('@end') if kind == 'marker' else NULL]
        sig = r'icl_core::string2Enum\(.*, int&, char const\* const\*, char const\*\)'

    def inv(ex, ctx):
        r = []
        V = ('cell', 'value', 0)
        val_ = (lambda v: ex.th.S(v[V])) if V in ctx.keys else (lambda v: ex.th.S(ctx.base.mem['value'].cells[0][1]))
        bs = [c for c in ctx.keys if isinstance(ctx.entry.get(c), I) and ctx.entry[c].w in (1, 8)]
        bad = lambda v: And(val_(v) >= 0, val_(v) < N, same(val_(v)))
        for c in ctx.keys:
            v0 = ctx.entry.get(c)
            if c[0] == 'phi' and (isinstance(v0, I) and v0.w >= 32 or isinstance(v0, P) and v0.base in ('elems', 'table')):
                x = (lambda v, c=c: ex.th.S(v[c])) if isinstance(v0, I) else (lambda v, c=c: z3.IntVal(0) + v[c].idx)
                r.append(('%s inside' % (c,), lambda v, x=x: And(x(v) >= 0, x(v) <= N)))
                r.append(('no name before %s' % (c,), lambda v, x=x: z3.Implies(And(K >= 0, K < x(v)), z3.Not(same(K)))))
                for b in bs:
                    t = (lambda v, b=b: v[b].t if v[b].w == 1 else v[b].t != 0)
                    r.append(('name before %s' % (c,), lambda v, x=x, t=t: z3.Implies(And(K >= 0, K < x(v), same(K)), t(v))))
        for b in bs:
            if ctx.entry[b].w == 8:
                r.append(('a truth value', lambda v, b=b: z3.IntVal(0) + v[b].t <= 1))
            t = (lambda v, b=b: v[b].t if v[b].w == 1 else v[b].t != 0)
            r.append(('the name found', lambda v, t=t: z3.Implies(t(v), bad(v))))
            r.append(('no name found', lambda v, t=t: z3.Implies(z3.Not(t(v)), val_(v) == old.t)))
        return r
    h.ex.templates.append(inv)
    h.ex.measures.append(lambda ex, ctx: [('names left', lambda v, c=c: N - ex.th.S(v[c])) for c in ctx.keys if c[0] == 'phi' and isinstance(ctx.entry.get(c), I) and ctx.entry[c].w >= 32] + [('names left', lambda v, c=c: N - v[c].idx) for c in ctx.keys if isinstance(ctx.entry.get(c), P) and ctx.entry[c].base in ('elems', 'table')])
    for o in h.call(sig, args):
        if o.kind != 'ret':
            h.post(o, 'every text is looked up', False)
            continue
        res = o.val.t if o.val.w == 1 else o.val.t != 0
        res = z3.BoolVal(res) if isinstance(res, bool) else res
        x = h.s(h.ld(o, val, 0, width))
        h.post(o, 'the value found is that of a name equal to the text', z3.Implies(res, And(x >= 0, x < N, same(x))))
        h.post(o, 'a name equal to the text is found', z3.Implies(z3.Not(res), z3.Implies(And(K >= 0, K < N), z3.Not(same(K)))))
        h.post(o, 'without such a name the value is left alone', z3.Implies(z3.Not(res), x == old.t))
        h.frame(o, [('value', None)])
    return h


UNITS = [('split', u_split), ('join', u_join), ('trim', u_trim)]
UNITS += [('pad ' + s, (lambda s: lambda mods: u_pad(mods, s))(s)) for s in ('left', 'right')]
UNITS += [(w, (lambda w: lambda mods: u_case(mods, w))(w)) for w in ('toLower', 'toUpper')]
UNITS += [('string2Enum, %s' % n, (lambda w, k: lambda mods: u_name(mods, w, k))(w, k)) for n, w, k in (('table', 32, 'null'), ('table with end marker', 32, 'marker'), ('vector', 32, 'vector'), ('vector, 64 bits', 64, 'vector'))]
