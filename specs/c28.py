"""C28 times as text: the ISO 8601 texts name the time, and reading one back gives the time

A string is its length and a function from positions to characters.  The calendar is that of the C library (strftime of gmtime_r/localtime_r: trusted); for UTC its fields are tied to the seconds by the civil calendar, written as a closed formula
(days before a year: 365 a year and the leap days; days before a month: the table).  The parser's loops are tied to the same formula by their invariants."""
from .threadlib import *
from .timelib import norm_contract, normalised, value
from vcg import cstr
from vcg.cstr import Region
import re

TUS = {'t': 'tu/iso.cpp'}
NATIVE = {'src': 'native/iso.cpp', 'sources': ['icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_posix_time.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp'], 'flags': ['-pthread', '-fsanitize=bounds', '-fsanitize-trap=all'], 'libs': ['-lpthread']}
ASSUMPTIONS = ['gmtime_r, localtime_r, strftime (the calendar of the C library), std::string and boost::lexical_cast are trusted contracts; the fields of a UTC time are tied to its seconds by the Gregorian calendar',
               'snprintf writes the number in the format given (trusted); normalizeTime by its contract (C04)', 'the locale writes decimal digits']
G = 10 ** 9
LAST = 253402300800          # 10000-01-01T00:00:00 UTC
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
NONE = lambda ex, st, a, m, i: [('ret', st, None)]
Sel = z3.Select
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
K = z3.Int('position')
FIELDS = ('Y', 'm', 'd', 'H', 'M', 'S')
CIV = {(z, f): z3.Function('%s.%s' % (z, f), z3.IntSort(), z3.IntSort()) for z in ('utc', 'local') for f in FIELDS}
DIG = {(n, k): z3.Function('digit.%d.%d' % (n, k), z3.IntSort(), z3.IntSort()) for n in (2, 4, 9) for k in range(n)}
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
REPR = {z: z3.Function('representable.' + z, z3.IntSort(), z3.BoolSort()) for z in ('utc', 'local')}
TEXT = {z: z3.Function('text.' + z, z3.IntSort(), IA) for z in ('utc', 'local')}
LEN = {z: z3.Function('length.' + z, z3.IntSort(), z3.IntSort()) for z in ('utc', 'local')}
BAD = '@_ZTIN5boost10wrapexceptINS_16bad_lexical_castEEE'


def sure(ex, st, c):
    if isinstance(c, bool):
        return c
    return bool(ex.valid(st.pc, c, 3000))


def leap(y):
    return z3.Or(y % 400 == 0, z3.And(y % 4 == 0, y % 100 != 0))


def leapdays(y):
    y = z3.IntVal(0) + y
    return y / 4 - y / 100 + y / 400


def before_year(y):
    """days from 1970-01-01 to the first day of year y"""
    return 365 * (y - 1970) + leapdays(y - 1) - 477


def before_month(m, l):
    r = z3.IntVal(365)
    for k in range(12, 0, -1):
        r = z3.If(m == k, z3.IntVal(CUM[k - 1]), r)
    return r + z3.If(z3.And(l, m > 2), 1, 0)


def digits(n, x):
    """the n decimal digits of x, with what defines them"""
    d = [DIG[n, k](x) for k in range(n)]
    return d, z3.And([z3.And(c >= 0, c <= 9) for c in d] + [x == sum(c * 10 ** (n - 1 - k) for k, c in enumerate(d))])


def civil(zone, secs):
    """what holds of the fields of a time whose year has four digits"""
    v = {f: CIV[zone, f](secs) for f in FIELDS}
    r = [v['Y'] >= 1970, v['Y'] <= 9999, v['m'] >= 1, v['m'] <= 12, v['d'] >= 1, v['d'] <= 31, v['H'] >= 0, v['H'] <= 23, v['M'] >= 0, v['M'] <= 59, v['S'] >= 0, v['S'] <= 60]
    if zone == 'utc':
        r += [v['S'] <= 59, secs == 86400 * (before_year(v['Y']) + before_month(v['m'], leap(v['Y'])) + v['d'] - 1) + 3600 * v['H'] + 60 * v['M'] + v['S']]
    return v, z3.And(r)


def fields_text(zone, secs, fmt):
    """the characters of a text in a strftime format of plain fields, or None"""
    v, ax = civil(zone, secs)
    out, cs, i = [], [ax], 0
    fmt = fmt.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S')
    while i < len(fmt):
        if fmt[i] != '%':
            out.append(z3.IntVal(ord(fmt[i])))
            i += 1
            continue
        k = fmt[i + 1:i + 2]
        if k not in FIELDS:
            return None, None
        d, a = digits(4 if k == 'Y' else 2, v[k])
        cs.append(a)
        out += [48 + c for c in d]
        i += 2
    return out, z3.And(cs)


def at(lst):
    def f(k):
        k = simp(k)
        if isinstance(k, int):
            return lst[k] if 0 <= k < len(lst) else z3.IntVal(0)
        r = z3.IntVal(0)
        for i in range(len(lst) - 1, -1, -1):
            r = z3.If(k == i, lst[i], r)
        return r
    return f


class Iso:
    def __init__(self, mods, name, contracts=True, **opts):
        h = self.h = H(mods['t'], name, [], opts=dict(dict(cstr.OPTS, nul=[self.nul], shrink=True), **opts), extra=[])
        self.witness = {}
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:size|length)\(\) const', self.size), (STR + r'::empty\(\) const', self.empty), (STR + r'::substr\(unsigned long, unsigned long\) const', self.substr),
             (r'(?:.* )?std::operator\+<char, .*', self.plus), (STR + r'::(?:operator\+=|append)\(.*\)', self.append), (STR + r'::push_back\(char\)', self.append), (STR + r'::operator=\(.*\)', self.assign), (STR + r'::resize\(unsigned long(?:, char)?\)', self.resize), (STR + r'::clear\(\)', self.clear),
             (r'int boost::lexical_cast<int, ' + STR + r' ?>\(.*\)', self.cast), (r'@?(gmtime|localtime)(_r)?', self.calendar), (r'@?tzset', NONE), (r'@?strftime', self.strftime), (r'icl_core::os::snprintf\(char\*, unsigned long, char const\*, \.\.\.\)|@?snprintf', self.snprintf)]
        for rx, f in T + cstr.HANDLERS:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        C = [(r'icl_core::TimeBase::normalizeTime\(\)', self.norm)]
        if contracts:
            C += [(r'icl_core::TimeStamp::strf(Time|Localtime)\(char\*, unsigned long, char const\*\) const', self.strf)]
        for rx, f in C:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()

    def nul(self, r):
        w = self.witness.get(r.base)
        return None if w is None else w - r.i

    def norm(self, ex, st, args, m, ins):
        p = args[0]
        st.ghost['given'] = (ex.th.S(ex.load(st, p, ir.Ty('int', w=64))), ex.th.S(ex.load(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=32))))
        return norm_contract(ex, st, args, m, ins)

    def step(self, o, name, want, ns):
        """intermediate assertion: the time before it is normalised"""
        g = o.st.ghost.get('given')
        if g is not None:
            self.h.ex.require(o.st, 'postcondition', z3.Implies(want[0], And(g[0] == want[1], g[1] == ns)), name)

    def time(self, lo=None, hi=None):
        h = self.h
        p = h.obj('time', None, 16)
        s, n = h.int('seconds', 64, True), h.int('nanoseconds', 32, True)
        h.put(p, 0, s)
        h.put(p, 8, n, 4)
        h.assume(And(s.t >= -2 ** 62, s.t <= 2 ** 62, normalised(s.t, n.t)))
        h.small += [And(s.t >= 0, s.t < 100000), And(s.t >= 0, s.t < LAST)]
        self.S = s.t - z3.If(n.t < 0, 1, 0)
        self.N = n.t + z3.If(n.t < 0, G, 0)
        if lo is not None:
            h.assume(And(self.S >= lo, self.S < hi))
        return p, s.t, n.t

    # ---- strings
    def str(self, st, p):
        if not isinstance(p, P) or p.base not in st.mem or isinstance(st.mem[p.base], Abs) or st.mem[p.base].kind != 'obj':
            return None
        c = st.mem[p.base].cells.get(p.off)
        return c[1] if c is not None and isinstance(c[1], Abs) and c[1].kind == 'str' else None

    def put(self, st, p, f, n):
        n = simp(n)
        w = st.w(p.base).cells
        for o in [o for o in w if p.off <= o < p.off + 32]:
            del w[o]
        w[p.off] = (32, Abs('str', f=f, n=n))

    def chars(self, ex, st, p):
        """the text that begins at p"""
        r = Region(ex, st, p, 'text')
        i = r.i
        if isinstance(r.n, int) and isinstance(i, int):
            for k in range(r.n - i):
                c = simp(r.at(k))
                if isinstance(c, int):
                    if c == 0:
                        return r.at, k
                    continue
                if sure(ex, st, c == 0):
                    return r.at, k
                if not sure(ex, st, c != 0):
                    break
        L = cstr.length(ex, st, r, 'text')
        return r.at, L

    def of(self, ex, st, v):
        s = self.str(st, v) if isinstance(v, P) else None
        if s is not None:
            return s.f, s.n
        if isinstance(v, P):
            return self.chars(ex, st, v)
        c = ex.th.U(v)
        return (lambda k: c if isinstance(c, z3.ExprRef) else z3.IntVal(c)), 1

    def ctor(self, ex, st, args, m, ins):
        sig = m.group(0)
        rest = sig[sig.rindex('basic_string'):]
        if len(args) == 1:
            self.put(st, args[0], lambda k: z3.IntVal(0), 0)
        elif isinstance(args[1], I):
            c = ex.th.U(args[2])
            self.put(st, args[0], (lambda k: c if isinstance(c, z3.ExprRef) else z3.IntVal(c)), ex.th.U(args[1]))
        elif len(args) >= 3 and isinstance(args[2], I):
            a, b = args[1], ex.th.U(args[2])
            s = self.str(st, a)
            if s is not None:
                raise Unsupported('part of a string')
            r = Region(ex, st, a, 'text')
            cstr.fits(ex, st, r, b, 'the characters of a string are read inside the array')
            self.put(st, args[0], r.at, b)
        else:
            f, n = self.of(ex, st, args[1])
            self.put(st, args[0], f, n)
        return [('ret', st, None)]

    def need(self, st, p):
        s = self.str(st, p)
        if s is None:
            raise Unsupported('unknown string')
        return s

    def size(self, ex, st, args, m, ins):
        n = self.need(st, args[0]).n
        return [('ret', st, I(64, n, n, n) if isinstance(n, int) else I(64, n, 0, 2 ** 62))]

    def empty(self, ex, st, args, m, ins):
        n = self.need(st, args[0]).n
        return [('ret', st, I(1, n == 0))]

    def assign(self, ex, st, args, m, ins):
        f, n = self.of(ex, st, args[1])
        self.put(st, args[0], f, n)
        return [('ret', st, args[0])]

    def clear(self, ex, st, args, m, ins):
        self.put(st, args[0], lambda k: z3.IntVal(0), 0)
        return [('ret', st, None)]

    def cut(self, ex, st, n, l):
        """min(l, n)"""
        if isinstance(n, int) and isinstance(l, int):
            return min(n, l)
        if sure(ex, st, n >= l):
            return l
        if sure(ex, st, n <= l):
            return n
        return z3.If(z3.IntVal(0) + n >= l, z3.IntVal(0) + l, z3.IntVal(0) + n)

    def substr(self, ex, st, args, m, ins):
        s = self.need(st, args[1])
        p, l = ex.th.U(args[2]), ex.th.U(args[3])
        out = []
        inside = s.n >= p
        if inside is not True and not (isinstance(inside, z3.ExprRef) and sure(ex, st, inside)):
            t = st.fork()
            if isinstance(inside, z3.ExprRef):
                t.assume(z3.Not(inside))
                out.append(('throw', t, '@_ZTISt12out_of_range'))
                if not ex.feas(st.pc + [inside]):
                    return out
                st.assume(inside)
            else:
                return [('throw', st, '@_ZTISt12out_of_range')]
        f = s.f
        self.put(st, args[0], (lambda k: f(simp(k + p))), self.cut(ex, st, simp(s.n - p), l))
        return out + [('ret', st, None)]

    def join(self, ex, st, d, a, b):
        (f, n), (g, k) = a, b

        def h(i):
            c = i < n
            c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(c)
            if z3.is_true(c):
                return f(i)
            if z3.is_false(c):
                return g(simp(i - n))
            return z3.If(c, f(i), g(simp(i - n)))
        self.put(st, d, h, n + k)

    def plus(self, ex, st, args, m, ins):
        self.join(ex, st, args[0], self.of(ex, st, args[1]), self.of(ex, st, args[2]))
        return [('ret', st, None)]

    def append(self, ex, st, args, m, ins):
        if len(args) == 3:
            if not isinstance(args[1], I):
                raise Unsupported('part of a text is appended')
            c = ex.th.U(args[2])
            b = (lambda k: c if isinstance(c, z3.ExprRef) else z3.IntVal(c)), ex.th.U(args[1])
        else:
            b = self.of(ex, st, args[1])
        s = self.need(st, args[0])
        self.join(ex, st, args[0], (s.f, s.n), b)
        return [('ret', st, args[0])]

    def resize(self, ex, st, args, m, ins):
        s = self.need(st, args[0])
        n, c = ex.th.U(args[1]), ex.th.U(args[2]) if len(args) > 2 else 0
        f, k = s.f, s.n
        self.put(st, args[0], (lambda i: z3.If(z3.IntVal(0) + i < k, f(i), z3.IntVal(0) + c)), n)
        return [('ret', st, None)]

    def cast(self, ex, st, args, m, ins):
        """a number: digits, possibly behind a sign; anything else is refused"""
        s = self.need(st, args[0])
        n = s.n
        if not isinstance(n, int):
            n = next((k for k in range(1, 10) if sure(ex, st, s.n == k)), None)
        v = ex.th.fresh(ex.uniq('number'), 32, True)
        if n is None or n > 9:
            t = st.fork()
            return [('throw', t, BAD), ('ret', st, v)]
        if n == 0:
            return [('throw', st, BAD)]
        c = [s.f(k) for k in range(n)]
        dg = [And(x >= 48, x <= 57) for x in c]
        val = lambda cs: sum((x - 48) * 10 ** (len(cs) - 1 - k) for k, x in enumerate(cs))
        plain, signed = And(*dg), And(Or(c[0] == 45, c[0] == 43), *dg[1:]) if n > 1 else z3.BoolVal(False)
        if sure(ex, st, plain):
            return [('ret', st, I(32, val(c), 0, 10 ** n - 1))]
        out = []
        t = st.fork()
        t.assume(z3.Not(z3.Or(plain, signed)))
        if ex.feas(t.pc):
            out.append(('throw', t, BAD))
        st.assume(z3.Or(plain, signed))
        if not ex.feas(st.pc):
            return out
        # (no more than its range is used of a number that may have a sign)
        st.assume(And(v.t > -10 ** (n - 1), v.t < 10 ** n))
        return out + [('ret', st, v)]

    # ---- calendar
    def calendar(self, ex, st, args, m, ins):
        zone = 'utc' if m.group(1) == 'gmtime' else 'local'
        ex.require(st, 'race', z3.BoolVal(m.group(2) == '_r'), 'the result of gmtime()/localtime() is shared with other threads')
        if m.group(2) != '_r':
            raise Unsupported('shared result')
        secs = ex.th.S(ex.load(st, args[0], ir.Ty('int', w=64)))
        t = st.fork()
        t.assume(z3.Not(REPR[zone](secs)))
        d = args[1]
        w = st.w(d.base).cells
        for o in [o for o in w if d.off <= o < d.off + 56]:
            del w[o]
        w[d.off] = (56, Abs('tm', zone=zone, secs=secs))
        st.assume(REPR[zone](secs))
        return [('ret', t, NULL), ('ret', st, d)]

    def literal(self, ex, st, p):
        r = Region(ex, st, p, 'format')
        s = ''
        while len(s) < 100:
            v = simp(r.at(len(s)))
            if not isinstance(v, int):
                return None
            if v == 0:
                return s
            s += chr(v % 256)

    def strftime(self, ex, st, args, m, ins):
        d, n, f, tm = args
        c = st.mem[tm.base].cells.get(tm.off) if isinstance(tm, P) and tm.base in st.mem else None
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'tm':
            raise Unsupported('unknown calendar time')
        v = c[1]
        if f.base != 'fmt':
            raise Unsupported('unknown format')
        r = Region(ex, st, d, 'strftime')
        n = ex.th.U(n)
        cstr.fits(ex, st, r, n, 'the text of the time is written inside its buffer')
        T, L = TEXT[v.zone](v.secs), LEN[v.zone](v.secs)
        t = st.fork()
        t.assume(L + 1 > n)
        junk = z3.Array(ex.uniq('junk'), z3.IntSort(), z3.IntSort())
        cstr.fill(ex, t, r, n, lambda k: Sel(junk, k))
        st.assume(And(L + 1 <= n, L >= 0, Sel(T, L) == 0))
        cstr.fill(ex, st, r, L + 1, lambda k: Sel(T, k))
        return [('ret', t, I(64, 0, 0, 0)), ('ret', st, I(64, L, 0, 2 ** 62))]

    def spread(self, ex, st, r, chars):
        a = r.a
        for k, c in enumerate(chars + [z3.IntVal(0)]):
            a = z3.Store(a, ex.ix(simp(r.i + k)), c)
        r.put(ex, st, a)

    def anything(self, ex, st, r, n, base):
        """any terminated text of less than n characters"""
        junk, L = z3.Array(ex.uniq('anything'), z3.IntSort(), z3.IntSort()), z3.Int(ex.uniq('anything.length'))
        st.assume(And(L >= 0, L < n, Sel(junk, L) == 0))
        cstr.fill(ex, st, r, n, lambda k: Sel(junk, k))
        # (the termination of this text is known by this position)
        self.witness[base] = z3.If(z3.BoolVal(True), r.i + L, self.witness.get(base, L))

    def strf(self, ex, st, args, m, ins):
        """contract of strfTime/strfLocaltime, discharged by the units of these names: the text of the time in the format given if it fits, and a terminated text always"""
        zone = 'utc' if m.group(1) == 'Time' else 'local'
        p, d, n, f = args
        secs = ex.th.S(ex.load(st, p, ir.Ty('int', w=64)))
        n = ex.th.U(n)
        r = Region(ex, st, d, 'strfTime')
        cstr.fits(ex, st, r, n, 'the text of the time is written inside its buffer')
        fmt = self.literal(ex, st, f)
        chars, ax = (None, None) if fmt is None else fields_text(zone, secs, fmt)
        out = []
        known = And(secs >= 0, secs < LAST) if zone == 'utc' else And(CIV['local', 'Y'](secs) >= 1970, CIV['local', 'Y'](secs) <= 9999)
        if chars is not None and isinstance(n, int) and len(chars) < n:
            cases = [c for c in (z3.Not(known), known) if ex.feas(st.pc + [c])]
            sts = [st.fork() for _ in cases[1:]] + [st]
            for t, c in zip(sts, reversed(cases)):
                t.assume(c)
                if c is known:
                    t.assume(ax)
                    self.spread(ex, t, Region(ex, t, d, 'strfTime'), chars)
                    out.append(('ret', t, None))
            if cases and cases[0] is known:
                return out
        if isinstance(n, int) and n == 0:
            return out + [('ret', st, None)]
        self.anything(ex, st, Region(ex, st, d, 'strfTime'), n, d.base)
        return out + [('ret', st, None)]

    def snprintf(self, ex, st, args, m, ins):
        d, n, f = args[:3]
        n = ex.th.U(n)
        r = Region(ex, st, d, 'snprintf')
        cstr.fits(ex, st, r, n, 'the number is written inside its buffer')
        fmt = self.literal(ex, st, f)
        if isinstance(n, int) and fmt in ('%09i', '%09d', '%09u', '%.9i', '%.9d', '%.9u') and n >= 10:
            v = ex.th.S(args[3])
            if sure(ex, st, And(v >= 0, v < G)):
                ds, ax = digits(9, v if isinstance(v, z3.ExprRef) else z3.IntVal(v))
                st.assume(ax)
                self.spread(ex, st, r, [48 + x for x in ds])
                return [('ret', st, I(32, 9, 9, 9))]
        self.anything(ex, st, r, n, d.base)
        return [('ret', st, ex.th.fresh(ex.uniq('printed'), 32, True))]


def normal(k):
    """loop of the fraction: the value is kept"""
    h = k.h

    def inv(ex, ctx):
        r = []
        for c in ctx.keys:
            v = ctx.entry.get(c)
            if c[0] == 'cell' and isinstance(v, I) and v.w == 64:
                e = ('cell', c[1], c[2] + 8)
                for d in ctx.keys:
                    if d == e and isinstance(ctx.entry.get(d), I):
                        s0, n0 = ex.th.S(v), ex.th.S(ctx.entry[d])
                        S, N = (lambda w, c=c: ex.th.S(w[c])), (lambda w, d=d: ex.th.S(w[d]))
                        r.append(('the value is kept', lambda w, S=S, N=N, s0=s0, n0=n0: S(w) * G + N(w) == s0 * G + n0))
                        r.append(('the fraction grows', lambda w, N=N, n0=n0: And(N(w) < G, N(w) > -G, z3.Or(N(w) == n0, N(w) >= 0))))
        return r
    h.ex.templates.append(inv)


def u_strf(mods, which):
    k = Iso(mods, 'strf' + which, False)
    h = k.h
    zone = 'utc' if which == 'Time' else 'local'
    p, s, n = k.time()
    size, L = h.int('max', 64, False, 0, 2 ** 40), z3.Int('format.length')
    h.ex.new_arr(h.st, 'dest', 1, size.t, {0: z3.Array('before', z3.IntSort(), z3.IntSort())})
    h.ex.new_arr(h.st, 'fmt', 1, h.int('format.size', 64, False, 1, 2 ** 40).t, {0: z3.Array('format', z3.IntSort(), z3.IntSort())}, ro=True)
    for o in h.only_ret(h.call(r'icl_core::TimeStamp::strf%s\(char\*, unsigned long, char const\*\) const' % which, [p, P('dest'), size, P('fmt')])):
        a = o.st.mem['dest'].fields[0]
        T, N = TEXT[zone](s), LEN[zone](s)
        h.assume(z3.Implies(z3.BoolVal(True), N >= 0))
        ok = And(REPR[zone](s), N + 1 <= size.t, N > 0)
        h.post(o, 'the text written is the one of the time if it can be represented and fits', z3.Implies(And(ok, K >= 0, K <= N), Sel(a, K) == Sel(T, K)))
        h.post(o, 'the text is terminated in any case', z3.Implies(size.t > 0, Or(Sel(a, 0) == 0, And(N >= 0, N < size.t, Sel(a, N) == 0))))
        h.frame(o, [('dest', None)])
    return h


def expected(zone, k, form):
    """the text of a form"""
    if form == 'extended':
        return fields_text(zone, k.secs, '%Y-%m-%d %H:%M:%S')
    c, ax = fields_text(zone, k.S, '%Y%m%dT%H%M%S')
    d, ad = digits(9, k.N)
    return c + [z3.IntVal(ord(','))] + [48 + x for x in d], z3.And(ax, ad)


def u_format(mods, name, zone, form):
    k = Iso(mods, name)
    h = k.h
    p, s, n = k.time()
    k.secs = s
    normal(k)
    h.obj('text', None, 32)
    at_ = k.S if form == 'basic' else s
    for o in h.only_ret(h.call(r'icl_core::TimeStamp::%s(?:\[abi:cxx11\])?\(\) const' % name, [P('text'), p])):
        v = k.str(o.st, P('text'))
        want, ax = expected(zone, k, form)
        known = And(at_ >= 0, at_ < LAST) if zone == 'utc' else And(CIV['local', 'Y'](at_) >= 1970, CIV['local', 'Y'](at_) <= 9999)
        known = And(known, ax)
        if v is None:
            h.post(o, 'a text is made', z3.BoolVal(False))
            continue
        h.post(o, 'the text has one character for each digit and separator', z3.Implies(known, v.n == len(want) if isinstance(v.n, z3.ExprRef) else z3.BoolVal(v.n == len(want))))
        if isinstance(v.n, int) and v.n == len(want):
            parts = {'date': range(0, 10), 'time of day': range(10, 19)} if form == 'extended' else {'date': range(0, 8), 'time of day': range(8, 15), 'fraction': range(15, 25)}
            for what, rg in parts.items():
                h.post(o, 'the text names the ' + what, z3.Implies(known, z3.And([v.f(i) == want[i] for i in rg])))
        else:
            h.post(o, 'a text of another length belongs to a year that has not four digits or is before 1970', z3.Not(known))
        h.frame(o, [('text', None)])
    return h


def parser(k):
    h = k.h

    def inv(ex, ctx):
        r = []
        ys = [c for c in ctx.keys if c[0] == 'phi' and isinstance(ctx.entry.get(c), I) and ctx.entry[c].w == 32]
        ds = [c for c in ctx.keys if c[0] == 'phi' and isinstance(ctx.entry.get(c), I) and ctx.entry[c].w == 64]
        for y in ys:
            Y = lambda v, y=y: ex.th.S(v[y])
            # (the month, however the loop counts it)
            M_ = lambda v, y=y: ex.th.S(v[y]) - ex.th.S(ctx.entry[y]) + 1
            top = z3.If(k.Y >= 1970, k.Y, z3.IntVal(1970)) if k.Y is not None else z3.IntVal(9999)
            r.append(('year', lambda v, Y=Y: And(Y(v) >= 1970, Y(v) <= top)))
            for d in ds:
                e = ex.th.U(ctx.entry[d])
                D_ = lambda v, d=d: ex.th.U(v[d])
                r.append(('days', lambda v, Y=Y, D_=D_: D_(v) == before_year(Y(v))))
                if k.Y is not None:
                    last = z3.If(k.M < 1, z3.IntVal(1), z3.If(k.M > 12, z3.IntVal(13), k.M))
                    r.append(('days before the month', lambda v, Y=M_, D_=D_, e=e, last=last: And(Y(v) >= 1, Y(v) <= last, D_(v) == e + before_month(Y(v), leap(k.Y)))))
                else:
                    r.append(('days before no month', lambda v, Y=M_, D_=D_, e=e: And(Y(v) >= 1, Y(v) <= 13, D_(v) >= e, D_(v) <= e + 31 * (Y(v) - 1))))
        return r
    h.ex.templates.append(inv)


def parts(a):
    """digits and values of the parts of a text"""
    dg = lambda i, j: z3.And([z3.And(Sel(a, q) >= 48, Sel(a, q) <= 57) for q in range(i, j)])
    val = lambda i, j: sum((Sel(a, q) - 48) * 10 ** (j - 1 - q) for q in range(i, j))
    return dg, val


# the least length of a text that has the part, and where it stands
PARTS = [('Y', 4, 0, 4), ('m', 6, 4, 6), ('d', 8, 6, 8), ('H', 11, 9, 11), ('M', 13, 11, 13), ('S', 15, 13, 15)]
DEF = {'Y': 1970, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0}


def u_parse(mods, lo, hi, numbers):
    k = Iso(mods, 'reading %s' % lo)
    h = k.h
    a, n = z3.Array('text', z3.IntSort(), z3.IntSort()), h.int('length', 64, False, lo, hi)
    q = z3.Int('q!t')
    for i in range(25):
        h.assume(And(Sel(a, i) >= 0, Sel(a, i) < 256))
    h.obj('text', None, 32)
    k.put(h.st, P('text'), (lambda i: Sel(a, z3.IntVal(i) if isinstance(i, int) else i)), n.t if lo != hi else lo)
    dg, val = parts(a)
    v, isn = dict((f, z3.IntVal(d)) for f, d in DEF.items()), []
    for f, need, i, j in PARTS:
        if lo >= need:
            v[f] = val(i, j)
            isn.append(dg(i, j))
    ns = z3.IntVal(0)
    if lo > 16:
        m = z3.If(n.t - 16 >= 9, z3.IntVal(9), n.t - 16)
        ns = sum(z3.If(i < n.t - 16, Sel(a, 16 + i) - 48, 0) * 10 ** (8 - i) for i in range(9))
        isn.append(z3.And([z3.Or(i >= n.t - 16, z3.And(Sel(a, 16 + i) >= 48, Sel(a, 16 + i) <= 57)) for i in range(9)]))
    isn = z3.And(isn) if isn else z3.BoolVal(True)
    h.assume(isn if numbers else z3.Not(isn))
    k.Y, k.M = (v['Y'], v['m']) if numbers else (None, None)
    parser(k)
    for o in h.call('icl_core::TimeStamp::fromIso8601BasicUTC(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)', [P('text')]):
        if o.kind == 'throw':
            h.post(o, 'only a text with something else than numbers is refused', z3.Not(isn))
            h.frame(o, [])
            continue
        s, x = h.s(o.val[0]), h.s(h.ex.th.trunc(o.val[1], 32) if o.val[1].w == 64 else o.val[1])
        date = And(v['Y'] >= 1970, v['m'] >= 1, v['m'] <= 12, v['d'] >= 1)
        want = 86400 * (before_year(v['Y']) + before_month(v['m'], leap(v['Y'])) + v['d'] - 1) + 3600 * v['H'] + 60 * v['M'] + v['S']
        if numbers:
            k.step(o, 'the seconds read are those the text names', (date, want), ns)
            h.post(o, 'the time read is the one the text names', z3.Implies(date, value(s, x) == want * G + ns))
        h.post(o, 'the time is normalised', normalised(s, x))
        h.frame(o, [])
    return h


def u_round(mods):
    k = Iso(mods, 'round trip')
    h = k.h
    p, s, n = k.time(0, LAST)
    normal(k)
    k.Y, k.M = CIV['utc', 'Y'](k.S), CIV['utc', 'm'](k.S)
    parser(k)
    for o in h.call('vcg_round', [p]):
        if o.kind == 'throw':
            h.post(o, 'the text of a time is a text that can be read', z3.BoolVal(False))
            continue
        a, x = h.s(o.val[0]), h.s(h.ex.th.trunc(o.val[1], 32) if o.val[1].w == 64 else o.val[1])
        h.post(o, 'reading the text of a time gives that time', And(a == s, x == n))
        h.frame(o, [])
    return h


FORMATS = [('formatIso8601', 'local', 'extended'), ('formatIso8601UTC', 'utc', 'extended'), ('formatIso8601Basic', 'local', 'basic'), ('formatIso8601BasicUTC', 'utc', 'basic')]
LENGTHS = [(0, 3), (4, 5), (6, 7), (8, 10), (11, 12), (13, 14), (15, 16), (17, 24), (25, 2 ** 40)]
UNITS = [('strf' + w, (lambda w: lambda mods: u_strf(mods, w))(w)) for w in ('Time', 'Localtime')]
UNITS += [(f[0], (lambda f: lambda mods: u_format(mods, *f))(f)) for f in FORMATS]
UNITS += [('reading %s, %s characters' % ('numbers' if x else 'other texts', ('%d to %d' % r) if r[1] < 2 ** 40 else '%d and more' % r[0]), (lambda r, x: lambda mods: u_parse(mods, *r, x))(r, x)) for r in LENGTHS for x in (True, False) if x or r[0]]
UNITS += [('round trip', u_round)]
