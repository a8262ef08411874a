"""C27 log lines: the record holds the values given, the format is taken apart without loss, and the line is written as the format says

The format text is an array of any length; At is the position up to which it has been taken apart (ghost): every entry appended has to be the one that begins there and moves At behind it.
The line is the sequence of the pieces put into the string stream: for every entry, in order, exactly the pieces of its kind."""
from .threadlib import *
from .c21 import NATIVE as NAT21
from vcg import cstr
from vcg.cstr import Region
import re

TUS = {'t': 'tu/logline.cpp'}
NATIVE = {'src': 'native/logline.cpp', 'sources': [s for s in NAT21['sources']], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['std::list, the string stream, the C string functions, isdigit and the time formatting of a time stamp (C06) are trusted contracts; the text of a number is what the stream makes of it',
               'texts given by the caller are terminated and are not changed meanwhile; formats are changed by one thread at a time; the system grants the mutexes; the table of level names is not written',
               'widths of fields are below 10^17; the replacement of boost::regex_replace follows its documented format syntax (trusted)']
FE = r'icl_core::logging::LogOutputStream::LogFormatEntry'
LST = r'(?:icl_core::List<' + FE + r' ?>|std::__cxx11::list<' + FE + r', std::allocator<' + FE + r' ?> ?>)::'
LB = r'std::__cxx11::_List_base<' + FE + r', .*>::'
IT = r'std::_List_(?:const_)?iterator<' + FE + r' ?>::'
SEM = r'icl_core::logging::Semaphore::'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
OS = r'(?:std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)'
SS = r'std::__cxx11::basic_(?:o|)stringstream<char, std::char_traits<char>, std::allocator<char> ?>'
NONE = lambda ex, st, a, m, i: [('ret', st, None)]
Sel = z3.Select
K = z3.Int('position')
WIT = [z3.Int('literal.length.%d' % i) for i in range(3)]
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
Dg, Ft, Val = z3.Function('after.digits', z3.IntSort(), z3.IntSort()), z3.Function('field.letter', z3.IntSort(), z3.IntSort()), z3.Function('width', z3.IntSort(), z3.IntSort(), z3.IntSort())
WMAX = 10 ** 17
LETTERS = {'C': 'class', 'O': 'object', 'D': 'function', 'E': 'message', 'F': 'file', 'G': 'line', 'L': 'level', 'S': 'stream', 'T': 'time', 'M': 'ms'}
BYTE = ir.Ty('int', w=8)
TILDE = ord('~')


def letter(c):
    return z3.Or([c == ord(x) for x in LETTERS])


def digit(c):
    return z3.And(c >= 48, c <= 57)


def vptr(h, name):
    """the virtual functions stand behind the type information"""
    init = h.ex.mod.globals[name][1]
    slots = init[1][0][1][1]
    return P(name, 0, 8 * (1 + [i for i, s in enumerate(slots) if '_ZTI' in str(s)][0]))


class Line:
    def __init__(self, mods, name):
        self.role = name
        h = self.h = H(mods['t'], name, [], opts=dict({'term': False, 'nul': [self.nul]}, **cstr.OPTS), extra=[])
        self.off = {k: h.off(k) for k in ('fmutex', 'nmutex', 'worker', 'format', 'next', 'tformat', 'oname', 'type', 'width', 'text', 'suffix', 'stamp', 'level', 'stream', 'file', 'lineno', 'cls', 'object', 'function', 'message', 'socket', 'system')}
        self.code = {k: h.off('c_' + k) for k in ['text'] + sorted(set(LETTERS.values()))}
        T = [(LST + r'.*', self.other), (IT + r'.*', self.other), (LB + r'~?_List_base\(\)', NONE), (LST + r'(?:list|List)\(\)', NONE), (LST + r'~(?:list|List)\(\)', NONE),
             (LST + r'clear\(\)', self.l_clear), (LST + r'operator=\(.*\)', self.l_assign), (LST + r'swap\(.*\)', self.l_swap), (LST + r'push_back\(.*\)', self.l_push), (r'(?:.* )?' + LST + r'emplace_back<.*>\(.*\)', self.l_push),
             (LST + r'c?begin\(\)(?: const)?', self.l_begin), (LST + r'c?end\(\)(?: const)?', self.l_end), (LST + r'empty\(\) const', self.l_empty),
             (IT + r'operator(\*|->)\(\) const', self.i_deref), (IT + r'operator(\+\+)\((int)?\)', self.i_step), (IT + r'operator(==|!=)\(.*\) const', self.i_eq), (r'(?:bool )?std::operator(==|!=)\(std::_List_(?:const_)?iterator<' + FE + r'.*', self.i_eq), (IT + r'_List_const_iterator\(std::_List_iterator<.*', self.i_copy),
             (r'@?isdigit|std::isdigit\(int\)', self.isdigit), (r'@?strcmp', self.strcmp),
             (SS + r'::basic_(?:o|)stringstream\(\)', NONE), (SS + r'::~basic_(?:o|)stringstream\(\)', NONE), (SS + r'::str\(\) const', self.ss_str),
             (OS + r'& std::operator<< ?<std::char_traits<char> ?>\(' + OS + r'&, char const\*\)', self.put_text), (OS + r'& std::operator<< ?<std::char_traits<char> ?>\(' + OS + r'&, char\)', self.put_char), (OS + r'& std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>\(' + OS + r'&, ' + STR + r' const&\)', self.put_string),
             (OS + r'::operator<<\(((?:unsigned )?(?:int|long))\)', self.put_number),
             (STR + r'::basic_string(?:<.*>)?\(.*\)', self.str_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'& ?' + STR + r'::operator=\(.*\)|' + STR + r'::operator=\(.*\)', self.str_assign), (STR + r'::c_str\(\) const', self.str_cstr), (STR + r'::(?:length|size)\(\) const', self.str_len), (r'(?:.* )?std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\(' + STR + r' const&, char const\*\)', self.str_eq), (STR + r'::compare\(char const\*\) const', self.str_cmp)]
        for rx, f in T + cstr.HANDLERS + [(r'icl_core::os::memset\(.*\)|icl_core::os::hidden_posix::memset\(.*\)', 'inline')]:
            if f != 'inline':
                h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((SEM + r'wait\(\)', self.wait), (SEM + r'post\(\)', self.post), (r'icl_core::TimeStamp::strfLocaltime\(.*\) const', self.timetext), (r'icl_core::TimeStamp::formatIso8601(?:\[abi:cxx11\])?\(\) const', self.isotext), (r'@?vcg_line', self.line), (r'icl_core::TimeBase::tsNSec\(\) const', self.nsec), (r'.*icl_core::logging::LoggingManager.*', NONE), (r'@?write', self.sent), (r'@?perror', NONE)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        g = h.st.ghost
        for k in ('held', 'At', 'fmt', 'new', 'pos', 'zeros', 'wrote', 'done'):
            g[k] = z3.IntVal(0)
        g['pieces'], g['lits'] = (), 0
        self.ttext, self.tlen = z3.Array('time.text', z3.IntSort(), z3.IntSort()), z3.Int('time.length')

    def output(self):
        h, o = self.h, self.off
        self.p = h.obj('output', None, h.off('out'))
        w = h.st.w('output').cells
        w[0] = (8, vptr(h, '@_ZTVN3vcg4LineE'))
        w[o['fmutex']] = (16, Abs('sem'))
        w[o['format']] = (24, Abs('list'))
        w[o['next']] = (24, Abs('list'))
        w[o['tformat']] = (8, P('@timeformat'))
        h.ex.new_arr(h.st, '@timeformat', 1, z3.Int('timeformat.size'), {0: z3.Array('timeformat', z3.IntSort(), z3.IntSort())}, ro=True)
        return self.p

    def text(self, name='source', lo=0):
        h = self.h
        n, L = h.int(name + '.size', 64, False, 1, 2 ** 40), h.int(name + '.length', 64, False, lo)
        a = z3.Array(name, z3.IntSort(), z3.IntSort())
        q = z3.Int('q!s')
        h.assume(And(L.t < n.t, Sel(a, L.t) == 0))
        h.assume(z3.ForAll([q], z3.And(Sel(a, q) >= 0, Sel(a, q) < 256), patterns=[Sel(a, q)]))
        h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.t), Sel(a, q) != 0), patterns=[Sel(a, q)]))
        h.ex.new_arr(h.st, name, 1, n.t, {0: a}, ro=True)
        self.__dict__.setdefault('lens', {})[name] = L.t
        return P(name), a, L.t

    def nul(self, r):
        L = self.__dict__.get('lens', {}).get(r.base)
        return None if L is None else L - r.i

    def other(self, ex, st, args, m, ins):
        raise Unsupported('operation outside the contract: ' + m.group(0))

    # ---- mutex
    def wait(self, ex, st, args, m, ins):
        if (args[0].base, args[0].off) != ('output', self.off['fmutex']):
            raise Unsupported('unknown semaphore')
        ex.require(st, 'deadlock', st.ghost['held'] == 0, 'the mutex of the format is not acquired twice')
        st.ghost['held'] = z3.IntVal(1)
        return [('ret', st, I(1, True))]

    def post(self, ex, st, args, m, ins):
        ex.require(st, 'precondition', And(z3.BoolVal((args[0].base, args[0].off) == ('output', self.off['fmutex'])), st.ghost['held'] == 1), 'only the mutex acquired is released')
        st.ghost['held'] = z3.IntVal(0)
        return [('ret', st, None)]

    # ---- lists of entries
    def which(self, p):
        if p.base != 'output' or p.off not in (self.off['format'], self.off['next']):
            raise Unsupported('unknown list')
        return 'fmt' if p.off == self.off['format'] else 'new'

    def under(self, ex, st, k):
        if k == 'fmt':
            ex.require(st, 'race', st.ghost['held'] == 1, 'the format in use is accessed only under its mutex')

    def l_clear(self, ex, st, args, m, ins):
        k = self.which(args[0])
        self.under(ex, st, k)
        st.ghost[k] = z3.IntVal(0)
        return [('ret', st, None)]

    def l_assign(self, ex, st, args, m, ins):
        a, b = self.which(args[0]), self.which(args[1])
        self.under(ex, st, a)
        self.under(ex, st, b)
        st.ghost[a] = st.ghost[b]
        return [('ret', st, args[0])]

    def l_swap(self, ex, st, args, m, ins):
        a, b = self.which(args[0]), self.which(args[1])
        self.under(ex, st, a)
        self.under(ex, st, b)
        st.ghost[a], st.ghost[b] = st.ghost[b], st.ghost[a]
        return [('ret', st, None)]

    def l_empty(self, ex, st, args, m, ins):
        if self.role != 'writing':
            raise Unsupported('emptiness of a list of entries')
        self.under(ex, st, self.which(args[0]))
        return [('ret', st, I(1, self.n == 0))]

    def l_push(self, ex, st, args, m, ins):
        """the entry appended is the one that begins at At"""
        if self.which(args[0]) != 'new' or self.role != 'parsing':
            raise Unsupported('an entry is appended to another list')
        g, o, s = st.ghost, self.off, self.src
        e = args[1]
        at = g['At']
        rd = lambda k, w: ex.th.U(ex.load(st, P(e.base, e.idx, e.off + o[k]), ir.Ty('int', w=w)))
        ty, width = rd('type', 32), rd('width', 64)
        text, suffix = [Region(ex, st, P(e.base, e.idx, e.off + o[k]), 'entry') for k in ('text', 'suffix')]
        ex.require(st, 'postcondition', And(text.i == 0, text.n == 100, suffix.i == 0, suffix.n == 100, text.at(99) == 0, suffix.at(99) == 0), 'the texts of an entry are terminated')
        L = WIT[g['lits']]
        q = z3.Int('q!t')
        lit = Sel(s, at) != TILDE
        # literal text: L is the length of the entry's text
        res = []
        can = [c for c in (lit, z3.Not(lit)) if ex.feas(st.pc + [c])]
        for t, cond in list(zip([st.fork()] * (len(can) - 1) + [st], can)):
            t.assume(cond)
            if cond is lit:
                t.assume(And(L >= 0, L <= 99, text.at(L) == 0))
                t.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L), Sel(text.a, q) != 0), patterns=[Sel(text.a, q)]))
                ex.require(t, 'postcondition', ty == self.code['text'], 'what is not a field is a text entry')
                ex.require(t, 'postcondition', And(L >= 1, z3.Implies(And(K >= 0, K < L), And(text.at(K) == Sel(s, at + K), Sel(s, at + K) != TILDE))), 'the text is the text of the format up to the next field, or a part of it')
                t.ghost['At'] = at + L
                t.ghost['lits'] = g['lits'] + 1
            else:
                D_, F_ = Dg(at), Ft(at)
                c = Sel(s, F_)
                m_ = z3.If(F_ - D_ <= 99, F_ - D_, z3.IntVal(99))
                ex.require(t, 'postcondition', c != 0, 'a field without a letter is left out')
                ex.require(t, 'postcondition', z3.And([z3.Implies(c == ord(x), ty == self.code[n]) for x, n in LETTERS.items()]), 'the kind of the field is that of its letter')
                ex.require(t, 'postcondition', z3.Implies(Val(at, D_) < WMAX, width == Val(at, D_)), 'the width is the number given')
                ex.require(t, 'postcondition', And(z3.Implies(And(K >= 0, K < m_), text.at(K) == Sel(s, D_ + K)), text.at(m_) == 0), 'the prefix is the text before the letter')
                b = z3.If(m_ == 0, z3.IntVal(0), Sel(s, D_))
                ex.require(t, 'postcondition', z3.Implies(c == ord('O'), And(*[z3.Implies(b == ord(x), And(suffix.at(0) == ord(y), suffix.at(1) == 0)) for x, y in ('()', '[]', '{}')], z3.Implies(And(b != ord('('), b != ord('['), b != ord('{')), suffix.at(0) == 0))), 'the bracket of an object name is closed')
                t.ghost['At'] = F_ + 1
            res.append(('ret', t, None))
        return res

    # ---- parsing
    def axioms(self, a):
        """where the parts of the field that begins at a end"""
        s, L = self.src, self.L
        q = z3.Int('q!b')
        A = self.h.assume
        A(z3.And(Dg(a) > a, Dg(a) <= L, Ft(a) >= Dg(a), Ft(a) <= L, z3.Not(digit(Sel(s, Dg(a)))), z3.Or(Sel(s, Ft(a)) == 0, letter(Sel(s, Ft(a))))))
        A(z3.ForAll([q], z3.Implies(z3.And(q > a, q < Dg(a)), digit(Sel(s, q))), patterns=[Sel(s, q)]))
        A(z3.ForAll([q], z3.Implies(z3.And(q >= Dg(a), q < Ft(a)), z3.Not(letter(Sel(s, q)))), patterns=[Sel(s, q)]))
        A(Val(a, a + 1) == 0)
        A(z3.ForAll([q], z3.Implies(z3.And(q > a, q < Dg(a)), z3.And(Val(a, q + 1) == 10 * Val(a, q) + Sel(s, q) - 48, Val(a, q) >= 0)), patterns=[Val(a, q)]))

    def fin(self, at):
        return z3.Or(Sel(self.src, at) == 0, z3.And(Sel(self.src, at) == TILDE, Sel(self.src, Ft(at)) == 0))

    def rest(self, ex, st, args, m, ins):
        """contract of taking the rest apart: from a position where an entry begins to the end"""
        p = args[1]
        if not isinstance(p, P) or p.base != 'source':
            raise Unsupported('unknown format')
        g = st.ghost
        if self.role == 'changing':
            ex.require(st, 'postcondition', And(p.idx == 0, g['new'] == 0), 'the format given is taken apart, into an empty list')
            g['new'] = z3.IntVal(1)
            return [('ret', st, None)]
        ex.require(st, 'postcondition', And(p.idx == g['At'], g['At'] > z3.Int('begin'), g['At'] <= self.L), 'the rest begins behind the entry appended')
        a = z3.Int(ex.uniq('end'))
        st.assume(And(a >= g['At'], a <= self.L, self.fin(a)))
        g['At'] = a
        return [('ret', st, None)]

    def isdigit(self, ex, st, args, m, ins):
        v = ex.th.S(args[0])
        return [('ret', st, I(32, z3.If(And(v >= 48, v <= 57), z3.IntVal(1), z3.IntVal(0)), 0, 1))]

    # ---- writing a line
    def ptr(self, ex, st, p):
        v = ex.load(st, p, ir.Ty('ptr'))
        if not isinstance(v, P) or v.base != '@entries':
            raise Unsupported('not an iterator of the format')
        return v

    def l_begin(self, ex, st, args, m, ins):
        self.under(ex, st, self.which(args[0]))
        return [('ret', st, P('@entries', z3.IntVal(0)))]

    def l_end(self, ex, st, args, m, ins):
        self.which(args[0])
        return [('ret', st, P('@entries', self.n))]

    def i_copy(self, ex, st, args, m, ins):
        ex.store(st, args[0], ir.Ty('ptr'), self.ptr(ex, st, args[1]))
        return [('ret', st, None)]

    def i_deref(self, ex, st, args, m, ins):
        v = self.ptr(ex, st, args[0])
        ex.require(st, 'race', st.ghost['held'] == 1, 'the format in use is accessed only under its mutex')
        ex.require(st, 'precondition', And(v.idx >= 0, v.idx < self.n), 'an iterator is followed only inside the list')
        return [('ret', st, v)]

    def i_step(self, ex, st, args, m, ins):
        v = self.ptr(ex, st, args[0])
        ex.require(st, 'precondition', v.idx < self.n, 'an iterator moves only inside the list')
        ex.store(st, args[0], ir.Ty('ptr'), P('@entries', v.idx + 1))
        self.finish(ex, st, v.idx)
        return [('ret', st, v if m.group(2) else args[0])]

    def i_eq(self, ex, st, args, m, ins):
        a, b = [self.ptr(ex, st, x) for x in args]
        e = a.idx == b.idx
        return [('ret', st, I(1, e if '==' in m.groups() else z3.Not(e)))]

    def first(self, st, k):
        return Sel(self.arrs[k], 0)

    def finish(self, ex, st, i):
        """the pieces written for entry i are those of its kind"""
        g, c = st.ghost, self.code
        ex.require(st, 'postcondition', i == g['pos'], 'every entry is written once, in order')
        ps = g['pieces']
        ty = Sel(self.types, i)
        width = Sel(self.widths, i)

        def match(*want):
            """the pieces are the ones wanted"""
            if len(ps) != len(want):
                return z3.BoolVal(False)
            r = []
            for p, w in zip(ps, want):
                if p[0] != w[0]:
                    return z3.BoolVal(False)
                r += [a == b for a, b in zip(p[1:], w[1:])]
            return z3.And(r) if r else z3.BoolVal(True)
        T = ('entry', i, z3.IntVal(self.off['text']))
        S = ('entry', i, z3.IntVal(self.off['suffix']))
        ms = self.ms
        digits = z3.If(ms >= 100, 3, z3.If(ms >= 10, 2, 1))
        opt = lambda k, *w: z3.If(self.first(st, k) != 0, match(*w), match())
        cases = [('text', match(T), 'literal text'), ('class', opt('cls', T, ('cls',)), 'a class'), ('object', opt('object', T, ('object',), S), 'an object'), ('function', opt('function', T, ('function',)), 'a function'), ('message', match(('message',)), 'the text'), ('file', match(('file',)), 'the file'),
                 ('line', match(('number', self.lineno)), 'the line'), ('level', match(('level', self.lv)), 'the level'), ('stream', match(('stream',)), 'the stream'), ('time', match(('time',)), 'the time'),
                 ('ms', z3.And(match(('number', ms)), g['zeros'] == z3.If(width > digits, width - digits, 0)), 'the milliseconds')]
        for k, f, what in cases:
            ex.require(st, 'postcondition', z3.Implies(ty == c[k], f), 'the field is written as its kind says: ' + what)
        ex.require(st, 'postcondition', z3.Implies(ty != c['ms'], g['zeros'] == 0), 'zeros are written only before milliseconds')
        g['pos'] = g['pos'] + 1
        g['pieces'] = ()
        g['zeros'] = z3.IntVal(0)

    def piece(self, st, *p):
        st.ghost['pieces'] = st.ghost['pieces'] + (p,)

    def literal(self, ex, st, p):
        """the characters of a constant"""
        r = Region(ex, st, p, 'text')
        s = b''
        while len(s) < 100:
            v = z3.simplify(r.at(len(s)))
            if not z3.is_int_value(v):
                return None
            if v.as_long() == 0:
                return s.decode('latin1')
            s += bytes([v.as_long()])

    def put_text(self, ex, st, args, m, ins):
        p = args[1]
        if p.base == '@entries':
            if isinstance(p.off, tuple):
                raise Unsupported('part of an entry')
            self.piece(st, 'entry', p.idx, z3.IntVal(p.off))
        elif p.base == 'record':
            k = {self.off[k]: k for k in self.arrs}.get(p.off)
            if k is None:
                raise Unsupported('part of a record')
            self.piece(st, k)
        elif p.base == '@level':
            self.piece(st, 'level', p.idx)
        else:
            s = self.literal(ex, st, p)
            if s is None:
                if self.role != 'writing':
                    raise Unsupported('unknown text')
                r = Region(ex, st, p, 'time')
                ex.require(st, 'postcondition', z3.Implies(And(K >= 0, K <= self.tlen), r.at(K) == Sel(self.ttext, K)), 'the text written is the one of the time')
                self.piece(st, 'time')
            else:
                self.constant(st, s)
        return [('ret', st, args[0])]

    def constant(self, st, s):
        if self.role == 'udp':
            ps = st.ghost['pieces']
            if ps and ps[-1][0] == 'const':
                st.ghost['pieces'] = ps[:-1] + (('const', ps[-1][1] + s),)
            else:
                self.piece(st, 'const', s)
        elif s == '0' and not st.ghost['pieces']:
            st.ghost['zeros'] = st.ghost['zeros'] + 1
        else:
            self.piece(st, 'const:' + s)

    def put_char(self, ex, st, args, m, ins):
        c = z3.simplify(ex.th.U(args[1]) if not isinstance(ex.th.U(args[1]), int) else z3.IntVal(ex.th.U(args[1])))
        if not z3.is_int_value(c):
            raise Unsupported('unknown character')
        self.constant(st, chr(c.as_long()))
        return [('ret', st, args[0])]

    def put_number(self, ex, st, args, m, ins):
        self.piece(st, 'number', ex.th.U(args[1]) if 'unsigned' in m.group(1) else ex.th.S(args[1]))
        return [('ret', st, args[0])]

    def put_string(self, ex, st, args, m, ins):
        v = self.string(st, args[1])
        self.piece(st, *v.piece)
        return [('ret', st, args[0])]

    def string(self, st, p):
        c = st.mem[p.base].cells.get(p.off)
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'string':
            raise Unsupported('unknown string')
        return c[1]

    def str_ctor(self, ex, st, args, m, ins):
        sig = m.group(0)
        if len(args) > 1 and isinstance(args[1], P) and args[1].base == 'record':
            k = {self.off[k]: k for k in self.arrs}.get(args[1].off)
            v = Abs('string', piece=(k,))
        elif len(args) > 1 and isinstance(args[1], P) and args[1].base in st.mem and st.mem[args[1].base].kind == 'obj' and isinstance(st.mem[args[1].base].cells.get(args[1].off, (0, 0))[1], Abs):
            v = self.string(st, args[1])
        else:
            raise Unsupported('string made of ' + sig[-60:])
        st.w(args[0].base).cells[args[0].off] = (32, v)
        return [('ret', st, None)]

    def str_assign(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (32, self.string(st, args[1]))
        return [('ret', st, args[0])]

    def str_cstr(self, ex, st, args, m, ins):
        return [('ret', st, P('@chars', args[0].base + '+%s' % args[0].off, 0) if False else P(args[0].base, 0, args[0].off))]

    def str_len(self, ex, st, args, m, ins):
        v = self.string(st, args[0])
        n = z3.Int('length.of.' + v.piece[0])
        if v.piece[0] in self.__dict__.get('arrs', {}):
            st.assume((n == 0) == (self.first(st, v.piece[0]) == 0))
        return [('ret', st, I(64, n, 0, 2 ** 40))]

    def ss_str(self, ex, st, args, m, ins):
        g = st.ghost
        if self.role == 'writing':
            ex.require(st, 'postcondition', And(g['pos'] == self.n, z3.BoolVal(not g['pieces'])), 'the line is handed over when all entries are written')
        if self.role == 'udp':
            want = [("'",), ('system',), ("','",), ('iso',), ("',",), ('number', self.ns), (",'",), ('level', self.lv), ("','",), ('stream',), ("','",), ('file',), ("',",), ('number', self.lineno), (",'",), ('cls',), ("','",), ('escaped', 'object'), ("','",), ('function',), ("','",), ('escaped', 'message'), ("'",)]
            have = [p[1:] if p[0] == 'const' else p for p in g['pieces']]
            same = [z3.BoolVal(len(want) == len(have))]
            for a, b in zip(want, have):
                same.append(z3.BoolVal(len(a) == len(b) and all(isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) or x == y for x, y in zip(a, b))))
                same += [x == y for x, y in zip(a, b) if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef)]
            ex.require(st, 'postcondition', z3.And(same), 'the record consists of all its parts, in order, quoted, object and text escaped')
        st.w(args[0].base).cells[args[0].off] = (32, Abs('string', piece=('line',)))
        return [('ret', st, None)]

    def line(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', z3.BoolVal(self.string(st, args[1]).piece == ('line',) and args[0].base == 'output'), 'the line written is the one made')
        ex.require(st, 'deadlock', g['held'] == 0, 'the mutex of the format is not held while the line is written')
        g['done'] = g['done'] + 1
        return [('ret', st, None)]

    def strcmp(self, ex, st, args, m, ins):
        """comparison with the empty text"""
        p, q = args
        if self.literal(ex, st, q) != '' or p.base != 'record':
            raise Unsupported('comparison of texts')
        k = {self.off[k]: k for k in self.arrs}.get(p.off)
        r = ex.th.fresh(ex.uniq('compared'), 32, True)
        st.assume((r.t == 0) == (self.first(st, k) == 0))
        return [('ret', st, r)]

    def description(self, ex, st, args, m, ins):
        """contract of logLevelDescription, discharged by the unit of the level names"""
        return [('ret', st, P('@level', ex.th.U(args[0]), 0))]

    def nsec(self, ex, st, args, m, ins):
        p = args[0]
        if p.base != 'record' or p.off != self.off['stamp']:
            raise Unsupported('unknown time stamp')
        return [('ret', st, I(32, self.ns, 0, 999999999))]

    def timetext(self, ex, st, args, m, ins):
        p, d, n, f = args
        if p.base != 'record' or p.off != self.off['stamp']:
            raise Unsupported('unknown time stamp')
        r = Region(ex, st, d, 'time')
        cstr.fits(ex, st, r, ex.th.U(n), 'the text of the time fits into its buffer')
        ex.require(st, 'postcondition', z3.BoolVal(f.base == '@timeformat'), 'the time is written in the time format')
        st.assume(And(self.tlen >= 0, self.tlen < ex.th.U(n)))
        cstr.fill(ex, st, r, ex.th.U(n), lambda k: Sel(self.ttext, k))
        return [('ret', st, None)]

    # ---- UDP
    def isotext(self, ex, st, args, m, ins):
        if args[1].base != 'record' or args[1].off != self.off['stamp']:
            raise Unsupported('unknown time stamp')
        st.w(args[0].base).cells[args[0].off] = (32, Abs('string', piece=('iso',)))
        return [('ret', st, None)]

    def escaped(self, ex, st, args, m, ins):
        """contract of escape, discharged by the unit of that name"""
        v = self.string(st, args[2])
        if len(v.piece) != 1:
            raise Unsupported('escaped text')
        st.w(args[0].base).cells[args[0].off] = (32, Abs('string', piece=('escaped', v.piece[0])))
        return [('ret', st, None)]

    def sent(self, ex, st, args, m, ins):
        g = st.ghost
        v = self.string(st, args[1])
        ex.require(st, 'postcondition', And(ex.th.S(args[0]) == self.sock, ex.th.U(args[2]) == z3.Int('length.of.line'), z3.BoolVal(v.piece == ('line',))), 'the record is sent once and completely')
        g['done'] = g['done'] + 1
        return [('ret', st, ex.th.fresh(ex.uniq('sent'), 64, True))]

    # ---- levels
    def str_eq(self, ex, st, args, m, ins):
        s = self.literal(ex, st, args[1])
        if s is None or args[0].base != 'given':
            raise Unsupported('comparison of texts')
        e = z3.Bool('given.is.' + s)
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]

    def str_cmp(self, ex, st, args, m, ins):
        s = self.literal(ex, st, args[1])
        if s is None or args[0].base != 'given':
            raise Unsupported('comparison of texts')
        return [('ret', st, I(32, z3.If(z3.Bool('given.is.' + s), z3.IntVal(0), z3.IntVal(1)), 0, 1))]


def u_record(mods):
    k = Line(mods, 'record')
    h = k.h
    h.ex.handlers.insert(0, (re.compile(r'icl_core::TimeStamp::TimeStamp\(.*\)'), 'inline', 'x')) if False else None
    names = ('stream', 'file', 'cls', 'object', 'function', 'message')
    tx = {n: k.text(n + '.given') for n in names}
    h.obj('record', 'struct.icl_core::logging::LogOutputStream::LogMessage')
    t = h.obj('stamp', None, 16)
    s, ns = h.int('seconds', 64, True), h.int('nanoseconds', 32, True, 0, 999999999)
    h.put(t, 0, s)
    h.put(t, 8, ns, 4)
    lv, line = h.int('level', 32, False, 0, 5), h.int('line', 64, False)
    for o in h.only_ret(h.call('vcg_record', [P('record'), t, lv, tx['stream'][0], tx['file'][0], line, tx['cls'][0], tx['object'][0], tx['function'][0], tx['message'][0]])):
        rd = lambda off, w: h.u(h.ld(o, P('record', 0, off), 0, w))
        h.post(o, 'the level and the line are the ones given', And(rd(k.off['level'], 32) == lv.t, rd(k.off['lineno'], 64) == line.t))
        b = k.off['stamp']
        h.post(o, 'the time is the one given', And(h.s(h.ld(o, P('record', 0, b), 0, 64)) == s.t, h.s(h.ld(o, P('record', 0, b + 8), 0, 32)) == ns.t))
        for n in names:
            size = h.off('size_' + n)
            a = h.ex.as_array(o.st, 'record', k.off[n], 1, size, BYTE)
            _, src, L = tx[n]
            m = z3.If(L <= size - 1, L, z3.IntVal(size - 1))
            h.post(o, 'the %s is the text given, or as much of it as fits, terminated' % {'cls': 'class'}.get(n, n), And(z3.Implies(And(K >= 0, K < m), Sel(a, K) == Sel(src, K)), Sel(a, m) == 0))
        h.frame(o, [('record', None)])
    return h


def parse(mods, case):
    k = Line(mods, 'parsing')
    h = k.h
    p = k.output()
    f, k.src, k.L = k.text()
    b = z3.Int('begin')
    h.assume(And(b >= 0, b < k.L))
    h.st.ghost['At'] = b
    k.axioms(b)
    first = Sel(k.src, b)
    # one unit for each kind of entry: together the cases cover all characters
    h.assume(first != TILDE if case == 'text' else And(first == TILDE, Sel(k.src, Ft(b)) == (ord(case) if case else 0)))
    h.ex.handlers.insert(0, (re.compile(r'icl_core::logging::LogOutputStream::parseLogFormat\(.*\)'), k.rest, 'contract'))
    h.ex.hcache.clear()
    s = k.src

    D_, F_ = Dg(b), Ft(b)
    m_ = z3.If(F_ - D_ <= 99, F_ - D_, z3.IntVal(99))
    lit = case == 'text'

    def inv(ex, ctx):
        r = []
        g = ('ghost', 'At')
        ptr = [c for c in ctx.keys if isinstance(ctx.entry.get(c), P)]
        src = [c for c in ptr if ctx.entry[c].base == 'source']
        txt = [c for c in ptr if isinstance(ctx.entry[c].off, tuple)]
        arr = [c for c in ctx.keys if isinstance(ctx.entry.get(c), ArrV) and c[2] == k.off['text']]
        wid = [c for c in ctx.keys if c[0] == 'cell' and c[2] == k.off['width'] and isinstance(ctx.entry.get(c), I)]
        q = z3.Int('q!i')
        d = b if lit else D_
        for c in src:
            i = lambda v, c=c: v[c].idx
            if wid:
                r.append(('digits', lambda v, i=i: And(i(v) > b, i(v) <= D_)))
                for w in wid:
                    r.append(('width', lambda v, i=i, w=w: z3.Implies(Val(b, i(v)) < WMAX, ex.th.U(v[w]) == Val(b, i(v)))))
            elif lit:
                r.append(('inside', lambda v, i=i: And(i(v) >= b, i(v) <= k.L)))
            else:
                r.append(('prefix', lambda v, i=i: And(i(v) >= D_, i(v) <= F_)))
            for t in txt:
                x = lambda v, t=t: v[t].off[4]
                r.append(('written', lambda v, i=i, x=x: And(x(v) >= 0, x(v) <= 99, x(v) == z3.If(i(v) - d <= 99, i(v) - d, z3.IntVal(99)))))
        for t in txt:
            x = lambda v, t=t: v[t].off[4]
            for a in arr:
                T = lambda v, a=a: v[a].a
                for w in [K, z3.IntVal(0)] + ([WIT[0]] if lit else []):
                    r.append(('copied', lambda v, x=x, T=T, w=w: z3.Implies(z3.And(w >= 0, w < x(v)), z3.And(Sel(T(v), w) == Sel(s, d + w), Sel(T(v), w) != 0, *([Sel(T(v), w) != TILDE] if lit else [])))))
                r.append(('terminated', lambda v, T=T: Sel(T(v), 99) == 0))
                if lit:
                    r.append(('zero at', lambda v, x=x, T=T: Sel(T(v), x(v)) == 0))
                    r.append(('zero behind', lambda v, x=x, T=T: z3.ForAll([q], z3.Implies(z3.And(q >= x(v), q < 100), Sel(T(v), q) == 0), patterns=[Sel(T(v), q)])))
                else:
                    r.append(('zero behind', lambda v, x=x, T=T: Sel(T(v), m_) == 0))
        return r
    h.ex.templates.append(inv)
    for o in h.only_ret(h.call(r'icl_core::logging::LogOutputStream::parseLogFormat\(char const\*\)', [p, P('source', b)])):
        h.post(o, 'the whole format is taken apart', k.fin(o.st.ghost['At']))
        h.frame(o, [])
    return h


def u_change(mods):
    k = Line(mods, 'changing')
    h = k.h
    p = k.output()
    f, k.src, k.L = k.text()
    old = h.st.ghost['fmt'] = z3.IntVal(2)
    h.ex.handlers.insert(0, (re.compile(r'icl_core::logging::LogOutputStream::parseLogFormat\(.*\)'), k.rest, 'contract'))
    h.ex.hcache.clear()
    for o in h.only_ret(h.call(r'icl_core::logging::LogOutputStream::changeLogFormat\(char const\*\)', [p, f])):
        g = o.st.ghost
        h.post(o, 'the entries of the format given replace those in use', z3.Implies(Sel(k.src, 0) != 0, g['fmt'] == 1))
        h.post(o, 'an empty format changes nothing', z3.Implies(Sel(k.src, 0) == 0, g['fmt'] == old))
        h.post(o, 'the next change begins with an empty list', g['new'] == 0)
        h.post(o, 'the mutex of the format is released', g['held'] == 0)
        h.frame(o, [])
    return h


def record(k):
    """any record"""
    h = k.h
    h.obj('record', 'struct.icl_core::logging::LogOutputStream::LogMessage')
    k.arrs = {}
    for n in ('stream', 'file', 'cls', 'object', 'function', 'message'):
        k.arrs[n] = h.ex.as_array(h.st, 'record', k.off[n], 1, h.off('size_' + n), BYTE)
        h.assume(And(Sel(k.arrs[n], 0) >= 0, Sel(k.arrs[n], 0) < 256))
    lv, line = h.int('level', 32, False, 0, 5), h.int('line', 64, False)
    s, ns = h.int('seconds', 64, True), h.int('nanoseconds', 32, True, 0, 999999999)
    h.put(P('record'), k.off['level'], lv, 4)
    h.put(P('record'), k.off['lineno'], line)
    h.put(P('record'), k.off['stamp'], s)
    h.put(P('record'), k.off['stamp'] + 8, ns, 4)
    k.lv, k.lineno, k.ns = lv.t, line.t, ns.t
    k.ms = z3.Int('milliseconds')
    h.assume(And(k.ms * 1000000 <= ns.t, ns.t < k.ms * 1000000 + 1000000))
    h.ex.handlers.insert(0, (re.compile(r'icl_core::logging::logLevelDescription\(.*\)'), k.description, 'contract'))
    h.ex.hcache.clear()
    return P('record')


def u_write(mods):
    k = Line(mods, 'writing')
    h = k.h
    p = k.output()
    m = record(k)
    k.n = h.int('entries', 64, False, 0, 2 ** 40).t
    k.types, k.widths = [z3.Array('entry.' + x, z3.IntSort(), z3.IntSort()) for x in ('type', 'width')]
    o = k.off
    e = h.ex.new_arr(h.st, '@entries', h.off('entry'), k.n, {o['type']: k.types, o['width']: k.widths})
    q = z3.Int('q!e')
    h.assume(z3.ForAll([q], z3.Or([Sel(k.types, q) == c for c in k.code.values()]), patterns=[Sel(k.types, q)]))
    h.assume(z3.ForAll([q], z3.And(Sel(k.widths, q) >= 0, Sel(k.widths, q) < 2 ** 64), patterns=[Sel(k.widths, q)]))

    def inv(ex, ctx):
        r = []
        gp, gz = ('ghost', 'pos'), ('ghost', 'zeros')
        its = [c for c in ctx.keys if isinstance(ctx.entry.get(c), P) and ctx.entry[c].base == '@entries']
        if its and gp in ctx.keys:
            for c in its:
                r.append(('position', lambda v, c=c: And(v[c].idx == v[gp], v[gp] >= 0, v[gp] <= k.n)))
            if gz in ctx.keys:
                r.append(('no zeros', lambda v: v[gz] == 0))
        elif gz in ctx.keys:
            w = Sel(k.widths, ctx.base.ghost['pos'])
            for c in ctx.keys:
                if isinstance(ctx.entry.get(c), I) and c[0] == 'phi':
                    for d in (1, 2, 3):
                        n = z3.If(k.ms >= 100, 3, z3.If(k.ms >= 10, 2, 1))
                    i = lambda v, c=c: ex.th.U(v[c])
                    r.append(('zeros', lambda v, i=i: v[gz] == w - i(v)))
                    r.append(('zeros left', lambda v, i=i: And(i(v) >= 0, i(v) <= w, z3.Or(i(v) >= n, i(v) == w))))
                    r.append(('zeros written', lambda v, i=i: v[gz] == i(v)))
                    r.append(('zeros bounded', lambda v, i=i: And(v[gz] >= 0, z3.Or(v[gz] == 0, v[gz] + n <= w))))
        return r
    h.ex.templates.append(inv)
    for o in h.only_ret(h.call('vcg_write_line', [p, m])):
        g = o.st.ghost
        h.post(o, 'one line is written', g['done'] == 1)
        h.post(o, 'the mutex of the format is released', g['held'] == 0)
        h.frame(o, [])
    return h


def u_udp(mods):
    k = Line(mods, 'udp')
    h = k.h
    p = h.obj('output', None, h.off('udp'))
    w = lambda: h.st.w('output').cells
    w()[0] = (8, vptr(h, '@_ZTVN8icl_core7logging12UdpLogOutputE'))
    sock = h.int('socket', 32, True)
    k.sock = sock.t
    h.put(p, k.off['socket'], sock, 4)
    w()[k.off['system']] = (32, Abs('string', piece=('system',)))
    m = record(k)
    h.ex.handlers.insert(0, (re.compile(r'icl_core::logging::UdpLogOutput::escape\(.*\) const'), k.escaped, 'contract'))
    h.ex.hcache.clear()
    for o in h.only_ret(h.call('vcg_udp_push', [p, m])):
        h.post(o, 'a record is sent exactly if the output is connected', o.st.ghost['done'] == z3.If(sock.t >= 0, 1, 0))
        h.frame(o, [])
    return h


def tables(h):
    """tables of texts hold what they are initialised with (assumed: nobody writes to them)"""
    for name, (ty, init, const) in list(h.ex.mod.globals.items()):
        rt = h.ex.mod.resolve(ty)
        if 'icl_core' in name and init is not None and not const and rt.k == 'arr' and h.ex.mod.resolve(rt.el).k == 'ptr':
            h.ex.glob(h.st, name)
            h.ex.init_cells(h.st, h.st.mem[name], 0, ty, init)


def u_levels(mods):
    """the names of the levels, level by level (there are six)"""
    names = ['Trace', 'Debug', 'Info', 'Warning', 'Error', 'Mute']
    r = []
    for i, n in enumerate(names):
        k = Line(mods, 'levels')
        h = k.h
        tables(h)
        for o in h.only_ret(h.call('vcg_description', [I(32, i, i, i)])):
            h.post(o, 'the name of the level', z3.BoolVal(k.literal(h.ex, o.st, o.val) == n))
            h.frame(o, [])
        r.append(h)
    k = Line(mods, 'levels')
    h = k.h
    tables(h)
    h.ex.opts['mixed_unroll'] = 16
    h.obj('given', None, 32)
    h.st.w('given').cells[0] = (32, Abs('string', piece=('given',)))
    p = h.obj('result', None, 4)
    old = h.int('old', 32, False)
    h.put(p, 0, old, 4)
    for o in h.only_ret(h.call('vcg_level_from', [P('given'), p])):
        v, got = h.u(h.ld(o, p, 0, 32)), z3.BoolVal(o.val.t) if isinstance(o.val.t, bool) else o.val.t
        given = [z3.Bool('given.is.' + n) for n in names]
        h.lemma('a text is at most one of the names', z3.AtMost(*given, 1)) if False else None
        h.post(o, 'the level of a name is found, other texts are refused', got == z3.Or(given))
        only = z3.And([z3.Not(z3.And(x, y)) for j, x in enumerate(given) for y in given[:j]])
        h.post(o, 'the level is the one with that name', z3.Implies(only, z3.And([z3.Implies(x, v == j) for j, x in enumerate(given)] + [z3.Implies(z3.Not(z3.Or(given)), v == old.t)])))
        h.frame(o, [('result', None)])
    r.append(h)
    return r


def u_escape(mods):
    """the replacement of the regular expression library: its pattern and format decide what is replaced by what"""
    k = Line(mods, 'escape')
    h = k.h
    p = h.obj('output', None, h.off('udp'))
    for n in ('given', 'result'):
        h.obj(n, None, 32)
    h.st.w('given').cells[0] = (32, Abs('string', piece=('text',)))

    def regex(ex, st, args, m, ins):
        s = k.literal(ex, st, args[1])
        if s is None:
            raise Unsupported('unknown pattern')
        st.w(args[0].base).cells[args[0].off] = (16, Abs('regex', text=s))
        return [('ret', st, None)]

    def replace(ex, st, args, m, ins):
        d, s, r, f = args[:4]
        pat, form = st.mem[r.base].cells[r.off][1].text, k.literal(ex, st, f)
        v = k.string(st, s)
        if form is None or not re.fullmatch(r'[^$(){}?:&\\]*(?:\\[^a-zA-Z0-9][^$(){}?:&\\]*)*', form):
            raise Unsupported('unknown format')
        by = re.sub(r'\\(.)', r'\1', form)
        st.w(d.base).cells[d.off] = (32, Abs('string', piece=('replaced', pat, by) + v.piece))
        return [('ret', st, None)]
    for rx, f in ((r'.*boost::basic_regex<.*>::basic_regex\(char const\*, unsigned int\)', regex), (r'.*boost::basic_regex<.*>::~basic_regex\(\)', NONE), (r'.* boost::regex_replace<.*', replace)):
        h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
    h.ex.hcache.clear()
    for o in h.only_ret(h.call(r'icl_core::logging::UdpLogOutput::escape\(.*\) const', [P('result'), p, P('given')])):
        h.post(o, 'every quote is replaced by a backslash and a quote, and nothing else is', z3.BoolVal(k.string(o.st, P('result')).piece == ('replaced', "'", "\\'", 'text')))
        h.frame(o, [('result', None), ('given', None)])
    return h


CASES = [('text', 'literal text'), ('', 'a field without a letter')] + [(x, 'a field of kind ' + x) for x in LETTERS]
UNITS = [('record', u_record), ('changing the format', u_change), ('writing a line', u_write), ('writing an UDP record', u_udp), ('escaping', u_escape), ('level names', u_levels)]
UNITS += [('taking a format apart: ' + what, (lambda c: lambda mods: parse(mods, c))(c)) for c, what in CASES]
