"""C30 command line: every argument is taken once, in order, as what it is

A text is a number (equal numbers, equal texts). The n arguments are ARG(0..n-1). Ghost: the arguments before `at` have been accounted for, `pos` of them as positional ones; `extra` tells whether the delimiter has been met, `help` whether an option "help" was seen, and `nno` arguments were kept, the last one of them being argument number `last`.
Every value written and every argument appended has to be the one the argument whose turn it is calls for; the turn then passes on. The arguments kept are, in order, SRC(0) < SRC(1) < ... (obligation at each append, fact of the vector when it is read).
What a regular expression matches is given by uninterpreted functions of the text (one set for each expression in the code)."""
from .threadlib import *
from .c21 import NATIVE as NAT21
from vcg.cstr import Region
import re

TUS = {'t': 'tu/getopt.cpp'}
NATIVE = {'src': 'native/getopt.cpp', 'sources': ['icl_core_config/GetoptParameter.cpp', 'icl_core_config/GetoptPositionalParameter.cpp'], 'flags': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], 'libs': ['-lboost_regex']}
ASSUMPTIONS = ['std::string, std::map, std::list, std::vector and boost::regex are trusted contracts (what the two expressions for options match is left open)',
               'printing the help text changes nothing; exit does not return; memory is available',
               'the arguments are given by an array of argc + 1 pointers that overlaps nothing else; fewer than 2^31 options, names and arguments']
STR = r'(?:std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>|std::string)'
PAR, POS, KV = r'icl_core::config::GetoptParameter', r'icl_core::config::GetoptPositionalParameter', r'icl_core::config::Getopt::KeyValue'
SM = r'boost::sub_match<.*?char const ?\*.*>::'
I_ = z3.IntSort()
F = lambda n, *s: z3.Function(n, *[I_] * len(s), s[-1]) if False else z3.Function(n, *s)
TEXT = z3.Function('text', I_, I_)
LONG, SHORT, LHAS = (z3.Function(n, I_, z3.BoolSort()) for n in ('is.long', 'is.short', 'has.value'))
LNAME, LVAL, SNAME, LEQ, CATF = (z3.Function(n, I_, I_) for n in ('long.name', 'long.value', 'short.name', 'long.assignment', 'prefix.expression'))
# the four tables of options: 0 long, 1 long prefix, 2 short, 3 short prefix
FIND, KEY, OPT, SHO = ([z3.Function('%s.%d' % (n, m), I_, I_) for m in range(4)] for n in ('place', 'key', 'option', 'short'))
HV = [z3.Function('takes.value.%d' % m, I_, z3.BoolSort()) for m in range(4)]
FIRST, SUF, MATCH = {}, {}, {}
for m in (1, 3):
    FIRST[m], SUF[m], MATCH[m] = z3.Function('first.prefix.%d' % m, I_, I_), z3.Function('suffix.%d' % m, I_, I_, I_), z3.Function('prefix.matches.%d' % m, I_, I_, z3.BoolSort())
LEN, STEM, LASTC = (z3.Function(n, I_, I_) for n in ('length', 'without.last', 'last.character'))
PART = z3.Function('first.part', I_, I_, I_)
NAME = [z3.Function('positional.%d' % m, I_, I_) for m in range(2)]
SET = {q: z3.Function('is.set.%d' % q, I_, z3.BoolSort()) for q in (4, 5)}
VALUE = {q: z3.Function('value.%d' % q, I_, I_) for q in (4, 5)}
SRC = z3.Function('kept', I_, I_)
KEPT, EXTRA = z3.Function('kept.text', I_, I_), z3.Function('extra.text', I_, I_)
K = z3.Int('position')
LIT = {}
NONE = lambda ex, st, a, m, i: [('ret', st, None)]
SELF = lambda ex, st, a, m, i: [('ret', st, a[0])]
LONG_RX, SHORT_RX, PREFIX_RX = '--([^-][^=]*)(=(.*))?', '-([^-].*)', '(.*)'
BIG = 2 ** 50


def lit(s):
    return z3.IntVal(2 ** 41 + LIT.setdefault(s, len(LIT)))


for s_ in ('', 'yes', 'help', PREFIX_RX):
    lit(s_)


class Opt:
    def __init__(self, mods, name, **opts):
        h = self.h = H(mods['t'], name, [], opts=dict({'term': True, 'pairs': False}, **opts), extra=[])
        self.o = {n: h.off(n) for n in ('parameters', 'prefix_parameters', 'short_parameters', 'short_prefix_parameters', 'required', 'optional', 'extra_active', 'extra_delim', 'initialized', 'argc', 'argv', 'program', 'version', 'description', 'non_opt', 'opt', 'prefix_opt', 'extra',
                                        'getopt', 'param', 'pos', 'entry', 'p_option', 'p_value', 'p_short', 'p_help', 'p_prefix', 'q_name', 'q_help', 'q_optional', 'entry_second', 'value_second')}
        o = self.o
        self.tabs = {o['parameters']: 0, o['prefix_parameters']: 1, o['short_parameters']: 2, o['short_prefix_parameters']: 3}
        self.slots, self.lasts, self.event = {}, {}, None
        MP = r'std::map<' + STR + r', ' + PAR + r', .*>::'
        MS = r'std::map<' + STR + r', ' + STR + r', .*>::'
        ML = r'std::map<' + STR + r', icl_core::List<' + KV + r' ?>, .*>::'
        VS = r'std::vector<' + STR + r', std::allocator<' + STR + r' ?> ?>::'
        VP = r'std::vector<' + POS + r', std::allocator<' + POS + r' ?> ?>::'
        LS = r'(?:std::__cxx11::list<' + STR + r', .*>|icl_core::List<' + STR + r' ?>)::'
        LK = r'std::__cxx11::list<' + KV + r', .*>::'
        TI = r'std::_Rb_tree_(?:const_)?iterator<std::pair<' + STR + r' const, (?:' + PAR + '|' + STR + '|icl_core::List<' + KV + r' ?>) ?> ?>'
        LI = r'std::_List_(?:const_)?iterator<(?:' + STR + '|' + KV + r') ?>'
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.s_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:operator=|assign)\(.*\)', self.s_assign), (STR + r'::empty\(\) const', self.s_empty), (STR + r'::(?:size|length)\(\) const', self.s_len),
             (STR + r'::substr\(unsigned long, unsigned long\) const', self.s_substr), (STR + r'::pop_back\(\)', self.s_pop), (STR + r'::c?rbegin\(\)(?: const)?', self.s_rbegin), (r'std::reverse_iterator<__gnu_cxx::__normal_iterator<char const ?\*, .*::operator\*\(\) const', self.s_rderef),
             (STR + r'::(back|operator\[\]|at)\((?:unsigned long)?\)(?: const)?', self.s_back),
             (r'(?:.* )?std::operator\+<char, .*', self.s_plus), (r'(?:bool )?std::operator(==|!=)<char, .*', self.s_eq), (STR + r'::compare\(.*\) const', self.s_cmp),
             (r'boost::basic_regex<.*>::basic_regex(?:<.*>)?\(.*\)', self.r_ctor), (r'boost::basic_regex<.*>::~basic_regex\(\)', NONE), (r'bool boost::regex_match<.*', self.r_match),
             (r'boost::match_results<.*>::(?:match_results|~match_results)\(.*\)', NONE), (r'boost::match_results<.*>::operator\[\]\(int\) const', self.r_sub), (r'boost::match_results<.*>::size\(\) const', self.r_size), (r'boost::match_results<.*>::str\(int\) const', self.r_str),
             (SM + r'(?:operator std::.*|str)\(\) const', self.sub_str), (STR + r' const& boost::match_results<.*', None),
             (MP + r'find\(.*\)(?: const)?', self.m_find), (MP + r'c?begin\(\)(?: const)?', self.m_begin), (MP + r'c?end\(\)(?: const)?', self.m_end), (MP + r'(?:size|empty|count|operator\[\]|at)\(.*\)(?: const)?', None),
             (MP + r'insert(?:<.*>)?\(.*\)', self.m_insert), (r'(?:.* )?' + MP + r'insert<.*', self.m_insert), (r'(?:.* )?' + MP + r'emplace<.*', None),
             (MS + r'operator\[\]\(.*\)', self.o_index), (MS + r'find\(.*\)(?: const)?', self.o_find), (MS + r'c?end\(\)(?: const)?', self.o_end), (MS + r'count\(.*\) const', self.o_count),
             (ML + r'operator\[\]\(.*\)', self.o_index), (ML + r'find\(.*\)(?: const)?', self.o_find), (ML + r'c?end\(\)(?: const)?', self.o_end), (ML + r'count\(.*\) const', self.o_count),
             (r'(?:icl_core::List|std::__cxx11::list)<' + KV + r'(?:, .*)?>::(?:List|list)\(.*\)', self.k_ctor), (LK + r'push_back\(.*\)', self.k_push), (r'(?:.* )?' + LK + r'emplace_back<.*>\(.*\)', None),
             (LS + r'(?:list|List)\(\)', self.l_ctor), (LS + r'(?:~list|~List)\(\)', NONE), (r'std::__cxx11::_List_base<' + STR + r', .*>::~?_List_base\(\)', NONE), (LS + r'push_back\(.*\)', self.l_push), (LS + r'c?begin\(\)(?: const)?', self.l_begin), (LS + r'c?end\(\)(?: const)?', self.l_end),
             (LS + r'(?:size|empty)\(\) const', None), (LI + r'::_List_const_iterator\(.*\)', self.it_copy), (TI + r'::_Rb_tree_const_iterator\(.*\)', self.it_copy),
             (LI + r'::operator(\+\+|--)\((int)?\)', self.it_step), (TI + r'::operator(\+\+|--)\((int)?\)', self.it_step), (LI + r'::operator(?:\*|->)\(\) const', self.l_deref), (TI + r'::operator(?:\*|->)\(\) const', self.m_deref),
             (r'(?:bool )?std::operator(==|!=)\(std::_(?:List|Rb_tree).*', self.it_eq), (LI + r'::operator(==|!=)\(.*\) const', self.it_eq), (TI + r'::operator(==|!=)\(.*\) const', self.it_eq),
             (VP + r'size\(\) const', self.p_size), (VP + r'empty\(\) const', self.p_size), (VP + r'(?:operator\[\]|at)\(unsigned long\)(?: const)?', self.p_index), (VP + r'push_back\(.*\)', self.p_push),
             (VS + r'push_back\(.*\)', self.v_push), (VS + r'size\(\) const', self.v_size), (VS + r'empty\(\) const', self.v_size), (VS + r'(?:operator\[\]|at)\(unsigned long\)(?: const)?', self.v_index),
             (r'(?:.* )?std::operator<< ?<.*', SELF), (r'std::(?:ostream|basic_ostream<.*>)::operator<<\(.*\)', SELF), (r'(?:.* )?std::endl<.*', SELF),
             (r'std::(?:__)?new_allocator<.*|std::allocator<.*', NONE), (r'@?exit', self.exit)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f or self.outside, 'trusted'))
        h.ex.handlers.insert(0, (re.compile(r'icl_core::config::Getopt::printHelp\(\) const'), NONE, 'contract'))
        h.ex.hcache.clear()
        self.g = h.obj('getopt', None, o['getopt'])
        self.cnt = [h.int(n, 64, False, 0, 2 ** 31).t for n in ('options', 'prefix.options', 'short.options', 'short.prefix.options')]
        self.np = [h.int(n, 64, False, 0, 2 ** 31).t for n in ('required', 'optional')]
        for q in range(4):
            h.assume(self.cnt[q] < 2 ** 31)
        self.delim = self.text(h.st, 'delimiter')
        self.active = h.int('extra.active', 8, False, 0, 1)
        for n in ('extra_delim', 'program', 'version', 'description'):
            self.sput(h.st, P(self.g.base, 0, o[n]), self.delim if n == 'extra_delim' else self.text(h.st, n))
        h.put(self.g, o['extra_active'], self.active, 1)
        self.init0 = h.int('initialized', 8, False, 0, 1)
        h.put(self.g, o['initialized'], self.init0, 1)
        h.put(self.g, o['argc'], h.int('argc.before', 32, True), 4)
        h.put(self.g, o['argv'], h.int('argv.before', 64, False), 8)
        h.ex.new_obj(h.st, '@lit', None, 8)

    def outside(self, ex, st, a, m, i):
        raise Unsupported('library operation outside the contract: ' + m.group(0)[:120])

    # ---- texts
    def text(self, st, name):
        v = z3.Int(name)
        st.assume(And(v >= 0, v < BIG))
        return v

    def sput(self, st, p, t):
        t = z3.IntVal(0) + t if isinstance(t, int) else t
        st.assume(And(t >= 0, t < BIG))
        w = st.w(p.base).cells
        for c in [c for c in w if p.off <= c < p.off + 32]:
            del w[c]
        w[p.off] = (8, I(64, t, 0, BIG))

    def sget(self, st, p):
        if not isinstance(p, P) or p.base is None or p.base not in st.mem or p.base == '@args' or p.base == 'argv':
            return None
        o = st.mem[p.base]
        if isinstance(o, Abs) or o.kind != 'obj':
            return None
        c = o.cells.get(p.off)
        return None if c is None or not isinstance(c[1], I) or c[1].w != 64 else c[1].t

    def cstr(self, ex, st, p):
        if isinstance(p, P) and p.base == '@args':
            return TEXT(z3.IntVal(0) + p.idx)
        r = Region(ex, st, p, 'text')
        cs = ''
        while len(cs) < 200:
            c = simp(r.at(len(cs)))
            if not isinstance(c, int):
                break
            if c == 0:
                return lit(cs)
            cs += chr(c)
        raise Unsupported('unknown characters')

    def sof(self, ex, st, v):
        t = self.sget(st, v)
        return t if t is not None else self.cstr(ex, st, v)

    def s_ctor(self, ex, st, args, m, ins):
        if len(args) == 1 or m.group(0).endswith('basic_string()'):
            self.sput(st, args[0], lit(''))
        elif re.search(r'\((?:std::__cxx11::basic_string|std::string|char const)', m.group(0)) and 'unsigned long' not in m.group(0).split('>::basic_string')[-1]:
            self.sput(st, args[0], self.sof(ex, st, args[1]))
        else:
            raise Unsupported('string constructor')
        return [('ret', st, None)]

    def s_assign(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[1])
        if args[0].base in self.slots:
            self.on(st, 'value', self.slots[args[0].base], t)
        self.sput(st, args[0], t)
        return [('ret', st, args[0])]

    def s_empty(self, ex, st, args, m, ins):
        return [('ret', st, I(1, self.sof(ex, st, args[0]) == lit('')))]

    def s_len(self, ex, st, args, m, ins):
        return [('ret', st, I(64, self.length(st, self.sof(ex, st, args[0])), 0, 2 ** 31))]

    def length(self, st, t):
        n = LEN(t)
        st.assume(And(n >= 0, n < 2 ** 31, (n == 0) == (t == lit(''))))
        return n

    def s_substr(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[1])
        if not (z3.is_app(t) and simp(ex.th.U(args[2])) == 0):
            raise Unsupported('a part of a text')
        n = self.length(st, t)
        k = ex.th.U(args[3])
        r = z3.If(z3.IntVal(0) + k >= n, t, PART(t, z3.IntVal(0) + k))
        st.assume(z3.Implies(k == n - 1, PART(t, z3.IntVal(0) + k) == STEM(t)))
        self.sput(st, args[0], r)
        return [('ret', st, None)]

    def s_pop(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[0])
        ex.require(st, 'precondition', t != lit(''), 'a text that has a last character')
        self.sput(st, args[0], STEM(t))
        return [('ret', st, None)]

    def s_rbegin(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[1] if len(args) > 1 else args[0])
        if len(args) < 2:
            raise Unsupported('iterator of a text')
        ex.store(st, args[0], ir.Ty('ptr'), self.char(ex, st, t))
        return [('ret', st, None)]

    def char(self, ex, st, t):
        b = ex.uniq('@last')
        ex.new_obj(st, b, None, 1)
        st.w(b).cells[0] = (1, I(8, LASTC(t), 0, 255))
        st.assume(And(LASTC(t) >= 0, LASTC(t) <= 255))
        self.lasts[b] = t
        return P(b)

    def s_rderef(self, ex, st, args, m, ins):
        p = ex.load(st, args[0], ir.Ty('ptr'))
        if not isinstance(p, P) or p.base not in self.lasts:
            raise Unsupported('iterator of a text')
        ex.require(st, 'precondition', self.lasts[p.base] != lit(''), 'a text that has a last character')
        return [('ret', st, p)]

    def s_back(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[0])
        if m.group(1) == 'back':
            ex.require(st, 'precondition', t != lit(''), 'a text that has a last character')
        else:
            ex.require(st, 'precondition', ex.th.U(args[1]) == self.length(st, t) - 1, 'the last character of a text')
        return [('ret', st, self.char(ex, st, t))]

    def s_plus(self, ex, st, args, m, ins):
        if len(args) != 3:
            raise Unsupported('concatenation')
        a, b = self.sof(ex, st, args[1]), self.sof(ex, st, args[2])
        if not b.eq(lit(PREFIX_RX)):
            raise Unsupported('concatenation')
        self.sput(st, args[0], CATF(a))
        return [('ret', st, None)]

    def s_eq(self, ex, st, args, m, ins):
        e = self.sof(ex, st, args[0]) == self.sof(ex, st, args[1])
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]

    def s_cmp(self, ex, st, args, m, ins):
        if len(args) != 2:
            raise Unsupported('comparing a part of a text')
        a, b = self.sof(ex, st, args[0]), self.sof(ex, st, args[1])
        v = ex.th.fresh(ex.uniq('order'), 32, True)
        st.assume((v.t == 0) == (a == b))
        return [('ret', st, v)]

    # ---- regular expressions
    def r_ctor(self, ex, st, args, m, ins):
        t = self.sof(ex, st, args[1])
        if not any(t.eq(lit(x)) for x in (LONG_RX, SHORT_RX)) and not (z3.is_app(t) and t.decl().eq(CATF)):
            raise Unsupported('unknown regular expression')
        self.sput(st, args[0], t)
        return [('ret', st, None)]

    def r_match(self, ex, st, args, m, ins):
        if len(args) != 4:
            raise Unsupported('regex_match without results')
        s, rx = self.sget(st, args[0]), self.sget(st, args[2])
        if s is None or rx is None:
            raise Unsupported('regex_match of something else')
        st.assume(z3.Not(And(LONG(s), SHORT(s))))
        at = z3.IntVal(0)
        if rx.eq(lit(LONG_RX)):
            k, e = 1, LONG(s)
        elif rx.eq(lit(SHORT_RX)):
            k, e = 2, SHORT(s)
        else:
            a = rx.arg(0) if z3.is_app(rx) and rx.decl().eq(CATF) else None
            k = None
            for q in (1, 3):
                if a is not None and z3.is_app(a) and a.decl().eq(KEY[q]):
                    k, at = 2 + q, a.arg(0)
            if k is None:
                raise Unsupported('unknown regular expression')
            q = k - 2
            n = self.cnt[q]
            e = MATCH[q](s, at)
            f = FIRST[q](s)
            st.assume(And(0 <= f, f <= n, z3.Implies(And(e, at >= 0, at < n), f <= at), z3.Implies(And(f == at, at < n), e)))
        p = args[1]
        w = st.w(p.base).cells
        for c in [c for c in w if p.off <= c < p.off + 32]:
            del w[c]
        w[p.off] = (8, I(64, s, 0, BIG))
        w[p.off + 8] = (8, I(64, k, k, k))
        w[p.off + 16] = (8, I(64, at, 0, 2 ** 32))
        w[p.off + 24] = (8, I(64, z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return [('ret', st, I(1, e))]

    def results(self, ex, st, p):
        c = st.mem[p.base].cells
        if any(p.off + q not in c for q in (0, 8, 16, 24)):
            raise Unsupported('results of a match')
        s, k, at, e = [c[p.off + q][1].t for q in (0, 8, 16, 24)]
        k = simp(k)
        if not isinstance(k, int):
            raise Unsupported('results of an earlier match')
        return s, k, at, e

    def sub(self, ex, st, p, i):
        """text and presence of a part of the match"""
        s, k, at, e = self.results(ex, st, p)
        i = simp(ex.th.U(i))
        ex.require(st, 'precondition', e == 1, 'parts are taken only of a successful match')
        if i == 0:
            return s, z3.BoolVal(True)
        if k == 1 and i in (1, 2, 3):
            st.assume(z3.Implies(z3.Not(LHAS(s)), And(LVAL(s) == lit(''), LEQ(s) == lit(''))))
            return {1: LNAME(s), 2: LEQ(s), 3: LVAL(s)}[i], z3.BoolVal(True) if i == 1 else LHAS(s)
        if k == 2 and i == 1:
            return SNAME(s), z3.BoolVal(True)
        if k in (3, 5) and i == 1:
            return SUF[k - 2](s, at), z3.BoolVal(True)
        return lit(''), z3.BoolVal(False)

    def r_sub(self, ex, st, args, m, ins):
        t, e = self.sub(ex, st, args[0], args[1])
        b = ex.uniq('@sub')
        ex.new_obj(st, b, None, 24)
        self.sput(st, P(b), t)
        st.w(b).cells[16] = (1, I(8, z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return [('ret', st, P(b))]

    def r_str(self, ex, st, args, m, ins):
        t, e = self.sub(ex, st, args[1], args[2])
        self.sput(st, args[0], t)
        return [('ret', st, None)]

    def sub_str(self, ex, st, args, m, ins):
        self.sput(st, args[0], self.sget(st, args[1]))
        return [('ret', st, None)]

    def r_size(self, ex, st, args, m, ins):
        s, k, at, e = self.results(ex, st, args[0])
        n = {1: 4, 2: 2, 3: 2, 5: 2}[k]
        return [('ret', st, I(64, z3.If(e == 1, z3.IntVal(n), z3.IntVal(0)), 0, 4))]

    # ---- iterators (an object whose first word says where)
    def pos(self, ex, st, v):
        p = ex.load(st, v, ir.Ty('ptr')) if not (isinstance(v, P) and v.base is not None and v.base.startswith('@it.')) else v
        if not isinstance(p, P) or p.base is None or not p.base.startswith('@it.'):
            raise Unsupported('unknown iterator')
        return p

    def it_copy(self, ex, st, args, m, ins):
        ex.store(st, args[0], ir.Ty('ptr'), self.pos(ex, st, args[1]))
        return [('ret', st, None)]

    def bound(self, p):
        return self.n if p.base == '@it.args' else self.cnt[int(p.base[-1])] if p.base[:-1] == '@it.tab' else None

    def it_step(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        j = p.idx + 1 if m.group(1) == '++' else p.idx - 1
        n = self.bound(p)
        if n is None:
            raise Unsupported('stepping through the values')
        ex.require(st, 'precondition', And(j >= 0, j <= n), 'an iterator moves only inside its container')
        ex.store(st, args[0], ir.Ty('ptr'), P(p.base, j))
        return [('ret', st, p if m.group(2) else args[0])]

    def it_eq(self, ex, st, args, m, ins):
        a, b = self.pos(ex, st, args[0]), self.pos(ex, st, args[1])
        if a.base != b.base:
            raise Unsupported('iterators of different containers')
        e = z3.IntVal(0) + a.idx == z3.IntVal(0) + b.idx
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]

    # ---- the list of the arguments
    def arg(self, i):
        return TEXT(z3.Select(self.A0, z3.IntVal(1) + i))

    def l_ctor(self, ex, st, args, m, ins):
        st.ghost['listed'] = z3.IntVal(0)
        st.w(args[0].base).cells[args[0].off] = (24, Abs('list'))
        return [('ret', st, None)]

    def l_push(self, ex, st, args, m, ins):
        g = st.ghost
        t = self.sof(ex, st, args[1])
        ex.require(st, 'postcondition', And(g['listed'] < self.n, t == self.arg(g['listed'])), 'the arguments are scanned in the order given')
        g['listed'] = g['listed'] + 1
        return [('ret', st, None)]

    def l_begin(self, ex, st, args, m, ins):
        ex.require(st, 'postcondition', st.ghost['listed'] == self.n, 'all arguments are scanned')
        return [('ret', st, P('@it.args', z3.IntVal(0)))]

    def l_end(self, ex, st, args, m, ins):
        return [('ret', st, P('@it.args', self.n))]

    def l_deref(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        if p.base != '@it.args':
            raise Unsupported('iterator of another list')
        ex.require(st, 'precondition', And(p.idx >= 0, p.idx < self.n), 'an iterator is followed only inside the list')
        b = ex.uniq('@arg')
        ex.new_obj(st, b, None, 32)
        self.sput(st, P(b), self.arg(p.idx))
        return [('ret', st, P(b))]

    # ---- the tables of options
    def tab(self, p):
        if p.base != self.g.base or p.off not in self.tabs:
            raise Unsupported('not a table of options')
        return self.tabs[p.off]

    def m_find(self, ex, st, args, m, ins):
        q = self.tab(args[0])
        s = self.sof(ex, st, args[1])
        f = FIND[q](s)
        st.assume(And(f >= 0, f <= self.cnt[q], z3.Implies(f < self.cnt[q], KEY[q](f) == s)))
        return [('ret', st, P('@it.tab%d' % q, f))]

    def m_begin(self, ex, st, args, m, ins):
        q = self.tab(args[0])
        self.first(st, q)
        return [('ret', st, P('@it.tab%d' % q, z3.IntVal(0)))]

    def first(self, st, q):
        pass

    def m_end(self, ex, st, args, m, ins):
        q = self.tab(args[0])
        return [('ret', st, P('@it.tab%d' % q, self.cnt[q]))]

    def m_deref(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        o = self.o
        b = ex.uniq('@entry')
        if p.base.startswith('@it.val'):
            return [('ret', st, self.val_entry(ex, st, p))]
        q = int(p.base[-1])
        i = z3.IntVal(0) + p.idx
        ex.require(st, 'precondition', And(i >= 0, i < self.cnt[q]), 'an iterator is followed only inside the table')
        ex.new_obj(st, b, None, o['entry'])
        # (the entries are filed under their own name: obligation of adding one)
        st.assume((OPT[q] if q < 2 else SHO[q])(i) == KEY[q](i))
        s = o['entry_second']
        self.sput(st, P(b), KEY[q](i))
        self.sput(st, P(b, 0, s + o['p_option']), OPT[q](i))
        self.sput(st, P(b, 0, s + o['p_short']), SHO[q](i))
        st.w(b).cells[s + o['p_value']] = (1, I(8, z3.If(HV[q](i), z3.IntVal(1), z3.IntVal(0)), 0, 1))
        st.w(b).cells[s + o['p_prefix']] = (1, I(8, q & 1, q & 1, q & 1))
        return [('ret', st, P(b))]

    def m_insert(self, ex, st, args, m, ins):
        a = args if isinstance(args[0], P) and args[0].base == self.g.base else args[1:]
        self.on(st, 'insert', self.tab(a[0]), a[1])
        return [('ret', st, (P('@it.ins', z3.IntVal(0)), ex.th.fresh(ex.uniq('inserted'), 8))) if ins.ty.k == 'struct' else ('ret', st, None)]

    # ---- positional parameters
    def which(self, p):
        if p.base != self.g.base or p.off not in (self.o['required'], self.o['optional']):
            raise Unsupported('not the positional parameters')
        return 0 if p.off == self.o['required'] else 1

    def p_size(self, ex, st, args, m, ins):
        n = self.np[self.which(args[0])]
        return [('ret', st, I(1, n == 0) if 'empty' in m.group(0)[-16:] else I(64, n, 0, 2 ** 31))]

    def p_index(self, ex, st, args, m, ins):
        q = self.which(args[0])
        i = ex.th.U(args[1])
        ex.require(st, 'precondition', And(i >= 0, i < self.np[q]), 'a positional parameter that exists')
        b = ex.uniq('@param')
        ex.new_obj(st, b, None, self.o['pos'])
        self.sput(st, P(b, 0, self.o['q_name']), NAME[q](z3.IntVal(0) + i))
        st.w(b).cells[self.o['q_optional']] = (1, I(8, q, q, q))
        return [('ret', st, P(b))]

    def p_push(self, ex, st, args, m, ins):
        self.on(st, 'positional', self.which(args[0]), args[1])
        return [('ret', st, None)]

    # ---- what is found
    def o_index(self, ex, st, args, m, ins):
        if args[0].base != self.g.base or args[0].off not in (self.o['opt'], self.o['prefix_opt']):
            raise Unsupported('not a table of values')
        b = ex.uniq('@slot')
        ex.new_obj(st, b, None, 32)
        self.sput(st, P(b), z3.Int(ex.uniq('value.before')))
        self.slots[b] = self.sof(ex, st, args[1])
        self.slots[b, 'prefix'] = args[0].off == self.o['prefix_opt']
        return [('ret', st, P(b))]

    def k_push(self, ex, st, args, m, ins):
        b = args[0].base
        if b not in self.slots or not self.slots[b, 'prefix']:
            raise Unsupported('not the list of a prefix option')
        self.on(st, 'prefix', self.slots[b], self.sget(st, args[1]), self.sget(st, P(args[1].base, 0, args[1].off + 32)))
        return [('ret', st, None)]

    def v_push(self, ex, st, args, m, ins):
        if args[0].base != self.g.base or args[0].off not in (self.o['non_opt'], self.o['extra']):
            raise Unsupported('not a list of arguments')
        self.on(st, 'kept' if args[0].off == self.o['non_opt'] else 'extra', self.sof(ex, st, args[1]))
        return [('ret', st, None)]

    def on(self, st, *a):
        if self.event is None:
            raise Unsupported('nothing is written here')
        self.event(st, *a)

    def o_find(self, ex, st, args, m, ins):
        if args[0].base != self.g.base or args[0].off not in (self.o['opt'], self.o['prefix_opt']):
            raise Unsupported('not a table of values')
        s = self.sof(ex, st, args[1])
        if isinstance(self, Scan):
            if args[0].off != self.o['opt'] or not s.eq(lit('help')):
                raise Unsupported('looking up a value')
            return [('ret', st, P('@it.val', z3.IntVal(1) - st.ghost['help']))]
        q = 4 if args[0].off == self.o['opt'] else 5
        return [('ret', st, P('@it.val%d' % q, z3.If(SET[q](s), s, z3.IntVal(-1))))]

    def o_end(self, ex, st, args, m, ins):
        if isinstance(self, Scan):
            return [('ret', st, P('@it.val', z3.IntVal(1)))]
        return [('ret', st, P('@it.val%d' % (4 if args[0].off == self.o['opt'] else 5), z3.IntVal(-1)))]

    def o_count(self, ex, st, args, m, ins):
        p, e = self.o_find(ex, st, args, m, ins)[0][2], self.o_end(ex, st, args, m, ins)[0][2]
        return [('ret', st, I(64, z3.If(p.idx == e.idx, z3.IntVal(0), z3.IntVal(1)), 0, 1))]

    def val_entry(self, ex, st, p):
        if p.base == '@it.val':
            raise Unsupported('following an iterator of the values')
        q = int(p.base[-1])
        ex.require(st, 'precondition', p.idx >= 0, 'an iterator is followed only inside the table')
        b = ex.uniq('@value')
        ex.new_obj(st, b, None, 72)
        self.sput(st, P(b), z3.IntVal(0) + p.idx)
        if q == 4:
            self.sput(st, P(b, 0, self.o['value_second']), VALUE[q](p.idx))
        else:
            self.lput(st, P(b, 0, self.o['value_second']), VALUE[q](p.idx))
        return P(b)

    def lput(self, st, p, t):
        st.w(p.base).cells[p.off] = (8, I(64, t, 0, BIG))

    def k_ctor(self, ex, st, args, m, ins):
        if len(args) > 1:
            self.lput(st, args[0], st.mem[args[1].base].cells[args[1].off][1].t)
        else:
            self.lput(st, args[0], z3.IntVal(0))
        return [('ret', st, None)]

    def v_size(self, ex, st, args, m, ins):
        n = st.ghost['nno'] if self.kept(args[0]) else self.nextra
        return [('ret', st, I(1, n == 0) if 'empty' in m.group(0)[-16:] else I(64, n, 0, 2 ** 31))]

    def kept(self, p):
        if p.base != self.g.base or p.off not in (self.o['non_opt'], self.o['extra']) or (isinstance(self, Scan) and p.off == self.o['extra']):
            raise Unsupported('not the arguments kept')
        return p.off == self.o['non_opt']

    def v_index(self, ex, st, args, m, ins):
        kept = self.kept(args[0])
        i = z3.IntVal(0) + ex.th.U(args[1])
        ex.require(st, 'precondition', And(i >= 0, i < (st.ghost['nno'] if kept else self.nextra)), 'an argument that was kept')
        b = ex.uniq('@kept')
        ex.new_obj(st, b, None, 32)
        if isinstance(self, Scan):
            self.order(st, i)
            self.sput(st, P(b), self.arg(SRC(i)))
        else:
            self.sput(st, P(b), (KEPT if kept else EXTRA)(i))
        return [('ret', st, P(b))]

    def order(self, st, i):
        n = st.ghost['nno']
        st.assume(And(SRC(i) >= 0, SRC(i) <= st.ghost['last'], z3.Implies(And(i >= 0, i + 1 < n), And(SRC(i) < SRC(i + 1), SRC(i + 1) <= st.ghost['last']))))

    def exit(self, ex, st, args, m, ins):
        raise Unsupported('exit')


class Scan(Opt):
    """initialize on an object that has not been initialised"""
    def __init__(self, mods, name, **opts):
        Opt.__init__(self, mods, name, **opts)
        h = self.h
        o = self.o
        self.argc = h.int('argc', 32, True, 0, 2 ** 31 - 1)
        self.n = self.argc.t - 1
        h.assume(self.init0.t == 0)
        self.A0 = z3.Array('argv', I_, I_)
        h.ex.new_arr(h.st, 'argv', 8, self.argc.t + 1, {0: self.A0})
        h.st.mem['argv'].ptrf = {0: '@args'}
        h.ex.pool(h.st, '@args') if hasattr(h.ex, 'pool') else None
        h.put(h.obj('argc.cell', None, 4), 0, self.argc, 4)
        self.strict, self.cleanup = h.int('registration check', 32, False), h.int('cleaning', 32, False)
        h.assume(Or(self.strict.t == h.off('strict'), self.strict.t == h.off('relaxed')))
        h.assume(Or(self.cleanup.t == h.off('none'), self.cleanup.t == h.off('cleanup')))
        for k in ('at', 'pos', 'extra', 'nno', 'help', 'listed'):
            h.st.ghost[k] = z3.IntVal(0)
        h.st.ghost['last'] = z3.IntVal(-1)
        self.event = self.taken
        h.ex.templates.append(self.invariants)
        h.ex.measures.append(self.measures)

    def first(self, st, q):
        if q in FIRST:
            s = self.arg(self.turn(st.ghost)[0])
            f = FIRST[q](LNAME(s) if q == 1 else SNAME(s))
            st.assume(And(0 <= f, f <= self.cnt[q]))

    def is_strict(self):
        return self.strict.t == self.h.off('strict')

    def delimits(self, s):
        return And(z3.Not(LONG(s)), z3.Not(SHORT(s)), self.active.t == 1, s == self.delim)

    def turn(self, g):
        """the argument whose turn it is, whether the delimiter has been met, is there one"""
        pend = And(g['extra'] == 0, g['at'] < self.n, self.delimits(self.arg(g['at'])))
        return z3.If(pend, g['at'] + 1, g['at']), z3.Or(g['extra'] == 1, pend), pend

    def reg(self, q, s):
        f = FIND[q](s)
        return And(f < self.cnt[q], f >= 0), f

    def want(self, st, kind, a):
        """conditions under which this is what the argument calls for; arguments consumed"""
        g = st.ghost
        at, ext, _ = self.turn(g)
        s = self.arg(at)
        ln, sn = LNAME(s), SNAME(s)
        lr, lf = self.reg(0, ln)
        sr, sf = self.reg(2, sn)
        lp, sp = FIRST[1](ln), FIRST[3](sn)
        npos = self.np[0] + self.np[1]
        here = And(at < self.n, z3.Not(ext))
        lo, sh = And(here, LONG(s)), And(here, z3.Not(LONG(s)), SHORT(s))
        po = And(here, z3.Not(LONG(s)), z3.Not(SHORT(s)))
        yes = lit('yes')
        one, two = z3.IntVal(1), z3.IntVal(2)
        nxt = self.arg(at + 1)
        if kind == 'extra':
            return [(And(at < self.n, ext), a[0] == s, one)]
        if kind == 'value':
            k, v = a
            return [(And(lo, lr), And(k == ln, z3.If(HV[0](lf), And(LHAS(s), v == LVAL(s)), v == yes)), one),
                    (And(sh, sr, HV[2](sf)), And(at + 1 < self.n, k == OPT[2](sf), v == nxt), two),
                    (And(sh, sr, z3.Not(HV[2](sf))), And(k == OPT[2](sf), v == yes), one),
                    (And(po, g['pos'] < npos), And(k == z3.If(g['pos'] < self.np[0], NAME[0](g['pos']), NAME[1](g['pos'] - self.np[0])), v == s), one)]
        if kind == 'prefix':
            k, x, v = a
            return [(And(lo, z3.Not(lr), lp < self.cnt[1]), And(k == KEY[1](lp), x == SUF[1](ln, lp), z3.If(HV[1](lp), And(LHAS(s), v == LVAL(s)), v == yes)), one),
                    (And(sh, z3.Not(sr), sp < self.cnt[3], HV[3](sp)), And(at + 1 < self.n, k == OPT[3](sp), x == SUF[3](sn, sp), v == nxt), two),
                    (And(sh, z3.Not(sr), sp < self.cnt[3], z3.Not(HV[3](sp))), And(k == OPT[3](sp), x == SUF[3](sn, sp), v == yes), one)]
        if kind == 'kept':
            return [(Or(And(lo, z3.Not(lr), lp == self.cnt[1], z3.Not(self.is_strict())), And(sh, z3.Not(sr), sp == self.cnt[3], z3.Not(self.is_strict())), And(po, g['pos'] >= npos)), a[0] == s, one)]
        if kind == 'error':
            return [(Or(And(lo, lr, HV[0](lf), z3.Not(LHAS(s))), And(lo, z3.Not(lr), lp < self.cnt[1], HV[1](lp), z3.Not(LHAS(s))), And(lo, z3.Not(lr), lp == self.cnt[1], self.is_strict()),
                        And(sh, sr, HV[2](sf), at + 1 == self.n), And(sh, z3.Not(sr), sp < self.cnt[3], HV[3](sp), at + 1 == self.n), And(sh, z3.Not(sr), sp == self.cnt[3], self.is_strict())), z3.BoolVal(True), one)]

    def taken(self, st, kind, *a):
        ex, g = self.h.ex, st.ghost
        at, ext, _ = self.turn(g)
        w = self.want(st, kind, a)
        what = {'value': 'a value is stored', 'prefix': 'a prefix option is stored', 'kept': 'an argument is kept', 'extra': 'an extra argument is stored'}[kind]
        ex.require(st, 'postcondition', Or(*[c for c, e, n in w]), what + ' only for an argument whose turn it is and that calls for it')
        ex.require(st, 'postcondition', And(*[z3.Implies(c, e) for c, e, n in w]), what + ' under the right name and as given')
        cons = z3.IntVal(0)
        for c, e, n in w:
            cons = z3.If(c, n, cons)
        po = w[-1][0] if kind == 'value' else z3.BoolVal(False)
        if kind == 'value':
            g['pos'] = z3.If(po, g['pos'] + 1, g['pos'])
            g['help'] = z3.If(a[0] == lit('help'), z3.IntVal(1), g['help'])
        if kind == 'kept':
            ex.require(st, 'postcondition', And(g['last'] < at), 'the arguments kept stay in order')
            st.assume(SRC(g['nno']) == at)
            g['nno'] = g['nno'] + 1
            g['last'] = at
        g['at'] = simp_(at + cons)
        g['extra'] = z3.If(ext, z3.IntVal(1), z3.IntVal(0))

    def invariants(self, ex, ctx):
        r = []
        G = {n: ('ghost', n) for n in ('at', 'pos', 'extra', 'nno', 'help', 'listed', 'last')}
        base = ctx.base

        def g(v):
            return {n: v[k] if k in v else base.ghost[n] for n, k in G.items()}
        ks = list(ctx.keys)
        if G['listed'] in ks:
            r.append(('scanned', lambda v: And(v[G['listed']] >= 0, v[G['listed']] <= self.n)))
            for k in ks:
                if isinstance(ctx.entry[k], I):
                    r.append(('scanned by %s' % (k[-1],), lambda v, k=k: v[k].t == v[G['listed']] + 1))
                    r.append(('scanned by %s from zero' % (k[-1],), lambda v, k=k: v[k].t == v[G['listed']]))
        if G['at'] in ks:
            r.append(('turn', lambda v: And(v[G['at']] >= 0, v[G['at']] <= self.n)))
            r.append(('flag', lambda v: And(g(v)['extra'] >= 0, g(v)['extra'] <= 1)))
            r.append(('kept', lambda v: And(g(v)['nno'] >= 0, g(v)['nno'] <= g(v)['at'], g(v)['last'] < g(v)['at'], g(v)['last'] >= -1, z3.Implies(g(v)['nno'] > 0, And(g(v)['last'] >= 0, SRC(0) >= 0, SRC(0) <= g(v)['last'])))))
            r.append(('positional', lambda v: And(g(v)['pos'] >= 0, g(v)['pos'] <= g(v)['at'], g(v)['pos'] <= self.np[0] + self.np[1])))
            r.append(('help', lambda v: And(g(v)['help'] >= 0, g(v)['help'] <= 1)))
        its = [k for k in ks if isinstance(ctx.entry[k], P) and ctx.entry[k].base == '@it.args']
        idx = [(k, lambda v, k=k: z3.IntVal(0) + v[k].idx) for k in its] + [(k, lambda v, k=k: v[k].t - 1) for k in ks if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (32, 64)] + [(k, lambda v, k=k: v[k].t) for k in ks if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (32, 64)]
        flags = [k for k in ks if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (1, 8)]
        tabs = [k for k in ks if isinstance(ctx.entry[k], P) and ctx.entry[k].base in ('@it.tab1', '@it.tab3')]
        b = lambda v: v.t if z3.is_bool(v.t) else v.t == 1

        def val(v, k):
            t = v[k].t
            return t if (z3.is_expr(t) and z3.is_bool(t)) else z3.IntVal(0) + t == 1
        if G['at'] in ks and not tabs:
            for k, f in idx:
                def here(v, f=f):
                    _, _, pend = self.turn(g(v))
                    return Or(f(v) == g(v)['at'], And(f(v) == g(v)['at'] + 1, pend))
                r.append(('turn of %s' % (k[-1],), here))
                for q in flags:
                    r.append(('flag %s by %s' % (q[-1], k[-1]), lambda v, q=q, f=f: val(v, q) == Or(g(v)['extra'] == 1, f(v) == g(v)['at'] + 1)))
            for k in ks:
                if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (32, 64):
                    r.append(('counter %s' % (k[-1],), lambda v, k=k: v[k].t == g(v)['pos']))
        for q in flags:
            r.append(('range of %s' % (q[-1],), lambda v, q=q: v[q].t if z3.is_bool(v[q].t) and False else (z3.BoolVal(True) if z3.is_expr(v[q].t) and z3.is_bool(v[q].t) else And(v[q].t >= 0, v[q].t <= 1))))
        for k in tabs:
            q = int(ctx.entry[k].base[-1])
            at0 = self.turn(base.ghost)[0]
            s = self.arg(at0)
            f = FIRST[q](LNAME(s) if q == 1 else SNAME(s))
            r.append(('place %s' % (k[-1],), lambda v, k=k, q=q: And(v[k].idx >= 0, v[k].idx <= self.cnt[q])))
            for fl in flags:
                def look(v, k=k, fl=fl, f=f, at0=at0, q=q):
                    return z3.If(val(v, fl), And(v[k].idx > f, Or(g(v)['at'] == at0 + 1, g(v)['at'] == at0 + 2)), And(v[k].idx <= f, g(v)['at'] == base.ghost['at'], g(v)['extra'] == base.ghost['extra']))

                def look2(v, k=k, fl=fl, f=f, at0=at0, q=q):
                    return z3.Implies(val(v, fl), And(g(v)['extra'] == 0, g(v)['at'] >= at0 + 1))
                r.append(('looked %s %s' % (k[-1], fl[-1]), look))
                r.append(('found %s %s' % (k[-1], fl[-1]), look2))
                for i in its:
                    r.append(('argument %s %s' % (i[-1], fl[-1]), lambda v, i=i, fl=fl: z3.If(val(v, fl), v[i].idx + 1 == g(v)['at'], v[i].idx == at0)))
                if not its:
                    r.append(('one argument %s' % (fl[-1],), lambda v, fl=fl: z3.Implies(val(v, fl), g(v)['at'] == at0 + 1)))
        r += self.cleaning(ex, ctx)
        return r

    def measures(self, ex, ctx):
        r = []
        for k in ctx.keys:
            v = ctx.entry[k]
            if isinstance(v, P) and v.base is not None and v.base.startswith('@it.'):
                n = self.bound(v)
                if n is not None:
                    r.append(('left behind %s' % (k[-1],), lambda v, k=k, n=n: n - v[k].idx))
        return r

    def cleaning(self, ex, ctx):
        """removing arguments: `c` are done, the array holds from there on what was given, moved by the number removed"""
        r = []
        ARR, ARGC = ('fld', 'argv', 0), ('cell', 'argc.cell', 0)
        ks = list(ctx.keys)
        if ARR not in ks:
            return r
        b, j = ctx.base, z3.Int('j!argv')
        ints = [k for k in ks if isinstance(ctx.entry[k], I) and k != ARGC]
        nno, last = b.ghost['nno'], b.ghost['last']
        B0 = b.mem['argv'].fields[0]
        S = z3.Select
        if ARGC in ks:
            a = lambda v: ex.th.S(v[ARGC])
            for k in ints:
                r.append(('removing at %s' % (k[-1],), lambda v, k=k: And(v[k].t >= 1, v[k].t <= a(v), a(v) <= self.argc.t, v[k].t - 1 <= nno)))
                r.append(('moved behind %s' % (k[-1],), lambda v, k=k: z3.ForAll([j], z3.Implies(And(j >= v[k].t, j < a(v)), S(v[ARR], j) == S(self.A0, j + self.argc.t - a(v))), patterns=[S(v[ARR], j)])))
                r.append(('kept before %s' % (k[-1],), lambda v, k=k: And(S(v[ARR], 0) == S(self.A0, 0), z3.Implies(And(K >= 0, K < v[k].t - 1), TEXT(S(v[ARR], 1 + K)) == self.arg(SRC(K))))))
                r.append(('to come after %s' % (k[-1],), lambda v, k=k: z3.Implies(v[k].t - 1 < nno, And(SRC(v[k].t - 1) >= v[k].t - 1 + self.argc.t - a(v), SRC(v[k].t - 1) <= last))))
                for q in ints:
                    if q != k:
                        r.append(('next kept %s %s' % (k[-1], q[-1]), lambda v, k=k, q=q: v[q].t == v[k].t - 1))
                        r.append(('next read %s %s' % (k[-1], q[-1]), lambda v, k=k, q=q: v[q].t == v[k].t))
        else:
            for k in ints:
                e = ctx.entry[k].t
                c = e - 1
                r.append(('moving %s' % (k[-1],), lambda v, k=k: And(v[k].t >= e, v[k].t <= ex.th.S(b.mem['argc.cell'].cells[0][1]))))
                r.append(('moved before %s' % (k[-1],), lambda v, k=k: z3.ForAll([j], S(v[ARR], j) == z3.If(And(j >= c, j < v[k].t - 1), S(B0, j + 1), S(B0, j)), patterns=[S(v[ARR], j)])))
                r.append(('moved before next %s' % (k[-1],), lambda v, k=k: z3.ForAll([j], S(v[ARR], j) == z3.If(And(j >= e, j < v[k].t), S(B0, j + 1), S(B0, j)), patterns=[S(v[ARR], j)])))
        return r

    def exit(self, ex, st, args, m, ins):
        g = st.ghost
        at, ext, _ = self.turn(g)
        ex.require(st, 'postcondition', And(at == self.n, Or(g['pos'] < self.np[0], g['help'] == 1)), 'the program ends only after all arguments were scanned, if a required one is missing or help is asked for')
        return []

    def run(self):
        h = self.h
        o = self.o
        h.ex.new_obj(h.st, '@dummy', None, 8)
        outs = h.only_ret(h.call('icl_core::config::Getopt::initialize(int&, char**, icl_core::config::Getopt::CommandLineCleaning, icl_core::config::Getopt::ParameterRegistrationCheck)',
                                 [self.g, P('argc.cell'), P('argv'), self.cleanup, self.strict]))
        for q in outs:
            g = q.st.ghost
            at, ext, _ = self.turn(g)
            ok = q.val.t if isinstance(q.val.t, bool) or z3.is_bool(q.val.t) else q.val.t == 1
            ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
            w = self.want(q.st, 'error', ())
            h.ex.require(q.st, 'postcondition', z3.Implies(z3.Not(ok), Or(self.argc.t == 0, w[0][0])), 'it fails only for an argument that cannot be accepted')
            h.ex.require(q.st, 'postcondition', z3.Implies(ok, And(self.argc.t > 0, at == self.n)), 'it succeeds only after every argument has been taken')
            h.ex.require(q.st, 'postcondition', z3.Implies(ok, And(g['pos'] >= self.np[0], g['help'] == 0)), 'it succeeds only if all required arguments are there and no help is asked for')
            ini = q.st.mem['getopt'].cells[o['initialized']][1].t
            h.ex.require(q.st, 'postcondition', z3.Implies(ok, z3.IntVal(0) + ini == 1), 'it is initialised then')
            h.ex.require(q.st, 'postcondition', z3.Implies(ok, self.sget(q.st, P('getopt', 0, o['program'])) == TEXT(z3.Select(self.A0, 0))), 'the name of the program is the first argument')
            c = h.ex.load(q.st, P('getopt', 0, o['argc']), ir.Ty('int', w=32))
            h.ex.require(q.st, 'postcondition', z3.Implies(ok, h.ex.th.S(c) == self.argc.t), 'the number of arguments given is noted')
            self.final(q, ok)
        return h

    def final(self, q, ok):
        h = self.h
        g = q.st.ghost
        n, arr = h.ex.th.S(q.st.mem['argc.cell'].cells[0][1]), q.st.mem['argv'].fields[0]
        clean = And(ok, self.cleanup.t == h.off('cleanup'))
        h.ex.require(q.st, 'postcondition', z3.If(clean, n == 1 + g['nno'], n == self.argc.t), 'the number of arguments left is the number of those kept')
        h.ex.require(q.st, 'postcondition', z3.Implies(z3.Not(clean), z3.Select(arr, K) == z3.Select(self.A0, K)), 'the arguments are left alone')
        h.ex.require(q.st, 'postcondition', z3.Implies(And(clean, K >= 0, K < g['nno']), TEXT(z3.Select(arr, 1 + K)) == self.arg(SRC(K))), 'the arguments left are those kept, in order')
        h.ex.require(q.st, 'postcondition', z3.Select(arr, 0) == z3.Select(self.A0, 0), 'the name of the program is left alone')
        h.npost += 1


def simp_(t):
    return z3.simplify(t)


def u_scan(mods):
    return Scan(mods, 'initialize').run()



class Again(Scan):
    """initialize on an object that has been initialised"""
    def __init__(self, mods):
        Scan.__init__(self, mods, 'initialize again')
        h = self.h
        h.st.pc[:] = [c for c in h.st.pc if not c.eq(self.init0.t == 0)]
        h.put(self.g, self.o['initialized'], I(8, 1, 1, 1), 1)
        h.assume(self.argc.t > 0)
        self.event = lambda st, *a: h.ex.require(st, 'postcondition', z3.BoolVal(False), 'nothing is stored a second time')

    def run(self):
        h = self.h
        was = dict(h.st.mem['getopt'].cells)
        for q in h.only_ret(h.call(INIT, [self.g, P('argc.cell'), P('argv'), self.cleanup, self.strict])):
            h.ex.require(q.st, 'postcondition', truth(q.val), 'a second initialisation succeeds')
            now = q.st.mem['getopt'].cells
            h.ex.require(q.st, 'postcondition', z3.BoolVal(all(k in now and (now[k][1] is was[k][1] or repr(now[k][1]) == repr(was[k][1])) for k in was)), 'a second initialisation changes nothing')
            self.final(q, z3.BoolVal(False))
        return h


INIT = 'icl_core::config::Getopt::initialize(int&, char**, icl_core::config::Getopt::CommandLineCleaning, icl_core::config::Getopt::ParameterRegistrationCheck)'


def truth(v):
    t = v.t
    return z3.BoolVal(t) if isinstance(t, bool) else t if z3.is_expr(t) and z3.is_bool(t) else z3.IntVal(0) + t == 1


def u_old(mods):
    k = Opt(mods, 'initialize, old form')
    h = k.h
    h.st.ghost['called'] = z3.IntVal(0)
    r = h.int('result', 8, False, 0, 1)
    rem = h.int('remove', 8, False, 0, 1)

    def inner(ex, st, args, m, ins):
        ok = args[0].base == 'getopt' and args[1].base == 'argc.cell' and args[2].base == 'argv'
        ex.require(st, 'postcondition', z3.BoolVal(ok), 'the same command line is parsed')
        ex.require(st, 'postcondition', And(ex.th.U(args[3]) == z3.If(rem.t == 1, z3.IntVal(h.off('cleanup')), z3.IntVal(h.off('none'))), ex.th.U(args[4]) == h.off('strict')), 'it is cleaned as asked for, and checked')
        st.ghost['called'] = st.ghost['called'] + 1
        return [('ret', st, I(1, r.t == 1))]
    h.ex.handlers.insert(0, (re.compile(re.escape(INIT)), inner, 'contract'))
    h.ex.hcache.clear()
    h.obj('argc.cell', None, 4)
    h.obj('argv', None, 8)
    for q in h.only_ret(h.call('icl_core::config::Getopt::initialize(int&, char**, bool)', [k.g, P('argc.cell'), P('argv'), I(1, rem.t == 1)])):
        h.ex.require(q.st, 'postcondition', And(q.st.ghost['called'] == 1, truth(q.val) == (r.t == 1)), 'it is parsed once and the result is reported')
        h.npost += 1
    return h


def parameter(k, name, symbolic=True):
    h, o = k.h, k.o
    p = h.obj(name, None, o['param'])
    v = {n: k.text(h.st, name + '.' + n) for n in ('p_option', 'p_short', 'p_help')}
    for n in v:
        k.sput(h.st, P(p.base, 0, o[n]), v[n])
    for n in ('p_value', 'p_prefix'):
        v[n] = h.int(name + '.' + n, 8, False, 0, 1)
        h.put(p, o[n], v[n], 1)
    return p, v


def u_add(mods):
    k = Opt(mods, 'add an option')
    h, o = k.h, k.o
    p, v = parameter(k, 'parameter')
    for q in range(4):
        h.st.ghost['tab%d' % q] = z3.IntVal(0)
    s = o['entry_second']

    def event(st, kind, q, e):
        ex = h.ex
        if kind != 'insert':
            raise Unsupported('nothing else is written here')
        at = lambda d: k.sget(st, P(e.base, 0, e.off + d))
        by = lambda d: ex.th.U(ex.load(st, P(e.base, 0, e.off + s + d), ir.Ty('int', w=8)))
        ex.require(st, 'postcondition', at(0) == v['p_option' if q < 2 else 'p_short'], 'an option is filed under its name')
        ex.require(st, 'postcondition', And(*[at(s + o[n]) == v[n] for n in ('p_option', 'p_short', 'p_help')], by(o['p_value']) == v['p_value'].t, by(o['p_prefix']) == v['p_prefix'].t), 'an option is filed as it is')
        ex.require(st, 'postcondition', (v['p_prefix'].t == 1) == z3.BoolVal(q in (1, 3)), 'prefix options are kept apart')
        if q >= 2:
            ex.require(st, 'postcondition', v['p_short'] != lit(''), 'there is no empty short name')
        st.ghost['tab%d' % q] = st.ghost['tab%d' % q] + 1
    k.event = event
    for q in h.only_ret(h.call('icl_core::config::Getopt::addParameter(icl_core::config::GetoptParameter const&)', [k.g, p])):
        g = q.st.ghost
        h.ex.require(q.st, 'postcondition', And(g['tab0'] + g['tab1'] == 1, g['tab2'] + g['tab3'] == z3.If(v['p_short'] == lit(''), z3.IntVal(0), z3.IntVal(1))), 'an option is filed once under each of its names')
        h.npost += 1
    return h


def u_add_positional(mods):
    k = Opt(mods, 'add a positional parameter')
    h, o = k.h, k.o
    p = h.obj('parameter', None, o['pos'])
    name, help_ = k.text(h.st, 'name'), k.text(h.st, 'help')
    k.sput(h.st, P(p.base, 0, o['q_name']), name)
    k.sput(h.st, P(p.base, 0, o['q_help']), help_)
    f = h.int('optional', 8, False, 0, 1)
    h.put(p, o['q_optional'], f, 1)
    h.st.ghost['added'] = z3.IntVal(0)

    def event(st, kind, q, e):
        ex = h.ex
        ex.require(st, 'postcondition', z3.BoolVal(kind == 'positional'), 'a positional parameter is added')
        ex.require(st, 'postcondition', And((f.t == 1) == z3.BoolVal(q == 1), k.sget(st, P(e.base, 0, e.off + o['q_name'])) == name), 'it is appended to those of its kind')
        st.ghost['added'] = st.ghost['added'] + 1
    k.event = event
    for q in h.only_ret(h.call('icl_core::config::Getopt::addParameter(icl_core::config::GetoptPositionalParameter const&)', [k.g, p])):
        h.ex.require(q.st, 'postcondition', q.st.ghost['added'] == 1, 'it is appended once')
        h.npost += 1
    return h


def u_lists(mods):
    r = []
    for cls, size, w in (('GetoptParameter', 'param', 'options'), ('GetoptPositionalParameter', 'pos', 'positional parameters')):
        k = Opt(mods, 'add a list of ' + w)
        h = k.h
        n = h.int('given', 64, False, 0, 2 ** 31)
        h.ex.new_arr(h.st, 'elems', k.o[size], n.t, {}, ro=True)
        v = h.obj('list', None, 24)
        h.put(v, 0, P('elems', z3.IntVal(0)), 8)
        h.put(v, 8, P('elems', n.t), 8)
        h.put(v, 16, P('elems', n.t), 8)
        h.st.ghost['added'] = z3.IntVal(0)

        def one(ex, st, args, m, ins):
            if args[0].base != 'getopt' or args[1].base != 'elems':
                raise Unsupported('unknown parameter')
            ex.require(st, 'postcondition', And(args[1].off == 0, args[1].idx == st.ghost['added'], st.ghost['added'] < n.t), 'the parameters are added in order, each once')
            st.ghost['added'] = st.ghost['added'] + 1
            return [('ret', st, None)]
        h.ex.handlers.insert(0, (re.compile(r'icl_core::config::Getopt::addParameter\(icl_core::config::' + cls + r' const&\)'), one, 'contract'))
        h.ex.handlers.insert(0, (re.compile(r'std::vector<icl_core::config::' + cls + r', .*'), lambda ex, st, a, m, i: 'inline', 'contract'))
        h.ex.hcache.clear()

        def tmpl(ex, ctx):
            r = []
            G = ('ghost', 'added')
            for q in ctx.keys:
                if isinstance(ctx.entry[q], P) and ctx.entry[q].base == 'elems':
                    r.append(('added up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx == v[G], v[G] <= n.t, v[G] >= 0)))
                if isinstance(ctx.entry[q], I):
                    r.append(('added up to %s' % (q[-1],), lambda v, q=q: And(v[q].t == v[G], v[G] <= n.t, v[G] >= 0)))
            return r
        h.ex.templates.append(tmpl)
        h.ex.measures.append(lambda ex, ctx: [('parameters left', lambda v: n.t - v[('ghost', 'added')])] if ('ghost', 'added') in ctx.keys else [])
        for q in h.only_ret(h.call('icl_core::config::Getopt::addParameter(icl_core::Vector<icl_core::config::%s> const&)' % cls, [k.g, v])):
            h.ex.require(q.st, 'postcondition', q.st.ghost['added'] == n.t, 'all parameters are added')
            h.npost += 1
        r.append(h)
    return r


def u_parameter(mods):
    k = Opt(mods, 'an option')
    h, o = k.h, k.o
    h.ex.new_obj(h.st, 'parameter', None, o['param'])
    a = {n: k.text(h.st, n) for n in ('option', 'short', 'help')}
    for n in a:
        k.sput(h.st, h.obj(n + '.given', None, 32), a[n])
    h.assume(And(LEN(a['option']) >= 0, (LEN(a['option']) == 0) == (a['option'] == lit(''))))
    f = h.int('prefix', 8, False, 0, 1)
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
    for q in h.only_ret(h.call('icl_core::config::GetoptParameter::GetoptParameter(%s, %s, %s, bool)' % (S, S, S), [P('parameter'), P('option.given'), P('short.given'), P('help.given'), I(1, f.t == 1)])):
        c = lambda n: k.sget(q.st, P('parameter', 0, o[n]))
        b = lambda n: h.ex.th.U(h.ex.load(q.st, P('parameter', 0, o[n]), ir.Ty('int', w=8)))
        colon = And(a['option'] != lit(''), LASTC(a['option']) == 58)
        h.ex.require(q.st, 'postcondition', And(c('p_option') == z3.If(colon, STEM(a['option']), a['option']), b('p_value') == z3.If(colon, z3.IntVal(1), z3.IntVal(0))), 'a colon at the end of the name, and only there, announces a value')
        h.ex.require(q.st, 'postcondition', And(c('p_short') == a['short'], c('p_help') == a['help'], b('p_prefix') == f.t), 'the option is kept as given')
        h.npost += 1
    return h


def u_ctor(mods):
    k = Opt(mods, 'constructor')
    h, o = k.h, k.o
    h.ex.new_obj(h.st, '@new', None, o['getopt'])
    h.st.ghost['added'] = z3.IntVal(0)

    def one(ex, st, args, m, ins):
        p = args[1]
        at = lambda n: k.sget(st, P(p.base, 0, p.off + o[n]))
        fl = lambda n: ex.th.U(ex.load(st, P(p.base, 0, p.off + o[n]), ir.Ty('int', w=8)))
        ex.require(st, 'postcondition', And(at('p_option') == lit('help'), at('p_short') == lit('h'), fl('p_value') == 0, fl('p_prefix') == 0), 'the option asking for help is known from the beginning')
        st.ghost['added'] = st.ghost['added'] + 1
        return [('ret', st, None)]

    def param(ex, st, args, m, ins):
        t = [k.sof(ex, st, a) for a in args[1:4]]
        colon = And(t[0] != lit(''), LASTC(t[0]) == 58)
        st.assume(And(*[LASTC(lit(s)) == (ord(s[-1]) if s else 0) for s in list(LIT)]))
        k.sput(st, P(args[0].base, 0, args[0].off + o['p_option']), z3.If(colon, STEM(t[0]), t[0]))
        k.sput(st, P(args[0].base, 0, args[0].off + o['p_short']), t[1])
        k.sput(st, P(args[0].base, 0, args[0].off + o['p_help']), t[2])
        w = st.w(args[0].base).cells
        w[args[0].off + o['p_value']] = (1, I(8, z3.If(colon, z3.IntVal(1), z3.IntVal(0)), 0, 1))
        w[args[0].off + o['p_prefix']] = (1, I(8, z3.If(truth(args[4]), z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return [('ret', st, None)]
    none = lambda ex, st, a, m, i: [('ret', st, None)]
    for rx, f in ((r'icl_core::config::Getopt::addParameter\(icl_core::config::GetoptParameter const&\)', one), (r'icl_core::config::GetoptParameter::GetoptParameter\(.*bool\)', param)):
        h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
    h.ex.handlers.insert(0, (re.compile(r'(?:icl_core::(?:Map|Vector|List)<.*|std::(?:map|vector|_Vector_base)<.*)::(?:Map|Vector|List|map|vector|_Vector_base|~.*)\(\)'), none, 'trusted'))
    h.ex.hcache.clear()
    for q in h.only_ret(h.call('icl_core::config::Getopt::Getopt()', [P('@new')])):
        b = lambda n: h.ex.th.U(h.ex.load(q.st, P('@new', 0, o[n]), ir.Ty('int', w=8)))
        h.ex.require(q.st, 'postcondition', And(b('initialized') == 0, b('extra_active') == 0, q.st.ghost['added'] == 1), 'nothing has been parsed, there are no extra arguments')
        h.npost += 1
    return h


def u_get(mods):
    r = []
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    G = 'icl_core::config::Getopt::'

    def start(name):
        k = Opt(mods, name)
        h = k.h
        k.nextra = h.int('extra', 64, False, 0, 2 ** 31).t
        h.st.ghost['nno'] = h.int('kept', 64, False, 0, 2 ** 31).t
        s = k.text(h.st, 'name')
        k.sput(h.st, h.obj('name', None, 32), s)
        h.ex.new_obj(h.st, 'out', None, 32)
        r.append(h)
        h.npost += 1
        return k, h, s
    i = None
    k, h, s = start('value of an option')
    for q in h.only_ret(h.call(G + 'paramOpt(' + S + ' const&) const', [P('out'), k.g, P('name')])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == z3.If(SET[4](s), VALUE[4](s), lit('')), 'the value stored, nothing otherwise')
    k, h, s = start('presence of an option')
    for q in h.only_ret(h.call(G + 'paramOptPresent(' + S + ' const&) const', [k.g, P('name')])):
        h.ex.require(q.st, 'postcondition', truth(q.val) == SET[4](s), 'an option is present exactly if a value is stored')
    k, h, s = start('presence of a prefix option')
    for q in h.only_ret(h.call(G + 'paramPrefixOptPresent(' + S + ' const&) const', [k.g, P('name')])):
        h.ex.require(q.st, 'postcondition', truth(q.val) == SET[5](s), 'a prefix option is present exactly if a value is stored')
    k, h, s = start('values of a prefix option')
    for q in h.only_ret(h.call(G + 'paramPrefixOpt(' + S + ' const&) const', [P('out'), k.g, P('name')])):
        h.ex.require(q.st, 'postcondition', q.st.mem['out'].cells[0][1].t == z3.If(SET[5](s), VALUE[5](s), z3.IntVal(0)), 'the values stored, none otherwise')
    k, h, s = start('an argument kept')
    i = h.int('index', 64, False)
    for q in h.only_ret(h.call(r'icl_core::config::Getopt::paramNonOpt(?:\[abi:cxx11\])?\(unsigned long\) const', [P('out'), k.g, i])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == z3.If(i.t < h.st.ghost['nno'], KEPT(i.t), lit('')), 'the argument of that number, nothing beyond')
    k, h, s = start('an extra argument')
    i = h.int('index', 64, False)
    h.assume(i.t < k.nextra)
    for q in h.only_ret(h.call(r'icl_core::config::Getopt::extraCmdParam(?:\[abi:cxx11\])?\(unsigned long\) const', [P('out'), k.g, i])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == EXTRA(i.t), 'the extra argument of that number')
    for f, what in (('paramNonOptCount', 'arguments kept'), ('extraCmdParamCount', 'extra arguments')):
        k, h, s = start('number of ' + what)
        for q in h.only_ret(h.call(G + f + '() const', [k.g])):
            h.ex.require(q.st, 'postcondition', h.ex.th.U(q.val) == (h.st.ghost['nno'] if f[0] == 'p' else k.nextra), 'the number of ' + what)
    k, h, s = start('extra arguments activated')
    for q in h.only_ret(h.call(G + 'activateExtraCmdParams(' + S + ' const&)', [k.g, P('name')])):
        h.ex.require(q.st, 'postcondition', And(h.ex.th.U(h.ex.load(q.st, P('getopt', 0, k.o['extra_active']), ir.Ty('int', w=8))) == 1, k.sget(q.st, P('getopt', 0, k.o['extra_delim'])) == s), 'the delimiter is noted')
    k, h, s = start('name of the program')
    for q in h.only_ret(h.call(r'icl_core::config::Getopt::programName(?:\[abi:cxx11\])?\(\) const', [P('out'), k.g])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == k.sget(h.st, P('getopt', 0, k.o['program'])), 'the name of the program')
    return r


UNITS = [('initialize', u_scan), ('initialize again', lambda mods: Again(mods).run()), ('initialize, old form', u_old), ('add an option', u_add), ('add a positional parameter', u_add_positional), ('lists of options', u_lists), ('an option', u_parameter), ('constructor', u_ctor), ('what was found', u_get)]
