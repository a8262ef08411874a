"""C31 configuration: every key has the value of the strongest source that names it, and everybody concerned is told

A text is a number (equal numbers, equal texts; as in C30). What there may be to store after parsing the command line is numbered: 0 the configuration file, then the registered parameters, the registered positional parameters and the options given as config-option, in order. Ghost: everything before `at` has been dealt with, `ver` is the version of the directory, `due` the key somebody has still to be told of (-1 if none).
NEED(v, g) says whether item g calls for storing a value at version v of the directory, NEXT(v, g) is the first one not before g that does. Every value stored has to be that of item NEXT(ver, at)."""
from .threadlib import *
from .c30 import Opt, lit, LIT, SELF, NONE, STR, KV, SET, VALUE, I_, BIG, truth, LASTC, STEM
from vcg.cstr import Region
import re

TUS = {'t': 'tu/config.cpp'}
NATIVE = {'src': 'native/config.cpp', 'sources': ['icl_core_config/' + n + '.cpp' for n in ('ConfigManager', 'Config', 'ConfigParameter', 'ConfigPositionalParameter', 'ConfigIterator', 'GetoptParameter', 'GetoptPositionalParameter', 'AttributeTree')] + ['icl_core/os_posix_string.cpp'], 'flags': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], 'libs': ['-lboost_regex', '-ltinyxml', '-lpthread']}
ASSUMPTIONS = ['std::string, std::map, std::list and boost::regex are trusted contracts (what an expression matches is left open, ".*" matches everything)',
               'TinyXML and the accessors, the loading and the path class of attribute tree files are trusted contracts (a file is a tree with any names, texts and comments); in parsing the command line and in setting a value the file is left open',
               'observers do not change the configuration; memory is available',
               'fewer than 2^31 parameters, keys and observers']
CAT = z3.Function('joined', I_, I_, I_)
NEED, NEXT = z3.Function('calls.for.a.value', I_, I_, z3.BoolSort()), z3.Function('next.item', I_, I_, I_)
HK = z3.Function('has.key', I_, I_, z3.BoolSort())
PF = {n: z3.Function('parameter.' + n, I_, I_) for n in ('p_option', 'p_key', 'p_default', 'q_name', 'q_key', 'q_default', 'k_key', 'k_value')}
OSET, OLEN = z3.Function('observed', I_, z3.BoolSort()), z3.Function('observers', I_, I_)
OBS = z3.Function('observer', I_, I_, I_)
DKEY, DVAL = z3.Function('entry.key', I_, I_), z3.Function('entry.value', I_, I_)
FIRSTM, MATCH = z3.Function('first.match', I_, I_, I_), z3.Function('matches', I_, I_, z3.BoolSort())
GROUP, GROUPS = z3.Function('group', I_, I_, I_, I_), z3.Function('groups', I_, I_)
S_ = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
CM = 'icl_core::config::ConfigManager::'
DIR = 'icl_core::KeyValueDirectory<' + S_ + '>::'
ITER = 'icl_core::KeyValueDirectoryIterator<' + S_ + '>::'
OB = r'icl_core::config::ConfigObserver ?\*'
for s_ in ('', 'configfile', '/configfile', 'config-option', 'dump-config', 'dc', 'o', 'c', 'configfile:', 'config-option:', '.*', '/', 'yes'):
    lit(s_)


class Cfg(Opt):
    def __init__(self, mods, name, directory='contract', **opts):
        h = self.h = H(mods['t'], name, [], opts=dict({'term': True, 'pairs': False}, **opts), extra=[])
        self.o = o = {n: h.off(n) for n in ('items', 'initialized', 'parameters', 'positionals', 'observers', 'manager', 'param', 'pos', 'gparam', 'gpos', 'keyvalue', 'iter', 'p_option', 'p_key', 'p_default', 'q_name', 'q_key', 'q_default', 'k_key', 'k_value', 'item_second',
                                            'i_directory', 'i_query', 'i_results', 'i_entry', 'i_reset')}
        self.slots, self.lasts, self.obs, self.event = {}, {}, {}, None
        MS = r'std::map<' + STR + r', ' + STR + r', .*>::'
        MO = r'std::map<' + STR + r', icl_core::List<' + OB + r' ?>, .*>::'
        LO = r'std::__cxx11::list<' + OB + r', .*>::'
        LK = r'std::__cxx11::list<' + KV + r', .*>::'
        VP = r'std::vector<icl_core::config::Config(?:Positional)?Parameter, .*>::'
        TI = r'std::_Rb_tree_(?:const_)?iterator<std::pair<' + STR + r' const, (?:' + STR + '|icl_core::List<' + OB + r' ?>) ?> ?>'
        LI = r'std::_List_(?:const_)?iterator<(?:' + OB + '|' + KV + r') ?>'
        SM = r'boost::sub_match<.*>::'
        G = r'icl_core::config::Getopt::'
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.s_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:operator=|assign)\(.*\)', self.s_assign), (STR + r'::empty\(\) const', self.s_empty), (STR + r'::(?:size|length)\(\) const', self.s_len),
             (STR + r'::(?:append|operator\+=)\(.*\)', self.s_append), (STR + r'::c_str\(\) const', SELF),
             (r'(?:.* )?std::operator\+<char, .*', self.s_plus), (r'(?:bool )?std::operator(==|!=)<char, .*', self.s_eq), (STR + r'::compare\(.*\) const', self.s_cmp), (r'(?:.* )?boost::lexical_cast<' + STR + ', ' + STR + r' ?>\(.*\)', self.s_same),
             (MS + r'find\(.*\)(?: const)?', self.d_find), (MS + r'c?end\(\)(?: const)?', self.d_end), (MS + r'c?begin\(\)(?: const)?', self.d_begin), (MS + r'count\(.*\) const', self.d_count), (MS + r'operator\[\]\(.*\)', self.d_index), (MS + r'(?:insert|emplace|at|erase|size|clear).*', None), (r'(?:.* )?' + MS + r'(?:insert|emplace|insert_or_assign)<.*', None),
             (MO + r'find\(.*\)(?: const)?', self.m_find), (MO + r'c?begin\(\)(?: const)?', self.m_begin), (MO + r'c?end\(\)(?: const)?', self.m_end), (MO + r'operator\[\]\(.*\)', self.m_index), (MO + r'(?:insert|emplace|at|erase|size|clear|count).*', None),
             (r'icl_core::List<' + OB + r' ?>::(?:List|~List)\(\)', self.l_ctor), (LO + r'(?:list|~list)\(\)', self.l_ctor), (r'std::__cxx11::_List_base<.*>::~_List_base\(\)', NONE), (LO + r'c?begin\(\)(?: const)?', self.l_begin), (LO + r'c?end\(\)(?: const)?', self.l_end),
             (LO + r'push_back\(.*\)', self.l_push), (LO + r'remove\(.*\)', self.l_remove), (r'(?:.* )?' + LO + r'insert<.*', self.l_insert), (LO + r'(size|empty)\(\) const', self.l_size), (r'icl_core::List<' + OB + r' ?>::List\(.+\)', None), (LO + r'list\(.+\)', None),
             (LK + r'c?begin\(\)(?: const)?', self.k_begin), (LK + r'c?end\(\)(?: const)?', self.k_end), (LK + r'(?:size|empty)\(\) const', None), (r'icl_core::List<' + KV + r' ?>::(?:~List|List)\(.*\)', NONE),
             (LI + r'::_List_(?:const_)?iterator\(\)', NONE), (TI + r'::_Rb_tree_(?:const_)?iterator\(\)', NONE), (LI + r'::_List_const_iterator\(.+\)', self.it_copy), (TI + r'::_Rb_tree_const_iterator\(.+\)', self.it_copy),
             (LI + r'::operator(\+\+|--)\((int)?\)', self.it_step), (TI + r'::operator(\+\+|--)\((int)?\)', self.it_step), (LI + r'::operator(?:\*|->)\(\) const', self.l_deref), (TI + r'::operator(?:\*|->)\(\) const', self.m_deref),
             (r'(?:bool )?std::operator(==|!=)\(std::_(?:List|Rb_tree).*', self.it_eq), (LI + r'::operator(==|!=)\(.*\) const', self.it_eq), (TI + r'::operator(==|!=)\(.*\) const', self.it_eq),
             (VP + r'(?:c?begin|c?end|size|empty|operator\[\])\(.*\)(?: const)?', lambda *a: 'inline'), (VP + r'push_back\(.*\)', self.v_push),
             (r'boost::basic_regex<.*>::basic_regex(?:<.*>)?\(.*\)', self.r_ctor), (r'boost::basic_regex<.*>::~basic_regex\(\)', NONE), (r'bool boost::regex_(match|search)<.*', self.r_match), (r'boost::match_results<.*>::(?:match_results|~match_results)\(.*\)', NONE),
             (r'boost::match_results<.*>::operator\[\]\(int\) const', self.r_sub), (r'boost::match_results<.*>::size\(\) const', self.r_size), (SM + r'(?:operator std::.*|str)\(\) const', self.sub_str), (SM + r'operator .*\(\) const', self.sub_str),
             (r'(?:.* )?std::operator<< ?<.*', SELF), (r'std::(?:ostream|basic_ostream<.*>)::operator<<\(.*\)', SELF), (r'(?:.* )?std::endl<.*', SELF), (r'std::(?:__)?new_allocator<.*|std::allocator<.*', NONE),
             (r'@?vcg_value_changed', self.told)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f or self.outside, 'trusted'))
        C = [(G + r'instance\(\)', lambda ex, st, a, m, i: [('ret', st, P('@getopt'))]), (G + r'paramOptPresent\(.*\) const', self.g_present), (G + r'paramOpt(?:\[abi:cxx11\])?\(.*\) const', self.g_value), (G + r'paramPrefixOpt\(.*\) const', self.g_prefix), (G + r'addParameter\((?:icl_core::Vector<)?icl_core::config::Getopt(Positional)?Parameter.*\)', self.g_add),
             (re.escape(CM) + r'dump\(\) const', NONE)]
        if directory == 'contract':
            C += [(r'icl_core::KeyValueDirectory<.*>::hasKey\(.*\) const', self.has_key), (r'icl_core::KeyValueDirectory<.*>::insert\(.*\)', self.insert), (re.escape(CM) + r'notify\(.*\) const', self.notify), (re.escape(CM) + r'load\(.*\)', self.load), (re.escape(CM) + r'instance\(\)', lambda ex, st, a, m, i: [('ret', st, P('manager'))])]
        for rx, f in C:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        h.ex.new_obj(h.st, '@lit', None, 8)
        h.ex.new_obj(h.st, '@getopt', None, 8)
        vt = h.ex.new_obj(h.st, '@vt', None, 64)
        for q in range(0, 64, 8):
            h.st.w('@vt').cells[q] = (8, P('@vcg_value_changed'))
        g = '@_ZN8icl_core6config21CONFIGFILE_CONFIG_KEYE'
        if g in h.ex.mod.globals:
            h.ex.glob(h.st, g)
            t, init, const = h.ex.mod.globals[g]
            h.ex.init_cells(h.st, h.st.mem[g], 0, t, init)
        self.nd = h.int('entries', 64, False, 0, 2 ** 31).t
        self.no = h.int('observed.keys', 64, False, 0, 2 ** 31).t
        self.m = h.obj('manager', None, o['manager'])
        self.init0 = h.int('initialized', 8, False, 0, 1)
        h.put(self.m, o['initialized'], self.init0, 1)
        for k, v in (('ver', 0), ('due', -1), ('at', 0), ('loaded', 0), ('told', 0), ('c1', 0), ('c2', 0), ('put', 0)):
            h.st.ghost[k] = z3.IntVal(v)

    # ---- texts
    def sget(self, st, p):
        if isinstance(p, P) and p.base in ('params', 'positional'):
            n = {self.o[n]: n for n in (('p_option', 'p_key', 'p_default') if p.base == 'params' else ('q_name', 'q_key', 'q_default'))}.get(p.off)
            if n is None:
                raise Unsupported('another part of a parameter')
            i = z3.IntVal(0) + p.idx
            self.item(st, (1 if p.base == 'params' else 1 + self.n1) + i)
            st.assume(And(PF[n](i) >= 0, PF[n](i) < BIG))
            return PF[n](i)
        return Opt.sget(self, st, p)

    def cstr(self, ex, st, p):
        t = self.sget(st, p)
        return t if t is not None else Opt.cstr(self, ex, st, p)

    def s_same(self, ex, st, args, m, ins):
        self.sput(st, args[0], self.sof(ex, st, args[1]))
        return [('ret', st, None)]

    def cat(self, a, b):
        if a.eq(lit('')):
            return b
        if b.eq(lit('')):
            return a
        if z3.is_app(a) and a.decl().eq(CAT):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        return CAT(a, b)

    def s_plus(self, ex, st, args, m, ins):
        if len(args) != 3:
            raise Unsupported('concatenation')
        self.sput(st, args[0], self.bounded(st, self.cat(self.sof(ex, st, args[1]), self.sof(ex, st, args[2]))))
        return [('ret', st, None)]

    def bounded(self, st, t):
        st.assume(And(t >= 0, t < BIG))
        return t

    def s_append(self, ex, st, args, m, ins):
        if len(args) != 2:
            raise Unsupported('appending a part of a text')
        self.sput(st, args[0], self.bounded(st, self.cat(self.sof(ex, st, args[0]), self.sof(ex, st, args[1]))))
        return [('ret', st, args[0])]

    # ---- the directory as a map
    def isdir(self, p):
        if not isinstance(p, P) or p.base != self.m.base or p.off != self.o['items']:
            raise Unsupported('not the directory')

    def has(self, st, s):
        g = st.ghost
        return Or(HK(0, s), And(g['put'] == 1, s == g['due'])) if 'put' in g else HK(0, s)

    def d_find(self, ex, st, args, m, ins):
        self.isdir(args[0])
        s = self.sof(ex, st, args[1])
        return [('ret', st, P('@it.key', z3.If(self.has(st, s), s, z3.IntVal(-1))))]

    def d_end(self, ex, st, args, m, ins):
        self.isdir(args[0])
        return [('ret', st, P('@it.key', z3.IntVal(-1)))]

    def d_begin(self, ex, st, args, m, ins):
        self.isdir(args[0])
        return [('ret', st, P('@it.dir', z3.IntVal(0)))]

    def d_count(self, ex, st, args, m, ins):
        self.isdir(args[0])
        return [('ret', st, I(64, z3.If(self.has(st, self.sof(ex, st, args[1])), z3.IntVal(1), z3.IntVal(0)), 0, 1))]

    def d_index(self, ex, st, args, m, ins):
        self.isdir(args[0])
        b = ex.uniq('@slot')
        ex.new_obj(st, b, None, 32)
        s = self.sof(ex, st, args[1])
        self.sput(st, P(b), self.bounded(st, z3.If(HK(0, s), DVAL(s), lit(''))))
        ex.require(st, 'postcondition', Or(HK(0, s), st.ghost['put'] == 0), 'one key is stored')
        self.slots[b] = s
        st.ghost['put'] = z3.IntVal(1)
        st.ghost['due'] = s
        return [('ret', st, P(b))]

    def on(self, st, *a):
        if self.event is None:
            raise Unsupported('nothing is written here')
        self.event(st, *a)

    # ---- iterators
    def bound(self, p):
        return {'@it.opt': getattr(self, 'n3', None), '@it.map': self.no, '@it.dir': self.nd}.get(p.base, self.local_n if p.base == '@it.local' else None)

    def it_step(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        j = p.idx + 1 if m.group(1) == '++' else p.idx - 1
        n = self.bound(p)
        if p.base == '@it.local':
            n = st.ghost['c1'] + st.ghost['c2']
        if n is None and p.base.startswith('@it.of'):
            n = OLEN(self.lists[p.base])
        if n is None:
            raise Unsupported('stepping through something else')
        ex.require(st, 'precondition', And(j >= 0, j <= n), 'an iterator moves only inside its container')
        ex.store(st, args[0], ir.Ty('ptr'), P(p.base, j))
        return [('ret', st, p if m.group(2) else args[0])]
    local_n = None
    lists = {}

    # ---- the table of observers
    def istab(self, p):
        if not isinstance(p, P) or p.base != self.m.base or p.off != self.o['observers']:
            raise Unsupported('not the table of observers')

    def m_find(self, ex, st, args, m, ins):
        self.istab(args[0])
        s = self.sof(ex, st, args[1])
        return [('ret', st, P('@it.obs', z3.If(OSET(s), s, z3.IntVal(-1))))]

    def m_begin(self, ex, st, args, m, ins):
        self.istab(args[0])
        return [('ret', st, P('@it.map', z3.IntVal(0)))]

    def m_end(self, ex, st, args, m, ins):
        self.istab(args[0])
        return [('ret', st, P('@it.map', self.no))]

    def it_eq(self, ex, st, args, m, ins):
        a, b = self.pos(ex, st, args[0]), self.pos(ex, st, args[1])
        for x, y in ((a, b), (b, a)):
            if x.base == '@it.dir' and y.base == '@it.key':
                ex.require(st, 'precondition', y.idx == -1, 'an iterator is compared with the end')
                e = x.idx == self.nd
                return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]
            if x.base == '@it.obs' and y.base == '@it.map':
                ex.require(st, 'precondition', y.idx == self.no, 'an iterator found is compared with the end')
                e = x.idx == -1
                return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]
        return Opt.it_eq(self, ex, st, args, m, ins)

    def m_index(self, ex, st, args, m, ins):
        self.istab(args[0])
        return [('ret', st, P(self.olist(ex, st, self.sof(ex, st, args[1]))))]

    def olist(self, ex, st, s, off=0, size=24):
        b = ex.uniq('@olist')
        ex.new_obj(st, b, None, size)
        st.w(b).cells[off] = (24, Abs('olist', of=s))
        return b

    def whose(self, st, p):
        c = st.mem[p.base].cells.get(p.off) if isinstance(p, P) and p.base in st.mem else None
        if c is None or not isinstance(c[1], Abs):
            raise Unsupported('unknown list')
        return c[1].of

    def m_deref(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        o = self.o
        if p.base == '@it.key':
            ex.require(st, 'precondition', p.idx >= 0, 'an iterator is followed only inside the directory')
            b = ex.uniq('@item')
            ex.new_obj(st, b, None, 64)
            s = z3.IntVal(0) + p.idx
            self.sput(st, P(b), s)
            self.sput(st, P(b, 0, o['item_second']), self.bounded(st, DVAL(s)))
            return [('ret', st, P(b))]
        if p.base == '@it.dir':
            i = z3.IntVal(0) + p.idx
            ex.require(st, 'precondition', And(i >= 0, i < self.nd), 'an iterator is followed only inside the directory')
            b = ex.uniq('@item')
            ex.new_obj(st, b, None, 64)
            self.sput(st, P(b), self.bounded(st, DKEY(i)))
            self.sput(st, P(b, 0, o['item_second']), self.bounded(st, DVAL(DKEY(i))))
            return [('ret', st, P(b))]
        if p.base == '@it.obs':
            ex.require(st, 'precondition', p.idx >= 0, 'an iterator is followed only inside the table')
            w = p.idx
            if not (z3.is_expr(w) and z3.is_app_of(w, z3.Z3_OP_ITE) and w.arg(2).eq(z3.IntVal(-1))):
                raise Unsupported('an iterator found in another way')
            w = w.arg(1)
            b = self.olist(ex, st, w, o['item_second'], 32 + 24)
            self.sput(st, P(b), w)
            return [('ret', st, P(b))]
        if p.base == '@it.map':
            ex.require(st, 'precondition', And(p.idx >= 0, p.idx < self.no), 'an iterator is followed only inside the table')
            return [('ret', st, P(self.olist(ex, st, ('place', z3.IntVal(0) + p.idx), o['item_second'], 32 + 24)))]
        raise Unsupported('unknown iterator')

    # ---- lists of observers
    def l_ctor(self, ex, st, args, m, ins):
        if '~' not in m.group(0):
            st.w(args[0].base).cells[args[0].off] = (24, Abs('olist', of='local'))
        return [('ret', st, None)]

    def l_begin(self, ex, st, args, m, ins):
        return [('ret', st, self.l_it(ex, st, self.whose(st, args[0]), 0))]

    def l_end(self, ex, st, args, m, ins):
        return [('ret', st, self.l_it(ex, st, self.whose(st, args[0]), 1))]

    def l_size(self, ex, st, args, m, ins):
        w = self.whose(st, args[0])
        n = st.ghost['c1'] + st.ghost['c2'] if isinstance(w, str) else OLEN(w[1] + 2 ** 42) if isinstance(w, tuple) else OLEN(w)
        st.assume(And(n >= 0, n < 2 ** 31))
        return [('ret', st, I(64, n, 0, 2 ** 31) if m.group(1) == 'size' else I(1, n == 0))]

    def l_it(self, ex, st, w, end):
        if isinstance(w, str):
            return P('@it.local', st.ghost['c1'] + st.ghost['c2'] if end else z3.IntVal(0))
        if isinstance(w, tuple):
            raise Unsupported('going through the observers of some key')
        b = '@it.of.%s' % w.sexpr().replace('\n', ' ')
        self.lists = dict(self.lists, **{b: w})
        st.assume(And(OLEN(w) >= 0, OLEN(w) < 2 ** 31))
        return P(b, OLEN(w) if end else z3.IntVal(0))

    def l_insert(self, ex, st, args, m, ins):
        a = [x for x in args if isinstance(x, P)]
        a = a[-4:] if len(a) > 4 else a
        if len(a) != 4:
            raise Unsupported('inserting something else')
        if self.whose(st, a[0]) != 'local':
            raise Unsupported('inserting into another list')
        at, f, l = [self.pos(ex, st, x) for x in a[1:]]
        if at.base != '@it.local' or f.base != l.base or f.base not in self.lists:
            raise Unsupported('inserting something else')
        w = self.lists[f.base]
        g = st.ghost
        ex.require(st, 'postcondition', And(at.idx == g['c1'] + g['c2'], f.idx == 0, l.idx == OLEN(w)), 'all observers are appended')
        if w.eq(lit('')) or z3.simplify(w == lit('')).eq(z3.BoolVal(True)):
            g['c2'] = g['c2'] + OLEN(w)
        else:
            ex.require(st, 'postcondition', And(w == self.key, g['c1'] == 0, g['c2'] == 0), 'the observers of the key')
            g['c1'] = g['c1'] + OLEN(w)
        return [('ret', st, P('@it.local', z3.IntVal(0)))]

    def l_push(self, ex, st, args, m, ins):
        p = ex.load(st, args[1], ir.Ty('ptr'))
        self.on(st, 'register', self.whose(st, args[0]), p)
        return [('ret', st, None)]

    def l_remove(self, ex, st, args, m, ins):
        p = ex.load(st, args[1], ir.Ty('ptr'))
        self.on(st, 'remove', self.whose(st, args[0]), p)
        return [('ret', st, None)]

    def observer(self, ex, st, t):
        b = ex.uniq('@observer')
        ex.new_obj(st, b, None, 8)
        st.w(b).cells[0] = (8, P('@vt'))
        self.obs[b] = t
        c = ex.uniq('@cell')
        ex.new_obj(st, c, None, 8)
        st.w(c).cells[0] = (8, P(b))
        return P(c)

    def l_deref(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        g = st.ghost
        i = z3.IntVal(0) + p.idx
        if p.base == '@it.opt':
            ex.require(st, 'precondition', And(i >= 0, i < self.n3), 'an iterator is followed only inside the list')
            b = ex.uniq('@kv')
            ex.new_obj(st, b, None, self.o['keyvalue'])
            self.item(st, 1 + self.n1 + self.n2 + i)
            for n in ('k_key', 'k_value'):
                self.sput(st, P(b, 0, self.o[n]), self.bounded(st, PF[n](i)))
            return [('ret', st, P(b))]
        if p.base == '@it.local':
            ex.require(st, 'precondition', And(i >= 0, i < g['c1'] + g['c2']), 'an iterator is followed only inside the list')
            return [('ret', st, self.observer(ex, st, z3.If(i < g['c1'], OBS(self.key, i), OBS(lit(''), i - g['c1']))))]
        if p.base in self.lists:
            w = self.lists[p.base]
            ex.require(st, 'precondition', And(i >= 0, i < OLEN(w)), 'an iterator is followed only inside the list')
            return [('ret', st, self.observer(ex, st, OBS(w, i)))]
        raise Unsupported('unknown iterator')

    def told(self, ex, st, args, m, ins):
        t = self.obs.get(args[0].base) if isinstance(args[0], P) else None
        if t is None:
            raise Unsupported('unknown observer')
        self.on(st, 'told', t, self.sof(ex, st, args[1]))
        return [('ret', st, None)]

    # ---- options given
    def k_begin(self, ex, st, args, m, ins):
        return [('ret', st, P('@it.opt', z3.IntVal(0)))]

    def k_end(self, ex, st, args, m, ins):
        return [('ret', st, P('@it.opt', self.n3))]

    def v_push(self, ex, st, args, m, ins):
        self.on(st, 'push', args[0], args[1])
        return [('ret', st, None)]

    # ---- contracts of the command line (C30)
    def g_present(self, ex, st, args, m, ins):
        s = self.sof(ex, st, args[-1])
        if s.eq(lit('configfile')) and hasattr(self, 'n1'):
            self.item(st, z3.IntVal(0))
        return [('ret', st, I(1, SET[4](s)))]

    def g_value(self, ex, st, args, m, ins):
        s = self.sof(ex, st, args[2])
        self.sput(st, args[0], self.bounded(st, z3.If(SET[4](s), VALUE[4](s), lit(''))))
        return [('ret', st, None)]

    def g_prefix(self, ex, st, args, m, ins):
        ex.require(st, 'postcondition', self.sof(ex, st, args[2]) == lit('config-option'), 'the values given on the command line are those of config-option')
        return [('ret', st, None)]

    def g_add(self, ex, st, args, m, ins):
        self.on(st, 'option', args[0], args[1])
        return [('ret', st, None)]

    # ---- contracts of the directory and of this class
    def mine(self, p):
        if not isinstance(p, P) or p.base != self.m.base:
            raise Unsupported('another directory')

    def has_key(self, ex, st, args, m, ins):
        self.mine(args[0])
        return [('ret', st, I(1, HK(st.ghost['ver'], self.sof(ex, st, args[1]))))]

    def insert(self, ex, st, args, m, ins):
        self.mine(args[0])
        s = self.sof(ex, st, args[1])
        new = z3.Not(HK(st.ghost['ver'], s))
        self.on(st, 'stored', s, self.sof(ex, st, args[2]))
        st.ghost['ver'] = st.ghost['ver'] + 1
        return [('ret', st, I(1, new))]

    def notify(self, ex, st, args, m, ins):
        self.mine(args[0])
        ex.require(st, 'postcondition', And(st.ghost['due'] >= 0, st.ghost['due'] == self.sof(ex, st, args[1])), 'the observers are told of the key just stored')
        st.ghost['due'] = z3.IntVal(-1)
        return [('ret', st, None)]

    def load(self, ex, st, args, m, ins):
        self.mine(args[0])
        self.on(st, 'load', self.sof(ex, st, args[1]))
        st.ghost['ver'] = st.ghost['ver'] + 1
        ok = ex.th.fresh(ex.uniq('could be read'), 8)
        st.assume(And(ok.t >= 0, ok.t <= 1))
        st.ghost['loaded'] = z3.If(ok.t == 1, z3.IntVal(2), z3.IntVal(1))
        return [('ret', st, I(1, ok.t == 1))]

    # ---- expressions: the results of a match remember text and expression
    def r_ctor(self, ex, st, args, m, ins):
        self.sput(st, args[0], self.sof(ex, st, args[1]))
        return [('ret', st, None)]

    def r_match(self, ex, st, args, m, ins):
        if len(args) != 4 or m.group(1) != 'match':
            raise Unsupported('regex_match without results')
        s, rx = self.sget(st, args[0]), self.sget(st, args[2])
        if s is None or rx is None:
            raise Unsupported('regex_match of something else')
        w = st.w(args[1].base).cells
        w[args[1].off] = (8, I(64, s, 0, BIG))
        w[args[1].off + 8] = (8, I(64, rx, 0, BIG))
        return [('ret', st, I(1, MATCH(rx, s)))]

    def res(self, st, p):
        c = st.mem[p.base].cells
        if p.off not in c or p.off + 8 not in c:
            raise Unsupported('no results')
        return c[p.off][1].t, c[p.off + 8][1].t

    def r_size(self, ex, st, args, m, ins):
        s, rx = self.res(st, args[0])
        st.assume(And(GROUPS(rx) >= 1, GROUPS(rx) < 2 ** 31))
        return [('ret', st, I(64, z3.If(MATCH(rx, s), GROUPS(rx), z3.IntVal(0)), 0, 2 ** 31))]

    def r_sub(self, ex, st, args, m, ins):
        s, rx = self.res(st, args[0])
        b = ex.uniq('@sub')
        ex.new_obj(st, b, None, 32)
        self.sput(st, P(b), self.bounded(st, GROUP(s, rx, ex.th.S(args[1]))))
        return [('ret', st, P(b))]

    def item(self, st, g):
        pass


class Init(Cfg):
    def __init__(self, mods, name):
        Cfg.__init__(self, mods, name)
        h, o = self.h, self.o
        self.n1, self.n2, self.n3 = [h.int(n, 64, False, 0, 2 ** 31).t for n in ('parameters', 'positional.parameters', 'options.given')]
        for b, n, f, sz in (('params', self.n1, 'parameters', 'param'), ('positional', self.n2, 'positionals', 'pos')):
            h.ex.new_arr(h.st, b, o[sz], n, {}, ro=True)
            h.put(self.m, o[f], P(b, z3.IntVal(0)), 8)
            h.put(self.m, o[f] + 8, P(b, n), 8)
            h.put(self.m, o[f] + 16, P(b, n), 8)
        self.event = self.happens
        h.ex.templates.append(self.invariants)
        h.ex.measures.append(self.measures)

    def total(self):
        return 1 + self.n1 + self.n2 + self.n3

    def parts(self, g):
        return g == 0, And(g >= 1, g < 1 + self.n1), And(g >= 1 + self.n1, g < 1 + self.n1 + self.n2), g - 1, g - 1 - self.n1, g - 1 - self.n1 - self.n2

    def want(self, v, g):
        """does it call for a value; its key and value"""
        f, p, q, i, j, k = self.parts(g)
        cf = lit('configfile')
        on = lambda n: SET[4](n)
        need = z3.If(f, on(cf), z3.If(p, Or(on(PF['p_option'](i)), And(z3.Not(HK(v, PF['p_key'](i))), PF['p_default'](i) != lit(''))), z3.If(q, Or(on(PF['q_name'](j)), And(z3.Not(HK(v, PF['q_key'](j))), PF['q_default'](j) != lit(''))), z3.BoolVal(True))))
        key = z3.If(f, lit('/configfile'), z3.If(p, PF['p_key'](i), z3.If(q, PF['q_key'](j), PF['k_key'](k))))
        val = z3.If(f, VALUE[4](cf), z3.If(p, z3.If(on(PF['p_option'](i)), VALUE[4](PF['p_option'](i)), PF['p_default'](i)), z3.If(q, z3.If(on(PF['q_name'](j)), VALUE[4](PF['q_name'](j)), PF['q_default'](j)), PF['k_value'](k))))
        return need, key, val

    def item(self, st, g):
        v = st.ghost['ver']
        need, _, _ = self.want(v, g)
        st.assume(NEXT(v, g) == z3.If(g >= self.total(), g, z3.If(need, g, NEXT(v, g + 1))))
        # only parameters with a key are listed (obligation of adding one)
        f, p, q, i, j, k = self.parts(g)
        st.assume(And(z3.Implies(p, PF['p_key'](i) != lit('')), z3.Implies(q, PF['q_key'](j) != lit(''))))

    def happens(self, st, kind, *a):
        ex, g = self.h.ex, st.ghost
        if kind == 'load':
            ex.require(st, 'postcondition', And(g['loaded'] == 0, g['at'] == 0, SET[4](lit('configfile')), a[0] == VALUE[4](lit('configfile')), g['due'] == -1), 'the configuration file named is read once, before anything is stored')
            return
        if kind != 'stored':
            raise Unsupported('something else happens')
        k, v = a
        e = NEXT(g['ver'], g['at'])
        self.item(st, g['at'])
        _, key, val = self.want(g['ver'], e)
        ex.require(st, 'postcondition', And(e < self.total(), g['due'] == -1), 'a value is stored only if something calls for it, after all were told of the one before')
        ex.require(st, 'postcondition', And(k == key, v == val), 'the value is stored under its key and comes from the strongest source')
        ex.require(st, 'postcondition', z3.Implies(SET[4](lit('configfile')), g['loaded'] == 2), 'the configuration file has been read before')
        g['at'] = e + 1
        g['due'] = k

    def invariants(self, ex, ctx):
        r = []
        G = lambda v, n: v[('ghost', n)] if ('ghost', n) in v else ctx.base.ghost[n]
        for k in ctx.keys:
            v = ctx.entry[k]
            b = None
            if isinstance(v, P):
                b = {'params': (z3.IntVal(1), self.n1), 'positional': (1 + self.n1, self.n2), '@it.opt': (1 + self.n1 + self.n2, self.n3)}.get(v.base)
            if b is None:
                continue
            s, n = b
            r.append(('items before %s' % (k[-1],), lambda v, k=k, s=s: NEXT(G(v, 'ver'), G(v, 'at')) == NEXT(G(v, 'ver'), s + v[k].idx)))
            r.append(('place of %s' % (k[-1],), lambda v, k=k, n=n: And(v[k].idx >= 0, v[k].idx <= n)))
        r.append(('all are told', lambda v: G(v, 'due') == -1))
        r.append(('file', lambda v: z3.Implies(SET[4](lit('configfile')), G(v, 'loaded') == 2)))
        return r

    def measures(self, ex, ctx):
        r = []
        for k in ctx.keys:
            v = ctx.entry[k]
            n = {'params': self.n1, 'positional': self.n2, '@it.opt': self.n3}.get(v.base) if isinstance(v, P) else None
            if n is not None:
                r.append(('left behind %s' % (k[-1],), lambda v, k=k, n=n: n - v[k].idx))
        return r


def u_init(mods):
    k = Init(mods, 'initialize')
    h, o = k.h, k.o
    for q in h.only_ret(h.call(CM + 'initialize()', [k.m])):
        g, ok = q.st.ghost, truth(q.val)
        ini = lambda st: z3.IntVal(0) + st.mem['manager'].cells[o['initialized']][1].t
        again = k.init0.t == 1
        k.item(q.st, k.total())
        k.item(q.st, g['at'])
        r = lambda c, n: h.ex.require(q.st, 'postcondition', c, n)
        r(z3.Implies(again, And(ok, g['at'] == 0, g['loaded'] == 0)), 'a second initialisation changes nothing')
        r(z3.Implies(And(z3.Not(again), ok), And(NEXT(g['ver'], g['at']) >= k.total(), ini(q.st) == 1)), 'every item that calls for a value has been stored')
        r(g['due'] == -1, 'the observers have been told of every value stored')
        r(z3.Implies(z3.Not(ok), And(SET[4](lit('configfile')), g['loaded'] == 1, g['at'] == 0, ini(q.st) == 0)), 'it fails only if the configuration file cannot be read, and stores nothing then')
        h.npost += 1
    return h


def u_set(mods):
    k = Cfg(mods, 'set a value')
    h = k.h
    a, v = k.text(h.st, 'key'), k.text(h.st, 'value')
    k.sput(h.st, h.obj('key', None, 32), a)
    k.sput(h.st, h.obj('value', None, 32), v)

    def event(st, kind, *x):
        ex, g = h.ex, st.ghost
        if kind == 'load':
            ex.require(st, 'postcondition', And(a == lit('/configfile'), x[0] == v, g['loaded'] == 0, g['at'] == 0), 'a configuration file is read if its name is set')
        elif kind == 'stored':
            ex.require(st, 'postcondition', And(g['at'] == 0, x[0] == a, x[1] == v, (g['loaded'] != 0) == (a == lit('/configfile'))), 'the value is stored once under its key')
            g['at'] = z3.IntVal(1)
            g['due'] = a
            g['was'] = g['ver']
        else:
            raise Unsupported('something else happens')
    k.event = event
    for q in h.only_ret(h.call('vcg_set', [k.m, P('key'), P('value')])):
        g = q.st.ghost
        h.ex.require(q.st, 'postcondition', And(g['at'] == 1, g['due'] == -1), 'the value is stored and its observers are told')
        h.ex.require(q.st, 'postcondition', truth(q.val) == z3.Not(HK(g['ver'] - 1, a)), 'it says whether the key is new')
        h.npost += 1
    return h


def u_add(mods):
    r = []
    for cls, sz, f, key, opt in (('ConfigParameter', 'param', 'parameters', 'p_key', 'GetoptParameter'), ('ConfigPositionalParameter', 'pos', 'positionals', 'q_key', 'GetoptPositionalParameter')):
        k = Cfg(mods, 'add a ' + cls)
        h, o = k.h, k.o
        p = h.obj('parameter', None, o[sz])
        t = k.text(h.st, 'key')
        k.sput(h.st, P('parameter', 0, o[key]), t)
        h.st.ghost['listed'] = z3.IntVal(0)

        def event(st, kind, a, b, h=h, o=o, f=f, k=k, t=t):
            ex, g = h.ex, st.ghost
            if kind == 'push':
                ex.require(st, 'postcondition', And(z3.BoolVal(a.base == 'manager' and a.off == o[f] and b.base == 'parameter'), t != lit('')), 'a parameter with a key is listed')
                g['listed'] = g['listed'] + 1
            elif kind == 'option':
                ex.require(st, 'postcondition', z3.BoolVal(a.base == '@getopt' and b.base == 'parameter' and b.off == 0), 'it is an option of the command line')
                g['told'] = g['told'] + 1
        k.event = event
        for q in h.only_ret(h.call(CM + 'addParameter(icl_core::config::%s const&)' % cls, [k.m, p])):
            g = q.st.ghost
            h.ex.require(q.st, 'postcondition', And(g['listed'] == z3.If(t == lit(''), z3.IntVal(0), z3.IntVal(1)), g['told'] == 1), 'it is listed once if it has a key, and known to the command line once')
            h.npost += 1
        r.append(h)
        k = Cfg(mods, 'add a list of ' + cls)
        h, o = k.h, k.o
        n = h.int('given', 64, False, 0, 2 ** 31)
        h.ex.new_arr(h.st, 'elems', o[sz], n.t, {}, ro=True)
        v = h.obj('list', None, 24)
        for off, i in ((0, z3.IntVal(0)), (8, n.t), (16, n.t)):
            h.put(v, off, P('elems', i), 8)

        def one(ex, st, args, m, ins, n=n):
            if args[0].base != 'manager' or args[1].base != 'elems':
                raise Unsupported('unknown parameter')
            ex.require(st, 'postcondition', And(args[1].off == 0, args[1].idx == st.ghost['told'], st.ghost['told'] < n.t), 'the parameters are added in order, each once')
            st.ghost['told'] = st.ghost['told'] + 1
            return [('ret', st, None)]
        h.ex.handlers.insert(0, (re.compile(re.escape(CM) + r'addParameter\(icl_core::config::' + cls + r' const&\)'), one, 'contract'))
        h.ex.hcache.clear()

        def tmpl(ex, ctx, n=n):
            G = ('ghost', 'told')
            r = []
            for q in ctx.keys:
                if isinstance(ctx.entry[q], P) and ctx.entry[q].base == 'elems':
                    r.append(('added up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx == v[G], v[G] <= n.t, v[G] >= 0)))
                if isinstance(ctx.entry[q], I):
                    r.append(('added up to %s' % (q[-1],), lambda v, q=q: And(v[q].t == v[G], v[G] <= n.t, v[G] >= 0)))
            return r
        h.ex.templates.append(tmpl)
        h.ex.measures.append(lambda ex, ctx, n=n: [('parameters left', lambda v: n.t - v[('ghost', 'told')])] if ('ghost', 'told') in ctx.keys else [])
        for q in h.only_ret(h.call(CM + 'addParameter(icl_core::Vector<icl_core::config::%s> const&)' % cls, [k.m, v])):
            h.ex.require(q.st, 'postcondition', q.st.ghost['told'] == n.t, 'all parameters are added')
            h.npost += 1
        r.append(h)
    return r


def u_notify(mods):
    k = Cfg(mods, 'tell the observers', directory='own')
    h = k.h
    k.key = k.text(h.st, 'key')
    k.sput(h.st, h.obj('key', None, 32), k.key)
    E = lit('')
    n1, n2 = z3.If(OSET(k.key), OLEN(k.key), z3.IntVal(0)), z3.If(OSET(E), OLEN(E), z3.IntVal(0))
    h.assume(And(OLEN(k.key) >= 0, OLEN(E) >= 0, OLEN(k.key) < 2 ** 31, OLEN(E) < 2 ** 31))

    def event(st, kind, *a):
        ex, g = h.ex, st.ghost
        if kind != 'told':
            raise Unsupported('something else happens')
        t = g['told']
        ex.require(st, 'postcondition', And(t < n1 + n2, a[0] == z3.If(t < n1, OBS(k.key, t), OBS(E, t - n1)), a[1] == k.key), 'the observers of the key and those of all keys are told of it in turn')
        g['told'] = t + 1
    k.event = event

    def tmpl(ex, ctx):
        r = []
        G = ('ghost', 'told')
        T = lambda v: v[G] if G in v else ctx.base.ghost['told']
        for q in ctx.keys:
            e = ctx.entry[q]
            if isinstance(e, P) and e.base == '@it.local':
                r.append(('told up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx == T(v), v[q].idx >= 0, v[q].idx <= n1 + n2)))
            elif isinstance(e, P) and e.base in k.lists:
                w = k.lists[e.base]
                s = n1 if w.eq(E) else z3.IntVal(0)
                r.append(('told up to %s' % (q[-1],), lambda v, q=q, s=s, w=w: And(s + v[q].idx == T(v), v[q].idx >= 0, v[q].idx <= OLEN(w))))
        return r
    h.ex.templates.append(tmpl)

    def meas(ex, ctx):
        return [('observers left', lambda v: n1 + n2 - v[('ghost', 'told')])] if ('ghost', 'told') in ctx.keys else []
    h.ex.measures.append(meas)
    for q in h.only_ret(h.call(CM + 'notify(' + S_ + ' const&) const', [k.m, P('key')])):
        h.ex.require(q.st, 'postcondition', q.st.ghost['told'] == n1 + n2, 'all of them are told')
        h.npost += 1
    return h


def u_register(mods):
    r = []
    for empty in (True, False):
        k = Cfg(mods, 'register an observer of ' + ('all keys' if empty else 'a key'))
        h, o = k.h, k.o
        k.key = k.text(h.st, 'key')
        h.assume(k.key == lit('') if empty else k.key != lit(''))
        k.sput(h.st, h.obj('key', None, 32), k.key)
        me = z3.Int('observer')
        h.ex.new_obj(h.st, 'observer', None, 8)
        h.st.w('observer').cells[0] = (8, P('@vt'))
        k.obs['observer'] = me
        h.st.ghost['registered'] = z3.IntVal(0)
        n = k.nd if empty else z3.If(HK(0, k.key), z3.IntVal(1), z3.IntVal(0))

        def event(st, kind, *a, h=h, k=k, me=me, n=n, empty=empty):
            ex, g = h.ex, st.ghost
            if kind == 'register':
                ex.require(st, 'postcondition', And(z3.BoolVal(z3.is_expr(a[0]) and isinstance(a[1], P) and a[1].base == 'observer'), a[0] == k.key), 'the observer is registered for the key')
                g['registered'] = g['registered'] + 1
            elif kind == 'told':
                t = g['told']
                ex.require(st, 'postcondition', And(t < n, a[0] == me, a[1] == (DKEY(t) if empty else k.key)), 'it is told of the keys there are')
                g['told'] = t + 1
            else:
                raise Unsupported('something else happens')
        k.event = event

        def find(ex, st, args, m, ins, k=k):
            k.mine(args[1])
            t = k.sof(ex, st, args[2])
            if not t.eq(lit('.*')):
                raise Unsupported('another expression')
            st.w(args[0].base).cells[args[0].off] = (8, P('@it.dir', z3.IntVal(-1)))
            return [('ret', st, None)]

        def nxt(ex, st, args, m, ins, k=k):
            p = ex.load(st, args[0], ir.Ty('ptr'))
            i = z3.IntVal(0) + p.idx
            j = z3.If(i < k.nd, i + 1, i)
            ex.store(st, args[0], ir.Ty('ptr'), P('@it.dir', j))
            return [('ret', st, I(1, j < k.nd))]

        def key(ex, st, args, m, ins, k=k):
            p = ex.load(st, args[1], ir.Ty('ptr'))
            i = z3.IntVal(0) + p.idx
            ex.require(st, 'precondition', And(i >= 0, i < k.nd), 'there is an entry')
            k.sput(st, args[0], k.bounded(st, DKEY(i)))
            return [('ret', st, None)]
        for rx, f in ((r'icl_core::KeyValueDirectory<.*>::find\(.*\) const', find), (r'icl_core::KeyValueDirectoryIterator<.*>::next\(\)', nxt), (r'icl_core::KeyValueDirectoryIterator<.*>::key(?:\[abi:cxx11\])?\(\) const', key), (r'icl_core::KeyValueDirectoryIterator<.*>::~KeyValueDirectoryIterator\(\)', NONE)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()

        def tmpl(ex, ctx):
            r = []
            for q in ctx.keys:
                if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@it.dir':
                    r.append(('told up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx + 1 == v[('ghost', 'told')], v[q].idx >= -1, z3.Or(v[q].idx < 0, v[q].idx < k.nd))))
            r.append(('registered', lambda v: (v[('ghost', 'registered')] if ('ghost', 'registered') in v else ctx.base.ghost['registered']) == 1))
            return r
        h.ex.templates.append(tmpl)
        h.ex.measures.append(lambda ex, ctx, k=k: [('keys left', lambda v: k.nd - v[('ghost', 'told')])] if ('ghost', 'told') in ctx.keys else [])
        for q in h.only_ret(h.call(CM + 'registerObserver(icl_core::config::ConfigObserver*, ' + S_ + ' const&)', [k.m, P('observer'), P('key')])):
            g = q.st.ghost
            h.ex.require(q.st, 'postcondition', And(g['registered'] == 1, g['told'] == n), 'it is registered once, and told of each key there is')
            h.npost += 1
        r.append(h)
    k = Cfg(mods, 'unregister an observer')
    h = k.h
    h.ex.new_obj(h.st, 'observer', None, 8)

    def event(st, kind, *a):
        ex, g = h.ex, st.ghost
        if kind != 'remove':
            raise Unsupported('something else happens')
        ex.require(st, 'postcondition', And(z3.BoolVal(isinstance(a[0], tuple) and isinstance(a[1], P) and a[1].base == 'observer'), (a[0][1] if isinstance(a[0], tuple) else z3.IntVal(-1)) == g['told']), 'it is removed from the observers of every key in turn')
        g['told'] = g['told'] + 1
    k.event = event

    def tmpl(ex, ctx):
        return [('removed up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx == v[('ghost', 'told')], v[q].idx >= 0, v[q].idx <= k.no)) for q in ctx.keys if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@it.map']
    h.ex.templates.append(tmpl)
    h.ex.measures.append(lambda ex, ctx: [('keys left', lambda v: k.no - v[('ghost', 'told')])] if ('ghost', 'told') in ctx.keys else [])
    for q in h.only_ret(h.call(CM + 'unregisterObserver(icl_core::config::ConfigObserver*)', [k.m, P('observer')])):
        h.ex.require(q.st, 'postcondition', q.st.ghost['told'] == k.no, 'it is removed from the observers of every key')
        h.npost += 1
    r.append(h)
    return r


def u_dir(mods):
    r = []

    def start(name):
        k = Cfg(mods, name, directory='own')
        h = k.h
        h.npost += 1
        a, v = k.text(h.st, 'key'), k.text(h.st, 'value')
        k.sput(h.st, h.obj('key', None, 32), a)
        k.sput(h.st, h.obj('value', None, 32), v)
        r.append(h)
        return k, h, a, v
    D = P('manager')
    k, h, a, v = start('look up a key')
    for q in h.only_ret(h.call('vcg_get', [D, P('key'), P('value')])):
        h.ex.require(q.st, 'postcondition', And(truth(q.val) == HK(0, a), k.sget(q.st, P('value')) == z3.If(HK(0, a), DVAL(a), v)), 'the value of the key if there is one, otherwise nothing is changed')
    k, h, a, v = start('presence of a key')
    for q in h.only_ret(h.call(DIR + 'hasKey(' + S_ + ' const&) const', [D, P('key')])):
        h.ex.require(q.st, 'postcondition', truth(q.val) == HK(0, a), 'whether the key is there')
    k, h, a, v = start('store a value')

    def event(st, kind, *x):
        if kind != 'value':
            raise Unsupported('something else happens')
        h.ex.require(st, 'postcondition', And(x[0] == a, x[1] == v), 'the value is stored under the key')
        st.ghost['told'] = st.ghost['told'] + 1
    k.event = event
    for q in h.only_ret(h.call(re.escape(DIR) + r'insert\(' + re.escape(S_) + r' const&, .*\)', [D, P('key'), P('value')])):
        h.ex.require(q.st, 'postcondition', And(q.st.ghost['told'] == 1, truth(q.val) == z3.Not(HK(0, a))), 'it is stored once; the result says whether the key is new')
    return r


class Walk(Cfg):
    def __init__(self, mods, name, **kw):
        Cfg.__init__(self, mods, name, directory='own')
        h, o = self.h, self.o
        self.q = self.text(h.st, 'expression')
        h.ex.new_obj(h.st, 'iter', None, o['iter'])
        h.put(P('iter'), o['i_directory'], P('manager'), 8)
        self.sput(h.st, P('iter', 0, o['i_query']), self.q)
        self.reset = h.int('reset', 8, False, 0, 1)
        self.i = h.int('entry', 64, False, 0, 2 ** 31).t
        h.put(P('iter'), o['i_entry'], P('@it.dir', z3.IntVal(0) + self.i), 8)
        h.put(P('iter'), o['i_reset'], self.reset, 1)
        h.assume(self.i <= self.nd)
        w = h.st.w('iter').cells
        d = self.bounded(h.st, DKEY(self.i))
        w[o['i_results']] = (8, I(64, d, 0, BIG))
        w[o['i_results'] + 8] = (8, I(64, self.q, 0, BIG))
        h.ex.new_obj(h.st, 'out', None, 32)

    def d_begin(self, ex, st, args, m, ins):
        self.isdir(args[0])
        self.at(st, z3.IntVal(0))
        return [('ret', st, P('@it.dir', z3.IntVal(0)))]

    def d_end(self, ex, st, args, m, ins):
        self.isdir(args[0])
        return [('ret', st, P('@it.dir', self.nd))]

    def at(self, st, i):
        i = z3.IntVal(0) + i
        st.assume(FIRSTM(self.q, i) == z3.If(i >= self.nd, self.nd, z3.If(MATCH(self.q, DKEY(i)), i, FIRSTM(self.q, i + 1))))
        for j in (i, i + 1):
            st.assume(z3.Implies(j <= self.nd, And(FIRSTM(self.q, j) <= self.nd, FIRSTM(self.q, j) >= j)))

    def it_eq(self, ex, st, args, m, ins):
        for x in args[:2]:
            p = self.pos(ex, st, x)
            if p.base == '@it.dir':
                self.at(st, p.idx)
        return Cfg.it_eq(self, ex, st, args, m, ins)

    def m_deref(self, ex, st, args, m, ins):
        p = self.pos(ex, st, args[0])
        if p.base == '@it.dir':
            self.at(st, p.idx)
        return Cfg.m_deref(self, ex, st, args, m, ins)


def u_walk(mods):
    r = []
    k = Walk(mods, 'next entry')
    h, o = k.h, k.o
    target = z3.If(k.reset.t == 1, FIRSTM(k.q, 0), FIRSTM(k.q, k.i + 1))
    target = z3.If(And(k.reset.t == 0, k.i >= k.nd), k.nd, target)
    for x in (z3.IntVal(0), k.i, k.i + 1):
        k.at(h.st, x)
    E = ('cell', 'iter', o['i_entry'])

    def tmpl(ex, ctx):
        r = []
        for q in ctx.keys:
            if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@it.dir':
                r.append(('searched up to %s' % (q[-1],), lambda v, q=q: And(v[q].idx >= 0, v[q].idx <= target, FIRSTM(k.q, v[q].idx) == target, target <= k.nd)))
        return r
    h.ex.templates.append(tmpl)
    h.ex.measures.append(lambda ex, ctx: [('entries left', lambda v, q=q: k.nd - v[q].idx) for q in ctx.keys if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@it.dir'])
    for q in h.only_ret(h.call(ITER + 'next()', [P('iter')])):
        p = h.ex.load(q.st, P('iter', 0, o['i_entry']), ir.Ty('ptr'))
        k.at(q.st, p.idx)
        c = q.st.mem['iter'].cells
        h.ex.require(q.st, 'postcondition', And(z3.IntVal(0) + p.idx == target, truth(q.val) == (target < k.nd)), 'the next entry that matches, if there is one')
        s, rx = k.res(q.st, P('iter', 0, o['i_results']))
        h.ex.require(q.st, 'postcondition', z3.Implies(target < k.nd, And(s == DKEY(target), rx == k.q)), 'the groups are those of this entry')
        h.ex.require(q.st, 'postcondition', And(h.ex.th.U(h.ex.load(q.st, P('iter', 0, o['i_reset']), ir.Ty('int', w=8))) == 0, k.sget(q.st, P('iter', 0, o['i_query'])) == k.q), 'the search goes on from there')
        h.npost += 1
    r.append(h)
    for name, f, want, args in (('key of an entry', 'key', lambda k: DKEY(k.i), 1), ('value of an entry', 'value', lambda k: DVAL(DKEY(k.i)), 0)):
        k = Walk(mods, name)
        h = k.h
        h.assume(And(k.i < k.nd, k.reset.t == 0))
        for q in h.only_ret(h.call(re.escape(ITER) + f + r'(?:\[abi:cxx11\])?\(\) const', ([P('out')] if args else []) + [P('iter')])):
            h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out') if args else q.val) == want(k), 'it is that of the current entry')
            h.npost += 1
        r.append(h)
    k = Walk(mods, 'group of an entry')
    h = k.h
    i = h.int('index', 64, False)
    h.assume(And(k.i < k.nd, MATCH(k.q, DKEY(k.i)), GROUPS(k.q) >= 1, GROUPS(k.q) < 2 ** 31))
    for q in h.only_ret(h.call(re.escape(ITER) + r'matchGroup(?:\[abi:cxx11\])?\(unsigned long\) const', [P('out'), P('iter'), i])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == z3.If(i.t < GROUPS(k.q), GROUP(DKEY(k.i), k.q, i.t), lit('')), 'the group of that number, nothing beyond')
        h.npost += 1
    r.append(h)
    k = Walk(mods, 'start again')
    h = k.h
    for q in h.only_ret(h.call(ITER + 'reset()', [P('iter')])):
        h.ex.require(q.st, 'postcondition', And(h.ex.th.U(h.ex.load(q.st, P('iter', 0, k.o['i_reset']), ir.Ty('int', w=8))) == 1, k.sget(q.st, P('iter', 0, k.o['i_query'])) == k.q), 'the search starts again')
        h.npost += 1
    r.append(h)
    k = Walk(mods, 'find')
    h, o = k.h, k.o
    k.sput(h.st, h.obj('query', None, 32), k.q)
    h.ex.new_obj(h.st, 'found', None, o['iter'])
    for q in h.only_ret(h.call(DIR + 'find(' + S_ + ' const&) const', [P('found'), k.m, P('query')])):
        d = h.ex.load(q.st, P('found', 0, o['i_directory']), ir.Ty('ptr'))
        h.ex.require(q.st, 'postcondition', And(z3.BoolVal(d.base == 'manager'), k.sget(q.st, P('found', 0, o['i_query'])) == k.q, h.ex.th.U(h.ex.load(q.st, P('found', 0, o['i_reset']), ir.Ty('int', w=8))) == 1), 'a search of this directory for this expression, at its beginning')
        h.npost += 1
    r.append(h)
    return r


def u_both(mods):
    """command line, then configuration"""
    k = Cfg(mods, 'initialize both')
    h = k.h
    a, b = h.int('parsed', 8, False, 0, 1), h.int('configured', 8, False, 0, 1)
    cl, rc = h.int('cleaning', 32, False), h.int('check', 32, False)
    h.obj('argc.cell', None, 4)
    h.obj('argv', None, 8)

    def first(ex, st, args, m, ins):
        ex.require(st, 'postcondition', And(z3.BoolVal(args[0].base == '@getopt' and args[1].base == 'argc.cell' and args[2].base == 'argv'), ex.th.U(args[3]) == cl.t, ex.th.U(args[4]) == rc.t, st.ghost['told'] == 1), 'the command line is parsed as asked for, once the options of the configuration are known')
        st.ghost['told'] = z3.IntVal(2)
        return [('ret', st, I(1, a.t == 1))]

    def second(ex, st, args, m, ins):
        ex.require(st, 'postcondition', And(z3.BoolVal(args[0].base == 'manager'), st.ghost['told'] == 2, a.t == 1), 'the configuration comes after the command line has been parsed')
        st.ghost['told'] = z3.IntVal(3)
        return [('ret', st, I(1, b.t == 1))]

    def inst(ex, st, args, m, ins):
        st.ghost['told'] = z3.If(st.ghost['told'] == 0, z3.IntVal(1), st.ghost['told'])
        return [('ret', st, P('manager'))]
    for rx, f in ((r'icl_core::config::Getopt::initialize\(int&, char\*\*, icl_core.*\)', first), (re.escape(CM) + r'initialize\(\)', second), (re.escape(CM) + r'instance\(\)', inst)):
        h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
    h.ex.hcache.clear()
    for q in h.only_ret(h.call('icl_core::config::initialize(int&, char**, icl_core::config::Getopt::CommandLineCleaning, icl_core::config::Getopt::ParameterRegistrationCheck)', [P('argc.cell'), P('argv'), cl, rc])):
        h.ex.require(q.st, 'postcondition', And(truth(q.val) == And(a.t == 1, b.t == 1), q.st.ghost['told'] == z3.If(a.t == 1, z3.IntVal(3), z3.IntVal(2))), 'it succeeds exactly if both do')
        h.npost += 1
    return h


def u_names(mods):
    r = []

    def start(name):
        k = Cfg(mods, name)
        h = k.h
        h.npost += 1
        a, v = k.text(h.st, 'key'), k.text(h.st, 'value')
        k.sput(h.st, h.obj('key', None, 32), a)
        k.sput(h.st, h.obj('value', None, 32), v)
        h.ex.new_obj(h.st, 'out', None, 32)
        r.append(h)
        return k, h, a, v
    k, h, a, v = start('get')
    for q in h.only_ret(h.call('vcg_cget', [P('key'), P('value')])):
        h.ex.require(q.st, 'postcondition', And(truth(q.val) == HK(0, a), k.sget(q.st, P('value')) == z3.If(HK(0, a), DVAL(a), v)), 'the value of the key if there is one, otherwise nothing is changed')
    k, h, a, v = start('get or default')
    for q in h.only_ret(h.call('vcg_default', [P('out'), P('key'), P('value')])):
        h.ex.require(q.st, 'postcondition', k.sget(q.st, P('out')) == z3.If(HK(0, a), DVAL(a), v), 'the value of the key if there is one, otherwise the one given')
    k, h, a, v = start('set')
    k.event = lambda st, kind, *x: Opt and h.ex.require(st, 'postcondition', z3.BoolVal(False), 'the manager does it')

    def sv(ex, st, args, m, ins):
        k.mine(args[0])
        ex.require(st, 'postcondition', And(k.sof(ex, st, args[1]) == a, k.sof(ex, st, args[2]) == v, st.ghost['told'] == 0), 'the value is set under the key')
        st.ghost['told'] = z3.IntVal(1)
        return [('ret', st, I(1, z3.Not(HK(0, a))))]
    h.ex.handlers.insert(0, (re.compile(r'(?:bool )?' + re.escape(CM) + r'setValue<.*'), sv, 'contract'))
    h.ex.hcache.clear()
    for q in h.only_ret(h.call('vcg_cset', [P('key'), P('value')])):
        h.ex.require(q.st, 'postcondition', q.st.ghost['told'] == 1, 'it is set once')
    k, h, a, v = start('present')
    for q in h.only_ret(h.call('vcg_present', [P('key')])):
        h.ex.require(q.st, 'postcondition', truth(q.val) == SET[4](a), 'whether it was given on the command line')
    return r


def u_declare(mods):
    r = []
    for cls, sz, key, df, base in (('ConfigParameter', 'param', 'p_key', 'p_default', 'p_option'), ('ConfigPositionalParameter', 'pos', 'q_key', 'q_default', 'q_name')):
        k = Cfg(mods, 'declare a ' + cls)
        h, o = k.h, k.o
        t = {n: k.text(h.st, n) for n in ('option', 'short', 'key', 'help', 'default')}
        for n in t:
            k.sput(h.st, h.obj(n, None, 32), t[n])
        h.obj('it', None, o[sz])
        opt = h.int('optional', 8, False, 0, 1)

        def ctor(ex, st, args, m, ins, k=k, t=t, o=o, base=base):
            a = [k.sof(ex, st, x) for x in args[1:] if isinstance(x, P)]
            ex.require(st, 'postcondition', And(args[0].base == 'it', args[0].off == 0, a[0] == t['option'], *([a[1] == t['short']] if len(a) == 3 else [truth(args[-1]) == (opt.t == 1)])), 'its option is the one given')
            return [('ret', st, None)]
        h.ex.handlers.insert(0, (re.compile(r'icl_core::config::Getopt(?:Positional)?Parameter::Getopt(?:Positional)?Parameter\(.+, .+\)'), ctor, 'contract'))
        h.ex.hcache.clear()
        S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
        args = [P('it'), P('option')] + ([P('short'), P('key'), P('help'), P('default')] if cls == 'ConfigParameter' else [P('key'), P('help'), I(1, opt.t == 1), P('default')])
        for q in h.only_ret(h.call(re.escape('icl_core::config::%s::%s(' % (cls, cls)) + '.+, .+' + re.escape(')'), args)):
            h.ex.require(q.st, 'postcondition', And(k.sget(q.st, P('it', 0, o[key])) == t['key'], k.sget(q.st, P('it', 0, o[df])) == t['default']), 'its key and its default are the ones given')
            h.npost += 1
        r.append(h)
    return r


class File(Cfg):
    """reading a configuration file: what a node of it and its children call for, item by item"""
    def __init__(self, mods, name, own):
        Cfg.__init__(self, mods, name)
        h = self.h
        self.own = own
        self.o.update({n: h.off(n) for n in ('element', 'textnode', 'ok', 'loaderror')})
        self.n = h.int('children', 64, False, 0, 2 ** 31).t
        self.prefix = self.text(h.st, 'prefix')
        self.sput(h.st, h.obj('prefix', None, 32), self.prefix)
        self.ext = h.int('extended', 8, False, 0, 1)
        self.fp = self.text(h.st, 'file')
        self.sput(h.st, h.obj('fp', None, 32), self.fp)
        for b in ('@txt', '@node', '@child'):
            h.ex.new_obj(h.st, b, None, 8)
        h.ex.nullable = {'@txt': lambda i: i == -1, '@child': lambda i: i >= self.n}
        NODE = z3.IntVal(-1)
        name_ = CAT(self.prefix, CAT(lit('/'), self.bounded(h.st, NAME(NODE))))
        if own:
            name_ = z3.If(NAMED(NODE), name_, CAT(self.prefix, lit('/')))
        self.fq = z3.If(self.ext.t == 1, name_, self.prefix)
        T, A, F = r'TiXmlNode::', r'icl_core::config::AttributeTree::', r'icl_core::config::FilePath::'
        for rx, f in ((T + r'Value\(\) const', self.value), (T + r'Type\(\) const', self.kind), (T + r'IterateChildren\(TiXmlNode const\*\)', self.child), (T + r'FirstChild\(\)', self.child), (T + r'NextSibling\(\)', self.sibling), (r'@?strcmp', self.strcmp), (r'@?__dynamic_cast', self.cast), (r'TiXmlElement::GetText\(\) const', self.gettext),
                      (A + r'getDescription\(\) const', self.value), (A + r'attribute\(\) const', self.gettext), (A + r'isComment\(\)', self.comment), (A + r'firstSubTree\(\)', self.child), (A + r'nextSubTree\(icl_core::config::AttributeTree\*\)', self.child),
                      (F + r'FilePath\(icl_core::config::FilePath const&\)', self.s_same), (F + r'~FilePath\(\)', NONE), (F + r'path(?:\[abi:cxx11\])?\(\) const', self.derive(PATH)), (F + r'extension(?:\[abi:cxx11\])?\(\) const', self.derive(EXT)), (F + r'FilePath\(char const\*\)', self.derive(FPATH))):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        h.ex.hcache.clear()

    def cstr(self, ex, st, p):
        if isinstance(p, P) and p.base == '@txt':
            ex.require(st, 'precondition', p.idx != -1, 'there is a text')
            return z3.IntVal(0) + p.idx if not z3.is_app_of(z3.IntVal(0) + p.idx, z3.Z3_OP_ITE) else p.idx
        return Cfg.cstr(self, ex, st, p)

    def which(self, p):
        if isinstance(p, P) and p.base == '@node' and p.off == 0:
            return z3.IntVal(-1)
        if isinstance(p, P) and p.base == '@child' and p.off == 0:
            return z3.IntVal(0) + p.idx
        raise Unsupported('unknown node')

    def inside(self, ex, st, p):
        j = self.which(p)
        ex.require(st, 'precondition', And(j >= -1, j < self.n), 'there is such a node')
        self.item(st, j)
        return j

    def value(self, ex, st, args, m, ins):
        j = self.inside(ex, st, args[0])
        t = self.bounded(st, NAME(j))
        return [('ret', st, P('@txt', z3.If(NAMED(j), t, z3.IntVal(-1)) if 'getDescription' in m.group(0) else t))]

    def kind(self, ex, st, args, m, ins):
        j = self.inside(ex, st, args[0])
        st.assume(And(KIND(j) >= 0, KIND(j) <= 7))
        return [('ret', st, I(32, KIND(j), 0, 7))]

    def child(self, ex, st, args, m, ins):
        if args[0].base != '@node':
            raise Unsupported('children of another node')
        j = z3.IntVal(0)
        if len(args) > 1 and args[1].base is not None:
            j = self.inside(ex, st, args[1]) + 1
        self.item(st, j)
        return [('ret', st, P('@child', j))]

    def sibling(self, ex, st, args, m, ins):
        j = self.inside(ex, st, args[0]) + 1
        ex.require(st, 'precondition', j > 0, 'a sibling of a child')
        self.item(st, j)
        return [('ret', st, P('@child', j))]

    def strcmp(self, ex, st, args, m, ins):
        a, b = self.sof(ex, st, args[0]), self.sof(ex, st, args[1])
        return [('ret', st, I(32, z3.If(a == b, z3.IntVal(0), z3.IntVal(1)), 0, 1))]

    def cast(self, ex, st, args, m, ins):
        j = self.inside(ex, st, args[0])
        ex.require(st, 'precondition', KIND(j) == self.o['element'], 'it is an element')
        return [('ret', st, args[0])]

    def gettext(self, ex, st, args, m, ins):
        j = self.inside(ex, st, args[0])
        return [('ret', st, P('@txt', z3.If(HAST(j), self.bounded(st, TXT(j)), z3.IntVal(-1))))]

    def comment(self, ex, st, args, m, ins):
        return [('ret', st, I(1, COMMENT(self.inside(ex, st, args[0]))))]

    def derive(self, fn):
        def f(ex, st, args, m, ins):
            self.sput(st, args[0], self.bounded(st, fn(self.sof(ex, st, args[1]))))
            return [('ret', st, None)]
        return f

    def need(self, j):
        if self.own:
            return z3.If(j < 0, And(z3.Not(COMMENT(j)), HAST(j)), z3.BoolVal(True))
        return And(j >= 0, Or(KIND(j) == self.o['textnode'], And(KIND(j) == self.o['element'], Or(NAME(j) != lit('INCLUDE'), HAST(j)))))

    def item(self, st, j):
        st.assume(NEXT(-1, j) == z3.If(j >= self.n, j, z3.If(self.need(j), j, NEXT(-1, j + 1))))

    def happens(self, st, kind, *a):
        ex, g, o = self.h.ex, st.ghost, self.o
        self.item(st, g['at'])
        e = NEXT(-1, g['at'])
        ex.require(st, 'postcondition', And(e < self.n, g['due'] == -1), 'something is done only if a part of the file calls for it, after all were told of the value before')
        g['at'] = e + 1
        if kind == 'stored' and self.own:
            ex.require(st, 'postcondition', And(e == -1, a[0] == self.fq, a[1] == TXT(e)), 'the attribute of the node is stored under its key')
            g['due'] = a[0]
        elif kind == 'stored':
            ex.require(st, 'postcondition', And(KIND(e) == o['textnode'], a[0] == self.fq, a[1] == NAME(e)), 'a text is stored under the key of its element')
            g['due'] = a[0]
        elif kind == 'load' and not self.own:
            ex.require(st, 'postcondition', And(KIND(e) == o['element'], NAME(e) == lit('INCLUDE'), a[0] == CAT(PATH(self.fp), TXT(e))), 'an included file is read, from the directory of this one')
        elif kind == 'node':
            ex.require(st, 'postcondition', And(a[0] == self.fq, a[1] == e, e >= 0, a[2]), 'a child is read, its key being that of this node and its own name')
            if not self.own:
                ex.require(st, 'postcondition', And(KIND(e) == o['element'], NAME(e) != lit('INCLUDE'), a[3] == self.fp), 'it is an element of the same file')
        else:
            raise Unsupported('something else happens')


KIND, NAME, TXT, PATH, EXT, FPATH = [z3.Function(n, I_, I_) for n in ('kind', 'name', 'content', 'path.of', 'extension.of', 'as.path')]
NAMED, HAST, COMMENT = [z3.Function(n, I_, z3.BoolSort()) for n in ('has.name', 'has.content', 'is.comment')]
for s_ in ('INCLUDE', '.tree', '.AttributeTree'):
    lit(s_)


def u_file(mods):
    r = []
    for own in (False, True):
        k = File(mods, 'read ' + ('an attribute tree' if own else 'an XML node'), own)
        h = k.h
        k.event = k.happens
        h.st.ghost['at'] = z3.IntVal(-1)
        k.item(h.st, z3.IntVal(-1))
        k.item(h.st, z3.IntVal(0))

        def rec(ex, st, args, m, ins, k=k, own=own):
            k.mine(args[0])
            k.inside(ex, st, args[2])
            k.on(st, 'node', k.sof(ex, st, args[1]), k.which(args[2]), truth(args[-1]), None if own else k.sof(ex, st, args[3]))
            st.ghost['ver'] = st.ghost['ver'] + 1
            return [('ret', st, None)]
        h.ex.handlers.insert(0, (re.compile(re.escape(CM) + r'read(?:Xml|AttributeTree)\(.*\)'), rec, 'contract'))
        h.ex.hcache.clear()

        def tmpl(ex, ctx, k=k):
            r = []
            G = lambda v, n: v[('ghost', n)] if ('ghost', n) in v else ctx.base.ghost[n]
            for q in ctx.keys:
                if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@child':
                    r.append(('read up to %s' % (q[-1],), lambda v, q=q: And(NEXT(-1, G(v, 'at')) == NEXT(-1, v[q].idx), v[q].idx >= 0, v[q].idx <= k.n)))
            r.append(('all are told', lambda v: G(v, 'due') == -1))
            return r
        h.ex.templates.append(tmpl)
        h.ex.measures.append(lambda ex, ctx, k=k: [('children left %s' % (q[-1],), lambda v, q=q: k.n - v[q].idx) for q in ctx.keys if isinstance(ctx.entry[q], P) and ctx.entry[q].base == '@child'])
        f = CM + ('readAttributeTree(' + S_ + ' const&, icl_core::config::AttributeTree*, bool)' if own else 'readXml(' + S_ + ' const&, TiXmlNode*, icl_core::config::FilePath, bool)')
        for q in h.only_ret(h.call(f, [k.m, P('prefix'), P('@node')] + ([] if own else [P('fp')]) + [I(1, k.ext.t == 1)])):
            k.item(q.st, q.st.ghost['at'])
            k.item(q.st, k.n)
            h.ex.require(q.st, 'postcondition', And(NEXT(-1, q.st.ghost['at']) >= k.n, q.st.ghost['due'] == -1), 'every part of the file is read, in order, and the observers are told of every value')
            h.npost += 1
        r.append(h)
    return r


def u_load(mods):
    k = File(mods, 'load a file', True)
    h, o = k.h, k.o
    f = k.text(h.st, 'filename')
    k.sput(h.st, h.obj('filename', None, 32), f)
    tree = Or(EXT(FPATH(f)) == lit('.tree'), EXT(FPATH(f)) == lit('.AttributeTree'))
    res, ok, has = h.int('result', 32, True, 0, 3), h.int('loaded', 8, False, 0, 1), h.int('root', 8, False, 0, 1)
    h.ex.nullable = dict(h.ex.nullable, **{'@root': lambda i: i == 0})
    h.ex.new_obj(h.st, '@root', None, 8)
    g0 = h.st.ghost
    g0['tried'] = z3.IntVal(0)

    def once(ex, st, t, what):
        ex.require(st, 'postcondition', And(what == f, t, st.ghost['tried'] == 0), 'the file named is read once, as what its name says it is')
        st.ghost['tried'] = z3.IntVal(1)

    def tload(ex, st, args, m, ins):
        once(ex, st, tree, k.sof(ex, st, args[1]))
        return [('ret', st, I(32, res.t, 0, 3))]

    def xctor(ex, st, args, m, ins):
        k.sput(st, args[0], k.sof(ex, st, args[1]))
        return [('ret', st, None)]

    def xload(ex, st, args, m, ins):
        once(ex, st, z3.Not(tree), k.sof(ex, st, args[0]))
        return [('ret', st, I(1, ok.t == 1))]

    def read(ex, st, args, m, ins):
        k.mine(args[0])
        xml = 'readXml' in m.group(0)
        r = args[2]
        ex.require(st, 'postcondition', And(z3.BoolVal(r.base == '@root'), z3.Not(tree) if xml else tree, ok.t == 1 if xml else res.t == o['ok'], has.t == 1, z3.Not(truth(args[-1])), k.sof(ex, st, args[1]) == lit(''), st.ghost['tried'] == 1, st.ghost['told'] == 0), 'the root of what was read is taken over once, its name being no part of the keys')
        if xml:
            ex.require(st, 'postcondition', k.sof(ex, st, args[3]) == FPATH(f), 'included files are looked for where the file is')
        st.ghost['told'] = z3.IntVal(1)
        return [('ret', st, None)]
    R = lambda ex, st, args, m, ins: [('ret', st, P('@root', has.t))]
    A = r'icl_core::config::AttributeTree::'
    for rx, fn, kind in ((A + r'AttributeTree\(char const\*, icl_core::config::AttributeTree\*\)', NONE, 'trusted'), (A + r'~AttributeTree\(\)', NONE, 'trusted'), (A + r'load\(.*\)', tload, 'trusted'), (A + r'root\(\)', R, 'trusted'), (r'TiXmlDocument::TiXmlDocument\(char const\*\)', xctor, 'trusted'), (r'TiXmlDocument::~TiXmlDocument\(\)', NONE, 'trusted'),
                         (r'TiXmlDocument::LoadFile\(.*\)', xload, 'trusted'), (r'TiXmlDocument::RootElement\(\)', R, 'trusted'), (r'TiXmlDocument::Error(?:Row|Col)\(\) const', lambda ex, st, a, m, i: [('ret', st, ex.th.fresh(ex.uniq('place'), 32))], 'trusted'), (r'TiXmlDocument::ErrorDesc\(\) const', lambda ex, st, a, m, i: [('ret', st, P('@txt', z3.IntVal(1)))], 'trusted'),
                         (re.escape(CM) + r'read(?:Xml|AttributeTree)\(.*\)', read, 'contract')):
        h.ex.handlers.insert(0, (re.compile(rx), fn, kind))
    h.ex.handlers[:] = [x for x in h.ex.handlers if not (x[1] == k.load)]
    h.ex.hcache.clear()
    h.assume(z3.Implies(tree, has.t == 1))
    for q in h.only_ret(h.call(CM + 'load(' + S_ + ' const&)', [k.m, P('filename')])):
        g = q.st.ghost
        good = z3.If(tree, res.t != o['loaderror'], ok.t == 1)
        h.ex.require(q.st, 'postcondition', And(truth(q.val) == good, g['tried'] == 1, g['told'] == z3.If(And(z3.If(tree, res.t == o['ok'], ok.t == 1), has.t == 1), z3.IntVal(1), z3.IntVal(0))), 'it succeeds exactly if the file can be read, and takes over what is in it')
        h.npost += 1
    return h


UNITS = [('initialize', u_init), ('reading files', u_file), ('loading files', u_load), ('names', u_names), ('declare parameters', u_declare), ('set a value', u_set), ('add parameters', u_add), ('tell the observers', u_notify), ('observers', u_register), ('the directory', u_dir), ('searching the directory', u_walk), ('initialize both', u_both)]
