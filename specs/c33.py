"""C33 performance monitor: what is measured is kept completely, in order, under its group and name, and summed up truly

A text is a number (equal numbers, equal texts; as in C30). The monitor is: the set of enabled groups, the start of each timer, the static value of each name, and for each name two sequences of values (times and others), all as ghost maps over texts; the maps and vectors of the standard library are trusted contracts on them.
Floating point operations are uninterpreted functions, so results have to be built by the very operations the contract names."""
from .threadlib import *
from .c30 import Opt, lit, LIT, SELF, NONE, STR, I_, BIG, truth
from .timelib import normalised, value, NORM
from .c21 import NATIVE as NAT21
from vcg.sym import D, DSort
import re

TUS = {'t': 'tu/perfmon.cpp'}
NATIVE = {'src': 'native/perfmon.cpp', 'sources': NAT21['sources'], 'flags': NAT21['flags'] + ['-fno-access-control'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['std::string, std::map, std::vector of doubles, std::sort and string streams are trusted contracts; floating point operations are uninterpreted; putting a message out is trusted to change nothing here (C26)',
               'the monitor is used by one thread at a time; values are numbers (no NaN); fewer than 2^31 values per name; the clock is between 1970 and 2242; a timer that is read has been started; memory is available']
AIB, AII = z3.ArraySort(I_, z3.BoolSort()), z3.ArraySort(I_, I_)
AD = z3.ArraySort(I_, DSort)
CAT = z3.Function('joined', I_, I_, I_)
SORTED = z3.Function('sorted', AD, I_, AD)
SUM = z3.Function('sum', AD, I_, DSort)
FADD, FDIV = z3.Function('fadd', DSort, DSort, DSort), z3.Function('fdiv', DSort, DSort, DSort)
ITOFP = z3.Function('itofp', I_, DSort)
FP = lambda s: z3.Const('fp_' + s, DSort)
PMN = 'icl_core::perf_mon::PerformanceMonitor::'
S_ = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VD = r'std::vector<double, std::allocator<double> ?>'
lit(''), lit('::')
DBL = ir.Ty('fp', w=8, name='double')
KINDS = ('data', 'nontime')


def name_of(prefix, name):
    return CAT(prefix, CAT(lit('::'), name))


class Pm(Opt):
    def __init__(self, mods, name, fns=True, **opts):
        h = self.h = H(mods['t'], name, [], opts=dict({'term': True, 'pairs': False}, **opts), extra=[NORM])
        self.o = o = {n: h.off(n) for n in ('size', 'enabled', 'print_stop', 'all', 'data', 'nontime', 'timer', 'buffer', 'prefix', 'static')}
        self.maps = {o[n]: n for n in ('data', 'nontime', 'timer', 'prefix', 'static')}
        self.slots, self.lasts, self.event, self.order = {}, {}, None, []
        M = r'std::map<' + STR + r', .*>::'
        VV = r'std::vector<' + VD + r' ?, .*>::'
        V = VD + '::'
        NI = r'__gnu_cxx::__normal_iterator<double(?: const)?\*, .*>'
        IT = r'std::_Rb_tree_(?:const_)?iterator<.*>'
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.s_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:operator=|assign)\(.*\)', self.s_assign), (STR + r'::(?:append|operator\+=)\(.*\)', self.s_append), (r'(?:.* )?std::operator\+<char, .*', self.s_plus), (r'(?:bool )?std::operator(==|!=)<char, .*', self.s_eq),
             (M + r'find\(.*\)(?: const)?', self.m_find), (M + r'c?end\(\)(?: const)?', self.m_end), (M + r'count\(.*\) const', self.m_count), (M + r'operator\[\]\(.*\)', self.m_index), (M + r'erase(?:\[abi:cxx11\])?\(.*\)', self.m_erase), (M + r'clear\(\)', self.m_clear), (M + r'(?:map|~map)\(\)', self.m_new),
             (M + r'(?:insert|emplace|at|size|empty|begin|swap|operator=)\(.*', None), (r'(?:.* )?' + M + r'(?:insert|emplace|insert_or_assign)<.*', None),
             (r'(?:bool )?std::operator(==|!=)\(std::_Rb_tree.*', self.it_eq), (IT + r'::operator(==|!=)\(.*\) const', self.it_eq), (IT + r'::_Rb_tree_(?:const_)?iterator\(\)', NONE),
             (V + r'vector\(\)', self.v_new), (V + r'vector\(' + VD + r' const&\)', self.v_copy), (V + r'~vector\(\)', NONE), (V + r'operator=\(.*\)', self.v_assign), (V + r'swap\(.*\)', self.v_swap), (V + r'push_back\(double (?:const&|&&)\)', self.v_push), (V + r'(size|empty)\(\) const', self.v_size), (V + r'reserve\(.*\)', self.v_reserve),
             (V + r'(?:at|operator\[\])\(unsigned long\)(?: const)?', self.v_at), (V + r'(front|back)\(\)(?: const)?', self.v_end), (V + r'c?(begin|end)\(\)(?: const)?', self.v_it), (V + r'clear\(\)', self.v_clear), (r'void std::sort<' + NI + r' ?>\(.*\)', self.v_sort), (r'(?:' + NI + r') std::(min|max)_element<.*', self.v_extreme),
             (NI + r'::operator\*\(\) const', lambda ex, st, a, m, i: [('ret', st, ex.load(st, a[0], ir.Ty('ptr')))]),
             (VV + r'vector\(\)', NONE), (VV + r'(size|empty)\(\) const', self.b_size), (VV + r'back\(\)', self.b_back), (VV + r'pop_back\(\)', self.b_pop), (VV + r'resize\(.*\)', self.b_resize), (VV + r'operator\[\]\(unsigned long\)', self.b_at), (VV + r'(?:clear|push_back|erase|swap|operator=)\(.*\)', None),
             (r'std::__cxx11::basic_stringstream<.*>::(?:basic_stringstream|~basic_stringstream)\(.*\)', NONE), (r'std::__cxx11::basic_stringstream<.*>::str\(\) const', self.ss_str), (r'(?:.* )?std::operator<< ?<.*', self.ss_text), (r'std::(?:ostream|basic_ostream<.*>)::operator<<\((double|unsigned long|int|long|unsigned int)\)', self.ss_number),
             (r'std::(?:__)?new_allocator<.*|std::allocator<.*', NONE), (r'icl_core::TimeStamp::now\(\)', self.now)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f or self.outside, 'trusted'))
        h.ex.handlers.insert(0, (re.compile(re.escape(PMN) + r'print\(.*\)'), self.printed, 'contract'))
        h.ex.hcache.clear()
        h.ex.new_obj(h.st, '@lit', None, 8)
        self.pm = h.obj('monitor', None, o['size'])
        self.on_, self.all = h.int('operational', 8, False, 0, 1), h.int('all enabled', 8, False, 0, 1)
        h.put(self.pm, o['enabled'], self.on_, 1)
        h.put(self.pm, o['all'], self.all, 1)
        h.put(self.pm, o['print_stop'], h.int('print', 8, False, 0, 1), 1)
        g = h.st.ghost
        for k in KINDS:
            g['H.' + k], g['N.' + k], g['V.' + k] = z3.Const('has.' + k, AIB), z3.Const('number.' + k, AII), z3.Const('values.' + k, z3.ArraySort(I_, AD))
        g['H.prefix'], g['H.timer'], g['H.static'] = (z3.Const('has.' + k, AIB) for k in ('prefix', 'timer', 'static'))
        g['Ts'], g['Tn'], g['S'] = z3.Const('start.s', AII), z3.Const('start.ns', AII), z3.Const('static', AD)
        g['buffers'], g['dirty'] = z3.Int('buffers'), z3.IntVal(0)
        h.assume(And(g['buffers'] >= 0, g['buffers'] < 2 ** 32))
        g['now.s'], g['now.n'], g['clocks'], g['prints'] = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
        self.g0 = dict(g)
        inst = [k for k in h.ex.mod.globals if 'PerformanceMonitor10m_instance' in k]
        self.inst = inst[0]
        h.ex.glob(h.st, self.inst)
        h.st.w(self.inst).cells[0] = (8, self.pm)

    def txt(self, name):
        b = self.h.obj(name, None, 32)
        v = self.text(self.h.st, name)
        self.sput(self.h.st, b, v)
        return b, v

    def s_plus(self, ex, st, args, m, ins):
        if len(args) != 3:
            raise Unsupported('concatenation')
        self.sput(st, args[0], self.cat(self.sof(ex, st, args[1]), self.sof(ex, st, args[2])))
        return [('ret', st, None)]

    def s_append(self, ex, st, args, m, ins):
        if len(args) != 2:
            raise Unsupported('appending a part of a text')
        self.sput(st, args[0], self.cat(self.sof(ex, st, args[0]), self.sof(ex, st, args[1])))
        return [('ret', st, args[0])]

    def cat(self, a, b):
        if a.eq(lit('')):
            return b
        if b.eq(lit('')):
            return a
        if z3.is_app(a) and a.decl().eq(CAT):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        return CAT(a, b)

    # ---- maps
    def which(self, p):
        if not isinstance(p, P) or p.base != self.pm.base or p.off not in self.maps:
            raise Unsupported('not a map of the monitor')
        return self.maps[p.off]

    def fold(self, st):
        """what has been written through references goes into the maps"""
        for b, k, key in st.ghost.get('refs', ()):
            c = st.mem[b].cells
            g = st.ghost
            if k == 'timer':
                g['Ts'], g['Tn'] = z3.Store(g['Ts'], key, z3.IntVal(0) + c[0][1].t), z3.Store(g['Tn'], key, z3.IntVal(0) + self.h.ex.th.S(c[8][1]))
            elif k == 'static':
                g['S'] = z3.Store(g['S'], key, c[0][1].t)
        st.ghost['refs'] = ()

    def m_find(self, ex, st, args, m, ins):
        k = self.which(args[0])
        s = self.sof(ex, st, args[1])
        return [('ret', st, P('@it.' + k, z3.If(st.ghost['H.' + k][s], s, z3.IntVal(-1))))]

    def m_end(self, ex, st, args, m, ins):
        return [('ret', st, P('@it.' + self.which(args[0]), z3.IntVal(-1)))]

    def m_count(self, ex, st, args, m, ins):
        k = self.which(args[0])
        return [('ret', st, I(64, z3.If(st.ghost['H.' + k][self.sof(ex, st, args[1])], z3.IntVal(1), z3.IntVal(0)), 0, 1))]

    def pos(self, ex, st, p):
        q = ex.load(st, p, ir.Ty('ptr'))
        if not isinstance(q, P) or not str(q.base).startswith('@it.'):
            raise Unsupported('unknown iterator')
        return q

    def it_eq(self, ex, st, args, m, ins):
        a, b = self.pos(ex, st, args[0]), self.pos(ex, st, args[1])
        ex.require(st, 'precondition', z3.BoolVal(a.base == b.base), 'iterators of one map are compared')
        e = a.idx == b.idx
        return [('ret', st, I(1, e if m.group(1) == '==' else z3.Not(e)))]

    def m_index(self, ex, st, args, m, ins):
        k = self.which(args[0])
        s = self.sof(ex, st, args[1])
        g = st.ghost
        self.fold(st)
        had = g['H.' + k][s]
        b = ex.uniq('@slot.' + k)
        if k in KINDS:
            g['N.' + k] = z3.Store(g['N.' + k], s, z3.If(had, g['N.' + k][s], z3.IntVal(0)))
            st.assume(And(g['N.' + k][s] >= 0, g['N.' + k][s] < 2 ** 31 - 1))
            ex.new_obj(st, b, None, 24)
            self.elems(ex, st, b, g['V.' + k][s], g['N.' + k][s])
            self.slots[b] = (k, s)
        else:
            ex.new_obj(st, b, None, 16)
            if k == 'timer':
                sec, ns = z3.If(had, g['Ts'][s], z3.IntVal(0)), z3.If(had, g['Tn'][s], z3.IntVal(0))
                st.assume(And(sec >= 0, sec < 2 ** 33, ns >= 0, ns < 10 ** 9))
                st.w(b).cells.update({0: (8, I(64, sec, 0, 2 ** 33)), 8: (4, I(32, ns, 0, 10 ** 9))})
            elif k == 'static':
                st.w(b).cells[0] = (8, D(z3.If(had, g['S'][s], FP('0'))))
            else:
                st.w(b).cells[0] = (1, I(8, z3.If(had, z3.IntVal(1), z3.IntVal(0)), 0, 1))
            g['refs'] = tuple(g.get('refs', ())) + ((b, k, s),)
        g['H.' + k] = z3.Store(g['H.' + k], s, z3.BoolVal(True))
        return [('ret', st, P(b))]

    def m_erase(self, ex, st, args, m, ins):
        k = self.which(args[0])
        if 'iterator' in m.group(0).split('erase', 1)[1]:
            it = args[1] if isinstance(args[1], P) and str(args[1].base).startswith('@it.') else self.pos(ex, st, args[1])
            ex.require(st, 'precondition', z3.BoolVal(it.base == '@it.' + k), 'an iterator of this map')
            ex.require(st, 'precondition', it.idx >= 0, 'an element is erased')
            s = it.idx
        else:
            s = self.sof(ex, st, args[1])
        self.fold(st)
        st.ghost['H.' + k] = z3.Store(st.ghost['H.' + k], s, z3.BoolVal(False))
        return [('ret', st, ex.th.fresh(ex.uniq('erased'), 64, False) if ins.ty.k == 'int' else P('@it.' + k, z3.Int(ex.uniq('next'))))]

    def m_clear(self, ex, st, args, m, ins):
        self.fold(st)
        st.ghost['H.' + self.which(args[0])] = z3.K(I_, z3.BoolVal(False))
        return [('ret', st, None)]

    def m_new(self, ex, st, args, m, ins):
        if 'new' in st.ghost and '~' not in m.group(0):
            st.ghost['made'] = tuple(st.ghost.get('made', ())) + (args[0].off,)
        return [('ret', st, None)]

    # ---- vectors: those of the maps and local ones; the elements are an array of their own
    def elems(self, ex, st, b, values, n):
        ex.new_arr(st, b + '.e', 8, n, {0: values})

    def vec(self, st, p):
        if not isinstance(p, P) or p.base is None or p.base + '.e' not in st.mem:
            raise Unsupported('unknown vector')
        e = st.mem[p.base + '.e']
        return e.fields[0], z3.IntVal(0) + e.len

    def vset(self, ex, st, p, values, n):
        if p.base == '@spare':
            st.ghost['dirty'] = z3.If(n > 0, z3.IntVal(1), z3.IntVal(0))
            return
        self.elems(ex, st, p.base, values, n)
        if p.base in self.slots:
            k, s = self.slots[p.base]
            g = st.ghost
            g['V.' + k], g['N.' + k] = z3.Store(g['V.' + k], s, values), z3.Store(g['N.' + k], s, n)

    def v_new(self, ex, st, args, m, ins):
        if args[0].base in (self.pm.base, '@spare') or args[0].off:
            raise Unsupported('vector inside another object')
        self.elems(ex, st, args[0].base, z3.Const(ex.uniq('nothing'), AD), z3.IntVal(0))
        return [('ret', st, None)]

    def v_copy(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[1])
        self.elems(ex, st, args[0].base, v, n)
        return [('ret', st, None)]

    def v_assign(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[1])
        self.vset(ex, st, args[0], v, n)
        return [('ret', st, args[0])]

    def v_clear(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        self.vset(ex, st, args[0], v, z3.IntVal(0))
        return [('ret', st, None)]

    def v_swap(self, ex, st, args, m, ins):
        a, b = args
        if a.base == '@spare' or b.base == '@spare':
            a, b = (a, b) if b.base == '@spare' else (b, a)
            v, n = self.vec(st, a)
            ex.require(st, 'precondition', st.ghost['dirty'] == 0, 'the spare vector is empty')
            st.ghost['dirty'] = z3.If(n > 0, z3.IntVal(1), z3.IntVal(0))
            self.vset(ex, st, a, z3.Const(ex.uniq('spare'), AD), z3.IntVal(0))
        else:
            (v, n), (w, q) = self.vec(st, a), self.vec(st, b)
            self.vset(ex, st, a, w, q)
            self.vset(ex, st, b, v, n)
        return [('ret', st, None)]

    def v_push(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        d = ex.load(st, args[1], DBL)
        self.vset(ex, st, args[0], z3.Store(v, n, d.t), n + 1)
        return [('ret', st, None)]

    def v_size(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        return [('ret', st, I(64, n, 0, 2 ** 31 - 1) if m.group(1) == 'size' else I(1, n == 0))]

    def v_reserve(self, ex, st, args, m, ins):
        return [('ret', st, None)]

    def v_at(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        i = ex.th.U(args[1])
        ex.require(st, 'bounds', And(i >= 0, i < n), 'an element of a vector is one it has')
        return [('ret', st, P(args[0].base + '.e', i))]

    def v_end(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        ex.require(st, 'bounds', n > 0, 'an element of a vector is one it has')
        return [('ret', st, P(args[0].base + '.e', z3.IntVal(0) if m.group(1) == 'front' else n - 1))]

    def v_it(self, ex, st, args, m, ins):
        v, n = self.vec(st, args[0])
        return [('ret', st, P(args[0].base + '.e', z3.IntVal(0) if m.group(1) == 'begin' else n))]

    def v_sort(self, ex, st, args, m, ins):
        a, b = args[:2]
        o = st.mem.get(a.base)
        if o is None or a.base != b.base or not a.base.endswith('.e') or a.base[:-2] in self.slots:
            raise Unsupported('sorting something else')
        ex.require(st, 'precondition', And(a.idx == 0, b.idx == o.len), 'all of it is sorted')
        self.elems(ex, st, a.base[:-2], SORTED(o.fields[0], z3.IntVal(0) + o.len), o.len)
        return [('ret', st, None)]

    def v_extreme(self, ex, st, args, m, ins):
        a, b = args[:2]
        o = st.mem.get(a.base)
        if o is None or a.base != b.base or not a.base.endswith('.e'):
            raise Unsupported('searching something else')
        n = z3.IntVal(0) + o.len
        ex.require(st, 'precondition', And(a.idx == 0, b.idx == n), 'all of it is searched')
        i = z3.Int(ex.uniq('extreme'))
        v = o.fields[0]
        s = v if z3.is_app(v) and v.decl().eq(SORTED) else SORTED(v, n)
        st.assume(z3.If(n == 0, i == 0, And(i >= 0, i < n, v[i] == s[0 if m.group(1) == 'min' else n - 1])))
        return [('ret', st, P(a.base, i))]

    # ---- the spare vectors: all of them are empty
    def isbuf(self, p):
        if p.base != self.pm.base or p.off != self.o['buffer']:
            raise Unsupported('not the spare vectors')

    def b_size(self, ex, st, args, m, ins):
        self.isbuf(args[0])
        n = st.ghost['buffers']
        return [('ret', st, I(64, n, 0, 2 ** 32) if m.group(1) == 'size' else I(1, n == 0))]

    def b_back(self, ex, st, args, m, ins):
        self.isbuf(args[0])
        ex.require(st, 'bounds', st.ghost['buffers'] > 0, 'there is a spare vector')
        return [('ret', st, P('@spare'))]

    def b_at(self, ex, st, args, m, ins):
        self.isbuf(args[0])
        i = ex.th.U(args[1])
        ex.require(st, 'bounds', And(i >= 0, i < st.ghost['buffers']), 'there is a spare vector')
        return [('ret', st, P('@spare'))]

    def b_pop(self, ex, st, args, m, ins):
        self.isbuf(args[0])
        ex.require(st, 'bounds', st.ghost['buffers'] > 0, 'there is a spare vector')
        st.ghost['buffers'] = st.ghost['buffers'] - 1
        st.ghost['dirty'] = z3.IntVal(0)
        return [('ret', st, None)]

    def b_resize(self, ex, st, args, m, ins):
        self.isbuf(args[0])
        st.ghost['buffers'] = ex.th.U(args[1]) + z3.IntVal(0)
        return [('ret', st, None)]

    # ---- text put out, messages and the clock
    def ss_str(self, ex, st, args, m, ins):
        self.sput(st, args[0], self.text(st, ex.uniq('message')))
        return [('ret', st, None)]

    def ss_text(self, ex, st, args, m, ins):
        return [('ret', st, args[0])]

    def ss_number(self, ex, st, args, m, ins):
        if self.event is not None:
            self.event(ex, st, args[1])
        return [('ret', st, args[0])]

    def printed(self, ex, st, args, m, ins):
        st.ghost['prints'] = st.ghost['prints'] + 1
        return [('ret', st, None)]

    def now(self, ex, st, args, m, ins):
        s, n = ex.th.fresh(ex.uniq('now.s'), 64, True), ex.th.fresh(ex.uniq('now.ns'), 32, True)
        st.assume(And(s.t > 0, s.t < 2 ** 33, n.t >= 0, n.t < 10 ** 9))
        g = st.ghost
        g['now.s'], g['now.n'], g['clocks'] = z3.IntVal(0) + s.t, z3.IntVal(0) + n.t, g['clocks'] + 1
        if ins.ty.k == 'void':
            ex.store(st, args[0], ir.Ty('int', w=64), s)
            ex.store(st, P(args[0].base, args[0].idx, args[0].off + 8), ir.Ty('int', w=32), n)
            return [('ret', st, None)]
        return [('ret', st, (s, n))]

    # ---- the contract
    def on(self, g, prefix):
        return And(self.on_.t == 1, Or(self.all.t == 1, g['H.prefix'][prefix]))

    def same(self, q, but=()):
        self.fold(q.st)
        g, g0 = q.st.ghost, self.g0
        ex = self.h.ex
        t = z3.Int('any.text')
        for k in ('prefix', 'timer', 'static') + KINDS:
            if 'H.' + k in but or k in but:
                continue
            f = [g['H.' + k][t] == g0['H.' + k][t]]
            if k in KINDS:
                f += [z3.Implies(g0['H.' + k][t], And(g['N.' + k][t] == g0['N.' + k][t], g['V.' + k][t] == g0['V.' + k][t]))]
            elif k == 'timer':
                f += [z3.Implies(g0['H.timer'][t], And(g['Ts'][t] == g0['Ts'][t], g['Tn'][t] == g0['Tn'][t]))]
            elif k == 'static':
                f += [z3.Implies(g0['H.static'][t], g['S'][t] == g0['S'][t])]
            ex.require(q.st, 'postcondition', And(*f), 'nothing else changes: ' + k)
        ex.require(q.st, 'postcondition', And(g['dirty'] == 0), 'the spare vectors stay empty')
        c = q.st.mem['monitor'].cells
        for n in ('enabled', 'all', 'print_stop'):
            if n not in but:
                ex.require(q.st, 'postcondition', ex.th.U(c[self.o[n]][1]) == {'enabled': self.on_, 'all': self.all}.get(n, self.pr()).t, 'the switches stay as they are')
        self.h.npost += 1

    def pr(self):
        return self.h.st.mem['monitor'].cells[self.o['print_stop']][1]

    def kept(self, q, kind, cond, name, d):
        """under the condition the value is kept behind all others of its name, and otherwise nothing is; all other names are as before"""
        self.fold(q.st)
        g, g0 = q.st.ghost, self.g0
        ex = self.h.ex
        t = z3.Int('any.text')
        H0, N0, V0 = (g0[x + '.' + kind] for x in 'HNV')
        H1, N1, V1 = (g[x + '.' + kind] for x in 'HNV')
        n = z3.If(H0[name], N0[name], z3.IntVal(0))
        i = z3.Int('any.place')
        ex.require(q.st, 'postcondition', z3.Implies(cond, And(H1[name], N1[name] == n + 1, V1[name][n] == d)), 'the value is kept behind those of its name')
        ex.require(q.st, 'postcondition', z3.Implies(And(cond, i >= 0, i < n), V1[name][i] == V0[name][i]), 'the values before it stay')
        ex.require(q.st, 'postcondition', z3.Implies(Or(z3.Not(cond), t != name), And(H1[t] == H0[t], z3.Implies(H0[t], And(N1[t] == N0[t], V1[t] == V0[t])))), 'other names, and groups that are not enabled, keep what they have')


def u_add(mods):
    r = []
    for fn, kind in (('addData', 'data'), ('addNonTimeData', 'nontime'), ('addStaticData', 'static')):
        k = Pm(mods, fn)
        h = k.h
        (n, nv), (p, pv) = k.txt('name'), k.txt('prefix')
        d = D(z3.Const('value', DSort))
        for q in h.only_ret(h.call(PMN + '%s(%s, double, %s)' % (fn, S_, S_), [n, d, p])):
            name = name_of(pv, nv)
            c = k.on(k.g0, pv)
            if kind == 'static':
                k.same(q, ('static',))
                g, g0 = q.st.ghost, k.g0
                t = z3.Int('any.text')
                h.ex.require(q.st, 'postcondition', z3.Implies(c, And(g['H.static'][name], g['S'][name] == d.t)), 'the static value is the one given')
                h.ex.require(q.st, 'postcondition', z3.Implies(Or(z3.Not(c), t != name), And(g['H.static'][t] == g0['H.static'][t], z3.Implies(g0['H.static'][t], g['S'][t] == g0['S'][t]))), 'other static values stay')
            else:
                k.kept(q, kind, c, name, d.t)
                k.same(q, (kind,))
        r.append(h)
    return r


def u_switch(mods):
    r = []
    for fn in ('enablePrefix', 'disablePrefix'):
        k = Pm(mods, fn)
        h = k.h
        p, pv = k.txt('prefix')
        for q in h.only_ret(h.call(PMN + '%s(%s)' % (fn, S_), [p])):
            k.same(q, ('prefix',))
            t = z3.Int('any.text')
            h.ex.require(q.st, 'postcondition', q.st.ghost['H.prefix'][t] == (z3.Or(t == pv, k.g0['H.prefix'][t]) if fn[0] == 'e' else And(t != pv, k.g0['H.prefix'][t])), 'exactly the group named is switched')
        r.append(h)
    k = Pm(mods, 'enableAll')
    h = k.h
    b = h.obj('flag', None, 1)
    v = h.int('flag', 8, False, 0, 1)
    h.put(b, 0, v, 1)
    for q in h.only_ret(h.call(PMN + 'enableAll(bool const&)', [b])):
        k.same(q, ('all',))
        h.ex.require(q.st, 'postcondition', h.ex.th.U(q.st.mem['monitor'].cells[k.o['all']][1]) == v.t, 'all groups are switched as told')
    r.append(h)
    k = Pm(mods, 'isEnabled')
    h = k.h
    p, pv = k.txt('prefix')
    for q in h.only_ret(h.call(PMN + 'isEnabled(%s)' % S_, [k.pm, p])):
        k.same(q)
        h.ex.require(q.st, 'postcondition', truth(q.val) == k.on(k.g0, pv), 'a group is enabled if the monitor is operational and it, or all, are')
    r.append(h)
    return r


def u_timer(mods):
    r = []
    for fn in ('start', 'measurement', 'startStop'):
        k = Pm(mods, fn)
        h = k.h
        n, nv = k.txt('timer')
        args, name, pv = [n], None, None
        if fn != 'start':
            (d, dv), (p, pv) = k.txt('description'), k.txt('prefix')
            args += [d, p, h.int('level', 32, False, 0, 5)]
            name = name_of(pv, dv)
        g0 = k.g0
        t0 = value(g0['Ts'][nv], g0['Tn'][nv])
        if fn == 'measurement':
            h.assume(g0['H.timer'][nv])
        if fn == 'startStop':
            h.assume(z3.Implies(g0['H.timer'][nv], t0 > 0))
        for q in h.only_ret(h.call(PMN + (fn + '(%s)' % S_ if fn == 'start' else '%s(%s, %s, %s, icl_core::logging::LogLevel)' % (fn, S_, S_, S_)), args)):
            k.fold(q.st)
            g = q.st.ghost
            ms = FDIV(ITOFP(value(g['now.s'], g['now.n']) - t0), FP('1.000000e+06'))
            c = k.on_.t == 1 if fn == 'start' else k.on(g0, pv)
            ran = g0['H.timer'][nv]
            if fn != 'start':
                kc = c if fn == 'measurement' else And(c, ran)
                h.ex.require(q.st, 'postcondition', z3.Implies(kc, And(g['clocks'] == 1, q.val.t == ms)), 'the time since the start of the timer, in milliseconds, is returned')
                k.kept(q, 'data', kc, name, ms)
            t = z3.Int('any.text')
            set_ = c if fn != 'measurement' else z3.BoolVal(False)
            h.ex.require(q.st, 'postcondition', z3.Implies(set_, And(g['H.timer'][nv], g['Ts'][nv] == g['now.s'], g['Tn'][nv] == g['now.n'], g['clocks'] == 1)), 'the timer starts now')
            h.ex.require(q.st, 'postcondition', z3.Implies(Or(z3.Not(set_), t != nv), And(g['H.timer'][t] == g0['H.timer'][t], z3.Implies(g0['H.timer'][t], And(g['Ts'][t] == g0['Ts'][t], g['Tn'][t] == g0['Tn'][t])))), 'other timers, and timers that are not started, stay')
            k.same(q, ('timer', 'data') if fn != 'start' else ('timer',))
        r.append(h)
    return r


def u_stat(mods):
    r = []
    for sfx, kind in (('', 'data'), ('NonTime', 'nontime')):
        for fn in ('getMedian', 'getAverage'):
            k = Pm(mods, fn + sfx)
            h = k.h
            n, nv = k.txt('name')
            g0 = k.g0
            N = z3.If(g0['H.' + kind][nv], g0['N.' + kind][nv], z3.IntVal(0))
            V = g0['V.' + kind][nv]
            if fn == 'getMedian':
                outs = [h.obj(x, None, 8) for x in ('median', 'min', 'max')]
                S = SORTED(V, N)
                for q in h.only_ret(h.call(PMN + fn + sfx + '(%s, double&, double&, double&)' % S_, [k.pm, n] + outs)):
                    c = [q.st.mem[x.base].cells.get(0) for x in outs]
                    for x, w, at in zip(c, ('median', 'minimum', 'maximum'), (N / 2, z3.IntVal(0), N - 1)):
                        h.ex.require(q.st, 'postcondition', z3.BoolVal(False) if x is None else z3.Implies(N > 0, x[1].t == S[at]), 'the ' + w + ' is that of the values in ascending order')
                    k.same(q, (kind,))
            else:
                def tmpl(ex, ctx):
                    out = []
                    ints = [x for x in ctx.keys if x[0] in ('phi', 'cell') and isinstance(ctx.entry[x], I)]
                    for x in [x for x in ctx.keys if x[0] in ('phi', 'cell') and isinstance(ctx.entry[x], D)]:
                        for y in ints:
                            out.append(('%s is the sum of the first %s values' % (x, y), lambda v, x=x, y=y: And(v[x].t == SUM(V, z3.IntVal(0) + v[y].t))))
                    for y in ints:
                        out.append(('%s within the values' % (y,), lambda v, y=y: And(0 <= v[y].t, v[y].t <= N, SUM(V, v[y].t + 1) == FADD(SUM(V, z3.IntVal(0) + v[y].t), V[v[y].t]))))
                    return out
                h.ex.templates.append(tmpl)
                h.assume(SUM(V, z3.IntVal(0)) == FP('0.000000e+00'))
                j = z3.Int('j')
                h.assume(z3.ForAll([j], z3.Implies(j >= 0, SUM(V, j + 1) == FADD(SUM(V, j), V[j])), patterns=[SUM(V, j)]))
                for q in h.only_ret(h.call(PMN + fn + sfx + '(%s)' % S_, [k.pm, n])):
                    h.ex.require(q.st, 'postcondition', z3.Implies(N > 0, q.val.t == FDIV(SUM(V, N), ITOFP(N))), 'the average is the sum in order divided by the number')
                    k.same(q, (kind,))
            r.append(h)
    return r


AVG, MED, MIN, MAX = (z3.Const('the.' + n, DSort) for n in ('average', 'median', 'minimum', 'maximum'))


def u_summary(mods):
    r = []
    for sfx, kind in (('', 'data'), ('NonTime', 'nontime')):
        k = Pm(mods, 'createStatisticSummary' + sfx)
        h = k.h
        (p, pv), (n, nv) = k.txt('prefix'), k.txt('name')
        name = name_of(pv, nv)
        ss = h.obj('stream', None, 400)
        N = z3.If(k.g0['H.' + kind][name], k.g0['N.' + kind][name], z3.IntVal(0))
        h.st.ghost['turn'] = z3.IntVal(0)

        def avg(ex, st, args, m, ins, k=k, name=name):
            ex.require(st, 'postcondition', k.sof(ex, st, args[1]) == name, 'the average is that of the name')
            return [('ret', st, D(AVG))]

        def med(ex, st, args, m, ins, k=k, name=name):
            ex.require(st, 'postcondition', k.sof(ex, st, args[1]) == name, 'the median is that of the name')
            for a, v in zip(args[2:], (MED, MIN, MAX)):
                ex.store(st, a, DBL, D(v))
            return [('ret', st, None)]

        def put(ex, st, v, N=N):
            g = st.ghost
            ok = [And(g['turn'] == 0, ex.th.U(v) == N)] if isinstance(v, I) else [And(g['turn'] == i, v.t == w) for i, w in ((1, AVG), (2, MED), (3, MIN), (4, MAX))]
            ex.require(st, 'postcondition', Or(*ok), 'number, average, median, minimum and maximum are put out in this order')
            g['turn'] = g['turn'] + 1
        k.event = put
        for rx, f in ((re.escape(PMN) + 'getAverage' + sfx + r'\(.*\)', avg), (re.escape(PMN) + 'getMedian' + sfx + r'\(.*\)', med)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        for q in h.only_ret(h.call(PMN + 'createStatisticSummary' + sfx + '(std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>&, %s, %s)' % (S_, S_), [k.pm, ss, p, n])):
            h.ex.require(q.st, 'postcondition', q.st.ghost['turn'] == 5, 'the summary is complete')
            k.same(q, (kind,))
        r.append(h)
    return r


def u_init(mods):
    k = Pm(mods, 'initialize')
    h = k.h
    a, b = h.int('names', 32, False), h.int('events', 32, False)
    for q in h.only_ret(h.call(PMN + 'initialize(unsigned int, unsigned int)', [a, b])):
        t = z3.Int('any.text')
        g = q.st.ghost
        h.ex.require(q.st, 'postcondition', And(z3.Not(g['H.data'][t]), z3.Not(g['H.nontime'][t])), 'all values are forgotten')
        h.ex.require(q.st, 'postcondition', g['H.prefix'][t] == Or(t == lit(''), k.g0['H.prefix'][t]), 'the empty group is enabled')
        k.same(q, ('data', 'nontime', 'prefix'))
    return h


def u_first(mods):
    k = Pm(mods, 'first use')
    h = k.h
    st = h.st.fork()
    st.w(k.inst).cells[0] = (8, NULL)
    st.ghost['new'] = z3.IntVal(1)
    G = PMN + 'getInstance()'
    for q in h.only_ret(h.call(G, [], st=st)):
        c = q.st.mem[k.inst].cells[0][1]
        ok = isinstance(q.val, P) and isinstance(c, P) and q.val.base == c.base and q.val.base not in (None, 'monitor')
        h.ex.require(q.st, 'postcondition', z3.BoolVal(ok), 'there is one monitor')
        if ok:
            c = q.st.mem[q.val.base].cells
            h.ex.require(q.st, 'postcondition', And(h.ex.th.U(c[k.o['enabled']][1]) == 1, h.ex.th.U(c[k.o['all']][1]) == 0), 'it is operational, and not all groups are enabled')
            h.ex.require(q.st, 'postcondition', z3.BoolVal(set(q.st.ghost.get('made', ())) == {k.o[n] for n in ('data', 'nontime', 'timer', 'prefix', 'static')}), 'it is empty')
            h.npost += 1
    for q in h.only_ret(h.call(G, [])):
        h.ex.require(q.st, 'postcondition', z3.BoolVal(isinstance(q.val, P) and q.val.base == 'monitor'), 'the monitor is the one there is')
        k.same(q)
    return h


UNITS = [('first use', u_first), ('values', u_add), ('switches', u_switch), ('timers', u_timer), ('statistics', u_stat), ('summary', u_summary), ('initialize', u_init)]
