"""C26 log streams: a message is assembled in a buffer of its own and reaches every output once, whole, with its own level, position and text

One thread's buffer (thread stream) is a typed object; texts are character arrays, the C string functions are trusted contracts (vcg/cstr.py). The list of buffers and
the set of outputs are sequences of unbounded length; statements about all entries are proved for an arbitrary entry w."""
from .threadlib import *
from .c21 import NATIVE as NAT21
from vcg import cstr
from vcg.cstr import Region
import re

TUS = {'t': 'tu/logstream.cpp'}
NATIVE = {'src': 'native/logstream.cpp', 'sources': NAT21['sources'], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['the C string functions, std::list and std::set are trusted contracts; the semaphore and the pushing of a message are used by their contracts (C18, C25)',
               'texts given by the caller are terminated and are not changed meanwhile; the decimal text of a number is what printf makes of it (trusted), of bounded length',
               'a buffer is used by the thread it was given to, until that thread flushes it; outputs do not log to the stream they are written from',
               'thread ids of running threads are distinct and not zero; the system grants the mutex of the stream (a refused lock drops the message)']
INFO = r'icl_core::logging::LogStream::ThreadStreamInfo'
LST = r'std::__cxx11::list<' + INFO + r', std::allocator<' + INFO + r' ?> ?>::'
LB = r'std::__cxx11::_List_base<' + INFO + r', .*>::'
IT = r'std::_List_(?:const_)?iterator<' + INFO + r' ?>::'
LO = r'icl_core::logging::LogOutputStream ?\*'
SET = r'std::set<' + LO + r', .*>::'
SIT = r'std::_Rb_tree_(?:const_)?iterator<' + LO + r' ?>::'
SEM = r'icl_core::logging::Semaphore::'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
TEXTS = ('filename', 'classname', 'objectname', 'function')
CAP = 2048
NONE = lambda ex, st, a, m, i: [('ret', st, None)]
Sel = z3.Select
K = z3.Int('position')
W = z3.Int('entry')
Dec, DecLen = z3.Function('decimal', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())), z3.Function('digits', z3.IntSort(), z3.IntSort())
BYTE = ir.Ty('int', w=8)


class Log:
    def __init__(self, mods, name, roles=()):
        self.role = name
        h = self.h = H(mods['t'], name, [], opts=dict({'term': False, 'nul': [self.nul]}, **cstr.OPTS), extra=[])
        self.off = {k: h.off(k) for k in ('parent', 'level', 'lline', 'filename', 'line', 'classname', 'objectname', 'function', 'data', 'wi', 'ilevel', 'active', 'mutex', 'infos', 'outputs', 'name', 'itid', 'ilvl', 'its')}
        H1 = [(LST + r'.*', self.other), (SET + r'.*', self.other), (IT + r'.*', self.other), (SIT + r'.*', self.other), (STR + r'::.*', self.other)]
        H1 += [(LB + r'~?_List_base\(\)', NONE), (LST + r'list\(\)', self.l_ctor), (LST + r'~list\(\)', NONE), (LST + r'clear\(\)', NONE), (LST + r'c?begin\(\)(?: const)?', self.l_begin), (LST + r'c?end\(\)(?: const)?', self.l_end), (LST + r'push_back\(.*\)', self.l_push), (r'(?:.* )?' + LST + r'emplace_back<.*>\(.*\)', self.l_push),
               (IT + r'operator(\*|->)\(\) const', self.i_deref), (IT + r'operator(\+\+|--)\((int)?\)', self.i_step('@infos')), (IT + r'operator(==|!=)\(.*\) const', self.i_eq), (r'bool std::operator(==|!=)\(std::_List_(?:const_)?iterator<.*const&\)|std::operator(==|!=)\(std::_List_(?:const_)?iterator<.*const&\)', self.i_eq),
               (IT + r'_List_const_iterator\(std::_List_iterator<.*', self.i_copy),
               (SET + r'set\(\)', self.s_ctor), (SET + r'~set\(\)', NONE), (SET + r'c?begin\(\)(?: const)?', self.s_begin), (SET + r'c?end\(\)(?: const)?', self.s_end), (SET + r'insert\(.*\)', self.s_change('in')), (SET + r'erase\(.*const&\)', self.s_change('out')), (SET + r'empty\(\) const', lambda ex, st, a, m, i: [('ret', st, I(1, self.nout == 0))]),
               (SIT + r'operator(\*)\(\) const', self.o_deref), (SIT + r'operator(\+\+|--)\((int)?\)', self.i_step('@outs')), (r'(?:bool )?std::operator(==|!=)\(std::_Rb_tree_(?:const_)?iterator<.*', self.i_eq),
               (STR + r'::basic_string\(.*\)', self.str_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:c_str|data)\(\) const', self.str_cstr), (STR + r'::(?:size|length)\(\) const', self.str_size), (STR + r'::empty\(\) const', lambda ex, st, a, m, i: [('ret', st, I(1, self.slen == 0))])]
        H1 += cstr.HANDLERS + [(r'@?vsnprintf|icl_core::os::(?:hidden_posix::)?vsnprintf\(.*\)', self.vsnprintf), (r'icl_core::os::snprintf\(.*\)|@?snprintf', self.snprintf), (r'@?pthread_self', self.self_id), (r'@?pthread_equal', self.same_id)]
        for rx, f in H1:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        H2 = [(SEM + r'wait\(\)', self.wait), (SEM + r'post\(\)', self.post), (SEM + r'Semaphore\(unsigned long\)', self.sem_ctor), (SEM + r'~Semaphore\(\)', NONE),
              (r'.*icl_core::logging::LoggingManager.*', self.manager), (r'.*icl_core::logging::hidden::.*', self.manager),
              (r'icl_core::logging::LogOutputStream::push\(.*\)', self.push), (r'@?printf', lambda ex, st, a, m, i: [('ret', st, ex.th.fresh(ex.uniq('printed'), 32, True))])]
        if 'flush' in roles:
            H2.append((r'icl_core::logging::ThreadStream::flush\(\)', self.flushed))
        if 'release' in roles:
            H2.append((r'icl_core::logging::LogStream::releaseThreadStream\(.*\)', self.released))
        if 'stream' in roles:
            H2.append((r'icl_core::logging::LogStream::threadStream\(.*\)', self.given))
        for rx, f in H2:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        g = h.st.ghost
        for k in ('held', 'pos', 'free', 'pushed', 'flushes', 'given', 'posts'):
            g[k] = z3.IntVal(0)
        g['refused'] = z3.BoolVal(False)
        g['added'] = ()
        self.slen = z3.Int('text.length')
        for gl in ('@_ZN8icl_core7logging9LogStream17m_empty_thread_idE',):
            if gl in h.mod.globals:
                p = h.ex.glob(h.st, gl)
                h.st.w(p.base).cells[0] = (8, h.ex.th.const(64, 0))
                h.st.mem[p.base].ro = True
        # the log stream
        o = self.off
        self.ls = h.obj('ls', None, h.off('ls'))
        self.il = h.int('level of the stream', 32, False, 0, 5)
        h.put(self.ls, o['ilevel'], self.il)
        self.act = h.int('active', 8, False, 0, 1)
        h.put(self.ls, o['active'], self.act, 1)
        self.nout, self.ninf = h.int('outputs', 64, False, 0, 2 ** 40).t, h.int('buffers', 64, False, 0, 2 ** 40).t
        w = h.st.w('ls').cells
        w[o['mutex']] = (16, Abs('sem'))
        w[o['infos']] = (24, Abs('list'))
        w[o['outputs']] = (48, Abs('set'))
        w[o['name']] = (32, Abs('string', text='@name'))
        h.ex.new_arr(h.st, '@name', 1, z3.Int('name.size'), {0: z3.Array('name.text', z3.IntSort(), z3.IntSort())}, ro=True)
        # a buffer
        self.ts = h.obj('ts', 'class.icl_core::logging::ThreadStream')
        h.put(self.ts, o['parent'], P('ls'))
        self.wi = h.int('written', 64, False, 0, CAP - 1)
        h.put(self.ts, o['wi'], self.wi)
        self.line, self.ll = h.int('line', 64, False), h.int('level of the message', 32, False, 0, 5)
        h.put(self.ts, o['line'], self.line)
        h.put(self.ts, o['lline'], self.ll)
        h.put(self.ts, o['level'], h.int('level of the buffer', 32, False, 0, 5))
        self.a0 = {k: h.ex.as_array(h.st, 'ts', o[k], 1, CAP + 1, BYTE) for k in TEXTS + ('data',)}
        for k in TEXTS:
            h.assume(Sel(self.a0[k], CAP) == 0)
        q = z3.Int('q!b')
        for a in self.a0.values():
            h.assume(z3.ForAll([q], z3.And(Sel(a, q) >= 0, Sel(a, q) < 256), patterns=[Sel(a, q)]))
        self.reg = ()

    def text(self, name='source'):
        """a text of the caller, of any length"""
        h = self.h
        n, L = h.int(name + '.size', 64, False, 1, 2 ** 40), h.int(name + '.length', 64, False, 0)
        a = z3.Array(name, z3.IntSort(), z3.IntSort())
        q = z3.Int('q!s')
        h.assume(And(L.t < n.t, Sel(a, L.t) == 0))
        h.assume(z3.ForAll([q], z3.And(Sel(a, q) >= 0, Sel(a, q) < 256), patterns=[Sel(a, q)]))
        h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.t), Sel(a, q) != 0), patterns=[Sel(a, q)]))
        h.ex.new_arr(h.st, name, 1, n.t, {0: a}, ro=True)
        self.__dict__.setdefault('lens', {})[name] = L.t
        return P(name), a, L.t

    def nul(self, r):
        L = self.__dict__.get('lens', {}).get(r.base)
        return None if L is None else L - r.i

    def arr(self, st, k):
        return self.h.ex.as_array(st, 'ts', self.off[k], 1, CAP + 1, BYTE)

    def fld(self, st, k, w):
        return self.h.ex.th.U(self.h.ex.load(st, P('ts', 0, self.off[k]), ir.Ty('int', w=w)))

    def other(self, ex, st, args, m, ins):
        raise Unsupported('operation outside the contract: ' + m.group(0))

    def manager(self, ex, st, args, m, ins):
        if ins.ty is not None and ins.ty.k == 'ptr':
            return [('ret', st, ex.new_obj(st, ex.uniq('@manager'), None, 8))]
        if ins.ty is not None and ins.ty.k == 'int':
            return [('ret', st, ex.th.fresh(ex.uniq('manager'), ins.ty.w))]
        return [('ret', st, None)]

    # ---- strings
    def str_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (32, Abs('string', text=None))
        return [('ret', st, None)]

    def string(self, st, p):
        c = st.mem[p.base].cells.get(p.off)
        if c is None or not isinstance(c[1], Abs) or c[1].kind != 'string' or c[1].text is None:
            raise Unsupported('unknown string')
        return c[1]

    def str_cstr(self, ex, st, args, m, ins):
        return [('ret', st, P(self.string(st, args[0]).text))]

    def str_size(self, ex, st, args, m, ins):
        if self.string(st, args[0]).text != 'source':
            raise Unsupported('unknown string')
        return [('ret', st, I(64, self.lens['source'], 0, 2 ** 40))]

    # ---- formatting
    def vsnprintf(self, ex, st, args, m, ins):
        d, n = Region(ex, st, args[0], 'vsnprintf'), ex.th.U(args[1])
        cstr.fits(ex, st, d, n, 'vsnprintf writes inside the buffer')
        r = ex.th.fresh(ex.uniq('printed'), 32, True)
        st.assume(And(r.t >= -1))
        T = z3.Array(ex.uniq('printed.text'), z3.IntSort(), z3.IntSort())
        q = z3.Int('q!p')
        st.assume(z3.ForAll([q], z3.And(Sel(T, q) >= 0, Sel(T, q) < 256), patterns=[Sel(T, q)]))
        self.printed = (r.t, T, n)
        c = z3.If(r.t < 0, z3.IntVal(0), z3.If(r.t < n, r.t, n - 1))
        J = z3.Array(ex.uniq('junk'), z3.IntSort(), z3.IntSort())
        cstr.fill(ex, st, d, z3.If(z3.And(r.t >= 0, n > 0), c + 1, n), lambda k: z3.If(r.t < 0, Sel(J, k), z3.If(k < c, Sel(T, k), z3.IntVal(0))))
        return [('ret', st, r)]

    def snprintf(self, ex, st, args, m, ins):
        d, n = Region(ex, st, args[0], 'snprintf'), ex.th.U(args[1])
        cstr.fits(ex, st, d, n, 'snprintf writes inside the buffer')
        f = Region(ex, st, args[2], 'snprintf')
        s = b''
        while len(s) < 20:
            c = z3.simplify(f.at(len(s)))
            if not z3.is_int_value(c):
                raise Unsupported('unknown format')
            if c.as_long() == 0:
                break
            s += bytes([c.as_long()])
        v, s = args[3], s.decode()
        mm = re.fullmatch(r'%(hh|h|ll|l|z|j|)([diu])', s)
        if mm and isinstance(v, I):
            w = {'hh': 8, 'h': 16, '': 32}.get(mm.group(1), 64)
            if w > v.w or (w == 64) != (v.w == 64):
                ex.require(st, 'precondition', False, 'the conversion matches the argument')
            u = ex.th.U(v) % 2 ** w
            val = simp(u if mm.group(2) == 'u' else z3.If(u >= 2 ** (w - 1), u - 2 ** w, u))
            T, L, x = z3.Array(ex.uniq('digits.text'), z3.IntSort(), z3.IntSort()), z3.Int(ex.uniq('digits')), z3.Int(ex.uniq('number'))
            st.assume(And(x == val, T == Dec(x), L == DecLen(x)))
            hi = len(str(2 ** w - 1)) if mm.group(2) == 'u' else len(str(-2 ** (w - 1)))
            st.assume(And(L >= 1, L <= hi))
        elif s in ('%f', '%lf', '%p'):
            T, L = self.special
            st.assume(And(L >= 3, L <= (317 if s != '%p' else 18)))
        else:
            raise Unsupported('format %s' % s)
        q = z3.Int('q!p')
        st.assume(z3.ForAll([q], z3.And(Sel(T, q) >= 0, Sel(T, q) < 256), patterns=[Sel(T, q)]))
        c = z3.If(L < n, L, n - 1)
        cstr.fill(ex, st, d, z3.If(z3.IntVal(n) > 0, c + 1, z3.IntVal(0)) if isinstance(n, int) else z3.If(n > 0, c + 1, z3.IntVal(0)), lambda k: z3.If(k < c, Sel(T, k), z3.IntVal(0)))
        return [('ret', st, I(32, L, 0, 400))]

    # ---- threads
    def self_id(self, ex, st, args, m, ins):
        v = z3.Int('self')
        st.assume(And(v > 0, v < 2 ** 64))
        return [('ret', st, I(64, v, 1, 2 ** 64 - 1))]

    def same_id(self, ex, st, args, m, ins):
        e = ex.th.U(args[0]) == ex.th.U(args[1])
        return [('ret', st, I(32, z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1))]

    # ---- the mutex
    def sem_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (16, Abs('sem'))
        st.ghost['semval'] = ex.th.U(args[1])
        return [('ret', st, None)]

    def is_mutex(self, ex, st, p):
        if p.base != 'ls' or p.off != self.off['mutex']:
            raise Unsupported('unknown semaphore')

    def wait(self, ex, st, args, m, ins):
        self.is_mutex(ex, st, args[0])
        g = st.ghost
        ex.require(st, 'deadlock', g['held'] == 0, 'the mutex of the stream is not acquired twice')
        r = z3.Bool(ex.uniq('acquired'))
        g['held'] = z3.If(r, z3.IntVal(1), z3.IntVal(0))
        g['refused'] = Or(g['refused'], z3.Not(r))
        return [('ret', st, I(1, r))]

    def post(self, ex, st, args, m, ins):
        self.is_mutex(ex, st, args[0])
        g = st.ghost
        ex.require(st, 'precondition', g['held'] == 1, 'only an acquired mutex is released')
        g['held'] = z3.IntVal(0)
        g['posts'] = g['posts'] + 1
        if hasattr(self, 'at_post'):
            self.at_post(ex, st)
        return [('ret', st, None)]

    def under(self, ex, st, what):
        ex.require(st, 'race', st.ghost['held'] == 1, what + ' only under the mutex of the stream')

    # ---- the list of buffers
    def l_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (24, Abs('list'))
        return [('ret', st, None)]

    def at(self, st, p, k):
        c = st.mem[p.base].cells.get(p.off)
        if c is None or not isinstance(c[1], Abs) or c[1].kind != k:
            raise Unsupported('unknown container')

    def l_begin(self, ex, st, args, m, ins):
        self.at(st, args[0], 'list')
        self.under(ex, st, 'the buffers are looked at')
        return [('ret', st, P('@infos', z3.IntVal(0)))]

    def l_end(self, ex, st, args, m, ins):
        self.at(st, args[0], 'list')
        return [('ret', st, P('@infos', self.ninf))]

    def l_push(self, ex, st, args, m, ins):
        self.at(st, args[0], 'list')
        o, v = self.off, args[1]
        ld = lambda f, w: ex.load(st, P(v.base, v.idx, v.off + o[f]), ir.Ty('int', w=w) if w else ir.Ty('ptr'))
        st.ghost['added'] = st.ghost['added'] + ((ex.th.U(ld('itid', 64)), ex.th.U(ld('ilvl', 32)), ld('its', 0)),)
        if self.role != 'construction':
            self.under(ex, st, 'a buffer is added')
        return [('ret', st, None)]

    def node(self, ex, st, p, base):
        v = ex.load(st, p, ir.Ty('ptr'))
        if not isinstance(v, P) or v.base not in (base if isinstance(base, tuple) else (base,)):
            raise Unsupported('not an iterator of this container')
        return v

    def i_copy(self, ex, st, args, m, ins):
        ex.store(st, args[0], ir.Ty('ptr'), self.node(ex, st, args[1], '@infos'))
        return [('ret', st, None)]

    def i_deref(self, ex, st, args, m, ins):
        v = self.node(ex, st, args[0], '@infos')
        self.under(ex, st, 'a buffer is looked at')
        ex.require(st, 'precondition', And(v.idx >= 0, v.idx < self.ninf), 'an iterator is followed only inside the list')
        return [('ret', st, v)]

    def i_step(self, base):
        def f(ex, st, args, m, ins):
            v = self.node(ex, st, args[0], base)
            j = v.idx + 1 if m.group(1) == '++' else v.idx - 1
            ex.require(st, 'precondition', And(j >= 0, j <= (self.ninf if base == '@infos' else self.nout)), 'an iterator moves only inside its container')
            ex.store(st, args[0], ir.Ty('ptr'), P(base, j))
            return [('ret', st, v if m.group(2) else args[0])]
        return f

    def i_eq(self, ex, st, args, m, ins):
        a, b = [self.node(ex, st, x, ('@infos', '@outs')) for x in args]
        if a.base != b.base:
            raise Unsupported('iterators of two containers')
        e = a.idx == b.idx
        return [('ret', st, I(1, e if '==' in (m.group(1), m.lastindex and m.group(m.lastindex)) else z3.Not(e)))]

    # ---- the outputs
    def s_ctor(self, ex, st, args, m, ins):
        st.w(args[0].base).cells[args[0].off] = (48, Abs('set'))
        return [('ret', st, None)]

    def s_begin(self, ex, st, args, m, ins):
        self.at(st, args[0], 'set')
        self.under(ex, st, 'the outputs are looked at')
        return [('ret', st, P('@outs', z3.IntVal(0)))]

    def s_end(self, ex, st, args, m, ins):
        self.at(st, args[0], 'set')
        return [('ret', st, P('@outs', self.nout))]

    def s_change(self, what):
        def f(ex, st, args, m, ins):
            self.at(st, args[0], 'set')
            self.under(ex, st, 'the outputs are changed')
            v = ex.load(st, args[1], ir.Ty('ptr'))
            ex.require(st, 'postcondition', z3.BoolVal(self.role == what and isinstance(v, P) and v.base == '@new'), 'the output given is added or removed')
            st.ghost['pushed'] = st.ghost['pushed'] + 1
            if ins.ty is not None and ins.ty.k == 'int':
                return [('ret', st, I(64, z3.Int(ex.uniq('erased')), 0, 1))]
            return [('ret', st, (P('@outs', z3.Int(ex.uniq('at'))), ex.th.const(8, 1)))]
        return f

    def o_deref(self, ex, st, args, m, ins):
        v = self.node(ex, st, args[0], '@outs')
        ex.require(st, 'precondition', And(v.idx >= 0, v.idx < self.nout), 'an iterator is followed only inside the set')
        b = ex.uniq('@slot')
        ex.new_obj(st, b, None, 8)
        st.w(b).cells[0] = (8, P('@output', v.idx))
        return [('ret', st, P(b))]

    def push(self, ex, st, args, m, ins):
        g, o = st.ghost, self.off
        if args[0].base != '@output' or self.role != 'flush':
            raise Unsupported('unknown output')
        self.under(ex, st, 'outputs are written to')
        ex.require(st, 'postcondition', args[0].idx == g['pos'], 'every output is given the message once')
        ex.require(st, 'postcondition', And(ex.th.U(args[1]) == self.ll.t, ex.th.S(args[4]) % 2 ** 32 == self.line.t % 2 ** 32), 'with its level and line')
        for i, k in ((3, 'filename'), (5, 'classname'), (6, 'objectname'), (7, 'function'), (8, 'data')):
            r = Region(ex, st, args[i], 'text')
            L = CAP + 1 if k != 'data' else self.wi.t
            ex.require(st, 'postcondition', z3.Implies(And(K >= 0, K < L), r.at(K) == Sel(self.a0[k], K)), 'with the %s of this message' % {'data': 'text', 'filename': 'file', 'classname': 'class', 'objectname': 'object'}.get(k, k))
            if k == 'data':
                ex.require(st, 'postcondition', r.at(self.wi.t) == 0, 'the text ends where it was written to')
        ex.require(st, 'postcondition', z3.BoolVal(isinstance(args[2], P) and args[2].base == '@name'), 'with the name of the stream')
        g['pos'] = g['pos'] + 1
        return [('ret', st, None)]

    def empty(self, ex, st, what):
        ex.require(st, 'postcondition', And(self.fld(st, 'wi', 64) == 0, self.fld(st, 'line', 64) == 0, *[Sel(self.arr(st, k), 0) == 0 for k in TEXTS]), what)

    def released(self, ex, st, args, m, ins):
        """contract of handing a buffer back, discharged by the unit of that name"""
        g = st.ghost
        ex.require(st, 'postcondition', z3.BoolVal(args[1].base == 'ts'), 'the buffer handed back is this one')
        self.under(ex, st, 'a buffer is handed back')
        ex.require(st, 'postcondition', g['pos'] == self.nout, 'a buffer is handed back only after every output was given the message')
        g['free'] = g['free'] + 1
        return [('ret', st, None)]

    def flushed(self, ex, st, args, m, ins):
        """contract of flush, discharged by the unit of that name"""
        if args[0].base != 'ts':
            raise Unsupported('flush of another buffer')
        st.ghost['flushes'] = st.ghost['flushes'] + 1
        self.at_flush(ex, st)
        self.h.ex.store(st, P('ts', 0, self.off['wi']), ir.Ty('int', w=64), ex.th.const(64, 0))
        return [('ret', st, None)]

    def given(self, ex, st, args, m, ins):
        """contract of threadStream, discharged by the unit of that name"""
        ex.require(st, 'postcondition', And(z3.BoolVal(args[0].base == 'ls'), ex.th.U(args[1]) == self.want), 'a buffer for the level of the message is asked for')
        st.ghost['given'] = st.ghost['given'] + 1
        return [('ret', st, P('ts'))]

    def inv(self, o, what=''):
        h = self.h
        h.post(o, 'the buffer stays well-formed%s' % what, And(self.fld(o.st, 'wi', 64) >= 0, self.fld(o.st, 'wi', 64) <= CAP - 1, *[Sel(self.arr(o.st, k), CAP) == 0 for k in TEXTS]))


def cells(k, *names):
    return [('ts', k.off[n]) for n in names]


def appended(k, st, src, n, pb):
    """the first characters of src that fit were appended to the text"""
    room = CAP - 1 - k.wi.t - pb
    m = z3.If(n <= room, n, z3.If(room > 0, room, z3.IntVal(0)))
    a = k.arr(st, 'data')
    return And(k.fld(st, 'wi', 64) == k.wi.t + m,
               z3.Implies(And(K >= 0, K < k.wi.t), Sel(a, K) == Sel(k.a0['data'], K)),
               z3.Implies(And(K >= 0, K < m), Sel(a, k.wi.t + K) == Sel(src, K)))


def u_write(mods):
    k = Log(mods, 'writing')
    h = k.h
    n, pb = h.int('bytes', 64, False, 0, 2 ** 40), h.int('kept free', 64, False, 0, 2 ** 32)
    h.ex.new_arr(h.st, 'source', 1, n.t, {0: z3.Array('source', z3.IntSort(), z3.IntSort())}, ro=True)
    for o in h.only_ret(h.call('vcg_write', [k.ts, P('source'), n, pb])):
        h.post(o, 'the characters that fit are appended', appended(k, o.st, h.st.mem['source'].fields[0], n.t, pb.t))
        k.inv(o)
        h.frame(o, cells(k, 'data', 'wi'))
    return h


def u_texts(mods):
    out = []
    for f in TEXTS:
        k = Log(mods, 'setting the ' + f)
        h = k.h
        s, a, L = k.text()
        for o in h.only_ret(h.call('vcg_set_' + f, [k.ts, s])):
            m = z3.If(L <= CAP, L, z3.IntVal(CAP))
            t = k.arr(o.st, f)
            h.post(o, 'the text is the one given, or as much of it as fits', And(z3.Implies(And(K >= 0, K < m), Sel(t, K) == Sel(a, K)), Sel(t, m) == 0))
            k.inv(o)
            h.frame(o, cells(k, f))
        out.append(h)
    k = Log(mods, 'setting line and level')
    h = k.h
    n = h.int('new line', 64, False)
    for o in h.only_ret(h.call('vcg_set_line', [k.ts, n])):
        h.post(o, 'the line is the one given', k.fld(o.st, 'line', 64) == n.t)
        h.frame(o, cells(k, 'line'))
    n = h.int('new level', 32, False, 0, 5)
    for o in h.only_ret(h.call('vcg_set_lline', [k.ts, n])):
        h.post(o, 'the level is the one given', k.fld(o.st, 'lline', 32) == n.t)
        h.frame(o, cells(k, 'lline'))
    for o in h.only_ret(h.call('vcg_set_active', [k.ls, I(1, z3.Bool('new active'))])):
        h.post(o, 'the stream is active as told', (h.u(h.ld(o, k.ls, k.off['active'], 8)) != 0) == z3.Bool('new active'))
        h.frame(o, [('ls', k.off['active'])])
    for o in h.only_ret(h.call('vcg_is_active', [k.ls])):
        h.post(o, 'the state told is the state set', Bz(o.val.t) == (k.act.t != 0))
        h.frame(o, [])
    for o in h.only_ret(h.call('vcg_level_of', [k.ls])):
        h.post(o, 'the level told is the level of the stream', h.u(o.val) == k.il.t)
        h.frame(o, [])
    out.append(h)
    return out


def u_values(mods):
    out = []
    for t, w, sg in (('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1)):
        k = Log(mods, 'logging a %ssigned integer of %d bits' % ('' if sg else 'un', w))
        h = k.h
        v = h.int('value', w, bool(sg))
        x = h.ex.th.S(v) if sg else h.ex.th.U(v)
        for o in h.only_ret(h.call('vcg_op_' + t, [k.ts, v])):
            h.post(o, 'the decimal text of the value is appended', appended(k, o.st, Dec(x), DecLen(x), 1))
            k.inv(o)
            h.frame(o, cells(k, 'data', 'wi'))
        out.append(h)
    for t in ('double', 'ptr'):
        k = Log(mods, 'logging a ' + {'double': 'floating point number', 'ptr': 'pointer'}[t])
        h = k.h
        k.special = (z3.Array('value.text', z3.IntSort(), z3.IntSort()), z3.Int('value.length'))
        v = D(z3.Const('value', DSort)) if t == 'double' else P('ls')
        for o in h.only_ret(h.call('vcg_op_' + t, [k.ts, v])):
            h.post(o, 'the text of the value is appended', appended(k, o.st, *k.special, 1))
            k.inv(o)
            h.frame(o, cells(k, 'data', 'wi'))
        out.append(h)
    k = Log(mods, 'logging a truth value')
    h = k.h
    b = z3.Bool('value')
    for o in h.only_ret(h.call('vcg_op_bool', [k.ts, I(1, b)])):
        for name, s in ((True, 'True'), (False, 'False')):
            a = z3.K(z3.IntSort(), z3.IntVal(0))
            for i, c in enumerate(s):
                a = z3.Store(a, i, ord(c))
            h.post(o, '%s is appended' % s, z3.Implies(b == name, appended(k, o.st, a, z3.IntVal(len(s)), 1)))
        k.inv(o)
        h.frame(o, cells(k, 'data', 'wi'))
    out.append(h)
    for t in ('text', 'string'):
        k = Log(mods, 'logging a ' + t)
        h = k.h
        s, a, L = k.text()
        if t == 'string':
            s = h.obj('string', None, 32)
            h.put(s, 0, Abs('string', text='source'), 32)
        for o in h.only_ret(h.call('vcg_op_' + t, [k.ts, s])):
            h.post(o, 'the text is appended', appended(k, o.st, a, L, 1))
            k.inv(o)
            h.frame(o, cells(k, 'data', 'wi'))
        out.append(h)
    return out


def u_end(mods):
    out = []
    k = Log(mods, 'ending a line', ('flush',))
    h = k.h
    k.at_flush = lambda ex, st: ex.require(st, 'postcondition', And(z3.Implies(k.wi.t <= CAP - 2, And(k.fld(st, 'wi', 64) == k.wi.t + 1, Sel(k.arr(st, 'data'), k.wi.t) == 10)), z3.Implies(And(K >= 0, K < k.wi.t), Sel(k.arr(st, 'data'), K) == Sel(k.a0['data'], K))), 'a line is ended by a line break, also when the buffer is full')
    for o in h.only_ret(h.call('vcg_endl', [k.ts])):
        h.post(o, 'the message is handed over once', o.st.ghost['flushes'] == 1)
        k.inv(o)
        h.frame(o, cells(k, 'data', 'wi'))
    out.append(h)
    k = Log(mods, 'printf', ('flush',))
    h = k.h

    def at_flush(ex, st):
        r, T, n = k.printed
        a, wi = k.arr(st, 'data'), k.fld(st, 'wi', 64)
        room = CAP - 1 - k.wi.t
        ex.require(st, 'postcondition', And(wi >= 0, wi <= CAP - 1), 'the buffer stays well-formed')
        ex.require(st, 'postcondition', z3.Implies(And(K >= 0, K < k.wi.t), Sel(a, K) == Sel(k.a0['data'], K)), 'what was written before is kept')
        ex.require(st, 'postcondition', z3.Implies(r < 0, wi == k.wi.t), 'nothing is appended if the text could not be made')
        ex.require(st, 'postcondition', z3.Implies(And(r >= 0, K >= 0, K < r, K < room - 1), And(k.wi.t + K < wi, Sel(a, k.wi.t + K) == Sel(T, K))), 'the text is appended, or as much of it as fits')
        ex.require(st, 'postcondition', z3.Implies(r >= 0, Or(wi == k.wi.t + r, And(r >= room, Or(wi <= k.wi.t + r, True), z3.Implies(And(room >= 1), Or(wi == CAP - 2, Sel(a, CAP - 2) == 0))))), 'nothing else is appended')
    k.at_flush = at_flush
    h.ex.new_arr(h.st, 'format', 1, z3.Int('format.size'), {0: z3.Array('format', z3.IntSort(), z3.IntSort())}, ro=True)
    for o in h.only_ret(h.call('vcg_printf', [k.ts, P('format'), h.int('argument', 32, True)])):
        h.post(o, 'the message is handed over once', o.st.ghost['flushes'] == 1)
        k.inv(o)
        h.frame(o, cells(k, 'data', 'wi'))
    out.append(h)
    return out


def u_flush(mods):
    k = Log(mods, 'flush', ('release',))
    h = k.h

    def at_post(ex, st):
        g = st.ghost
        ex.require(st, 'postcondition', And(g['pos'] == k.nout, g['free'] == 1), 'every output was given the message and the buffer is handed back when the mutex is released')
        k.empty(ex, st, 'nothing of this message is left in the buffer when it can be taken by another thread')
        k.taken = h.int('written.next', 64, False, 0, CAP - 1)   # another thread has taken the buffer
        for c in h.st.pc[-2:]:
            st.assume(c)
        ex.store(st, P('ts', 0, k.off['wi']), ir.Ty('int', w=64), k.taken)
        for n in TEXTS + ('data',):
            st.w('ts').cells[k.off[n]] = ((1, CAP + 1), ArrV(z3.Array('next.' + n, z3.IntSort(), z3.IntSort())))
    k.at_post = at_post
    h.ex.new_arr(h.st, '@outs', 8, k.nout + 1)

    def pos(ex, ctx):
        r = []
        q = ('ghost', 'pos')
        if q in ctx.keys:
            r.append(('outputs', lambda v: And(v[q] >= 0, v[q] <= k.nout)))
            for c in ctx.keys:
                if isinstance(ctx.entry.get(c), P) and ctx.entry[c].base == '@outs':
                    r.append(('iterator %s' % (c,), lambda v, c=c: v[c].idx == v[q]))
        return r
    h.ex.templates.append(pos)
    for o in h.only_ret(h.call('vcg_flush', [k.ts])):
        g = o.st.ghost
        h.post(o, 'the mutex is held as before', g['held'] == 0)
        h.post(o, 'the message was handed over', Or(g['refused'], And(g['pos'] == k.nout, g['free'] == 1)))
        h.post(o, 'a refused lock hands nothing over', z3.Implies(g['refused'], And(g['pos'] == 0, g['free'] == 0, k.fld(o.st, 'wi', 64) == 0)))
        if hasattr(k, 'taken'):
            h.post(o, 'the buffer is not touched once it can be taken by another thread', z3.Implies(z3.Not(g['refused']), And(k.fld(o.st, 'wi', 64) == k.taken.t, *[Sel(k.arr(o.st, n), K) == Sel(z3.Array('next.' + n, z3.IntSort(), z3.IntSort()), K) for n in TEXTS + ('data',)])))
        h.frame(o, cells(k, 'data', 'wi', 'line', *TEXTS))
    return h


def infos(k, h):
    """the list of buffers: thread, level and buffer of each entry"""
    S = lambda n: z3.Array(n, z3.IntSort(), z3.IntSort())
    o = k.off
    h.ex.new_arr(h.st, '@infos', h.off('info'), k.ninf, {o['itid']: S('thread'), o['ilvl']: S('at level'), o['its']: S('buffer')})
    h.st.mem['@infos'].ptrf = {o['its']: '@streams'}
    b = Obj('pool', None, None, '@streams', False)
    b.stride, b.len, b.fields = h.off('ts'), None, {o['level']: S('buffer.level'), o['wi']: S('buffer.written')}
    h.st.mem['@streams'] = b
    q = z3.Int('q!i')
    h.assume(z3.ForAll([q], z3.And(Sel(S('thread'), q) >= 0, Sel(S('thread'), q) < 2 ** 64), patterns=[Sel(S('thread'), q)]))
    h.assume(z3.ForAll([q], z3.And(Sel(S('at level'), q) >= 0, Sel(S('at level'), q) <= 5), patterns=[Sel(S('at level'), q)]))
    h.assume(z3.ForAll([q], Sel(S('buffer'), q) > 0, patterns=[Sel(S('buffer'), q)]))
    h.assume(And(W >= 0, W < k.ninf))
    return S('thread'), S('at level'), S('buffer')


def search(k, conds):
    """loop invariant: the arbitrary entry W was passed without a match"""
    def f(ex, ctx):
        r = []
        for c in ctx.keys:
            if isinstance(ctx.entry.get(c), P) and ctx.entry[c].base == '@infos':
                r.append(('inside', lambda v, c=c: And(v[c].idx >= 0, v[c].idx <= k.ninf)))
                for name, cond in conds:
                    r.append((name, lambda v, c=c, cond=cond: z3.Implies(W < v[c].idx, z3.Not(cond(W)))))
        return r
    return f


def u_stream(mods):
    k = Log(mods, 'threadStream')
    h = k.h
    T, Lv, B = infos(k, h)
    self_, lv = z3.Int('self'), h.int('level', 32, False, 0, 5)
    h.ex.templates.append(search(k, [('no buffer of this thread', lambda i: And(Sel(T, i) == self_, Sel(Lv, i) == lv.t)), ('no free buffer', lambda i: Sel(T, i) == 0)]))
    o_ = k.off

    def at_post(ex, st):
        f = st.mem['@infos'].fields
        st.ghost['after'] = (f[o_['itid']], f[o_['ilvl']], f[o_['its']])
    k.at_post = at_post
    for o in h.only_ret(h.call('vcg_stream', [k.ls, lv])):
        g, v = o.st.ghost, o.val
        h.post(o, 'the mutex is held as before', And(g['held'] == 0, g['posts'] == 1))
        t1, l1, b1 = g['after']
        mine = lambda i: And(Sel(T, i) == self_, Sel(Lv, i) == lv.t)
        if v.base == '@streams':
            h.post(o, 'no buffer was added', len(g['added']) == 0)
            # the entry of the buffer handed out: the one changed, or the one found
            R = z3.Int(h.ex.uniq('handed.out'))
            ch = [i for i in store_indices(t1, T)]
            cand = ch[0] if ch else None
            if cand is None:
                it = [x for x in select_indices(v.idx, B)]
                cand = it[0] if it else R
            i = cand
            h.post(o, 'the buffer handed out is in the list', And(i >= 0, i < k.ninf, v.idx == Sel(B, i)))
            h.post(o, 'it was this thread\'s for this level before, or it was free', Or(mine(i), Sel(T, i) == 0))
            h.post(o, 'a thread continues the message it has begun', z3.Implies(mine(W), mine(i)))
            h.post(o, 'it is marked as this thread\'s for this level', And(Sel(t1, i) == self_, Sel(l1, i) == lv.t))
            h.post(o, 'the other entries are unchanged', And(z3.Implies(W != i, And(Sel(t1, W) == Sel(T, W), Sel(l1, W) == Sel(Lv, W))), Sel(b1, W) == Sel(B, W)))
            h.post(o, 'the level of the buffer is that of the stream', h.u(h.ld(o, v, o_['level'], 32)) == k.il.t)
            h.frame(o, [('@infos', o_['itid']), ('@infos', o_['ilvl']), ('@streams', o_['level'])])
        else:
            h.post(o, 'a new buffer is made only if this thread has none and none is free', And(z3.Not(mine(W)), Sel(T, W) != 0))
            ok = len(g['added']) == 1 and isinstance(g['added'][0][2], P) and g['added'][0][2].base == v.base and v.off == 0
            h.post(o, 'it is added to the list once, marked as this thread\'s for this level', And(z3.BoolVal(ok), *([g['added'][0][0] == self_, g['added'][0][1] == lv.t] if ok else [])))
            new_buffer(k, h, o, v)
            h.frame(o, [])
    return h


def new_buffer(k, h, o, v, level=True):
    rd = lambda n, w: h.u(h.ld(o, P(v.base, 0, k.off[n]), 0, w))
    ptr = h.ex.load(o.st, P(v.base, 0, k.off['parent']), ir.Ty('ptr'))
    h.post(o, 'a new buffer belongs to the stream and is empty', And(z3.BoolVal(isinstance(ptr, P) and ptr.base == 'ls'), rd('wi', 64) == 0, rd('line', 64) == 0, rd('lline', 32) == k.il.t, rd('level', 32) == k.il.t,
           *[c for t in TEXTS for a in [h.ex.as_array(o.st, v.base, k.off[t], 1, CAP + 1, BYTE)] for c in (Sel(a, 0) == 0, Sel(a, CAP) == 0)]))


def store_indices(a, base):
    while not a.eq(base) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        yield a.arg(1)
        a = a.arg(0)


def select_indices(t, base):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(base):
        yield t.arg(1)


def u_release(mods):
    k = Log(mods, 'handing back')
    h = k.h
    T, Lv, B = infos(k, h)
    E = z3.Int('entry.of.buffer')
    s = z3.Int('buffer.released')
    q1, q2 = z3.Ints('q!1 q!2')
    h.assume(And(E >= 0, E < k.ninf, s == Sel(B, E), s > 0))
    h.assume(z3.ForAll([q1], z3.Implies(z3.And(q1 >= 0, q1 < k.ninf, Sel(B, q1) == s), q1 == E), patterns=[Sel(B, q1)]))
    h.st.ghost['held'] = z3.IntVal(1)
    h.ex.templates.append(search(k, [('another buffer', lambda i: Sel(B, i) == s)]))

    def reach(ex, ctx):
        return [('not passed yet', lambda v, c=c: v[c].idx <= E) for c in ctx.keys if isinstance(ctx.entry.get(c), P) and ctx.entry[c].base == '@infos']
    h.ex.templates.append(reach)
    for o in h.only_ret(h.call('vcg_release', [k.ls, P('@streams', s)])):
        f = o.st.mem['@infos'].fields
        t1, l1, b1 = f[k.off['itid']], f[k.off['ilvl']], f[k.off['its']]
        h.post(o, 'the buffer is free', Sel(t1, E) == 0)
        h.post(o, 'the other entries are unchanged', And(z3.Implies(W != E, And(Sel(t1, W) == Sel(T, W), Sel(l1, W) == Sel(Lv, W))), Sel(b1, W) == Sel(B, W)))
        h.frame(o, [('@infos', k.off['itid']), ('@infos', k.off['ilvl'])])
    return h


def u_outputs(mods):
    out = []
    for f, role in (('add', 'in'), ('remove', 'out')):
        k = Log(mods, role)
        h = k.h
        h.obj('@new', None, 8)
        for o in h.only_ret(h.call('vcg_' + f, [k.ls, P('@new')])):
            g = o.st.ghost
            h.post(o, 'the output is %s once, unless the lock is refused' % ('added' if f == 'add' else 'removed'), z3.If(g['refused'], g['pushed'] == 0, g['pushed'] == 1))
            h.post(o, 'the mutex is held as before', g['held'] == 0)
            h.frame(o, [])
        out.append(h)
    return out


def u_ctor(mods):
    k = Log(mods, 'construction')
    h = k.h
    st = h.st.fork()
    p = P('ls')
    st.w('ls').cells.clear()
    d = h.obj('given name', None, 32)
    h.put(d, 0, Abs('string', text=None), 32)
    st.mem['given name'] = h.st.mem['given name']
    for o in h.only_ret(h.call('vcg_ls_ctor', [p, d, k.il], st=st)):
        g = o.st.ghost
        n = h.off('pool')
        bases = [x[2].base if isinstance(x[2], P) else None for x in g['added']]
        h.post(o, 'there are as many buffers as the pool has, each of its own', And(z3.BoolVal(len(bases) == n and len(set(bases)) == n and None not in bases), n > 0))
        h.post(o, 'all buffers are free', And(*[x[0] == 0 for x in g['added']]))
        for x in g['added'][:2] + g['added'][-1:]:
            new_buffer(k, h, o, x[2])
        h.post(o, 'the mutex is free', g['semval'] == 1)
        h.post(o, 'the stream is active and has the level given', And(h.u(h.ld(o, p, k.off['active'], 8)) == 1, h.u(h.ld(o, p, k.off['ilevel'], 32)) == k.il.t))
    return h


def u_log(mods):
    k = Log(mods, 'logging a message', ('flush', 'stream'))
    h = k.h
    lv = h.int('level given', 32, False, 0, 5)
    k.want = lv.t
    line = h.int('line given', 32, True, 0, 2 ** 31 - 1)
    tx = {n: k.text(n) for n in ('file', 'class', 'object', 'text')}

    def at_flush(ex, st):
        ex.require(st, 'postcondition', And(k.fld(st, 'lline', 32) == lv.t, k.fld(st, 'line', 64) == line.t), 'the level and the line are those of the message')
        for n, f in (('file', 'filename'), ('class', 'classname'), ('object', 'objectname')):
            _, a, L = tx[n]
            m = z3.If(L <= CAP, L, z3.IntVal(CAP))
            t = k.arr(st, f)
            ex.require(st, 'postcondition', And(z3.Implies(And(K >= 0, K < m), Sel(t, K) == Sel(a, K)), Sel(t, m) == 0), 'the %s is that of the message' % n)
        ex.require(st, 'postcondition', And(*[Sel(k.arr(st, 'function'), i) == c for i, c in enumerate(b'vcg_log\0')]), 'the function is the one the message is logged in')
        _, a, L = tx['text']
        room = CAP - 2 - k.wi.t
        m = z3.If(L <= room, L, z3.If(room > 0, room, z3.IntVal(0)))
        d = k.arr(st, 'data')
        ex.require(st, 'postcondition', And(z3.Implies(And(K >= 0, K < m), Sel(d, k.wi.t + K) == Sel(a, K)), z3.Implies(k.wi.t <= CAP - 2, And(k.fld(st, 'wi', 64) == k.wi.t + m + 1, Sel(d, k.wi.t + m) == 10))), 'the text is that of the message, ended by a line break')
    k.at_flush = at_flush
    for o in h.only_ret(h.call('vcg_log', [k.ls, lv, tx['file'][0], line, tx['class'][0], tx['object'][0], tx['text'][0]])):
        g = o.st.ghost
        want = z3.If(And(k.act.t != 0, k.il.t <= lv.t), z3.IntVal(1), z3.IntVal(0))
        h.post(o, 'a message is made exactly if the stream is active and its level is not above that of the message', And(g['flushes'] == want, g['given'] == want))
        h.frame(o, cells(k, 'data', 'wi', 'line', 'lline', *TEXTS))
    return h


UNITS = [('writing', u_write), ('position texts', u_texts), ('values', u_values), ('end of a message', u_end), ('flush', u_flush), ('choice of a buffer', u_stream), ('handing back', u_release), ('outputs', u_outputs), ('construction', u_ctor), ('log macro', u_log)]
