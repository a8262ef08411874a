"""C35 log files: every line is appended to the file once, and no line is lost when the file is rotated

A text is a number (as in C30). The file stream and the handles of the compression library are trusted contracts: they may refuse to open, write less than asked for, fail to read or to close."""
from .threadlib import *
from .c30 import Opt, lit, NONE, STR, I_, BIG
from .c21 import NATIVE as NAT21
import re

TUS = {'t': 'tu/filelog.cpp'}
NATIVE = {'src': 'native/filelog.cpp', 'sources': NAT21['sources'], 'flags': NAT21['flags'] + ['-fno-access-control'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['the file stream, zlib, unlink and rename are trusted contracts with arbitrary outcomes; a stream that is open takes every line; lines are shorter than 2^31 characters',
               'the day of the clock and the text of a day are C06 and C28; old log files are not deleted (the option is off; deleting them is not claimed); days are within 10^9 of 1970']
CAT, LEN, DAYTEXT = z3.Function('joined', I_, I_, I_), z3.Function('length', I_, I_), z3.Function('day', I_, I_)
FL = 'icl_core::logging::FileLogOutput::'
S_ = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
for t in ('', '.gz', '.%Y-%m-%d', 'rb', 'wb', 'ab'):
    lit(t)
NAME, LINE = z3.Int('filename'), z3.Int('line')
ONE = z3.Int('one')


def holds(b):
    return ONE == (1 if b else 0)


class File(Opt):
    def __init__(self, mods, name, zip_, opened, **opts):
        h = self.h = H(mods['t'], name, [], opts=dict({'term': False}, **opts), extra=[NOW])
        self.o = o = {n: h.off(n) for n in ('size', 'filename', 'file', 'rotate', 'last', 'delold', 'flush', 'zip', 'zipped')}
        self.slots, self.zip = {}, zip_
        OF, GZ = r'std::basic_ofstream<char, std::char_traits<char> ?>::', r'@?'
        T = [(STR + r'::basic_string(?:<.*>)?\(.*\)', self.s_ctor), (STR + r'::~basic_string\(\)', NONE), (STR + r'::(?:c_str|data)\(\) const', lambda ex, st, a, m, i: [('ret', st, a[0])]), (STR + r'::(?:length|size)\(\) const', self.length_of), (r'(?:.* )?std::operator\+<char, .*', self.s_plus), (STR + r'::(?:append|operator\+=)\(.*\)', self.s_append),
             (r'std::(?:__)?new_allocator<.*|std::allocator<.*', NONE), (r'@?strlen', self.length_of),
             (OF + r'is_open\(\)(?: const)?', self.f_is), (OF + r'open\((?:char const\*|' + STR + r' const&), std::_Ios_Openmode\)', self.f_open), (OF + r'close\(\)', self.f_close), (r'std::(?:ostream|basic_ostream<.*>)::flush\(\)', self.f_flush),
             (r'(?:.* )?std::operator<< ?<.*', self.f_put), (r'std::(?:ostream|basic_ostream<.*>)::operator<<\(.*', lambda ex, st, a, m, i: [('ret', st, a[0])]), (r'std::operator\|\(std::_Ios_Openmode, std::_Ios_Openmode\)', self.modes),
             (GZ + r'gzopen(?:64)?', self.gz_open), (GZ + r'gzread', self.gz_read), (GZ + r'gzwrite', self.gz_write), (GZ + r'gzflush', self.gz_flush), (GZ + r'gzclose', self.gz_close),
             (r'icl_core::TimeStamp::TimeStamp\(long\)', self.t_ctor), (r'icl_core::TimeStamp::now\(\)', self.t_now)]
        for rx, f in T:
            h.ex.handlers.insert(0, (re.compile(rx), f, 'trusted'))
        for rx, f in ((r'icl_core::TimeBase::days\(\) const', self.days), (r'icl_core::TimeStamp::strfTime\(char\*, unsigned long, char const\*\) const', self.strf),
                      (r'icl_core::os::(?:hidden_posix::)?(unlink|rename)\(.*\)', self.move)):
            h.ex.handlers.insert(0, (re.compile(rx), f, 'contract'))
        h.ex.hcache.clear()
        h.ex.new_obj(h.st, '@lit', None, 8)
        h.assume(ONE == 1)
        h.assume(And(NAME >= 0, NAME < BIG, LINE >= 0, LINE < BIG, LEN(LINE) >= 0, LEN(LINE) < 2 ** 31))
        self.p = h.obj('log', None, o['size'])
        self.sput(h.st, P('log', 0, o['filename']), NAME)
        self.rot, self.last, self.fl = h.int('rotate', 8, False, 0, 1), h.int('last.rotation', 64, True, -10 ** 9, 10 ** 9), h.int('flush', 8, False, 0, 1)
        h.put(self.p, o['rotate'], self.rot, 1)
        h.put(self.p, o['last'], self.last, 8)
        h.put(self.p, o['flush'], self.fl, 1)
        for n, v in (('delold', 0), ('zip', 1 if zip_ else 0)):
            h.put(self.p, o[n], h.ex.th.const(8, v), 1)
        h.put(self.p, o['zipped'], P('@zip0') if zip_ and opened else NULL, 8)
        h.ex.new_obj(h.st, '@zip0', None, 8)
        g = h.st.ghost
        g['open'] = 1 if opened else 0         # decided along each path
        g['handle'] = '@zip0' if zip_ and opened else None
        g['log'] = ()
        g['today'] = None
        g['zipped'] = None

    # ---- texts
    def sof(self, ex, st, v):
        if isinstance(v, P) and v.base is not None and v.base == st.ghost.get('stamp'):
            return st.ghost['stamp.text']
        return Opt.sof(self, ex, st, v)

    def s_plus(self, ex, st, args, m, ins):
        a, b = self.sof(ex, st, args[1]), self.sof(ex, st, args[2])
        self.sput(st, args[0], self.cat(a, b))
        return [('ret', st, None)]

    def s_append(self, ex, st, args, m, ins):
        if len(args) != 2:
            raise Unsupported('appending a part of a text')
        self.sput(st, args[0], self.cat(self.sof(ex, st, args[0]), self.sof(ex, st, args[1])))
        return [('ret', st, args[0])]

    def cat(self, a, b):
        if z3.is_app(a) and a.decl().eq(CAT):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        return CAT(a, b)

    def sput(self, st, p, t):
        Opt.sput(self, st, p, t)

    def length_of(self, ex, st, args, m, ins):
        t = LEN(self.sof(ex, st, args[0]))
        st.assume(And(t >= 0, t < 2 ** 31))
        return [('ret', st, I(64, t, 0, 2 ** 31))]

    def say(self, st, *e):
        st.ghost['log'] = st.ghost['log'] + (e,)

    # ---- the file stream
    def mine(self, p):
        return isinstance(p, P) and p.base == 'log' and p.off == self.o['file']

    def f_is(self, ex, st, args, m, ins):
        return [('ret', st, I(1, z3.BoolVal(bool(st.ghost['open'] and not self.zip))))]

    def modes(self, ex, st, args, m, ins):
        return [('ret', st, I(32, ex.th.U(args[0]) + ex.th.U(args[1]), 0, 255))]

    def f_open(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', And(holds(self.mine(args[0]) and not self.zip and not g['open']), self.sof(ex, st, args[1]) == NAME), 'the log file is opened under its name, if it is not open')
        ex.require(st, 'postcondition', Or(ex.th.U(args[2]) == 17, ex.th.U(args[2]) == 1, ex.th.U(args[2]) == 21), 'it is opened for appending')
        s2 = st.fork()
        self.say(s2, 'refused')
        g['open'] = 1
        self.say(st, 'opened')
        return [('ret', st, None), ('ret', s2, None)]

    def f_close(self, ex, st, args, m, ins):
        st.ghost['open'] = 0
        self.say(st, 'closed')
        return [('ret', st, None)]

    def f_flush(self, ex, st, args, m, ins):
        if self.mine(args[0]):
            self.say(st, 'flush')
        return [('ret', st, args[0])]

    def f_put(self, ex, st, args, m, ins):
        if self.mine(args[0]):
            ex.require(st, 'postcondition', holds(bool(st.ghost['open'])), 'the file is open when it is written to')
            t = self.sof(ex, st, args[1])
            self.say(st, 'line' if t.eq(LINE) else 'text', t)
        return [('ret', st, args[0])]

    # ---- compressed files
    def gz_open(self, ex, st, args, m, ins):
        g = st.ghost
        mode = [k for k in ('rb', 'wb', 'ab', 'r', 'w', 'a') if self.sof(ex, st, args[1]).eq(lit(k))]
        ex.require(st, 'postcondition', And(holds(self.zip and mode == ['ab'] or mode == ['a']), self.sof(ex, st, args[0]) == NAME, holds(not g['open'])), 'the log file is opened under its name for appending, in a mode that zlib knows, if it is not open')
        s2 = st.fork()
        self.say(s2, 'refused')
        b = ex.uniq('@zip')
        ex.new_obj(st, b, None, 8)
        g['open'], g['handle'] = 1, b
        self.say(st, 'opened')
        return [('ret', st, P(b)), ('ret', s2, NULL)]

    def handle(self, ex, st, p, what):
        ex.require(st, 'precondition', holds(isinstance(p, P) and p.base is not None and p.base == st.ghost['handle'] and bool(st.ghost['open'])), what + ': the file is open')

    def gz_read(self, ex, st, args, m, ins):
        raise Unsupported('reading from the log')

    def gz_write(self, ex, st, args, m, ins):
        self.handle(ex, st, args[0], 'writing')
        t = self.sof(ex, st, args[1])
        ex.require(st, 'postcondition', ex.th.U(args[2]) == LEN(t), 'the whole text is written')
        self.say(st, 'line' if t.eq(LINE) else 'text', t)
        return [('ret', st, ex.th.fresh(ex.uniq('written'), 32, True))]

    def gz_flush(self, ex, st, args, m, ins):
        self.handle(ex, st, args[0], 'flushing')
        self.say(st, 'flush')
        return [('ret', st, ex.th.fresh(ex.uniq('flushed'), 32, True))]

    def gz_close(self, ex, st, args, m, ins):
        self.handle(ex, st, args[0], 'closing')
        st.ghost['open'], st.ghost['handle'] = 0, None
        self.say(st, 'closed')
        return [('ret', st, ex.th.fresh(ex.uniq('closed'), 32, True))]

    # ---- days and files
    def t_ctor(self, ex, st, args, m, ins):
        ex.store(st, args[0], ir.Ty('int', w=64), I(64, ex.th.S(args[1]), -2 ** 62, 2 ** 62))
        ex.store(st, P(args[0].base, args[0].idx, args[0].off + 8), ir.Ty('int', w=32), ex.th.const(32, 0))
        return [('ret', st, None)]

    def t_now(self, ex, st, args, m, ins):
        s, n = ex.th.fresh(ex.uniq('now.s'), 64, True), ex.th.fresh(ex.uniq('now.ns'), 32, True)
        return [('ret', st, (s, n))]

    def days(self, ex, st, args, m, ins):
        g = st.ghost
        if g['today'] is None:
            g['today'] = z3.Int('today')
            st.assume(And(g['today'] >= 0, g['today'] <= 10 ** 9))
        return [('ret', st, I(64, g['today'], 0, 10 ** 9))]

    def strf(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'postcondition', self.sof(ex, st, args[3]) == lit('.%Y-%m-%d'), 'the day is written in full')
        ex.require(st, 'bounds', And(ex.th.U(args[2]) >= 12, ex.th.U(args[2]) <= 64), 'there is room for it')
        o = st.mem[args[1].base]
        ex.require(st, 'bounds', holds(isinstance(args[1].off, int) and (not isinstance(o.size, int) or o.size >= 12)), 'there is room for it')
        s = ex.th.S(ex.load(st, args[0], ir.Ty('int', w=64)))
        g['stamp'], g['stamp.text'] = args[1].base, z3.Int(ex.uniq('stamp'))
        d = z3.Int('day.of.stamp')
        st.assume(And(s == 86400 * d, g['stamp.text'] == DAYTEXT(d), g['stamp.text'] >= 0, g['stamp.text'] < BIG)) if False else None
        ex.require(st, 'postcondition', s == 86400 * (z3.IntVal(0) + self.last.t), 'the day written is that of the last rotation')
        st.assume(And(g['stamp.text'] == DAYTEXT(self.last.t), g['stamp.text'] >= 0, g['stamp.text'] < BIG))
        return [('ret', st, None)]

    def zip_file(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', And(holds(not g['open'] and not self.zip), self.sof(ex, st, args[0]) == NAME, self.sof(ex, st, args[1]) == DAYTEXT(self.last.t)), 'the log file is closed and is packed under its name and its day')
        s2 = st.fork()
        self.say(s2, 'not packed')
        self.say(st, 'packed')
        return [('ret', st, I(1, z3.BoolVal(True))), ('ret', s2, I(1, z3.BoolVal(False)))]

    def move(self, ex, st, args, m, ins):
        g = st.ghost
        if m.group(1) == 'unlink':
            ex.require(st, 'postcondition', And(holds(('packed',) in g['log'] and not g['open']), self.sof(ex, st, args[0]) == NAME), 'the log file is removed only if all of it has been packed')
            self.say(st, 'removed')
        else:
            ex.require(st, 'postcondition', And(holds(not g['open'] and self.zip), self.sof(ex, st, args[0]) == NAME, self.sof(ex, st, args[1]) == CAT(NAME, DAYTEXT(self.last.t))), 'the log file is renamed to its name and its day')
            self.say(st, 'renamed')
        return [('ret', st, ex.th.fresh(ex.uniq('result'), 32, True))]


def kinds(log):
    return [e[0] for e in log]


def u_push(mods):
    r = []
    for fn in ('pushImpl', 'rotateLogFile'):
        for zip_ in (False, True):
            for opened in (False, True):
                k = File(mods, '%s%s%s' % (fn, ', packed' if zip_ else '', ', open' if opened else ''), zip_, opened)
                h = k.h
                h.ex.handlers.insert(0, (re.compile(r'icl_core::os::zipFile\(char const\*, char const\*\)'), k.zip_file, 'contract'))
                h.ex.hcache.clear()
                args = [k.p]
                if fn == 'pushImpl':
                    line = h.obj('line', None, 32)
                    k.sput(h.st, line, LINE)
                    args.append(line)
                for q in h.only_ret(h.call(FL + fn + ('(%s)' % S_ if fn == 'pushImpl' else '()'), args)):
                    g = q.st.ghost
                    log = kinds(g['log'])
                    i = log.index('line') if 'line' in log else len(log)
                    pre, post = log[:i], log[i + 1:]
                    today = g['today'] if g['today'] is not None else z3.IntVal(-1)
                    now_last = h.ex.th.S(q.st.mem['log'].cells[k.o['last']][1])
                    turned = And(k.rot.t == 1, today != k.last.t) if g['today'] is not None else z3.BoolVal(False)
                    did = 'packed' in pre or 'not packed' in pre or 'renamed' in pre
                    h.npost += 1
                    h.ex.require(q.st, 'postcondition', z3.Implies(k.rot.t == 1, holds(g['today'] is not None)), 'the day is looked at if the file is to be rotated')
                    h.ex.require(q.st, 'postcondition', turned == holds(did), 'the file is rotated exactly if its day is over')
                    h.ex.require(q.st, 'postcondition', now_last == z3.If(turned, today, z3.IntVal(0) + k.last.t), 'the day of the last rotation is kept')
                    h.ex.require(q.st, 'postcondition', holds(('removed' in log) == ('packed' in log)), 'what was packed is removed')
                    h.ex.require(q.st, 'postcondition', holds(bool(g['open']) or pre[-1:] == ['refused']), 'the file is open, or could not be opened') if fn == 'pushImpl' or did else None
                    if fn == 'pushImpl':
                        h.ex.require(q.st, 'postcondition', holds(log.count('line') == (1 if g['open'] else 0)), 'the line is written exactly once if the file is open')
                        h.ex.require(q.st, 'postcondition', holds(not [x for x in post if x != 'flush']), 'nothing comes behind the line')
                        if g['open']:
                            h.ex.require(q.st, 'postcondition', z3.Implies(k.fl.t == 1, holds('flush' in post)), 'the line is handed to the system at once if asked for')
                    c = q.st.mem['log'].cells[k.o['zipped']][1]
                    if zip_:
                        h.ex.require(q.st, 'postcondition', holds(isinstance(c, P) and c.base == g['handle']), 'the handle kept is that of the open file')
                r.append(h)
    return r


def u_states(mods):
    r = []
    from .c30 import truth
    for fn in ('isOpen', 'closeLogFile', 'openLogFile', 'flush'):
        for zip_ in (False, True):
            for opened in (False, True):
                if not opened and fn == 'flush' or opened and zip_ and fn == 'openLogFile':
                    continue            # never asked for
                k = File(mods, '%s%s%s' % (fn, ', packed' if zip_ else '', ', open' if opened else ''), zip_, opened)
                h = k.h
                for q in h.only_ret(h.call(FL + fn + '()', [k.p])):
                    g, log = q.st.ghost, kinds(q.st.ghost['log'])
                    h.npost += 1
                    c = q.st.mem['log'].cells[k.o['zipped']][1]
                    if fn == 'isOpen':
                        h.ex.require(q.st, 'postcondition', truth(q.val) == holds(opened), 'it is told whether the file is open')
                    want = {'isOpen': [[]], 'flush': [['flush']], 'closeLogFile': [['closed']] if opened else [[]],
                            'openLogFile': [[]] if opened else [['opened'], ['refused']]}[fn]
                    seen = [x for x in log if x not in ('text', 'flush')] if fn == 'openLogFile' else log
                    h.ex.require(q.st, 'postcondition', holds(seen in want), 'exactly what is asked for is done with the file')
                    if zip_:
                        h.ex.require(q.st, 'postcondition', holds(isinstance(c, P) and c.base == g['handle']), 'the handle kept is that of the open file, or none')
                r.append(h)
    return r


class Pack(File):
    def __init__(self, mods):
        File.__init__(self, mods, 'packing', False, False)
        h = self.h
        g = h.st.ghost
        for k in ('got', 'written', 'n', 'ended'):
            g[k] = z3.IntVal(0)
        for k in ('in', 'out', 'in.closed', 'out.closed'):
            g[k] = 0
        g['ok'] = z3.IntVal(1)
        self.fn, self.ext = h.obj('name', None, 8), h.obj('extension', None, 8)
        self.sput(h.st, self.fn, NAME)
        self.e = z3.Int('extension')
        h.assume(And(self.e >= 0, self.e < BIG))
        self.sput(h.st, self.ext, self.e)
        h.ex.new_obj(h.st, '@in', None, 8)
        h.ex.new_obj(h.st, '@out', None, 8)

        def inv(ex, ctx):
            r = []
            for x in ctx.keys:
                if x[0] in ('phi', 'cell') and isinstance(ctx.entry[x], I) and ctx.entry[x].w == 32 and ('ghost', 'n') in ctx.keys:
                    r.append(('%s is what was read' % (x,), lambda v, x=x: z3.IntVal(0) + ex.th.S(v[x]) == v[('ghost', 'n')]))
            if ('ghost', 'got') in ctx.keys:
                n = lambda v: z3.If(v[('ghost', 'n')] > 0, v[('ghost', 'n')], z3.IntVal(0))
                r.append(('all but the last part is written', lambda v: v[('ghost', 'written')] + n(v) == v[('ghost', 'got')]))
                r.append(('the end', lambda v: And((v[('ghost', 'ended')] == 1) == (v[('ghost', 'n')] == 0), v[('ghost', 'n')] <= 4096, v[('ghost', 'n')] >= -1)))
            return r
        h.ex.templates.append(inv)

    def gz_open(self, ex, st, args, m, ins):
        g = st.ghost
        out = self.sof(ex, st, args[1]).eq(lit('wb'))
        ex.require(st, 'postcondition', holds(out or self.sof(ex, st, args[1]).eq(lit('rb'))), 'the file is read, the archive is written')
        ex.require(st, 'postcondition', self.sof(ex, st, args[0]) == (CAT(NAME, CAT(self.e, lit('.gz'))) if out else NAME), 'the archive is named after the file')
        s2 = st.fork()
        g['out' if out else 'in'] = 1
        return [('ret', st, P('@out' if out else '@in')), ('ret', s2, NULL)]

    def use(self, ex, st, p, what):
        g = st.ghost
        k = {'@in': 'in', '@out': 'out'}.get(p.base if isinstance(p, P) else None)
        ex.require(st, 'precondition', holds(k is not None and g[k] == 1 and not g[k + '.closed']), what + ': the file is open')
        if k is None:
            raise Unsupported('unknown handle')
        return k

    def gz_read(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', holds(self.use(ex, st, args[0], 'reading') == 'in'), 'the file is read')
        n = ex.th.U(args[2])
        size = st.mem[args[1].base].size
        ex.require(st, 'bounds', n <= (size if isinstance(size, int) else 4096), 'there is room for what is read')
        ex.require(st, 'postcondition', g['written'] == g['got'], 'what was read before is written')
        self.buffer = args[1].base
        r = ex.th.fresh(ex.uniq('read'), 32, True)
        st.assume(And(r.t >= -1, r.t <= n))
        g['n'] = z3.IntVal(0) + r.t
        g['got'] = g['got'] + z3.If(r.t > 0, r.t, z3.IntVal(0))
        g['ended'] = z3.If(r.t == 0, z3.IntVal(1), z3.IntVal(0))
        return [('ret', st, r)]

    def gz_write(self, ex, st, args, m, ins):
        g = st.ghost
        ex.require(st, 'precondition', holds(self.use(ex, st, args[0], 'writing') == 'out'), 'the archive is written')
        ex.require(st, 'postcondition', And(holds(args[1].base == self.buffer and args[1].off == 0), ex.th.U(args[2]) == g['n'], g['n'] > 0, g['written'] + g['n'] == g['got']), 'what is written is what was read last, and it is written once')
        r = ex.th.fresh(ex.uniq('written'), 32, True)
        st.assume(And(r.t >= 0, r.t <= g['n']))
        g['written'] = g['written'] + r.t
        return [('ret', st, r)]

    def gz_close(self, ex, st, args, m, ins):
        g = st.ghost
        k = self.use(ex, st, args[0], 'closing')
        g[k + '.closed'] = 1
        r = ex.th.fresh(ex.uniq('closed'), 32, True)
        st.assume(And(r.t >= -10, r.t <= 0))
        if k == 'out':
            g['ok'] = z3.If(r.t == 0, z3.IntVal(1), z3.IntVal(0))
        return [('ret', st, r)]


def u_pack(mods):
    k = Pack(mods)
    h = k.h
    for q in h.only_ret(h.call('icl_core::os::zipFile(char const*, char const*)', [k.fn, k.ext])):
        g = q.st.ghost
        h.npost += 1
        for x in ('in', 'out'):
            h.ex.require(q.st, 'postcondition', holds(g[x] == g[x + '.closed']), 'what was opened is closed')
        good = And(holds(g['in'] == 1 and g['out'] == 1), g['ended'] == 1, g['written'] == g['got'], g['ok'] == 1)
        from .c30 import truth
        h.ex.require(q.st, 'postcondition', z3.Implies(truth(q.val), good), 'success is reported only if all of the file is in the archive')
        h.ex.require(q.st, 'postcondition', z3.Implies(good, truth(q.val)), 'success is reported if all of the file is in the archive')
    return h


UNITS = [('lines and rotation', u_push), ('opening and closing', u_states), ('packing', u_pack)]
