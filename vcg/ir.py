"""Parser for the textual LLVM 18 IR that clang emits for the code under proof.

The IR is produced on every run from /repo's current sources; nothing here is
hand-written code of the project.  Anything outside the supported subset
raises Unsupported, which the driver reports as an undischarged obligation.
"""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fields', 'name', 'packed')

    def __init__(self, k, w=0, n=0, el=None, fields=None, name=None, packed=False):
        self.k, self.w, self.n, self.el, self.fields, self.name, self.packed = k, w, n, el, fields, name, packed

    def __repr__(self):
        return {'int': 'i%d' % self.w, 'arr': '[%d x %r]' % (self.n, self.el)}.get(self.k, self.name or self.k)


VOID, PTR, LABEL, META = Ty('void'), Ty('ptr'), Ty('label'), Ty('metadata')
FLT = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

TOK = re.compile(r'''\s+|;[^\n]*
 |(?P<str>c?"[^"]*")
 |(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<meta>![-a-zA-Z$._0-9\\]*)
 |(?P<attr>\#[0-9]+)
 |(?P<dots>\.\.\.)
 |(?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-FKLMH]+|-?[0-9]+)
 |(?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<p>[\[\](){}<>,=*:|])''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class TS:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] != 'str'

    def acc(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported('expected %s at %s' % (v, self.t[self.i:self.i + 6]))


# operands: ('loc',name) ('int',v) ('glob',name) ('null',) ('undef',) ('zero',) ('fp',s) ('agg',[...]) ('str',bytes) ('ce',op,...)
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'nofree', 'immarg', 'swiftself', 'nest', 'writable', 'dead_on_unwind',
               'allocptr', 'inbounds', 'noinline', 'allocalign'}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'nofpclass', 'range',
              'byref', 'inalloca', 'preallocated', 'captures'}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.dst, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self):
        self.name = None
        self.dem = None
        self.ret = None
        self.params = []     # (name, ty, attrs dict)
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.entry = None
        self.body_text = None
        self.vararg = False
        self._loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.tls = set()
        self.funcs = {}
        self.decls = {}
        self.bydem = {}
        self.aliases = {}

    # ---- type layout (x86-64)
    def size(self, t):
        return self._sa(t)[0]

    def align(self, t):
        return self._sa(t)[1]

    def _sa(self, t):
        if t.k == 'int':
            b = (t.w + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if t.k == 'ptr':
            return (8, 8)
        if t.k == 'fp':
            return (t.w, t.w)
        if t.k == 'arr':
            s, a = self._sa(t.el)
            return (s * t.n, a)
        if t.k == 'vec':
            s, a = self._sa(t.el)
            return (s * t.n, s * t.n)
        if t.k == 'named':
            return self._sa(self.resolve(t))
        if t.k == 'struct':
            off, al = 0, 1
            for f in t.fields:
                s, a = self._sa(f)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Unsupported('size of %r' % t)

    def resolve(self, t):
        if t.k == 'named':
            r = self.types.get(t.name)
            if r is None:
                raise Unsupported('opaque type ' + t.name)
            return r
        return t

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t.fields):
            s, a = self._sa(f)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise Unsupported('field')


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.text = text

    def ptype(self, ts):
        k, v = ts.next()
        if k == 'id':
            if v == 'void':
                t = VOID
            elif v == 'ptr':
                t = PTR
            elif v == 'label':
                t = LABEL
            elif v == 'metadata' or v == 'token':
                t = META
            elif re.fullmatch(r'i[0-9]+', v):
                t = Ty('int', w=int(v[1:]))
            elif v in FLT:
                t = Ty('fp', w=FLT[v], name=v)
            elif v == 'opaque':
                t = Ty('opaque')
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = Ty('named', name=v)
        elif v == '[':
            n = int(ts.next()[1])
            ts.exp('x')
            el = self.ptype(ts)
            ts.exp(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{':
            fs = []
            while not ts.at('}'):
                fs.append(self.ptype(ts))
                ts.acc(',')
            ts.exp('}')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if ts.at('{'):
                ts.next()
                fs = []
                while not ts.at('}'):
                    fs.append(self.ptype(ts))
                    ts.acc(',')
                ts.exp('}')
                ts.exp('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(ts.next()[1])
                ts.exp('x')
                el = self.ptype(ts)
                ts.exp('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise Unsupported('type token %r' % v)
        # function type: T (args)
        if ts.at('(') and t is not PTR or (ts.at('(') and t is PTR and self._is_fnty(ts)):
            d = 0
            while True:
                x = ts.next()[1]
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = Ty('fn', el=t)
        return t

    def _is_fnty(self, ts):
        return True

    def attrs(self, ts):
        r = {}
        while True:
            k, v = ts.peek()
            if k == 'id' and v in PARAM_ATTRS:
                ts.next()
                r[v] = True
            elif k == 'id' and v == 'align':
                ts.next()
                if ts.acc('('):
                    r['align'] = int(ts.next()[1])
                    ts.exp(')')
                else:
                    r['align'] = int(ts.next()[1])
            elif k == 'id' and v in ATTR_PAREN:
                ts.next()
                if ts.acc('('):
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        r[v] = self.ptype(ts)
                        ts.exp(')')
                    else:
                        d = 1
                        while d:
                            x = ts.next()[1]
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                        r[v] = True
            else:
                return r

    def operand(self, ts, ty):
        k, v = ts.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            if ty is not None and ty.k == 'fp':
                return ('fp', v)
            return ('int', int(v, 0))
        if k == 'str':
            return ('str', self.cstr(v))
        if k == 'meta':
            return ('meta', v)
        if v in ('true', 'false'):
            return ('int', 1 if v == 'true' else 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('null',)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and ts.at('{'):
                ts.next()
                r = self.agg(ts, '}')
                ts.exp('>')
                return r
            return self.agg(ts, close)
        if v == 'getelementptr':
            ts.acc('inbounds')
            if ts.at('inrange'):
                ts.next()
            ts.exp('(')
            bt = self.ptype(ts)
            ts.exp(',')
            ops = []
            while True:
                ts.acc('inrange')
                if ts.at('('):
                    d = 0
                    while True:
                        x = ts.next()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                t = self.ptype(ts)
                ops.append((t, self.operand(ts, t)))
                if not ts.acc(','):
                    break
            ts.exp(')')
            return ('ce', 'gep', bt, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast', 'zext', 'sext'):
            ts.exp('(')
            t = self.ptype(ts)
            o = self.operand(ts, t)
            ts.exp('to')
            t2 = self.ptype(ts)
            ts.exp(')')
            return ('ce', v, t, o, t2)
        if v in ('sub', 'add'):
            while not ts.at('('):
                ts.next()
            ts.exp('(')
            t = self.ptype(ts)
            a = self.operand(ts, t)
            ts.exp(',')
            t = self.ptype(ts)
            b = self.operand(ts, t)
            ts.exp(')')
            return ('ce', v, t, a, b)
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            raise Unsupported(v)
        raise Unsupported('operand %r' % v)

    def agg(self, ts, close):
        els = []
        while not ts.at(close):
            t = self.ptype(ts)
            els.append((t, self.operand(ts, t)))
            ts.acc(',')
        ts.exp(close)
        return ('agg', els)

    @staticmethod
    def cstr(v):
        s = v[2:-1] if v.startswith('c') else v[1:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\' and re.fullmatch(r'[0-9A-Fa-f]{2}', s[i + 1:i + 3] or ''):
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            elif s[i] == '\\' and s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)

    LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
               'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
               'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc',
               'noundef'}

    def parse(self):
        lines = self.text.split('\n')
        i, n = 0, len(lines)
        m = self.m
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rhs = l.split(' = type ', 1)
                ts = TS(tokenize(rhs))
                t = self.ptype(ts)
                if t.k != 'opaque':
                    t.name = nm
                    m.types[nm] = t
            elif l.startswith('@'):
                self.glob(l)
            elif l.startswith('declare'):
                f = self.header(l)
                m.decls[f.name] = f
            elif l.startswith('define'):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f = self.header(l[:l.rindex('{')])
                f.body_text = body
                m.funcs[f.name] = f
            i += 1
        names = [x[1:].strip('"') for x in list(m.funcs) + list(m.decls)]
        dem = demangle(names)
        for nm, d in zip(list(m.funcs) + list(m.decls), dem):
            f = m.funcs.get(nm) or m.decls[nm]
            f.dem = d
            m.bydem.setdefault(d, []).append(f)
        m.parser = self
        return m

    def glob(self, l):
        ts = TS(tokenize(re.sub(r'(, (align|comdat|section|!dbg|no_sanitize).*)?$', '', l)) if False else tokenize(l))
        name = ts.next()[1]
        ts.exp('=')
        const = False
        ext = False
        while True:
            k, v = ts.peek()
            if k == 'id' and v in self.LINKAGE:
                if v in ('external', 'extern_weak'):
                    ext = True
                ts.next()
                if v == 'thread_local':
                    self.m.tls.add(name)
                if v == 'thread_local' and ts.at('('):
                    while ts.next()[1] != ')':
                        pass
            elif k == 'id' and v == 'addrspace':
                while ts.next()[1] != ')':
                    pass
            else:
                break
        k, v = ts.next()
        if v == 'alias':
            t = self.ptype(ts)
            ts.exp(',')
            pt = self.ptype(ts)
            self.m.aliases[name] = self.operand(ts, pt)
            return
        if v not in ('constant', 'global'):
            return
        const = v == 'constant'
        t = self.ptype(ts)
        init = None
        if not ext:
            try:
                init = self.operand(ts, t)
            except Unsupported:
                init = None
        self.m.globals[name] = (t, init, const)

    def header(self, l):
        ts = TS(tokenize(l))
        ts.next()
        f = Func()
        while True:
            k, v = ts.peek()
            if k == 'id' and v in self.LINKAGE:
                ts.next()
                continue
            a = self.attrs(ts)
            if a:
                continue
            break
        f.ret = self.ptype_noparen(ts)
        f.name = ts.next()[1]
        ts.exp('(')
        idx = 0
        while not ts.at(')'):
            if ts.acc('...'):
                f.vararg = True
                break
            t = self.ptype_noparen(ts)
            a = self.attrs(ts)
            nm = None
            if ts.peek()[0] == 'loc':
                nm = ts.next()[1]
            f.params.append((nm or '%%%d' % idx, t, a))
            idx += 1
            ts.acc(',')
        ts.exp(')')
        f.tail = [x[1] for x in ts.t[ts.i:]]
        return f

    def ptype_noparen(self, ts):
        # type not followed by a function-type paren
        if ts.peek()[0] == 'id' and ts.peek()[1] == 'ptr':
            ts.next()
            return PTR
        k, v = ts.peek()
        if k == 'id' or k == 'loc':
            save = ts.t
            # cut lookahead paren
            nxt = ts.peek(1)
            if nxt[1] == '(':
                one = TS([ts.peek()])
                ts.next()
                return self.ptype(one)
        return self.ptype(ts)

    # -------------------------------------------------------------- bodies
    def body(self, f):
        if f.body_text is None or f.blocks:
            return
        cur = None
        nparams = len(f.params)
        lines = f.body_text
        joined = []
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip() == ']':
                    i += 1
                    l += ' ' + lines[i].strip()
            elif re.search(r'(?:^|= )(?:invoke) ', s) and i + 1 < len(lines) and lines[i + 1].strip().startswith('to label'):
                i += 1
                l += ' ' + lines[i].strip()
            elif re.search(r'= landingpad ', s):
                while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    l += ' ' + lines[i].strip()
            joined.append(l)
            i += 1
        for l in joined:
            if not l.strip() or l.strip().startswith(';'):
                continue
            mm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if mm:
                cur = '%' + mm.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(nparams)
                f.blocks[cur] = []
                f.order.append(cur)
            f.blocks[cur].append(self.instr(l))
        f.entry = f.order[0]

    def instr(self, l):
        l = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', l)
        ts = TS(tokenize(l))
        dst = None
        if ts.peek()[0] == 'loc' and ts.peek(1)[1] == '=':
            dst = ts.next()[1]
            ts.next()
        op = ts.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = ts.next()[1]
        P = self

        def tyop():
            t = P.ptype(ts)
            return (t, P.operand(ts, t))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while ts.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(ts.next()[1])
            t = self.ptype(ts)
            a = self.operand(ts, t)
            ts.exp(',')
            b = self.operand(ts, t)
            return Instr(op, dst, t, [a, b], fl)
        if op == 'fneg':
            t = self.ptype(ts)
            return Instr(op, dst, t, [self.operand(ts, t)])
        if op in ('icmp', 'fcmp'):
            pred = ts.next()[1]
            while pred in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                pred = ts.next()[1]
            t = self.ptype(ts)
            a = self.operand(ts, t)
            ts.exp(',')
            b = self.operand(ts, t)
            return Instr(op, dst, t, [a, b], pred)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            ts.acc('nneg')
            t, o = tyop()
            ts.exp('to')
            t2 = self.ptype(ts)
            return Instr(op, dst, t2, [o], t)
        if op == 'freeze':
            t, o = tyop()
            return Instr(op, dst, t, [o])
        if op == 'alloca':
            ts.acc('inalloca')
            t = self.ptype(ts)
            cnt = None
            if ts.acc(',') and not ts.at('align'):
                cnt = tyop()
            return Instr(op, dst, t, [], cnt)
        if op == 'load':
            at = ts.acc('atomic')
            ts.acc('volatile')
            t = self.ptype(ts)
            ts.exp(',')
            pt, o = tyop()
            return Instr(op, dst, t, [o], [x[1] for x in ts.t[ts.i:]] if at else None)
        if op == 'store':
            at = ts.acc('atomic')
            ts.acc('volatile')
            t, v = tyop()
            ts.exp(',')
            pt, o = tyop()
            return Instr(op, None, t, [v, o], [x[1] for x in ts.t[ts.i:]] if at else None)
        if op == 'getelementptr':
            ts.acc('inbounds')
            bt = self.ptype(ts)
            ts.exp(',')
            ops = []
            while True:
                ops.append(tyop())
                if not ts.acc(','):
                    break
            return Instr('gep', dst, bt, ops)
        if op == 'phi':
            while ts.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                ts.next()
            t = self.ptype(ts)
            inc = []
            while True:
                ts.exp('[')
                o = self.operand(ts, t)
                ts.exp(',')
                lb = ts.next()[1]
                ts.exp(']')
                inc.append((o, lb))
                if not ts.acc(','):
                    break
            return Instr(op, dst, t, inc)
        if op == 'select':
            c = tyop()
            ts.exp(',')
            a = tyop()
            ts.exp(',')
            b = tyop()
            return Instr(op, dst, a[0], [c[1], a[1], b[1]])
        if op == 'br':
            if ts.at('label'):
                ts.next()
                return Instr(op, None, None, [], (ts.next()[1],))
            c = tyop()
            ts.exp(',')
            ts.exp('label')
            a = ts.next()[1]
            ts.exp(',')
            ts.exp('label')
            b = ts.next()[1]
            return Instr(op, None, None, [c[1]], (a, b))
        if op == 'switch':
            c = tyop()
            ts.exp(',')
            ts.exp('label')
            d = ts.next()[1]
            ts.exp('[')
            cs = []
            while not ts.at(']'):
                t, v = tyop()
                ts.exp(',')
                ts.exp('label')
                cs.append((v, ts.next()[1]))
            return Instr(op, None, c[0], [c[1]], (d, cs))
        if op in ('call', 'invoke'):
            while ts.peek()[1] in self.LINKAGE or ts.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                ts.next()
            self.attrs(ts)
            rt = self.ptype_noparen(ts)
            if ts.at('('):   # vararg function type
                d = 0
                while True:
                    x = ts.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            if ts.at('asm'):
                raise_asm = True
                return Instr('asm', dst, rt, [])
            callee = self.operand(ts, PTR)
            ts.exp('(')
            args = []
            while not ts.at(')'):
                t = self.ptype(ts)
                a = self.attrs(ts)
                if t.k == 'metadata':
                    # metadata operand - skip
                    d = 0
                    while not (d == 0 and (ts.at(',') or ts.at(')'))):
                        x = ts.next()[1]
                        d += x == '('
                        d -= x == ')'
                    args.append((t, ('meta', ''), a))
                else:
                    args.append((t, self.operand(ts, t), a))
                ts.acc(',')
            ts.exp(')')
            x = {'callee': callee}
            if op == 'invoke':
                while not ts.at('to'):
                    ts.next()
                ts.exp('to')
                ts.exp('label')
                x['ok'] = ts.next()[1]
                ts.exp('unwind')
                ts.exp('label')
                x['uw'] = ts.next()[1]
            return Instr(op, dst, rt, args, x)
        if op == 'ret':
            if ts.at('void'):
                return Instr(op, None, VOID, [])
            t, v = tyop()
            return Instr(op, None, t, [v])
        if op == 'unreachable':
            return Instr(op, None, None, [])
        if op == 'resume':
            t, v = tyop()
            return Instr(op, None, t, [v])
        if op == 'landingpad':
            t = self.ptype(ts)
            cl = []
            while ts.peek()[0] != 'eof':
                v = ts.next()[1]
                if v == 'cleanup':
                    cl.append(('cleanup',))
                elif v == 'catch':
                    cl.append(('catch',) + tyop())
                elif v == 'filter':
                    cl.append(('filter',) + tyop())
            return Instr(op, dst, t, [], cl)
        if op == 'extractvalue':
            t, v = tyop()
            idx = []
            while ts.acc(','):
                idx.append(int(ts.next()[1]))
            return Instr(op, dst, t, [v], idx)
        if op == 'insertvalue':
            t, v = tyop()
            ts.exp(',')
            t2, v2 = tyop()
            idx = []
            while ts.acc(','):
                idx.append(int(ts.next()[1]))
            return Instr(op, dst, t, [v, v2], (t2, idx))
        if op in ('atomicrmw',):
            ts.acc('volatile')
            k = ts.next()[1]
            pt, p = tyop()
            ts.exp(',')
            t, v = tyop()
            return Instr(op, dst, t, [p, v], (k, [x[1] for x in ts.t[ts.i:]]))
        if op == 'cmpxchg':
            weak = bool(ts.acc('weak'))
            ts.acc('volatile')
            pt, p = tyop()
            ts.exp(',')
            t, c = tyop()
            ts.exp(',')
            t, v = tyop()
            return Instr(op, dst, t, [p, c, v], (weak, [x[1] for x in ts.t[ts.i:]]))
        if op == 'fence':
            return Instr(op, None, None, [], [x[1] for x in ts.t[ts.i:]])
        return Instr('unsupported:' + op, dst, None, [], l)


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['/usr/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.rstrip('\n').split('\n')


# ---------------------------------------------------------------- CFG
def succs(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x['ok'], ins.x['uw']]
    return []


def loops(f):
    """natural loops: header -> set(blocks); irreducible graphs are unsupported"""
    if f._loops is not None:
        return f._loops
    sc = {b: succs(ins[-1]) for b, ins in f.blocks.items()}
    # reachable
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st.extend(sc[b])
    pr = {b: [] for b in seen}
    for b in seen:
        for s in sc[b]:
            pr[s].append(b)
    dom = {b: set(seen) for b in seen}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == f.entry or b not in seen:
                continue
            ps = [dom[p] for p in pr[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    L = {}
    for b in seen:
        for s in sc[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pr[x])
    # check reducible: every retreating edge is a back edge
    color = {}

    def dfs():
        stack = [(f.entry, iter(sc[f.entry]))]
        color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1 and s not in dom[b]:
                    raise Unsupported('irreducible control flow in ' + f.dem)
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(sc[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
    dfs()
    f._loops = L
    return L


def parse(text):
    return Parser(text).parse()
