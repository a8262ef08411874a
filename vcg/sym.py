"""Verification-condition generator: symbolic execution of LLVM IR with contracts at
calls and inductive invariants at loop heads (no bound on iterations)."""
import z3, time, itertools, re
from . import ir, smt
from .ir import Unsupported, Ty

MAXPATHS = 4000


def names_of(e):
    """names of the variables in an expression"""
    names, seen, stack = [], set(), [e]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.append(e.decl().name())
            else:
                stack.extend(e.children())
    return tuple(names)


# ------------------------------------------------------------------ values
class I:
    """integer of width w.  Int theory: t (python int or z3 Int), lo<=t<=hi, congruent mod 2^w to the value.
    BV theory: t is a z3 BitVec.  w==1: t is a python bool or z3 Bool."""
    __slots__ = ('w', 't', 'lo', 'hi')

    def __init__(self, w, t, lo=None, hi=None):
        self.w, self.t = w, t
        if isinstance(t, int) and not isinstance(t, bool):
            lo = hi = t
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'i%d:%s' % (self.w, self.t)


class P:
    """pointer: region base, element index (Int term) and constant byte offset inside the element; base None is null"""
    __slots__ = ('base', 'idx', 'off')

    def __init__(self, base, idx=0, off=0):
        self.base, self.idx, self.off = base, idx, off

    def __repr__(self):
        return 'P(%s,%s,%s)' % (self.base, self.idx, self.off)


NULL = P(None)


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ('p', 'w')

    def __init__(self, p, w=64):
        self.p, self.w = p, w


class D:
    """floating point value: an uninterpreted term (no arithmetic facts are assumed)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
DSort = z3.DeclareSort('Float')


class ArrV:
    """array of integer cells kept as one SMT array"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a


class Abs:
    """ghost value of a library object (std::vector, std::string, ...): immutable record"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def up(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        k = d.pop('kind')
        return Abs(k, **d)

    def __repr__(self):
        return 'Abs(%s)' % self.__dict__


class Obj:
    __slots__ = ('kind', 'ty', 'size', 'cells', 'ro', 'stride', 'len', 'fields', 'fresh', 'name', 'alive', 'own', 'ptrf')

    def __init__(self, kind='obj', ty=None, size=None, name='', fresh=False, ro=False):
        self.kind, self.ty, self.size, self.name, self.fresh, self.ro = kind, ty, size, name, fresh, ro
        self.cells = {}
        self.stride = None
        self.len = None
        self.fields = {}
        self.alive = True
        self.own = None
        self.ptrf = {}

    def copy(self):
        o = Obj(self.kind, self.ty, self.size, self.name, self.fresh, self.ro)
        o.cells = dict(self.cells)
        o.stride, o.len, o.alive, o.own, o.ptrf = self.stride, self.len, self.alive, self.own, self.ptrf
        o.fields = dict(self.fields)
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'env', 'cuts', 'caller_ins', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.ip = 0
        self.env = {}
        self.cuts = {}
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.ip = self.fn, self.block, self.prev, self.ip
        f.env = dict(self.env)
        f.cuts = dict(self.cuts)
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.exc = None
        self.trail = []
        self.done = None

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.trail = list(self.trail)
        return s

    def w(self, base):
        o = self.mem[base].copy()
        self.mem[base] = o
        return o

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'where', 'status', 'backend', 'model', 'time')

    def __init__(self, name, kind, pc, goal, where):
        self.name, self.kind, self.pc, self.goal, self.where = name, kind, pc, goal, where
        self.status = self.backend = self.model = None
        self.time = 0


def is_true(b):
    return b is True or (not isinstance(b, bool) and z3.is_true(b))


def is_false(b):
    return b is False or (not isinstance(b, bool) and z3.is_false(b))


def Bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def Not(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def And(*bs):
    r = []
    for b in bs:
        if isinstance(b, bool):
            if not b:
                return False
        else:
            r.append(b)
    return True if not r else (r[0] if len(r) == 1 else z3.And(*r))


def Or(*bs):
    r = []
    for b in bs:
        if isinstance(b, bool):
            if b:
                return True
        else:
            r.append(b)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b and type(a) == type(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        a = Bz(a); b = Bz(b)
    return z3.If(c, a, b)


umod = z3.Function('umod', z3.IntSort(), z3.IntSort(), z3.IntSort())
udivf = z3.Function('udiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
bitf = {}


def uf2(name):
    if name not in bitf:
        bitf[name] = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return bitf[name]


# ------------------------------------------------------------------ integer theory
class IntTheory:
    bv = False

    def __init__(self, ex):
        self.ex = ex

    def const(self, w, v):
        if w == 1:
            return I(1, bool(v & 1))
        return I(w, v)

    def fresh(self, name, w, signed=False):
        if w == 1:
            return I(1, z3.Bool(name))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        v = z3.Int(name)
        self.ex.range_axioms[name] = (v, lo, hi)
        return I(w, v, lo, hi)

    def S(self, v):
        w = v.w
        h = 1 << (w - 1)
        if v.lo >= -h and v.hi < h:
            return v.t
        if isinstance(v.t, int):
            x = v.t % (1 << w)
            return x - (1 << w) if x >= h else x
        if v.lo >= 0 and v.hi < 2 * h:
            return z3.If(v.t >= h, v.t - 2 * h, v.t)
        raise Unsupported('non canonical')

    def U(self, v):
        w = v.w
        if v.lo >= 0 and v.hi < (1 << w):
            return v.t
        if isinstance(v.t, int):
            return v.t % (1 << w)
        return z3.If(v.t < 0, v.t + (1 << w), v.t)

    def Ubounds(self, v):
        if v.lo >= 0:
            return v.lo, v.hi
        if isinstance(v.t, int):
            u = v.t % (1 << v.w)
            return u, u
        return 0, (1 << v.w) - 1

    def Sbounds(self, v):
        h = 1 << (v.w - 1)
        if v.lo >= -h and v.hi < h:
            return v.lo, v.hi
        if isinstance(v.t, int):
            u = self.S(v)
            return u, u
        return -h, h - 1

    def canon(self, w, t, lo, hi, signed):
        """wrap an integer term with bounds to a canonical representative"""
        M = 1 << w
        h = M >> 1
        if isinstance(t, int):
            if -h <= t < M:
                return I(w, t)
            x = t % M
            return I(w, x - M if signed and x >= h else x)
        if (lo >= 0 and hi < M) or (lo >= -h and hi < h):
            return I(w, t, lo, hi)
        if signed:
            if lo >= -h - M and hi < h + M:
                return I(w, z3.If(t < -h, t + M, z3.If(t >= h, t - M, t)), -h, h - 1)
            x = t % M
            return I(w, z3.If(x >= h, x - M, x), -h, h - 1)
        if lo >= -M and hi < M:
            return I(w, z3.If(t < 0, t + M, t), 0, M - 1)
        if lo >= 0 and hi < 2 * M:
            return I(w, z3.If(t >= M, t - M, t), 0, M - 1)
        return I(w, t % M, 0, M - 1)

    def issigned(self, *vs):
        nonc = [v for v in vs if not isinstance(v.t, int)]
        return any(v.lo < 0 for v in nonc)

    def bin(self, op, w, a, b, fl, st):
        ex = self.ex
        if w == 1:
            x, y = a.t, b.t
            if op == 'and':
                return I(1, And(x, y))
            if op == 'or':
                return I(1, Or(x, y))
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, bool):
                    return I(1, Not(y) if x else y)
                if isinstance(y, bool):
                    return I(1, Not(x) if y else x)
                return I(1, z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        h = 1 << (w - 1)
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and w == 64 and 'nsw' not in fl and ex.opts.get('shrink'):
                # a factor whose known range is too wide for the product: a smaller range that is provable
                sm = lambda v: I(w, v.t, 0, (1 << 32) - 1) if not isinstance(v.t, int) and (v.lo < 0 or v.hi >= 1 << 40) and ex.valid(st.pc, And(v.t >= 0, v.t < 1 << 32), 1500) else v
                a, b = sm(a), sm(b)
            if 'nsw' in fl:
                x, y = self.S(a), self.S(b)
                (al, ah), (bl, bh) = self.Sbounds(a), self.Sbounds(b)
            elif 'nuw' in fl:
                x, y = self.U(a), self.U(b)
                (al, ah), (bl, bh) = self.Ubounds(a), self.Ubounds(b)
            else:
                x, y, al, ah, bl, bh = a.t, b.t, a.lo, a.hi, b.lo, b.hi
                if op == 'mul' and self.issigned(a, b) is False:
                    pass
            if op == 'add':
                t, lo, hi = x + y, al + bl, ah + bh
            elif op == 'sub':
                t, lo, hi = x - y, al - bh, ah - bl
            else:
                t = x * y
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            if 'nsw' in fl:
                if lo < -h or hi >= h:
                    ex.require(st, 'signed-overflow', And(t >= -h, t < h) if not isinstance(t, int) else (-h <= t < h))
                    lo, hi = max(lo, -h), min(hi, h - 1)
                return I(w, t, lo, hi)
            if 'nuw' in fl:
                if lo < 0 or hi >= M:
                    ex.require(st, 'unsigned-overflow', And(t >= 0, t < M) if not isinstance(t, int) else (0 <= t < M))
                    lo, hi = max(lo, 0), min(hi, M - 1)
                return I(w, t, lo, hi)
            return self.canon(w, t, lo, hi, self.issigned(a, b))
        if op in ('udiv', 'urem'):
            x, y = self.U(a), self.U(b)
            (al, ah), (bl, bh) = self.Ubounds(a), self.Ubounds(b)
            if isinstance(y, int):
                if y == 0:
                    ex.require(st, 'division-by-zero', False)
                    raise Unsupported('division by constant zero')
                if isinstance(x, int):
                    return I(w, x // y if op == 'udiv' else x % y)
                if op == 'udiv':
                    return I(w, x / y, al // y, ah // y)
                return I(w, x % y if ah >= y else x, 0, min(ah, y - 1))
            ex.require(st, 'division-by-zero', y > 0)
            if op == 'urem':
                m = umod(x, y) if not isinstance(x, int) else umod(z3.IntVal(x), y)
                st.assume(And(m >= 0, m < y))
                if ex.opts.get('divmod_link'):
                    q = udivf(x if not isinstance(x, int) else z3.IntVal(x), y)
                    st.assume(And(q >= 0, x == q * y + m))
                    return I(w, m, 0, min(ah, bh - 1))
                t = Ite(x < y, x, Ite(x < 2 * y, x - y, m))
                return I(w, t, 0, min(ah, bh - 1))
            x = z3.IntVal(x) if isinstance(x, int) else x
            q = udivf(x, y)
            st.assume(And(q >= 0, q * y <= x, x < (q + 1) * y))
            return I(w, q, 0, ah)
        if op in ('sdiv', 'srem'):
            x, y = self.S(a), self.S(b)
            (al, ah) = self.Sbounds(a)
            if not isinstance(y, int):
                # 32-bit x may divide by a symbolic value
                ex.require(st, 'division-by-zero', y != 0)
                ex.require(st, 'signed-overflow', Or(x != -h, y != -1))
                q = z3.FreshInt('q')
                r = z3.FreshInt('r')
                xx = z3.IntVal(x) if isinstance(x, int) else x
                st.assume(And(xx == q * y + r, z3.If(xx >= 0, r >= 0, r <= 0), z3.If(r >= 0, r, -r) < z3.If(y >= 0, y, -y)))
                t = q if op == 'sdiv' else r
                return I(w, t, -h, h - 1)
            if y == 0:
                ex.require(st, 'division-by-zero', False)
                raise Unsupported('division by constant zero')
            if isinstance(x, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return I(w, q if op == 'sdiv' else x - q * y)
            if y == -1:
                ex.require(st, 'signed-overflow', x != -h)
            c = abs(y)
            if al >= 0:
                q = x / c
            elif ah <= 0:
                q = -((-x) / c)
            else:
                q = z3.If(x >= 0, x / c, -((-x) / c))
            if op == 'sdiv':
                if y < 0:
                    q = -q
                m = max(abs(al), abs(ah)) // c
                lo, hi = (0 if al >= 0 and y > 0 else -m), m
                return I(w, q, lo, hi)
            return I(w, x - c * q, 0 if al >= 0 else -(c - 1), c - 1)
        if op == 'shl':
            if isinstance(b.t, int):
                k = self.U(b)
                if k >= w:
                    ex.require(st, 'shift-range', False)
                    raise Unsupported('shift')
                return self.bin('mul', w, a, I(w, 1 << k), fl, st)
            k = self.U(b)
            ex.require(st, 'shift-range', k < w)
            t = 0
            for j in range(w):
                t = z3.If(k == j, 1 << j, t) if j else z3.IntVal(1)
            p = I(w, t, 1, 1 << (w - 1))
            if isinstance(a.t, int) and a.t == 1:
                return p
            return self.bin('mul', w, a, p, fl, st)
        if op in ('lshr', 'ashr'):
            x = self.U(a) if op == 'lshr' else self.S(a)
            lo, hi = self.Ubounds(a) if op == 'lshr' else self.Sbounds(a)
            if not isinstance(b.t, int):
                k = self.U(b)
                ex.require(st, 'shift-range', k < w)
                t = None
                for j in reversed(range(w)):
                    q = (x >> j) if isinstance(x, int) else x / (1 << j)
                    t = q if t is None else z3.If(k == j, q, t)
                return I(w, t, min(lo, 0), max(hi, 0))
            k = self.U(b)
            if isinstance(x, int):
                return I(w, x >> k)
            return I(w, x / (1 << k), lo >> k, hi >> k)
        if op in ('and', 'or', 'xor'):
            ca, cb = isinstance(a.t, int), isinstance(b.t, int)
            if ca and cb:
                x, y = self.U(a), self.U(b)
                r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
                return I(w, r)
            if ca:
                a, b = b, a
                ca, cb = cb, ca
            if cb:
                c = self.U(b)
                if op == 'and':
                    x = self.U(a)
                    if c == 0:
                        return I(w, 0)
                    t = None
                    i = 0
                    while i < w:
                        if (c >> i) & 1:
                            j = i
                            while j < w and (c >> j) & 1:
                                j += 1
                            p = x / (1 << i) if i else x
                            if j < w:
                                p = p % (1 << (j - i))
                            p = p * (1 << i) if i else p
                            t = p if t is None else t + p
                            i = j
                        else:
                            i += 1
                    return I(w, t, 0, c)
                if op == 'xor' and c == M - 1:
                    s = self.S(a)
                    lo, hi = self.Sbounds(a)
                    return I(w, -s - 1, -hi - 1, -lo - 1)
                if op == 'or':
                    n = self.bin('and', w, a, I(w, c), set(), st)
                    x = self.U(a)
                    return I(w, x + c - n.t, c, M - 1)
                n = self.bin('and', w, a, I(w, c), set(), st)
                x = self.U(a)
                return I(w, x + c - 2 * (n.t if not isinstance(n.t, int) else n.t), 0, M - 1)
            if op == 'or' and 'disjoint' in fl:
                return I(w, self.U(a) + self.U(b), 0, M - 1)
            x, y = self.U(a), self.U(b)
            f = uf2('bit%s%d' % (op, w))
            r = f(x, y)
            if op == 'and':
                st.assume(And(r >= 0, r <= x, r <= y))
            elif op == 'or':
                st.assume(And(r >= x, r >= y, r <= x + y, r < M))
            else:
                st.assume(And(r >= 0, r <= x + y, r < M))
            return I(w, r, 0, M - 1)
        raise Unsupported('int op ' + op)

    def icmp(self, pred, a, b):
        if a.w == 1:
            x, y = a.t, b.t
            if pred in ('eq', 'ne'):
                e = (x == y) if isinstance(x, bool) and isinstance(y, bool) else (
                    (y if x else Not(y)) if isinstance(x, bool) else (x if y else Not(x)) if isinstance(y, bool) else x == y)
                return I(1, e if pred == 'eq' else Not(e))
            x, y = Ite(x, 1, 0), Ite(y, 1, 0)
            if pred[0] == 's':
                x, y = -x, -y
            return I(1, self._cmp(pred[1:], x, y))
        if pred in ('eq', 'ne'):
            h = 1 << (a.w - 1)
            if (a.lo >= 0 and b.lo >= 0) or (a.hi < h and b.hi < h):
                x, y = a.t, b.t
            else:
                x, y = self.U(a), self.U(b)
                if isinstance(b.t, int) and a.lo < 0:
                    x, y = a.t, self.S(b)
                elif isinstance(a.t, int) and b.lo < 0:
                    x, y = self.S(a), b.t
            if isinstance(x, int) and isinstance(y, int):
                e = x == y
            elif a.hi < b.lo and x is a.t and y is b.t or b.hi < a.lo and x is a.t and y is b.t:
                e = False
            else:
                e = x == y
            return I(1, e if pred == 'eq' else Not(e))
        if pred[0] == 'u':
            x, y = self.U(a), self.U(b)
            ba, bb = self.Ubounds(a), self.Ubounds(b)
        else:
            x, y = self.S(a), self.S(b)
            ba, bb = self.Sbounds(a), self.Sbounds(b)
        p = pred[1:]
        if p == 'lt':
            if ba[1] < bb[0]: return I(1, True)
            if ba[0] >= bb[1]: return I(1, False)
        if p == 'ge':
            if ba[1] < bb[0]: return I(1, False)
            if ba[0] >= bb[1]: return I(1, True)
        if p == 'gt':
            if ba[0] > bb[1]: return I(1, True)
            if ba[1] <= bb[0]: return I(1, False)
        if p == 'le':
            if ba[1] <= bb[0]: return I(1, True)
            if ba[0] > bb[1]: return I(1, False)
        return I(1, self._cmp(p, x, y))

    @staticmethod
    def _cmp(p, x, y):
        return x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y

    def zext(self, v, w):
        if v.w == 1:
            if isinstance(v.t, bool):
                return I(w, int(v.t))
            return I(w, z3.If(v.t, 1, 0), 0, 1)
        lo, hi = self.Ubounds(v)
        return I(w, self.U(v), lo, hi)

    def sext(self, v, w):
        if v.w == 1:
            if isinstance(v.t, bool):
                return I(w, -int(v.t))
            return I(w, z3.If(v.t, -1, 0), -1, 0)
        lo, hi = self.Sbounds(v)
        return I(w, self.S(v), lo, hi)

    def trunc(self, v, w):
        if w == 1:
            t = v.t
            if isinstance(t, int):
                return I(1, bool(t & 1))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                if z3.is_int_value(a) and z3.is_int_value(b):
                    av, bv = a.as_long() & 1, b.as_long() & 1
                    if av and not bv:
                        return I(1, c)
                    if bv and not av:
                        return I(1, z3.Not(c))
            if v.lo >= 0 and v.hi <= 1:
                return I(1, t == 1)
            return I(1, t % 2 == 1)
        return self.canon(w, v.t, v.lo, v.hi, v.lo < 0)

    def wrap(self, w, t, lo, hi, signed=False):
        return self.canon(w, t, lo, hi, signed)

    def eqv(self, a, b):
        return self.icmp('eq', a, b).t

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a.w == 1:
            return I(1, Ite(c, a.t, b.t))
        h = 1 << (a.w - 1)
        if (a.lo >= 0 and b.lo >= 0) or (a.hi < h and b.hi < h):
            return I(a.w, Ite(c, a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi))
        if a.lo < 0 or b.lo < 0:
            (al, ah), (bl, bh) = self.Sbounds(a), self.Sbounds(b)
            return I(a.w, Ite(c, self.S(a), self.S(b)), min(al, bl), max(ah, bh))

    def idx_signed(self, v):
        return self.S(v)


class BVTheory:
    bv = True

    def __init__(self, ex):
        self.ex = ex

    def const(self, w, v):
        if w == 1:
            return I(1, bool(v & 1))
        return I(w, z3.BitVecVal(v, w))

    def fresh(self, name, w, signed=False):
        if w == 1:
            return I(1, z3.Bool(name))
        return I(w, z3.BitVec(name, w))

    def S(self, v):
        return v.t

    U = S

    def bin(self, op, w, a, b, fl, st):
        if w == 1:
            return IntTheory.bin(self, op, w, a, b, fl, st)
        x, y = a.t, b.t
        ex = self.ex
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                c = {'add': lambda: And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                     'sub': lambda: And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                     'mul': lambda: And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
                ex.require(st, 'signed-overflow', c)
            t = x + y if op == 'add' else x - y if op == 'sub' else x * y
        elif op in ('udiv', 'urem'):
            ex.require(st, 'division-by-zero', y != 0)
            t = z3.UDiv(x, y) if op == 'udiv' else z3.URem(x, y)
        elif op in ('sdiv', 'srem'):
            ex.require(st, 'division-by-zero', y != 0)
            ex.require(st, 'signed-overflow', Or(x != z3.BitVecVal(1 << (w - 1), w), y != -1))
            t = x / y if op == 'sdiv' else z3.SRem(x, y)
        elif op in ('shl', 'lshr', 'ashr'):
            if not (z3.is_bv_value(y) and y.as_long() < w):
                ex.require(st, 'shift-range', z3.ULT(y, w))
            t = x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
        elif op == 'and':
            t = x & y
        elif op == 'or':
            t = x | y
        elif op == 'xor':
            t = x ^ y
        else:
            raise Unsupported('bv op ' + op)
        return I(w, z3.simplify(t) if z3.is_bv_value(x) and z3.is_bv_value(y) else t)

    def icmp(self, pred, a, b):
        if a.w == 1:
            return IntTheory.icmp(self, pred, a, b)
        x, y = a.t, b.t
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            r = True
        elif z3.is_false(r):
            r = False
        return I(1, r)

    _cmp = IntTheory._cmp

    def zext(self, v, w):
        if v.w == 1:
            if isinstance(v.t, bool):
                return self.const(w, int(v.t))
            return I(w, z3.If(v.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        t = z3.ZeroExt(w - v.w, v.t)
        return I(w, z3.simplify(t) if z3.is_bv_value(v.t) else t)

    def sext(self, v, w):
        if v.w == 1:
            return I(w, z3.If(Bz(v.t), z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))
        t = z3.SignExt(w - v.w, v.t)
        return I(w, z3.simplify(t) if z3.is_bv_value(v.t) else t)

    def trunc(self, v, w):
        if w == 1:
            t = z3.simplify(z3.Extract(0, 0, v.t) == 1)
            return I(1, True if z3.is_true(t) else False if z3.is_false(t) else t)
        t = z3.Extract(w - 1, 0, v.t)
        return I(w, z3.simplify(t) if z3.is_bv_value(v.t) else t)

    def eqv(self, a, b):
        return self.icmp('eq', a, b).t

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a.w == 1:
            return I(1, Ite(c, a.t, b.t))
        return I(a.w, z3.If(c, a.t, b.t))

    def wrap(self, w, t, lo, hi, signed=False):
        return I(w, t)

    def issigned(self, *v):
        return False


# ------------------------------------------------------------------ executor
class Fail(Exception):
    pass


class Ex:
    def __init__(self, mod, bv=False, opts=None):
        self.mod = mod
        self.th = BVTheory(self) if bv else IntTheory(self)
        self.range_axioms = {}
        self.obls = []
        self.recording = True
        self.cnt = itertools.count()
        self.opts = {'unroll': 400, 'mixed_unroll': 0, 'term': True, 'maxdepth': 40, 'houdini_ms': 1500}
        if opts:
            self.opts.update(opts)
        self.handlers = []       # (compiled regex, fn)
        self.hcache = {}
        self.templates = []      # loop-invariant template generators
        self.measures = []       # extra termination measures
        self.inlined = set()
        self.trusted = set()
        self.contracts_used = set()
        self.loopinfo = []
        self.where = ''
        self.deadline = None
        self.npaths = 0
        self.stub_checks = True

    # ---------------------------------------------------------- utilities
    def uniq(self, p='t'):
        return '%s!%d' % (p, next(self.cnt))

    def axioms(self):
        return [And(v >= lo, v <= hi) for (v, lo, hi) in self.range_axioms.values()]

    namecache = {}

    def pcfull(self, pc, extra=()):
        # add range axioms for the variables that occur
        need = set()
        for e in itertools.chain(pc, extra):
            if isinstance(e, bool):
                continue
            r = self.namecache.get(e.get_id())
            if r is None:
                r = (e, names_of(e))         # the expression is kept alive: its id is not reused
                self.namecache[e.get_id()] = r
            for n in r[1]:
                if n in self.range_axioms:
                    need.add(n)
        return [Bz(p) for p in pc] + [And(*[x for x in (self.range_axioms[n][0] >= self.range_axioms[n][1], self.range_axioms[n][0] <= self.range_axioms[n][2])]) for n in sorted(need)]

    def feas(self, pc):
        if any(is_false(p) for p in pc):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return smt.feasible(self.pcfull(pc))

    def valid(self, pc, goal, ms, quick=False):
        if is_true(goal):
            return True
        if is_false(goal):
            goal = z3.BoolVal(False)
        r = smt.valid(self.pcfull(pc, [goal]), goal, ms, quick=quick)
        return r[0] == 'valid'

    def require(self, st, kind, goal, name=None):
        """an obligation at the current program point; assumed afterwards"""
        if is_true(goal):
            return
        if self.recording:
            fr = st.frames[-1] if st.frames else None
            w = self.where + (' @ ' + short(fr.fn.dem) if fr else '')
            self.obls.append(Obl(name or kind, kind, list(st.pc), Bz(goal), w))
        st.assume(goal)

    # ---------------------------------------------------------- memory
    def new_obj(self, st, name, ty=None, size=None, fresh=False, ro=False):
        o = Obj('obj', ty, size if size is not None else (self.mod.size(ty) if ty else None), name, fresh, ro)
        st.mem[name] = o
        return P(name)

    def new_arr(self, st, name, stride, length, fields=None, ro=False):
        o = Obj('arr', None, None, name, False, ro)
        o.stride, o.len = stride, length
        o.fields = fields or {}
        st.mem[name] = o
        return P(name)

    def glob(self, st, name):
        if name in st.mem:
            return P(name)
        if name in self.mod.aliases:
            return self.const(st, PTRTY, self.mod.aliases[name])
        g = self.mod.globals.get(name)
        if g is None:
            # function or external object
            return P(name)
        t, init, const = g
        try:
            size = self.mod.size(t)
        except Unsupported:
            size = None
        o = Obj('obj', t, size, name, False, const)
        st.mem[name] = o
        if init is not None and const:
            self.init_cells(st, o, 0, t, init)
        return P(name)

    def init_cells(self, st, o, off, t, c):
        rt = self.mod.resolve(t)
        if c[0] == 'str':
            for i, ch in enumerate(c[1]):
                o.cells[off + i] = (1, self.th.const(8, ch))
        elif c[0] == 'agg':
            if rt.k == 'arr':
                s = self.mod.size(rt.el)
                for i, (et, ec) in enumerate(c[1]):
                    self.init_cells(st, o, off + i * s, et, ec)
            else:
                for i, (et, ec) in enumerate(c[1]):
                    self.init_cells(st, o, off + self.mod.field_off(rt, i), et, ec)
        elif c[0] == 'zero':
            for (fo, ft) in self.flat(rt):
                o.cells[off + fo] = (self.mod.size(ft), self.zero(ft))
        elif c[0] == 'undef':
            pass
        elif c[0] == 'ce' and c[1] == 'inttoptr' and c[3][0] == 'int':
            # a table slot that holds a number (virtual base offsets in virtual tables)
            o.cells[off] = (8, self.th.const(64, c[3][1]))
        else:
            o.cells[off] = (self.mod.size(rt), self.const(st, rt, c))

    def zero(self, ft):
        if ft.k == 'int':
            return self.th.const(ft.w, 0)
        if ft.k == 'ptr':
            return NULL
        if ft.k == 'fp':
            return D(z3.Const('fp_0', DSort))
        raise Unsupported('zero')

    def flat(self, t, base=0):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            for i, f in enumerate(t.fields):
                yield from self.flat(f, base + self.mod.field_off(t, i))
        elif t.k == 'arr':
            s = self.mod.size(t.el)
            for i in range(t.n):
                yield from self.flat(t.el, base + i * s)
        else:
            yield (base, t)

    def norm(self, st, p):
        """normalise a pointer into an array region"""
        o = st.mem.get(p.base)
        if o is not None and o.kind == 'arr' and o.stride and not (0 <= p.off < o.stride):
            q = p.off // o.stride
            return P(p.base, simp(p.idx + q), p.off - q * o.stride)
        return p

    def vecown(self, st, p):
        """pointer into the data of an abstract vector: (owner obj, owner offset, VecVal, stale?)"""
        _, ob, oo, gen = p.base
        o = st.mem.get(ob)
        v = o.cells.get(oo)
        if v is None or v[1].gen != gen or not o.alive:
            return None
        return v[1]

    def access(self, st, p, size, write):
        if p.base is None:
            self.require(st, 'null-dereference', False)
            return None
        if isinstance(p.base, tuple) and p.base[0] == 'v':
            v = self.vecown(st, p)
            if v is None:
                self.require(st, 'dangling-pointer', False, 'access through an invalidated pointer/iterator')
                return None
            self.require(st, 'bounds', And(self.ge0(p.idx), self.lt(p.idx, v.len)), 'access inside the vector')
            return v
        o = st.mem.get(p.base)
        if o is None:
            if isinstance(p.base, str) and p.base.startswith('@'):
                self.glob(st, p.base)
                o = st.mem.get(p.base)
        if o is None:
            raise Unsupported('access to unknown region %s' % (p.base,))
        if not o.alive:
            self.require(st, 'use-after-free', False)
            return None
        if write and o.ro:
            self.require(st, 'write-to-constant', False)
            return None
        if o.kind == 'pool':
            nn = p.idx != 0
            self.require(st, 'null-dereference', nn)
            al = st.ghost.get(('alloc', p.base))
            if al is not None:
                self.require(st, 'use-after-free', z3.Select(al, p.idx))
            return o
        if o.kind == 'arr':
            self.require(st, 'bounds', And(self.ge0(p.idx), self.lt(p.idx, o.len)), 'access inside %s' % o.name)
        else:
            if not isinstance(p.idx, int) or p.idx != 0:
                raise Unsupported('symbolic index into a non-array object')
            if o.size is not None and not (0 <= p.off and p.off + size <= o.size):
                self.require(st, 'bounds', False, 'access outside object %s' % o.name)
                return None
        return o

    def ge0(self, i):
        return (i >= 0) if not self.th.bv else True

    def lt(self, i, n):
        if self.th.bv:
            return z3.ULT(i, n)
        return i < n

    def arr_sort(self, ty):
        if self.th.bv:
            return z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(ty.w))
        if ty.k == 'fp':
            return z3.ArraySort(z3.IntSort(), DSort)
        return z3.ArraySort(z3.IntSort(), z3.IntSort())

    def elem_bounds(self, ty, name=None):
        return (0, (1 << ty.w) - 1)

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            return tuple(self.load(st, P(p.base, p.idx, p.off + self.mod.field_off(ty, i)), f) for i, f in enumerate(ty.fields))
        if ty.k == 'arr':
            s = self.mod.size(ty.el)
            return tuple(self.load(st, P(p.base, p.idx, p.off + i * s), ty.el) for i in range(ty.n))
        size = self.mod.size(ty)
        p = self.norm(st, p)
        if isinstance(p.off, tuple):
            return self.load_sub(st, p, ty, size)
        o = self.access(st, p, size, False)
        if o is None:
            return self.havoc_val(ty, self.uniq('dead'))
        if isinstance(o, Abs):
            return self.arr_get(st, o.fields, p, ty, o)
        if o.kind in ('arr', 'pool'):
            return self.arr_get(st, o.fields, p, ty, o)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size and not isinstance(c[1], (Abs, ArrV)):
            return self.retype(c[1], ty)
        # inside an SMT array cell?
        for co, (cs, cv) in o.cells.items():
            if isinstance(cv, ArrV) and co <= p.off < co + cs[0] * cs[1]:
                if (p.off - co) % cs[0] == 0 and cs[0] == size:
                    return self.from_smt(z3.Select(cv.a, self.ix((p.off - co) // cs[0])), ty, st)
        parts = self.cover(o, p.off, size)
        if parts:
            return self.compose(parts, p.off, ty, o)
        if any(co < p.off + size and p.off < co + (cs if isinstance(cs, int) else cs[0] * cs[1]) for co, (cs, cv) in o.cells.items()):
            raise Unsupported('mixed-size access to %s+%d size %d' % (o.name, p.off, size))
        # lazily create
        if ty.k == 'ptr' and not o.fresh:
            raise Unsupported('unknown pointer %s+%d' % (o.name, p.off))
        v = self.havoc_val(ty, ('%s.%d' % (o.name, p.off)) if not o.fresh else self.uniq('uninit'))
        if o.fresh and self.opts.get('uninit') and ty.k == 'int':
            self.require(st, 'uninitialised-read', False, 'read of an uninitialised value')
        o = st.w(p.base)
        o.cells[p.off] = (size, v)
        return v

    def load_sub(self, st, p, ty, size):
        """p.off = ('sub', start, elsize, count, idx, inner)"""
        _, start, es, n, ix, inner = p.off
        o = st.mem[p.base]
        if o.kind != 'obj' or inner != 0 or es != size:
            raise Unsupported('symbolic sub-array access')
        self.access(st, P(p.base, p.idx, start), 1, False)
        self.require(st, 'bounds', And(self.ge0(ix), self.lt(ix, self.ix(n) if self.th.bv else n)), 'index inside array of %d' % n)
        a = self.as_array(st, p.base, start, es, n, ty)
        return self.from_smt(z3.Select(a, ix), ty, st)

    def as_array(self, st, base, start, es, n, ty):
        o = st.mem[base]
        c = o.cells.get(start)
        if c is not None and isinstance(c[1], ArrV):
            return c[1].a
        o = st.w(base)
        a = None
        known = {}
        for i in range(n):
            cc = o.cells.pop(start + i * es, None)
            if cc is not None:
                if cc[0] != es or not isinstance(cc[1], I):
                    raise Unsupported('array conversion')
                known[i] = cc[1]
        if ty.k != 'int':
            raise Unsupported('array of non-integers')
        a = z3.Const('%s.%d[]' % (o.name, start) if not o.fresh else self.uniq('arr'), self.arr_sort(ty))
        for i, v in known.items():
            a = z3.Store(a, self.ix(i), self.to_smt(v))
        o.cells[start] = ((es, n), ArrV(a))
        return a

    def ix(self, i):
        if self.th.bv:
            return z3.BitVecVal(i, 64) if isinstance(i, int) else i
        return z3.IntVal(i) if isinstance(i, int) else i

    def cover(self, o, off, size):
        parts = []
        cur = off
        while cur < off + size:
            c = o.cells.get(cur)
            if c is None or not isinstance(c[0], int) or not isinstance(c[1], I):
                # larger cell containing this range?
                for co, (cs, cv) in o.cells.items():
                    if isinstance(cs, int) and isinstance(cv, I) and co <= off and off + size <= co + cs:
                        return [(co, cs, cv)]
                return None
            parts.append((cur, c[0], c[1]))
            cur += c[0]
        return parts if cur == off + size else (parts if len(parts) == 1 else None)

    def compose(self, parts, off, ty, o):
        if ty.k != 'int':
            raise Unsupported('compose')
        th = self.th
        w = ty.w
        if len(parts) == 1 and (parts[0][1] * 8 > w):
            co, cs, v = parts[0]
            sh = (off - co) * 8
            x = th.U(v)
            if self.th.bv:
                return I(w, z3.Extract(sh + w - 1, sh, x))
            if isinstance(x, int):
                return I(w, (x >> sh) % (1 << w))
            return I(w, (x / (1 << sh) if sh else x) % (1 << w), 0, (1 << w) - 1)
        if self.th.bv:
            return I(w, z3.Concat(*[v.t for (_, _, v) in reversed(parts)]))
        t = 0
        for (co, cs, v) in parts:
            t = t + th.U(v) * (1 << ((co - off) * 8))
        return I(w, t, 0, (1 << w) - 1)

    def retype(self, v, ty):
        if isinstance(v, I) and ty.k == 'int':
            if v.w == ty.w:
                return v
            if ty.w < v.w:
                return self.th.trunc(v, ty.w)
            return self.th.zext(v, ty.w)
        if isinstance(v, PInt) and ty.k == 'ptr':
            return v.p
        if isinstance(v, P) and ty.k == 'int':
            if v.base is None and v.off == 0 and ty.w == 64:
                return self.th.const(64, 0)
            return PInt(v)
        if isinstance(v, I) and ty.k == 'ptr':
            if isinstance(v.t, int) and v.t == 0:
                return NULL
            raise Unsupported('int used as pointer')
        if v is UNDEF:
            return self.havoc_val(ty, self.uniq('undef'))
        return v

    def havoc_val(self, ty, name, signed=False):
        if ty.k == 'int':
            return self.th.fresh(name, ty.w, signed)
        if ty.k == 'fp':
            return D(z3.Const(name, DSort))
        if ty.k == 'ptr':
            return P(('?', name))
        if ty.k == 'struct':
            return tuple(self.havoc_val(f, name + '.%d' % i) for i, f in enumerate(ty.fields))
        raise Unsupported('havoc %r' % ty)

    def to_smt(self, v):
        if isinstance(v, I):
            if v.w == 1:
                return z3.If(Bz(v.t), 1, 0)
            t = self.th.U(v) if not self.th.bv else v.t
            return z3.IntVal(t) if isinstance(t, int) else t
        if isinstance(v, D):
            return v.t
        if isinstance(v, P):
            if v.base is None:
                return z3.IntVal(0)
            return z3.IntVal(v.idx) if isinstance(v.idx, int) else v.idx
        raise Unsupported('to_smt %r' % (v,))

    def from_smt(self, t, ty, st, signed=False):
        if ty.k == 'int':
            if self.th.bv:
                return I(ty.w, t)
            lo, hi = 0, (1 << ty.w) - 1
            if not is_const_num(t):
                st.pc.append(z3.And(t >= lo, t <= hi))
            return I(ty.w, t, lo, hi)
        if ty.k == 'fp':
            return D(t)
        raise Unsupported('from_smt')

    def arr_get(self, st, fields, p, ty, o):
        size = self.mod.size(ty)
        fs = self.field_size(fields, p.off, o)
        if fs is not None and size > fs and ty.k == 'int' and getattr(o, 'tys', None):
            return self.load_span(st, fields, p, ty, o, size)
        a = fields.get(p.off)
        if a is None or (fs is not None and size != fs):
            raise Unsupported('untyped element field +%s of %s' % (p.off, p.base))
        t = simp(z3.Select(a, self.ix(p.idx)))
        if ty.k == 'ptr':
            tgt = o.ptrf.get(p.off) if hasattr(o, 'ptrf') else None
            if tgt is None:
                raise Unsupported('pointer element field')
            return P(tgt, t, 0)
        v = self.from_smt(t, ty, st)
        return v

    def field_size(self, fields, off, o):
        """size in bytes of the element field at off (None: not known)"""
        tys = getattr(o, 'tys', None)
        if tys:
            return self.mod.size(tys[off]) if off in tys else 0
        if len(fields) == 1 and off in fields:
            return o.stride
        return None

    def load_span(self, st, fields, p, ty, o, size):
        """an integer load that covers several element fields (padding bytes are arbitrary)"""
        if self.th.bv:
            raise Unsupported('wide element access')
        t, pos = 0, 0
        while pos < size:
            off = p.off + pos
            if off in o.tys:
                n = self.mod.size(o.tys[off])
                x = self.th.U(self.arr_get(st, fields, P(p.base, p.idx, off), o.tys[off], o))
            else:
                n = min([k for k in o.tys if k > off] + [p.off + size]) - off
                x = self.th.fresh(self.uniq('padding'), 8 * n)
                st.assume(And(x.t >= 0, x.t < 1 << (8 * n)))
                x = x.t
            t = t + x * (1 << (8 * pos))
            pos += n
        if pos != size:
            raise Unsupported('wide element access')
        return I(ty.w, t, 0, (1 << ty.w) - 1)

    def store_span(self, st, p, ty, v, o, size):
        if self.th.bv or not isinstance(v, I):
            raise Unsupported('wide element access')
        u = self.th.U(v)
        f, pos = dict(o.fields), 0
        while pos < size:
            off = p.off + pos
            n = self.mod.size(o.tys[off]) if off in o.tys else min([k for k in o.tys if k > off] + [p.off + size]) - off
            if off in o.tys:
                if o.tys[off].k != 'int':
                    raise Unsupported('wide element access')
                x = simp((u / (1 << (8 * pos))) % (1 << (8 * n))) if not isinstance(u, int) else z3.IntVal((u >> (8 * pos)) % (1 << (8 * n)))
                f[off] = z3.Store(f[off], self.ix(p.idx), x)
            pos += n
        if pos != size:
            raise Unsupported('wide element access')
        return f

    def store(self, st, p, ty, v):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            for i, f in enumerate(ty.fields):
                self.store(st, P(p.base, p.idx, p.off + self.mod.field_off(ty, i)), f, v[i] if v is not UNDEF else UNDEF)
            return
        if ty.k == 'arr':
            s = self.mod.size(ty.el)
            for i in range(ty.n):
                self.store(st, P(p.base, p.idx, p.off + i * s), ty.el, v[i] if v is not UNDEF else UNDEF)
            return
        size = self.mod.size(ty)
        p = self.norm(st, p)
        if isinstance(p.off, tuple):
            _, start, es, n, ix, inner = p.off
            o = st.mem[p.base]
            if o.kind != 'obj' or inner != 0 or es != size:
                raise Unsupported('symbolic sub-array store')
            if self.access(st, P(p.base, p.idx, start), 1, True) is None:
                return
            self.require(st, 'bounds', And(self.ge0(ix), self.lt(ix, self.ix(n) if self.th.bv else n)), 'index inside array of %d' % n)
            a = self.as_array(st, p.base, start, es, n, ty)
            o = st.w(p.base)
            o.cells[start] = ((es, n), ArrV(z3.Store(a, ix, self.to_smt(v))))
            return
        o = self.access(st, p, size, True)
        if o is None:
            return
        if v is UNDEF:
            v = self.havoc_val(ty, self.uniq('undef'))
        if isinstance(o, Abs):
            _, ob, oo, gen = p.base
            f = dict(o.fields)
            fs = self.field_size(f, p.off, o)
            if fs is not None and size > fs and ty.k == 'int':
                f = self.store_span(st, p, ty, v, o, size)
                no = st.w(ob)
                no.cells[oo] = (no.cells[oo][0], o.up(fields=f))
                return
            if p.off not in f or (fs is not None and fs != size):
                raise Unsupported('untyped element field')
            f[p.off] = z3.Store(f[p.off], self.ix(p.idx), self.to_smt(v))
            no = st.w(ob)
            no.cells[oo] = (no.cells[oo][0], o.up(fields=f))
            return
        if o.kind in ('arr', 'pool'):
            o = st.w(p.base)
            fs = self.field_size(o.fields, p.off, o)
            if p.off not in o.fields or (fs is not None and fs != size):
                raise Unsupported('untyped element field')
            o.fields[p.off] = z3.Store(o.fields[p.off], self.ix(p.idx), self.to_smt(v))
            return
        o = st.w(p.base)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size and not isinstance(c[1], (Abs, ArrV)):
            o.cells[p.off] = (size, v)
            return
        for co, (cs, cv) in list(o.cells.items()):
            if isinstance(cv, ArrV):
                if co <= p.off < co + cs[0] * cs[1]:
                    if cs[0] != size or (p.off - co) % size:
                        raise Unsupported('mixed store into array')
                    o.cells[co] = (cs, ArrV(z3.Store(cv.a, self.ix((p.off - co) // size), self.to_smt(v))))
                    return
                continue
            if co < p.off + size and p.off < co + cs:
                if p.off <= co and co + cs <= p.off + size and not isinstance(cv, Abs):
                    del o.cells[co]
                elif isinstance(cv, I) and isinstance(v, I) and co <= p.off and p.off + size <= co + cs:
                    # split a larger integer cell into pieces
                    del o.cells[co]
                    for k in range(0, cs, size):
                        o.cells[co + k] = (size, self.compose([(co, cs, cv)], co + k, Ty('int', w=size * 8), o))
                else:
                    raise Unsupported('overlapping store to %s+%d' % (o.name, p.off))
        o.cells[p.off] = (size, v)

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, I):
            n = self.th.U(n) if not self.th.bv else (n.t.as_long() if z3.is_bv_value(n.t) else n.t)
        if not isinstance(n, int):
            raise Unsupported('symbolic memcpy')
        if n == 0:
            return
        d, s = self.norm(st, d), self.norm(st, s)
        so = self.access(st, s, 1, False)
        do = self.access(st, d, 1, True)
        if so is None or do is None:
            return
        if isinstance(so, Abs) or isinstance(do, Abs) or so.kind != 'obj' or do.kind != 'obj':
            # element-wise copy through typed loads
            tyo = so if not isinstance(so, Abs) and so.kind == 'obj' else do
            if isinstance(tyo, Abs) or tyo.kind != 'obj' or tyo.ty is None:
                for k in sorted((so.fields if not isinstance(so, Obj) or so.kind != 'obj' else {}) or {}):
                    pass
                raise Unsupported('memcpy between array regions')
            off0 = s.off if tyo is so else d.off
            for (fo, ft) in self.flat(tyo.ty):
                if off0 <= fo < off0 + n:
                    v = self.load(st, P(s.base, s.idx, s.off + fo - off0), ft)
                    self.store(st, P(d.base, d.idx, d.off + fo - off0), ft, v)
            return
        if (so.size is not None and s.off + n > so.size) or (do.size is not None and d.off + n > do.size) or s.off < 0 or d.off < 0:
            self.require(st, 'bounds', False, 'memcpy outside object')
            return
        # materialise typed source cells
        tyo = so if so.ty is not None else do
        if tyo.ty is not None:
            sh = 0 if tyo is so else s.off - d.off
            for (fo, ft) in self.flat(tyo.ty):
                a = fo + sh
                if s.off <= a and a + self.mod.size(ft) <= s.off + n and not any(
                        co < a + self.mod.size(ft) and a < co + (cs if isinstance(cs, int) else cs[0] * cs[1]) for co, (cs, cv) in st.mem[s.base].cells.items()):
                    if ft.k == 'ptr' and not so.fresh:
                        continue
                    if so.fresh:
                        continue
                    self.load(st, P(s.base, 0, a), ft)
        so = st.mem[s.base]
        cells = {}
        for co, (cs, cv) in so.cells.items():
            sz = cs if isinstance(cs, int) else cs[0] * cs[1]
            if co >= s.off and co + sz <= s.off + n:
                cells[co - s.off + d.off] = (cs, cv)
            elif co < s.off + n and s.off < co + sz:
                raise Unsupported('partial memcpy')
        do = st.w(d.base)
        for co, (cs, cv) in list(do.cells.items()):
            sz = cs if isinstance(cs, int) else cs[0] * cs[1]
            if co >= d.off and co + sz <= d.off + n:
                del do.cells[co]
            elif co < d.off + n and d.off < co + sz:
                raise Unsupported('partial memcpy')
        do.cells.update(cells)

    def memset(self, st, d, v, n):
        if not isinstance(n, I):
            raise Unsupported('memset')
        n = self.th.U(n) if not self.th.bv else n.t.as_long()
        if not isinstance(n, int):
            raise Unsupported('symbolic memset')
        if n == 0:
            return
        do = self.access(st, d, 1, True)
        if do is None:
            return
        if isinstance(do, Abs) or do.kind != 'obj':
            raise Unsupported('memset on array region')
        if do.size is not None and d.off + n > do.size or d.off < 0:
            self.require(st, 'bounds', False, 'memset outside object')
            return
        vb = v.t if not self.th.bv else (v.t.as_long() if z3.is_bv_value(v.t) else None)
        if not isinstance(vb, int):
            raise Unsupported('memset value')
        o = st.w(d.base)
        fl = [(fo, ft) for (fo, ft) in (self.flat(o.ty) if o.ty is not None else []) if d.off <= fo < d.off + n]
        for co, (cs, cv) in list(o.cells.items()):
            sz = cs if isinstance(cs, int) else cs[0] * cs[1]
            if isinstance(cv, ArrV) and co < d.off + n and d.off < co + sz:
                a = cv.a
                lo = max(0, (d.off - co) // cs[0])
                hi = min(cs[1], (d.off + n - co + cs[0] - 1) // cs[0])
                if vb != 0 and cs[0] != 1:
                    raise Unsupported('memset')
                for k in range(lo, hi):
                    a = z3.Store(a, self.ix(k), self.ix(vb) if not self.th.bv else z3.BitVecVal(vb, cs[0] * 8))
                o.cells[co] = (cs, ArrV(a))
                fl = [x for x in fl if not (co <= x[0] < co + sz)]
            elif co >= d.off and co + sz <= d.off + n:
                del o.cells[co]
            elif co < d.off + n and d.off < co + sz:
                raise Unsupported('partial memset')
        if not fl:
            fl = [(d.off + i, Ty('int', w=8)) for i in range(n)] if o.ty is None else fl
        for fo, ft in fl:
            if ft.k == 'int':
                val = int.from_bytes(bytes([vb & 255]) * self.mod.size(ft), 'little')
                o.cells[fo] = (self.mod.size(ft), self.th.const(ft.w, val))
            else:
                if vb:
                    raise Unsupported('memset pointer')
                o.cells[fo] = (self.mod.size(ft), self.zero(ft))

    # ---------------------------------------------------------- operands
    def const(self, st, ty, c):
        k = c[0]
        if k == 'int':
            return self.th.const(ty.w, c[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(st, c[1])
        if k == 'undef':
            return UNDEF
        if k == 'fp':
            return D(z3.Const('fp_' + c[1], DSort))
        if k == 'zero':
            rt = self.mod.resolve(ty)
            if rt.k == 'struct':
                return tuple(self.const(st, f, c) for f in rt.fields)
            if rt.k == 'arr':
                return tuple(self.const(st, rt.el, c) for _ in range(rt.n))
            return self.zero(rt)
        if k == 'agg':
            return tuple(self.const(st, t, x) for t, x in c[1])
        if k == 'ce':
            if c[1] == 'gep':
                ops = [(t, self.const(st, t, o)) for t, o in c[3]]
                return self.gep(st, c[2], ops)
            if c[1] in ('bitcast', 'addrspacecast'):
                return self.const(st, c[2], c[3])
            if c[1] == 'ptrtoint':
                return PInt(self.const(st, c[2], c[3]))
        raise Unsupported('const %r' % (c,))

    def val(self, st, ty, o):
        if o[0] == 'loc':
            v = st.frames[-1].env.get(o[1])
            if v is None:
                raise Unsupported('undefined value ' + o[1])
            if v is UNDEF and ty is not None and ty.k == 'int':
                v = self.th.fresh(self.uniq('undef'), ty.w)
                st.frames[-1].env[o[1]] = v
            return v
        return self.const(st, ty, o)

    def subarr(self, t, off, es):
        """find an array with element size es whose extent contains off inside type t: (start, count)"""
        t = self.mod.resolve(t)
        if t.k == 'arr':
            s = self.mod.size(t.el)
            if s == es and self.mod.resolve(t.el).k in ('int', 'ptr', 'fp'):
                return (0, t.n)
            i = off // s
            r = self.subarr(t.el, off - i * s, es) if 0 <= i < t.n else None
            return (r[0] + i * s, r[1]) if r else None
        if t.k == 'struct':
            for i, f in enumerate(t.fields):
                fo = self.mod.field_off(t, i)
                if fo <= off < fo + self.mod.size(f) or (off == fo + self.mod.size(f) and i == len(t.fields) - 1):
                    r = self.subarr(f, off - fo, es)
                    if r:
                        return (r[0] + fo, r[1])
        return None

    def gep(self, st, bt, ops):
        p = ops[0][1]
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, P):
            raise Unsupported('gep on %r' % (p,))
        t = bt
        first = True
        for ity, iv in ops[1:]:
            if first:
                es = self.mod.size(t)
                first = False
            else:
                rt = self.mod.resolve(t)
                if rt.k == 'struct':
                    c = iv.t if isinstance(iv.t, int) else iv.t.as_long()
                    p = self.padd(st, p, self.mod.field_off(rt, c))
                    t = rt.fields[c]
                    continue
                t = rt.el
                es = self.mod.size(t)
            x = self.th.S(iv)
            if self.th.bv:
                x = z3.simplify(x)
                if z3.is_bv_value(x):
                    x = x.as_signed_long()
                elif iv.w < 64:
                    x = z3.SignExt(64 - iv.w, x)
            else:
                x = simp(x)
                if is_const_num(x) and not isinstance(x, int):
                    x = x.as_long()
            if isinstance(x, int):
                p = self.padd(st, p, x * es)
            else:
                p = self.padd_sym(st, p, x, es)
        return p

    def padd(self, st, p, n):
        if n == 0:
            return p
        if p.base is None:
            raise Unsupported('arithmetic on null pointer')
        if isinstance(p.off, tuple):
            _, start, es, cnt, ix, inner = p.off
            tot = inner + n
            q = tot // es
            return P(p.base, p.idx, ('sub', start, es, cnt, simp(ix + q), tot - q * es))
        stride = self.stride(st, p)
        off = p.off + n
        if stride and not (0 <= off < stride):
            q = off // stride
            return P(p.base, simp(p.idx + q), off - q * stride)
        return P(p.base, p.idx, off)

    def stride(self, st, p):
        if isinstance(p.base, tuple) and p.base[0] == 'v':
            o = st.mem.get(p.base[1])
            v = o.cells.get(p.base[2]) if o else None
            return self.vstride.get(p.base) if v is None else v[1].stride
        o = st.mem.get(p.base)
        if o is not None and o.kind == 'arr':
            return o.stride
        return None
    vstride = {}
    cmplog = None
    nullable = {}       # base -> condition on the index under which the pointer is null (pointers given out by handlers)

    def padd_sym(self, st, p, x, es):
        if p.base is None:
            raise Unsupported('arithmetic on null pointer')
        if isinstance(p.off, tuple):
            _, start, es0, cnt, ix, inner = p.off
            if es0 != es:
                raise Unsupported('mixed stride')
            return P(p.base, p.idx, ('sub', start, es, cnt, simp(ix + x), inner))
        stride = self.stride(st, p)
        if stride:
            if es % stride == 0:
                return P(p.base, simp(p.idx + x * (es // stride)), p.off)
            raise Unsupported('sub-element symbolic offset')
        o = st.mem.get(p.base)
        if o is None and isinstance(p.base, str):
            self.glob(st, p.base)
            o = st.mem.get(p.base)
        if o is None or o.kind != 'obj':
            raise Unsupported('symbolic offset in %s' % (p.base,))
        if o.ty is None and o.size is not None and o.size % es == 0:
            r = (0, o.size // es)
        else:
            r = self.subarr(o.ty, p.off, es) if o.ty is not None else None
        if r is None:
            raise Unsupported('symbolic offset in object %s' % o.name)
        start, cnt = r
        d = p.off - start
        if d % es:
            raise Unsupported('misaligned')
        return P(p.base, p.idx, ('sub', start, es, cnt, simp(x + self.ix(d // es)), 0))

    def ptr_eq(self, st, a, b):
        if a.base is None and b.base is None:
            return True
        if a.base is None:
            a, b = b, a
        if b.base is None:
            if isinstance(a.base, tuple) and a.base[0] == '?':
                return z3.Bool('isnull_' + a.base[1])
            if a.base in self.nullable:
                return self.nullable[a.base](a.idx)
            o = st.mem.get(a.base)
            if o is not None and o.kind == 'pool':
                return a.idx == 0 if a.off == 0 else False
            if isinstance(a.base, tuple) and a.base[0] == 'v':
                # data() of an empty vector may be null; begin()==nullptr is not compared by the code
                return False
            return False
        if a.base != b.base:
            if (isinstance(a.base, tuple) and a.base[0] in '?v') and (isinstance(b.base, tuple) and b.base[0] in '?v'):
                if a.base[0] == 'v' and b.base[0] == 'v':
                    if a.base[1:3] == b.base[1:3]:
                        raise Unsupported('comparison with an invalidated pointer')
                    return z3.Bool('peq_%s_%s_%s_%s' % (a.base, a.idx, b.base, b.idx)) if False else False
                raise Unsupported('comparison of unknown pointers')
            return False
        if isinstance(a.off, tuple) or isinstance(b.off, tuple):
            a, b = self.unsub(a), self.unsub(b)
            return And(a[0] == b[0])
        if a.off != b.off:
            return False
        e = a.idx == b.idx
        return e

    def unsub(self, a):
        if isinstance(a.off, tuple):
            _, start, es, cnt, ix, inner = a.off
            return (self.ix(start) + ix * es + inner,)
        return (self.ix(a.off),)

    def pdiff(self, st, a, b):
        if a.base != b.base:
            raise Unsupported('difference of unrelated pointers')
        if isinstance(a.off, tuple) or isinstance(b.off, tuple):
            return simp(self.unsub(a)[0] - self.unsub(b)[0])
        s = self.stride(st, a) or 0
        return simp((a.idx - b.idx) * s + (a.off - b.off))

    # ---------------------------------------------------------- running
    def start(self, st, fn, args):
        self.mod.parser.body(fn)
        fr = Frame(fn)
        for (nm, ty, at), v in zip(fn.params, args):
            fr.env[nm] = v
        st.frames.append(fr)

    def run(self, st, fn, args):
        """verify-style entry: run fn from st on args; returns list of Outcome"""
        st = st.fork()
        depth = len(st.frames)
        self.start(st, fn, args)
        return self.exec([st], depth, None)

    def exec(self, work, depth, stopper):
        """run until frame count drops to depth, or (stopper=(d, header, body)) a loop stop is hit"""
        outs = []
        work = list(work)
        while work:
            st = work.pop()
            if st.done is not None:
                outs.append(st.done)
                st.done = None
                continue
            while True:
                r = self.step_block(st, depth, stopper)
                if r is None:
                    continue
                kind, x = r
                if kind == 'fork':
                    self.npaths += 1
                    if self.npaths > MAXPATHS:
                        raise Unsupported('path explosion')
                    work.extend(x)
                    break
                if kind == 'dead':
                    break
                outs.append(x)
                break
        return outs

    def step_block(self, st, depth, stopper):
        """execute until something interesting. returns None to continue, ('fork', states), ('out', Outcome), ('dead', None)"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip]
        op = ins.op
        env = fr.env
        th = self.th
        if op == 'br':
            if len(ins.x) == 1:
                return self.jump(st, ins.x[0], depth, stopper)
            c = self.val(st, Ty('int', w=1), ins.a[0]).t
            if isinstance(c, bool):
                return self.jump(st, ins.x[0] if c else ins.x[1], depth, stopper)
            c = simpb(c)
            if isinstance(c, bool):
                return self.jump(st, ins.x[0] if c else ins.x[1], depth, stopper)
            if ins.x[0] == ins.x[1]:
                return self.jump(st, ins.x[0], depth, stopper)
            ft = self.feas(st.pc + [c])
            ff = self.feas(st.pc + [z3.Not(c)]) if ft else True
            if ft and not ff:
                st.pc.append(c)
                return self.jump(st, ins.x[0], depth, stopper)
            if ff and not ft:
                st.pc.append(z3.Not(c))
                return self.jump(st, ins.x[1], depth, stopper)
            s2 = st.fork()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            res = []
            outs = []
            for s, tgt in ((st, ins.x[0]), (s2, ins.x[1])):
                r = self.jump(s, tgt, depth, stopper)
                if r is None:
                    res.append(s)
                elif r[0] == 'fork':
                    res.extend(r[1])
                elif r[0] == 'out':
                    outs.append(r[1])
            return self.mixed(res, outs)
        if op == 'switch':
            v = self.val(st, ins.x and ins.ty, ins.a[0])
            d, cs = ins.x
            res, outs = [], []
            neg = []
            for cv, lb in cs:
                c = simpb(th.icmp('eq', v, self.const(st, ins.ty, cv)).t)
                if is_false(c):
                    continue
                pc = [] if is_true(c) else [Bz(c)]
                s2 = st.fork()
                s2.pc += neg + pc
                if self.feas(s2.pc):
                    r = self.jump(s2, lb, depth, stopper)
                    self.collect(r, s2, res, outs)
                if is_true(c):
                    neg = None
                    break
                neg = neg + [z3.Not(c)]
            if neg is not None:
                s2 = st.fork()
                s2.pc += neg
                if self.feas(s2.pc):
                    r = self.jump(s2, d, depth, stopper)
                    self.collect(r, s2, res, outs)
            return self.mixed(res, outs)
        if op == 'ret':
            v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
            return self.do_return(st, v, depth, stopper)
        if op in ('call', 'invoke'):
            return self.do_call(st, ins, depth, stopper)
        if op == 'unreachable':
            self.require(st, 'unreachable', False, 'unreachable instruction reached')
            return ('dead', None)
        if op == 'resume':
            return self.unwind(st, depth, stopper, pop=True)
        if op == 'select':
            r = self.fork_select(st, fr, ins)
            if r is not None:
                return r
        self.simple(st, fr, ins)
        fr.ip += 1
        return None

    def fork_select(self, st, fr, ins):
        """a choice between pointers into different objects: one path for each"""
        c = simpb(self.val(st, Ty('int', w=1), ins.a[0]).t)
        if isinstance(c, bool):
            return None
        a, b = self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
        if not isinstance(a, P) or not isinstance(b, P) or a.base == b.base and a.off == b.off:
            return None
        res = []
        for s, v, g in ((st.fork(), a, c), (st, b, z3.Not(c))):
            if not self.feas(s.pc + [g]):
                continue
            s.pc.append(g)
            f = s.frames[-1]
            f.env[ins.dst] = v
            f.ip += 1
            res.append(s)
        return ('fork', res)

    def collect(self, r, s, res, outs):
        if r is None:
            res.append(s)
        elif r[0] == 'fork':
            res.extend(r[1])
        elif r[0] == 'out':
            outs.append(r[1])

    def mixed(self, res, outs):
        # outcomes discovered while forking are parked as finished states
        for o in outs:
            s = o.st
            s.done = o
            res.append(s)
        return ('fork', res)

    def jump(self, st, target, depth, stopper):
        fr = st.frames[-1]
        if stopper is not None and len(st.frames) == stopper[0]:
            if target == stopper[1]:
                fr.prev, fr.block = fr.block, target
                return ('out', Outcome('back', st))
            if target not in stopper[2]:
                return ('out', Outcome('exit', st, target))
        L = ir.loops(fr.fn)
        if target in L:
            fr.prev, fr.block = fr.block, target
            res, parked = [], []
            for kind, s, v in self.handle_loop(st, target, L[target]):
                if kind == 'exit':
                    r = self.jump(s, v, depth, stopper)
                elif kind == 'exitthrow':
                    r = self.unwind(s, depth, stopper, pop=False)
                else:
                    r = ('out', Outcome(kind, s, v))
                self.collect(r, s, res, parked)
            return self.mixed(res, parked)
        fr.prev = fr.block
        self.enter(st, target)
        return None

    def enter(self, st, target):
        """set block and evaluate phis (prev already set)"""
        fr = st.frames[-1]
        fr.block = target
        vals = []
        ip = 0
        for ins in fr.fn.blocks[target]:
            if ins.op != 'phi':
                break
            for o, lb in ins.a:
                if lb == fr.prev:
                    if o[0] == 'loc' and o[1] not in fr.env:
                        raise Unsupported('phi operand undefined')
                    vals.append((ins.dst, self.val(st, ins.ty, o)))
                    break
            else:
                raise Unsupported('phi without edge')
            ip += 1
        for d, v in vals:
            fr.env[d] = v
        fr.ip = ip

    def do_return(self, st, v, depth, stopper):
        fr = st.frames.pop()
        for b in fr.allocas:
            if b in st.mem:
                o = st.w(b)
                o.alive = False
        if len(st.frames) == depth:
            return ('out', Outcome('ret', st, v))
        cf = st.frames[-1]
        ins = cf.fn.blocks[cf.block][cf.ip]
        if ins.dst:
            cf.env[ins.dst] = v
        if ins.op == 'invoke':
            return self.jump(st, ins.x['ok'], depth, stopper)
        cf.ip += 1
        return None

    # exceptions: st.exc = (pointer, type name)
    def unwind(self, st, depth, stopper, pop):
        if pop:
            fr = st.frames.pop()
            for b in fr.allocas:
                if b in st.mem:
                    st.w(b).alive = False
        while True:
            if len(st.frames) == depth:
                return ('out', Outcome('throw', st, st.exc[1]))
            if stopper is not None and len(st.frames) < stopper[0]:
                return ('out', Outcome('exitthrow', st))
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            if 'nounwind' in fr.fn.tail and False:
                pass
            if ins.op == 'invoke':
                tgt = ins.x['uw']
                # does the landing pad stop this exception?
                lp = [i for i in fr.fn.blocks[tgt] if i.op == 'landingpad'][0]
                sel = None
                for c in lp.x:
                    if c[0] == 'cleanup':
                        if sel is None:
                            sel = 0
                    elif c[0] == 'catch':
                        if c[2][0] == 'null' or self.exc_match(st.exc[1], c[2][1]):
                            sel = c[2]
                            break
                    else:
                        raise Unsupported('exception filter')
                if sel is not None:
                    st.ghost['exc_sel'] = sel
                    return self.jump(st, tgt, depth, stopper)
            st.frames.pop()
            for b in fr.allocas:
                if b in st.mem:
                    st.w(b).alive = False

    EXC_BASES = {'@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
                 '@_ZTISt11logic_error': ['@_ZTISt9exception'],
                 '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
                 '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
                 '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
                 '@_ZTISt9bad_alloc': ['@_ZTISt9exception']}

    def exc_match(self, ty, clause):
        return ty == clause or clause in self.EXC_BASES.get(ty, [])

    def throw(self, st, tyname, depth, stopper):
        """raise from a call instruction in the current frame"""
        st.exc = (P(self.uniq('@exc')), tyname)
        return self.unwind(st, depth, stopper, pop=False)

    # ---------------------------------------------------------- calls
    def find_handler(self, name, dem):
        k = name
        if k in self.hcache:
            return self.hcache[k]
        r = None
        for rx, fn, kind in self.handlers:
            m = rx.fullmatch(dem) if rx else None
            if m:
                r = (fn, m, kind)
                break
        self.hcache[k] = r
        return r

    def do_call(self, st, ins, depth, stopper):
        fr = st.frames[-1]
        callee = ins.x['callee']
        if callee[0] != 'glob':
            v = self.val(st, None, callee)
            if isinstance(v, P) and isinstance(v.base, str) and v.base.startswith('@'):
                name = v.base
            elif ('indirect',) and self.opts.get('indirect'):
                name = None
                outs = self.opts['indirect'](self, st, v, ins)
                return self.finish_call(outs, ins, depth, stopper)
            else:
                raise Unsupported('indirect call in %s' % short(fr.fn.dem))
        else:
            name = callee[1]
        if name in self.mod.aliases and self.mod.aliases[name][0] == 'glob':
            name = self.mod.aliases[name][1]
        f = self.mod.funcs.get(name) or self.mod.decls.get(name)
        dem = f.dem if f else name
        if name.startswith('@llvm.'):
            return self.intrinsic(st, name, ins, depth, stopper)
        args = [self.val(st, t, o) for (t, o, a) in ins.a]
        # byval aggregates are copied
        for i, (t, o, a) in enumerate(ins.a):
            if 'byval' in a:
                q = self.new_obj(st, self.uniq('byval'), a['byval'], fresh=True)
                self.memcpy(st, q, args[i], self.th.const(64, self.mod.size(a['byval'])))
                args[i] = q
        h = self.find_handler(name, dem)
        if h is not None:
            fn, m, kind = h
            (self.trusted if kind == 'trusted' else self.contracts_used).add(dem)
            outs = fn(self, st, args, m, ins)
            if outs == 'inline':
                pass
            else:
                return self.finish_call(outs, ins, depth, stopper)
        if f is None or f.body_text is None:
            raise Unsupported('call to external function %s' % short(dem))
        if len(st.frames) > self.opts['maxdepth']:
            raise Unsupported('inlining depth (recursion?) at %s' % short(dem))
        if sum(1 for x in st.frames if x.fn is f) >= 2:
            raise Unsupported('recursion without a contract: %s' % short(dem))
        self.inlined.add(dem)
        self.start(st, f, args)
        return None

    def finish_call(self, outs, ins, depth, stopper):
        """outs: list of (kind, state, value)"""
        res, parked = [], []
        for kind, s, v in outs:
            if kind == 'ret':
                cf = s.frames[-1]
                if ins.dst:
                    cf.env[ins.dst] = v
                if ins.op == 'invoke':
                    r = self.jump(s, ins.x['ok'], depth, stopper)
                else:
                    cf.ip += 1
                    r = None
            elif kind == 'throw':
                r = self.throw(s, v, depth, stopper)
            elif kind == 'dead':
                continue
            elif kind == 'stop':
                r = ('out', Outcome('stop', s, v))
            else:
                raise Unsupported(kind)
            self.collect(r, s, res, parked)
        if len(outs) == 1 and len(res) == 1 and not parked and res[0] is outs[0][1]:
            return None
        return self.mixed(res, parked)

    def intrinsic(self, st, name, ins, depth, stopper):
        fr = st.frames[-1]
        A = [self.val(st, t, o) if o[0] != 'meta' else None for (t, o, a) in ins.a]
        n = name[6:]
        v = None
        th = self.th
        if n.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'assume', 'donothing', 'stackrestore', 'invariant.', 'prefetch')):
            pass
        elif n.startswith('stacksave'):
            v = NULL
        elif n.startswith(('memcpy', 'memmove')):
            h = self.opts.get('memcpy')
            if h and h(self, st, A[0], A[1], A[2]):
                pass
            else:
                self.memcpy(st, A[0], A[1], A[2])
        elif n.startswith('memset'):
            h = self.opts.get('memset')
            if h and h(self, st, A[0], A[1], A[2]):
                pass
            else:
                self.memset(st, A[0], A[1], A[2])
        elif n.startswith(('va_start', 'va_end', 'vastart', 'vaend')):
            pass
        elif n.startswith(('expect.',)):
            v = A[0]
        elif n.startswith('eh.typeid.for'):
            v = th.const(32, typeid(ins.a[0][1][1]))
        elif n.startswith(('umax.', 'umin.', 'smax.', 'smin.')):
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n[:4]]
            v = th.ite(th.icmp(p, A[0], A[1]).t, A[0], A[1])
        elif n.startswith('abs.'):
            c = th.icmp('slt', A[0], th.const(A[0].w, 0)).t
            v = th.ite(c, th.bin('sub', A[0].w, th.const(A[0].w, 0), A[0], {'nsw'}, st), A[0])
        elif n.startswith(('fshl.', 'fshr.')) and self.th.bv:
            w = A[0].w
            k = A[2].t.as_long() % w if z3.is_bv_value(A[2].t) else None
            if k is None:
                raise Unsupported('fshl')
            if n.startswith('fshr'):
                k = (w - k) % w
            if k == 0:
                v = A[0] if n.startswith('fshl') else A[1]
            else:
                v = I(w, z3.simplify(z3.Concat(z3.Extract(w - k - 1, 0, A[0].t), z3.Extract(w - 1, w - k, A[1].t))))
        elif n.startswith('bswap.') and self.th.bv:
            w = A[0].w
            v = I(w, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, A[0].t) for i in range(w // 8)]))
        elif n.startswith(('umul.with.overflow', 'uadd.with.overflow', 'usub.with.overflow')) and not th.bv:
            w = A[0].w
            x, y = th.U(A[0]), th.U(A[1])
            t = x * y if n.startswith('umul') else x + y if n.startswith('uadd') else x - y
            ov = Not(And(t >= 0, t < (1 << w)))
            if isinstance(t, int):
                r = I(w, t % (1 << w))
            else:
                r = I(w, t % (1 << w), 0, (1 << w) - 1) if n.startswith('umul') else th.canon(w, t, -(1 << w), 2 * (1 << w) - 1, False)
                if n.startswith('umul'):
                    r = I(w, z3.If(ov, t % (1 << w), t) if not isinstance(ov, bool) else t, 0, (1 << w) - 1)
            v = (r, I(1, ov))
        elif n.startswith('umul.with.overflow') and th.bv:
            r = th.bin('mul', A[0].w, A[0], A[1], set(), st)
            v = (r, I(1, z3.Not(z3.BVMulNoOverflow(A[0].t, A[1].t, False))))
        elif n.startswith('trap'):
            self.require(st, 'trap', False)
            return ('dead', None)
        elif n.startswith(('floor', 'ceil', 'fabs', 'sqrt', 'fmuladd', 'pow', 'round', 'trunc.', 'rint')):
            f = z3.Function(n, *([DSort] * len(A)), DSort)
            v = D(f(*[a.t for a in A]))
        else:
            raise Unsupported('intrinsic ' + name)
        if ins.dst:
            fr.env[ins.dst] = v
        if ins.op == 'invoke':
            return self.jump(st, ins.x['ok'], depth, stopper)
        fr.ip += 1
        return None

    def simple(self, st, fr, ins):
        op = ins.op
        th = self.th
        env = fr.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            if isinstance(a, PInt) or isinstance(b, PInt):
                if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                    t = self.pdiff(st, a.p, b.p)
                    if th.bv:
                        env[ins.dst] = I(64, t)
                    else:
                        env[ins.dst] = I(64, t) if isinstance(t, int) else I(64, t, -(1 << 63), (1 << 63) - 1)
                    return
                raise Unsupported('pointer-integer arithmetic')
            if ins.ty.k != 'int':
                raise Unsupported('vector arithmetic')
            env[ins.dst] = th.bin(op, ins.ty.w, a, b, ins.x, st)
        elif op == 'icmp':
            a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            if isinstance(a, (P, PInt)) or isinstance(b, (P, PInt)):
                a = a.p if isinstance(a, PInt) else a
                b = b.p if isinstance(b, PInt) else b
                if isinstance(a, I) or isinstance(b, I):
                    raise Unsupported('pointer/integer comparison')
                if self.cmplog is not None and not th.bv and a.base is not None and a.base == b.base and not isinstance(a.off, tuple) and not isinstance(b.off, tuple):
                    self.cmplog.append((a.idx, b.idx))
                if ins.x in ('eq', 'ne'):
                    e = self.ptr_eq(st, a, b)
                    env[ins.dst] = I(1, e if ins.x == 'eq' else Not(e))
                else:
                    d = self.pdiff(st, a, b)
                    env[ins.dst] = I(1, simpb(th._cmp(ins.x[1:], d, 0)))
                return
            if self.cmplog is not None and a.w > 1 and not th.bv:
                if ins.x[0] == 's':
                    self.cmplog.append((th.S(a), th.S(b)))
                else:
                    self.cmplog.append((th.U(a), th.U(b)))
            env[ins.dst] = th.icmp(ins.x, a, b)
        elif op in ('zext', 'sext', 'trunc'):
            v = self.val(st, ins.x, ins.a[0])
            if isinstance(v, PInt):
                env[ins.dst] = v
                return
            if v is UNDEF:
                v = th.fresh(self.uniq('undef'), ins.x.w)
            env[ins.dst] = getattr(th, op)(v, ins.ty.w)
        elif op == 'freeze':
            v = self.val(st, ins.ty, ins.a[0])
            env[ins.dst] = self.havoc_val(ins.ty, self.uniq('undef')) if v is UNDEF else v
        elif op in ('bitcast', 'addrspacecast'):
            env[ins.dst] = self.val(st, ins.x, ins.a[0])
        elif op == 'ptrtoint':
            env[ins.dst] = PInt(self.val(st, ins.x, ins.a[0]))
        elif op == 'inttoptr':
            v = self.val(st, ins.x, ins.a[0])
            env[ins.dst] = self.retype(v, PTRTY)
        elif op == 'alloca':
            if ins.x is not None and not (ins.x[1][0] == 'int' and ins.x[1][1] == 1):
                cnt = self.val(st, ins.x[0], ins.x[1])
                raise Unsupported('dynamic alloca')
            nm = self.uniq('@stk.' + (ins.dst or ''))
            env[ins.dst] = self.new_obj(st, nm, ins.ty, fresh=True)
            fr.allocas.append(nm)
        elif op == 'load':
            p = self.val(st, PTRTY, ins.a[0])
            p = self.asptr(p)
            hook = self.shared(st, p, ins)
            if hook:
                hook(self, st, 'pre', p, None, None, self.orders(ins.x)[0])
            v = env[ins.dst] = self.load(st, p, ins.ty)
            if hook:
                hook(self, st, 'post', p, v, v, self.orders(ins.x)[0])
        elif op == 'store':
            v = self.val(st, ins.ty, ins.a[0])
            p = self.asptr(self.val(st, PTRTY, ins.a[1]))
            hook = self.shared(st, p, ins)
            if hook:
                hook(self, st, 'pre', p, None, None, self.orders(ins.x)[0])
                old = self.load(st, p, ins.ty)
            self.store(st, p, ins.ty, v)
            if hook:
                hook(self, st, 'post', p, old, v, self.orders(ins.x)[0])
        elif op == 'gep':
            ops = [(t, self.val(st, t, o)) for t, o in ins.a]
            env[ins.dst] = self.gep(st, ins.ty, ops)
        elif op == 'select':
            c = self.val(st, Ty('int', w=1), ins.a[0]).t
            a, b = self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            c = simpb(c)
            if isinstance(c, bool):
                env[ins.dst] = a if c else b
            elif isinstance(a, I) and isinstance(b, I):
                env[ins.dst] = th.ite(c, a, b)
            elif isinstance(a, D):
                env[ins.dst] = D(z3.If(c, a.t, b.t))
            elif isinstance(a, P) and isinstance(b, P) and a.base == b.base and a.off == b.off:
                env[ins.dst] = P(a.base, Ite(c, a.idx, b.idx), a.off)
            else:
                raise Unsupported('pointer select')
        elif op == 'extractvalue':
            v = self.val(st, None if ins.a[0][0] == 'loc' else ins.ty, ins.a[0])
            for i in ins.x:
                v = v[i] if v is not UNDEF else UNDEF
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ty, ins.a[0])
            e = self.val(st, ins.x[0], ins.a[1])
            env[ins.dst] = self.insv(v, e, ins.x[1], ins.ty)
        elif op == 'landingpad':
            sel = st.ghost.get('exc_sel', 0)
            if sel == 0:
                s = 0
            elif sel[0] == 'null':
                s = typeid('null')
            else:
                s = typeid(sel[1])
            env[ins.dst] = (st.exc[0], th.const(32, s))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            f = z3.Function(op, DSort, DSort, DSort)
            env[ins.dst] = D(f(a.t, b.t))
        elif op == 'fneg':
            env[ins.dst] = D(z3.Function(op, DSort, DSort)(self.val(st, ins.ty, ins.a[0]).t))
        elif op == 'fcmp':
            a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            f = z3.Function('fcmp_' + ins.x, DSort, DSort, z3.BoolSort())
            env[ins.dst] = I(1, f(a.t, b.t))
        elif op in ('sitofp', 'uitofp'):
            v = self.val(st, ins.x, ins.a[0])
            t = th.S(v) if op[0] == 's' else th.U(v)
            if th.bv:
                f = z3.Function('%s%d' % (op, v.w), z3.BitVecSort(v.w), DSort)
            else:
                f = z3.Function('itofp', z3.IntSort(), DSort)
            env[ins.dst] = D(f(self.ix(t) if isinstance(t, int) else t))
        elif op in ('fptosi', 'fptoui'):
            v = self.val(st, ins.x, ins.a[0])
            f = z3.Function('fptoi%d' % ins.ty.w + ('s' if op[4] == 's' else 'u'), DSort, z3.IntSort() if not th.bv else z3.BitVecSort(ins.ty.w))
            r = f(v.t)
            if th.bv:
                env[ins.dst] = I(ins.ty.w, r)
            else:
                h = 1 << (ins.ty.w - 1)
                lo, hi = (-h, h - 1) if op[4] == 's' else (0, 2 * h - 1)
                st.assume(And(r >= lo, r <= hi))
                env[ins.dst] = I(ins.ty.w, r, lo, hi)
        elif op in ('fpext', 'fptrunc'):
            v = self.val(st, ins.x, ins.a[0])
            env[ins.dst] = D(z3.Function(op, DSort, DSort)(v.t))
        elif op == 'fence':
            pass
        elif op in ('atomicrmw', 'cmpxchg'):
            self.atomic(st, fr, ins)
        else:
            raise Unsupported('instruction %s' % op)

    ORDERS = ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')

    def orders(self, toks):
        return [t for t in toks or [] if t in self.ORDERS] or ['seq_cst']

    def shared(self, st, p, ins):
        """the specification's observer of a memory cell shared between threads (opts['atomic'] = (base, hook))"""
        h = self.opts.get('atomic')
        if h is None or p.base != h[0]:
            return None
        if ins.op in ('load', 'store') and ins.x is None and (len(h) < 3 or h[2]):
            self.require(st, 'data-race', False, 'the shared cell is accessed atomically')
        return h[1]

    def atomic(self, st, fr, ins):
        p = self.asptr(self.val(st, PTRTY, ins.a[0]))
        hook = self.shared(st, p, ins)
        od = self.orders(ins.x[1])
        if hook:
            hook(self, st, 'pre', p, None, None, od[0])
        old = self.load(st, p, ins.ty)
        if ins.op == 'cmpxchg':
            exp = self.val(st, ins.ty, ins.a[1])
            new = self.val(st, ins.ty, ins.a[2])
            c = self.th.icmp('eq', old, exp).t
            if ins.x[0]:
                # the weak form may fail without reason
                c = And(c, z3.Bool(self.uniq('weak')))
            nv = self.th.ite(c, new, old)
            self.store(st, p, ins.ty, nv)
            if hook:
                hook(self, st, 'post', p, old, nv, od[0])
            fr.env[ins.dst] = (old, I(1, c))
            return
        k = ins.x[0]
        v = self.val(st, ins.ty, ins.a[1])
        if k == 'xchg':
            new = v
        elif k in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.th.bin(k, ins.ty.w, old, v, set(), st)
        else:
            raise Unsupported('atomicrmw ' + k)
        self.store(st, p, ins.ty, new)
        if hook:
            hook(self, st, 'post', p, old, new, od[0])
        fr.env[ins.dst] = old

    def insv(self, v, e, idx, ty):
        ty = self.mod.resolve(ty)
        n = len(ty.fields) if ty.k == 'struct' else ty.n
        if v is UNDEF:
            v = tuple([UNDEF] * n)
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            l[idx[0]] = self.insv(l[idx[0]], e, idx[1:], ty.fields[idx[0]])
        return tuple(l)

    def asptr(self, p):
        if isinstance(p, PInt):
            return p.p
        if isinstance(p, P):
            return p
        raise Unsupported('dereference of %r' % (p,))

    # ---------------------------------------------------------- loops
    from .loops import handle_loop

    def lazy_same(self, o0, off, sz, v1):
        """a cell that a loop body merely read for the first time (same lazily created symbol)"""
        if o0.fresh or not isinstance(v1, (I, D)):
            return False
        nm = '%s.%d' % (o0.name, off)
        return not isinstance(v1.t, (int, bool)) and z3.is_const(v1.t) and v1.t.decl().name() == nm


class _T:
    pass


PTRTY = ir.PTR
_tid = {}


def typeid(n):
    return _tid.setdefault(n, 1000 + len(_tid))


def is_const_num(t):
    return isinstance(t, int) or z3.is_int_value(t) or z3.is_bv_value(t)


def simp(t):
    if isinstance(t, int):
        return t
    r = z3.simplify(t)
    if z3.is_int_value(r):
        return r.as_long()
    return r


def simpb(c):
    if isinstance(c, bool):
        return c
    r = z3.simplify(c)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return c


def short(d):
    d = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'std::string', d)
    return d if len(d) < 160 else d[:157] + '...'
