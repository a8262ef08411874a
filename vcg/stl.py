"""Trusted contracts of the C++ library (std::vector, exceptions, allocation).
Everything here is an assumption of the proofs and is listed in the evidence."""
import re, z3
from . import ir
from .ir import Ty, Unsupported
from .sym import I, P, Abs, And, Or, Not, Ite, NULL, simp, UNDEF, D, DSort

SCALARS = {'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64, 'unsigned char': 8, 'char': 8, 'signed char': 8,
           'short': 16, 'unsigned short': 16, 'long long': 64, 'unsigned long long': 64}


def eltype(ex, T):
    T = T.strip()
    if T in SCALARS:
        w = SCALARS[T]
        return (w // 8, {0: Ty('int', w=w)}, {})
    if T in ('double', 'float'):
        return (8 if T == 'double' else 4, {0: Ty('fp', w=8, name='double')}, {})
    e = ex.opts.get('eltypes', {}).get(T)
    if e:
        return e
    if T.endswith('*'):
        return (8, {0: ir.PTR}, {0: ex.opts.get('ptrpools', {}).get(T)})
    raise Unsupported('std::vector of ' + T)


def mkvec(ex, name, T, length=None, fields=None):
    stride, tys, ptrf = eltype(ex, T)
    if fields is None:
        fields = {o: z3.Const('%s[%d]' % (name, o), ex.arr_sort(t) if t.k != 'ptr' else z3.ArraySort(z3.IntSort(), z3.IntSort())) for o, t in tys.items()}
    if length is None:
        length = z3.BitVec(name + '.len', 64) if ex.th.bv else z3.Int(name + '.len')
    return Abs('vec', len=length, fields=fields, gen=next(ex.cnt), stride=stride, tys=tys, ptrf=ptrf, ety=T)


def lam(f):
    i = z3.Int('i!lam')
    return z3.Lambda([i], f(i))


def zero_of(ex, t):
    if t.k == 'fp':
        return z3.Const('fp_0', DSort)
    return z3.IntVal(0)


def vec_at(ex, st, p):
    o = st.mem.get(p.base)
    if o is None:
        raise Unsupported('vector at unknown address %r' % (p,))
    if o.kind != 'obj':
        raise Unsupported('vector inside an array element')
    if not o.alive:
        ex.require(st, 'use-after-free', False)
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], Abs):
        raise Unsupported('no vector at %r' % (p,))
    if c[1].kind == 'dead':
        ex.require(st, 'use-after-destruction', False)
        raise Unsupported('use of a destroyed object')
    return c[1]


def set_vec(ex, st, p, v, size=24):
    o = st.w(p.base)
    for co in [c for c, (s, x) in o.cells.items() if p.off <= c < p.off + size and c != p.off and isinstance(s, int)]:
        del o.cells[co]
    o.cells[p.off] = (size, v)


def data_ptr(p, v, idx=0, off=0):
    return P(('v', p.base, p.off, v.gen), idx, off)


def U(ex, v):
    return ex.th.U(v)


MAXLEN = (1 << 63) - 1


def lenI(ex, v):
    if isinstance(v.len, int):
        return I(64, v.len)
    return I(64, v.len, 0, MAXLEN // max(1, v.stride))


def vmethod(ex, st, args, m, ins):
    T, meth, params, const = m.group(1), m.group(2), m.group(3), m.group(4)
    th = ex.th
    this = args[0]
    R = lambda v=None: [('ret', st, v)]
    if meth == 'vector':
        stride, tys, ptrf = eltype(ex, T)
        pr = re.sub(r'std::allocator<.*?> ?(const)?&', 'ALLOC', params)
        if params in ('', 'ALLOC') or pr == 'ALLOC':
            v = mkvec(ex, ex.uniq('vec'), T, 0)
        elif params.startswith('std::vector<') and len(args) == 2 and '&&' not in params:
            s = vec_at(ex, st, args[1])
            v = s.up(gen=next(ex.cnt))
        elif params.startswith('std::vector<') and '&&' in params:
            s = vec_at(ex, st, args[1])
            v = s.up(gen=next(ex.cnt))
            set_vec(ex, st, args[1], mkvec(ex, ex.uniq('moved'), T, 0))
        elif re.fullmatch(r'unsigned long, (std::allocator.*&)', params):
            v = mkvec(ex, ex.uniq('vec'), T, U(ex, args[1]), {o: z3.K(z3.IntSort(), zero_of(ex, t)) for o, t in tys.items()})
        elif params.startswith('unsigned long, ' + T):
            x = {o: ex.load(st, P(args[2].base, args[2].idx, args[2].off + o), t) for o, t in tys.items()}
            v = mkvec(ex, ex.uniq('vec'), T, U(ex, args[1]), {o: z3.K(z3.IntSort(), ex.to_smt(x[o])) for o in tys})
        else:
            return 'inline'
        set_vec(ex, st, this, v)
        return R()
    if meth == '~vector':
        vec_at(ex, st, this)
        set_vec(ex, st, this, Abs('dead', gen=-1))
        return R()
    if meth in ('rbegin', 'rend', 'crbegin', 'crend'):
        return 'inline'
    v = vec_at(ex, st, this)
    L = v.len
    if meth in ('size',):
        return R(lenI(ex, v))
    if meth == 'empty':
        return R(I(1, L == 0))
    if meth in ('operator[]',):
        i = U(ex, args[1])
        ex.require(st, 'bounds', ex.lt(i, L), 'vector index in range')
        return R(data_ptr(this, v, i))
    if meth == 'at':
        i = U(ex, args[1])
        s2 = st.fork()
        c = simp_b(ex.lt(i, L))
        r = []
        if c is not False:
            st.assume(c)
            if ex.feas(st.pc):
                r.append(('ret', st, data_ptr(this, v, i)))
        if c is not True:
            s2.assume(Not(c))
            if ex.feas(s2.pc):
                r.append(('throw', s2, '@_ZTISt12out_of_range'))
        return r
    if meth == 'front':
        ex.require(st, 'bounds', L > 0, 'front() of a non-empty vector')
        return R(data_ptr(this, v, 0))
    if meth == 'back':
        ex.require(st, 'bounds', L > 0, 'back() of a non-empty vector')
        return R(data_ptr(this, v, simp(L - 1)))
    if meth in ('begin', 'data', 'cbegin', '_M_data_ptr'):
        return R(data_ptr(this, v, 0))
    if meth in ('end', 'cend'):
        return R(data_ptr(this, v, L))
    if meth == 'clear':
        set_vec(ex, st, this, v.up(len=0, gen=next(ex.cnt)))
        return R()
    if meth == 'reserve':
        set_vec(ex, st, this, v.up(gen=next(ex.cnt)))
        return R()
    if meth == 'capacity':
        c = z3.Int(ex.uniq('cap'))
        st.assume(And(c >= L, c <= MAXLEN))
        return R(I(64, c, 0, MAXLEN))
    if meth in ('push_back', 'emplace_back'):
        pr = args[1]
        f = {}
        for o, t in v.tys.items():
            x = ex.load(st, P(pr.base, pr.idx, pr.off + o), t)
            f[o] = z3.Store(v.fields[o], ex.ix(L), ex.to_smt(x))
        nv = v.up(len=simp(L + 1), fields=f, gen=next(ex.cnt))
        set_vec(ex, st, this, nv)
        return R(data_ptr(this, nv, L))
    if meth == 'pop_back':
        ex.require(st, 'bounds', L > 0, 'pop_back() of a non-empty vector')
        set_vec(ex, st, this, v.up(len=simp(L - 1)))
        return R()
    if meth == 'resize':
        n = U(ex, args[1])
        f = {}
        for o, t in v.tys.items():
            if len(args) > 2:
                x = ex.to_smt(ex.load(st, P(args[2].base, args[2].idx, args[2].off + o), t))
            else:
                x = zero_of(ex, t)
            a = v.fields[o]
            f[o] = lam(lambda i, a=a, x=x: z3.If(i < L, z3.Select(a, i), x))
        set_vec(ex, st, this, v.up(len=n, fields=f, gen=next(ex.cnt)))
        return R()
    if meth == 'assign' and params.startswith('unsigned long, '):
        n = U(ex, args[1])
        f = {}
        for o, t in v.tys.items():
            x = ex.to_smt(ex.load(st, P(args[2].base, args[2].idx, args[2].off + o), t))
            f[o] = z3.K(z3.IntSort(), x)
        set_vec(ex, st, this, v.up(len=n, fields=f, gen=next(ex.cnt)))
        return R()
    if meth == 'operator=':
        s = vec_at(ex, st, args[1])
        if args[1].base == this.base and args[1].off == this.off:
            return R(this)
        set_vec(ex, st, this, s.up(gen=next(ex.cnt)))
        if '&&' in params:
            set_vec(ex, st, args[1], mkvec(ex, ex.uniq('moved'), T, 0))
        return R(this)
    if meth == 'swap':
        s = vec_at(ex, st, args[1])
        # iterators follow their elements; pointers through the old owner are not tracked, so both get a new generation
        set_vec(ex, st, this, s.up(gen=next(ex.cnt)))
        set_vec(ex, st, args[1], v.up(gen=next(ex.cnt)))
        return R()
    if meth == 'erase' and len(args) == 2:
        p = args[1]
        ex.require(st, 'bounds', And(p.idx >= 0, p.idx < L), 'erase() position')
        f = {o: lam(lambda i, a=a: z3.If(i < p.idx, z3.Select(a, i), z3.Select(a, i + 1))) for o, a in v.fields.items()}
        nv = v.up(len=simp(L - 1), fields=f, gen=next(ex.cnt))
        set_vec(ex, st, this, nv)
        return R(data_ptr(this, nv, p.idx))
    if meth == 'erase' and len(args) == 3:
        p, q = args[1], args[2]
        ex.require(st, 'bounds', And(p.idx >= 0, p.idx <= q.idx, q.idx <= L), 'erase() range')
        n = q.idx - p.idx
        f = {o: lam(lambda i, a=a: z3.If(i < p.idx, z3.Select(a, i), z3.Select(a, i + n))) for o, a in v.fields.items()}
        nv = v.up(len=simp(L - n), fields=f, gen=next(ex.cnt))
        set_vec(ex, st, this, nv)
        return R(data_ptr(this, nv, p.idx))
    if meth == 'insert' and len(args) == 3 and params.endswith(' const&'):
        p, pr = args[1], args[2]
        ex.require(st, 'bounds', And(p.idx >= 0, p.idx <= L), 'insert() position')
        f = {}
        for o, t in v.tys.items():
            x = ex.to_smt(ex.load(st, P(pr.base, pr.idx, pr.off + o), t))
            a = v.fields[o]
            f[o] = lam(lambda i, a=a, x=x: z3.If(i < p.idx, z3.Select(a, i), z3.If(i == p.idx, x, z3.Select(a, i - 1))))
        nv = v.up(len=simp(L + 1), fields=f, gen=next(ex.cnt))
        set_vec(ex, st, this, nv)
        return R(data_ptr(this, nv, p.idx))
    return 'inline'


def simp_b(c):
    from .sym import simpb
    return simpb(c)


def exc_alloc(ex, st, args, m, ins):
    n = ex.uniq('@exc')
    ex.new_obj(st, n, size=None, fresh=True)
    return [('ret', st, P(n))]


def exc_throw(ex, st, args, m, ins):
    ti = args[1].base
    st.exc = (args[0], ti)
    return [('throw', st, ti)]


def std_throw(name):
    def f(ex, st, args, m, ins):
        return [('throw', st, name)]
    return f


def noop(ex, st, args, m, ins):
    return [('ret', st, None)]


def ret_arg0(ex, st, args, m, ins):
    return [('ret', st, args[0])]


def op_new(ex, st, args, m, ins):
    n = ex.uniq('@heap')
    sz = args[0].t if not ex.th.bv else args[0].t.as_long()
    o = ex.new_obj(st, n, size=sz if isinstance(sz, int) else None, fresh=True)
    return [('ret', st, P(n))]


def op_delete(ex, st, args, m, ins):
    p = args[0]
    if p.base is None:
        return [('ret', st, None)]
    o = st.mem.get(p.base)
    if o is None:
        raise Unsupported('delete of unknown')
    if not o.alive:
        ex.require(st, 'double-free', False)
    st.w(p.base).alive = False
    return [('ret', st, None)]


def clang_terminate(ex, st, args, m, ins):
    ex.require(st, 'terminate', False, 'std::terminate is not reached')
    return [('dead', st, None)]


def rethrow(ex, st, args, m, ins):
    return [('throw', st, st.exc[1])]


VEC = r'std::vector<(.+?), std::allocator<\1 ?> ?>::(~?\w+|operator\[\]|operator=)(?:<.*?>)?\((.*?)\)( const)?'

TRUSTED = [
    (VEC, vmethod),
    (r'@?__cxa_allocate_exception', exc_alloc),
    (r'@?__cxa_throw', exc_throw),
    (r'@?__cxa_free_exception', noop),
    (r'@?__cxa_begin_catch', ret_arg0),
    (r'@?__cxa_end_catch', noop),
    (r'@?__cxa_rethrow', rethrow),
    (r'@?__clang_call_terminate', clang_terminate),
    (r'std::terminate\(\)', clang_terminate),
    (r'std::(out_of_range|logic_error|invalid_argument|runtime_error|length_error)::\1\(char const\*\)', noop),
    (r'std::(out_of_range|logic_error|invalid_argument|runtime_error|length_error)::\1\(std::__cxx11::basic_string<.*> const&\)', noop),
    (r'std::(out_of_range|logic_error|invalid_argument|runtime_error|length_error|exception)::~\1\(\)', noop),
    (r'operator new\(unsigned long\)', op_new),
    (r'operator delete\(void\*(, unsigned long)?\)', op_delete),
    (r'std::allocator<.*>::~?allocator\(.*\)', noop),
    (r'std::__new_allocator<.*>::~?__new_allocator\(.*\)', noop),
    (r'std::__throw_out_of_range(_fmt)?\(char const\*.*\)', std_throw('@_ZTISt12out_of_range')),
    (r'std::__throw_length_error\(char const\*\)', std_throw('@_ZTISt12length_error')),
    (r'std::__throw_logic_error\(char const\*\)', std_throw('@_ZTISt11logic_error')),
    (r'std::__throw_bad_alloc\(\)', std_throw('@_ZTISt9bad_alloc')),
]


def install(ex, extra=()):
    for e in list(extra) + TRUSTED:
        ex.handlers.append((re.compile(e[0], re.S), e[1], e[2] if len(e) > 2 else 'trusted'))
