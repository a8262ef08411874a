"""C04 time values stay normalised and their arithmetic is exact"""
from .timelib import *

TUS = {'time': 'tu/time.cpp'}
NATIVE = {'src': 'native/time.cpp', 'sources': ['icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_posix_time.cpp', 'icl_core/os_posix_string.cpp', 'icl_core/os_string.cpp'], 'libs': ['-lrt']}
ASSUMPTIONS = [
    'seconds counts have magnitude at most 2^61 in operands (2^62 for normalizeTime itself)',
    'struct timespec handed to constructors carries |tv_nsec| < 2^31 (the code stores it in 32 bits)',
    'gettimeofday(2) yields a time between 1970 and 2^61 s with 0 <= us < 1e6',
    'boost::posix_time: a ptime is its 64-bit microsecond tick count; time_period::length, total_seconds, total_nanoseconds follow their documentation; ptime not before 1970',
    'TimeSpan::cZERO / TimeStamp::cZERO are initialised before use; their initialiser values (0,0) are checked by the unit static zeros',
    'os::gettimeofday under LXRT, OpenSplice and Darwin branches are not compiled and not covered',
]


def u_normalize(mods):
    out = []
    for fn in ('normalizeTime', 'NormalizeTime'):
        if fn == 'NormalizeTime' and TB + '::NormalizeTime()' not in mods['time'].bydem:
            continue
        h = H(mods['time'], 'TimeBase::' + fn, [], extra=[] if fn == 'normalizeTime' else EXTRA)
        p, s, n = tb(h, 't', lim=None, norm=False)
        h.assume(Or(And(s >= -BIG, s <= BIG), normalised(s, n)))
        h.ex.templates.append(val_template(h, 't', s, n))
        h.ex.measures.append(measure)
        for o in h.only_ret(h.call(TB + '::%s()' % fn, [p])):
            a, b = rd(h, o, p)
            h.post(o, 'the represented time is unchanged', value(a, b) == value(s, n))
            h.post(o, 'result is normalised', normalised(a, b))
            h.post(o, 'seconds move by at most 3', And(a <= s + 3, a >= s - 3))
            h.post(o, 'an already normalised time is untouched', Implies(normalised(s, n), And(a == s, b == n)))
            h.frame(o, [('t', 0), ('t', 8)])
        out.append(h)
    return out


def Implies(a, b):
    return Or(Not(a), b)


def val_template(h, base, s, n):
    def t(ex, ctx):
        k0 = [k for k in ctx.keys if k[0] == 'cell' and k[1] == base and k[2] == 0]
        k8 = [k for k in ctx.keys if k[0] == 'cell' and k[1] == base and k[2] == 8]
        phis = [k for k in ctx.keys if k[0] == 'phi' and isinstance(ctx.entry[k], I)]
        w64 = k0 + [k for k in phis if ctx.entry[k].w == 64]
        w32 = k8 + [k for k in phis if ctx.entry[k].w in (32, 64)]
        r = []
        for a in w64:
            for b in w32:
                if a == b:
                    continue
                r.append(('represented time unchanged', lambda v, a=a, b=b: value(ex.th.S(v[a]), ex.th.S(v[b])) == value(s, n)))
                r.append(('close to entry', lambda v, a=a, b=b: And(G * (ex.th.S(v[a]) - s) <= 3 * G, G * (s - ex.th.S(v[a])) <= 3 * G)))
        return r
    return t


def measure(ex, ctx):
    k0 = [k for k in ctx.keys if isinstance(ctx.entry[k], I) and ctx.entry[k].w == 64]
    k8 = [k for k in ctx.keys if isinstance(ctx.entry[k], I) and ctx.entry[k].w in (32, 64)]
    r = []
    for a in k0:
        for b in k8:
            if a == b:
                continue

            def f(v, a=a, b=b):
                s, n = ex.th.S(v[a]), ex.th.S(v[b])
                return z3.If(n >= 0, n, -n) + z3.If(Or(And(s > 0, n < 0), And(s < 0, n > 0)), 3 * G, 0)
            r.append(('|ns| + 3e9*[signs differ]', f))
    return r


def ctor(mods, name, dem, mk):
    h = H(mods['time'], name, [], extra=EXTRA)
    p = h.obj('t', 'class.icl_core::TimeBase', size=16)
    args, s, n = mk(h)
    for o in h.only_ret(h.call(dem, [p] + args)):
        a, b = rd(h, o, p)
        h.post(o, 'constructed time is exact', value(a, b) == value(s, n))
        h.post(o, 'constructed time is normalised', normalised(a, b))
        h.frame(o, [('t', None)])
    return h


def mk_sn(h):
    s, n = h.int('s', 64, True, -BIG, BIG), h.int('n', 32, True)
    return [s, n], s.t, n.t


def mk_usn(h):
    s, n = h.int('s', 64, False, 0, BIG), h.int('n', 32, False, 0, 2 ** 31 - 1)
    return [s, n], s.t, n.t


def mk_timet(h):
    s = h.int('s', 64, True, -BIG, BIG)
    return [s], s.t, 0


def mk_none(h):
    return [], 0, 0


def mk_spec(h):
    p = h.obj('spec', None, 16)
    s, n = h.int('s', 64, True, -BIG, BIG), h.int('n', 64, True, -2 ** 31, 2 ** 31 - 1)
    h.put(p, 0, s)
    h.put(p, 8, n)
    return [p], s.t, n.t


def mk_ptime(h):
    p = h.obj('pt', None, 8)
    x = h.int('usec', 64, True)
    base = 2440588 * 86400 * 10 ** 6
    h.put(p, 0, I(64, x.t + base, 0, 2 ** 63 - 1))
    h.assume(And(x.t >= 0, x.t <= 9 * 10 ** 15))
    h.small += [x.t < 2 * 10 ** 15]
    return [p], 0, x.t * 1000


CTORS = [
    ('TimeBase(sec,nsec)', TB + '::TimeBase(long, int)', mk_sn),
    ('TimeBase(timespec)', TB + '::TimeBase(timespec const&)', mk_spec),
    ('TimeBase::fromTimespec', TB + '::fromTimespec(timespec const&)', mk_spec),
    ('TimeSpan(sec,nsec)', TP + '::TimeSpan(long, int)', mk_sn),
    ('TimeSpan(timespec)', TP + '::TimeSpan(timespec const&)', mk_spec),
    ('TimeStamp()', TS + '::TimeStamp()', mk_none),
    ('TimeStamp(sec,nsec)', TS + '::TimeStamp(unsigned long, unsigned int)', mk_usn),
    ('TimeStamp(time_t)', TS + '::TimeStamp(long)', mk_timet),
    ('TimeStamp(timespec)', TS + '::TimeStamp(timespec const&)', mk_spec),
    ('TimeStamp(ptime)', TS + '::TimeStamp(boost::posix_time::ptime const&)', mk_ptime),
    ('TimeStamp=ptime', TS + '::operator=(boost::posix_time::ptime const&)', mk_ptime),
]


def compound(mods, name, dem, sign, alias=False):
    h = H(mods['time'], name, [], extra=EXTRA)
    p, s, n = tb(h, 't')
    if alias:
        q, s2, n2 = p, s, n
    else:
        q, s2, n2 = tb(h, 'u')
    for o in h.only_ret(h.call(dem, [p, q])):
        a, b = rd(h, o, p)
        h.post(o, 'the sum or difference is exact', value(a, b) == value(s, n) + sign * value(s2, n2))
        h.post(o, 'result is normalised', normalised(a, b))
        h.post(o, 'returns the left operand', o.val.base == p.base and o.val.off == 0)
        h.frame(o, [('t', 0), ('t', 8)])
    return h


COMP = []
for cls, arg in ((TB, TB), (TP, TP), (TS, TP)):
    for op, sg in (('+=', 1), ('-=', -1)):
        dem = '%s::operator%s(%s const&)' % (cls, op, arg)
        COMP.append(('%s %s %s' % (cls.split('::')[1], op, arg.split('::')[1]), dem, sg, False))
        if cls == arg:
            COMP.append(('%s %s itself' % (cls.split('::')[1], op), dem, sg, True))
COMP.append(('TimeStamp += TimeStamp (private)', TS + '::operator+=(%s const&)' % TS, 1, False))


def free(mods, name, dem, f, n2=2, nonneg=False):
    h = H(mods['time'], name, [], extra=EXTRA)
    glob_zero(h, mods['time'])
    a, s, n = tb(h, 't')
    args = [a]
    vals = [value(s, n)]
    if nonneg:
        h.assume(And(s >= 0, n >= 0))
    if n2 == 2:
        b, s2, m2 = tb(h, 'u')
        args.append(b)
        vals.append(value(s2, m2))
        if nonneg:
            h.assume(And(s2 >= 0, m2 >= 0))
    fn = h.fn(dem)
    slot = None
    if len(fn.params) == len(args) + 1:
        slot = h.obj('ret', None, 16)
        args = [slot] + args
    for o in h.only_ret(h.call(dem, args)):
        x, y = retpair(h, o, slot)
        h.post(o, 'the result is exact', value(x, y) == f(*vals))
        h.post(o, 'result is normalised', normalised(x, y))
        h.frame(o, [('ret', None)])
    return h


ABS = lambda v: z3.If(v < 0, -v, v)
FREE = [
    ('TimeSpan + TimeSpan', 'icl_core::operator+(%s const&, %s const&)' % (TP, TP), lambda a, b: a + b, 2, False),
    ('TimeSpan - TimeSpan', 'icl_core::operator-(%s const&, %s const&)' % (TP, TP), lambda a, b: a - b, 2, False),
    ('TimeSpan + TimeStamp', 'icl_core::operator+(%s const&, %s const&)' % (TP, TS), lambda a, b: a + b, 2, False),
    ('TimeStamp + TimeSpan', 'icl_core::operator+(%s const&, %s const&)' % (TS, TP), lambda a, b: a + b, 2, False),
    ('TimeStamp - TimeSpan', 'icl_core::operator-(%s const&, %s const&)' % (TS, TP), lambda a, b: a - b, 2, False),
    ('TimeStamp - TimeStamp', 'icl_core::operator-(%s const&, %s const&)' % (TS, TS), lambda a, b: a - b, 2, False),
    ('abs(TimeSpan)', 'icl_core::abs(%s const&)' % TP, ABS, 1, False),
]


def u_future(mods):
    out = []
    for nm in ('futureMSec', 'FutureMSec'):
        h = H(mods['time'], nm, [], extra=EXTRA)
        dem = TS + '::%s(unsigned long)' % nm
        if dem not in mods['time'].bydem:
            continue
        ms = h.int('msec', 64, False, 0, 1000 * (BIG // 2))
        fn = h.fn(dem)
        slot = h.obj('ret', None, 16) if len(fn.params) == 2 else None
        for o in h.only_ret(h.call(dem, ([slot] if slot else []) + [ms])):
            x, y = retpair(h, o, slot)
            s, n = o.st.ghost.get('now') or (None, None)
            if s is None:
                h.post(o, 'the clock is read', False)
                continue
            h.post(o, 'future = now + msec', value(x, y) == value(s, n) + ms.t * 10 ** 6)
            h.post(o, 'result is normalised', normalised(x, y))
        out.append(h)
    return out


def u_now(mods):
    out = []
    for nm in ('now', 'Now'):
        dem = TS + '::%s()' % nm
        if dem not in mods['time'].bydem:
            continue
        h = H(mods['time'], nm, [], extra=EXTRA)
        fn = h.fn(dem)
        slot = h.obj('ret', None, 16) if len(fn.params) == 1 else None
        for o in h.only_ret(h.call(dem, [slot] if slot else [])):
            x, y = retpair(h, o, slot)
            s, n = o.st.ghost.get('now') or (None, None)
            h.post(o, 'now() is the clock value', And(x == s, y == n) if s is not None else False)
        out.append(h)
    for nm in ('fromNow', 'FromNow'):
        dem = TS + '::%s()' % nm
        if dem not in mods['time'].bydem:
            continue
        h = H(mods['time'], nm, [], extra=EXTRA)
        p, s0, n0 = tb(h, 't')
        for o in h.only_ret(h.call(dem, [p])):
            x, y = rd(h, o, p)
            s, n = o.st.ghost.get('now') or (None, None)
            h.post(o, 'fromNow() is the clock value', And(x == s, y == n) if s is not None else False)
            h.frame(o, [('t', None)])
        out.append(h)
    return out


def u_zero(mods):
    """the dynamic initialisers give the zero constants the value (0,0)"""
    h = H(mods['time'], 'static zeros', [], extra=EXTRA)
    mod = mods['time']
    fs = [f for l in mod.bydem.values() for f in l if f.name.startswith('@__cxx_global_var_init') and f.body_text is not None and
          any('cZERO' in ln for ln in f.body_text)]
    if len(fs) != 2:
        # constant-initialised: check the stored constant
        raise Unsupported('zero constants: %d dynamic initialisers' % len(fs))
    for f in fs:
        for g in ('@_ZN8icl_core8TimeSpan5cZEROE', '@_ZN8icl_core9TimeStamp5cZEROE'):
            p = h.ex.glob(h.st, g)
            if any(g in ln for ln in f.body_text):
                h.called.append(f.dem)
                outs = h.ex.run(h.st, f, [])
                for o in h.only_ret(outs):
                    x, y = rd(h, o, p)
                    h.post(o, 'cZERO is zero', And(x == 0, y == 0))
    return h


def u_max(mods):
    out = []
    for cls in (TB, TS):
        for nm in ('maxTime', 'MaxTime'):
            dem = cls + '::%s()' % nm
            if dem not in mods['time'].bydem or not any(f.body_text is not None for f in mods['time'].bydem[dem]):
                continue
            h = H(mods['time'], dem, [], extra=EXTRA)
            fn = h.fn(dem)
            slot = h.obj('ret', None, 16) if len(fn.params) == 1 else None
            for o in h.only_ret(h.call(dem, [slot] if slot else [])):
                x, y = retpair(h, o, slot)
                h.post(o, 'the largest representable normalised time', And(x == 2 ** 63 - 1, y == G - 1))
            out.append(h)
    return out


UNITS = [('TimeBase::normalizeTime', u_normalize), ('futureMSec', u_future), ('now', u_now), ('static zeros', u_zero), ('maxTime', u_max)]
for a in CTORS:
    UNITS.append((a[0], lambda mods, a=a: ctor(mods, *a)))
for a in COMP:
    UNITS.append((a[0], lambda mods, a=a: compound(mods, *a)))
for a in FREE:
    UNITS.append((a[0], lambda mods, a=a: free(mods, *a)))
