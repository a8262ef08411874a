"""contracts of the time classes, shared by C04..C06"""
from vcg.contract import *

G = 10 ** 9
TB, TS, TP = 'icl_core::TimeBase', 'icl_core::TimeStamp', 'icl_core::TimeSpan'
BIG = 2 ** 62


def normalised(s, n):
    return And(n < G, n > -G, Or(s == 0, n == 0, And(s > 0, n > 0), And(s < 0, n < 0)))


def value(s, n):
    return s * G + n


def norm_contract(ex, st, args, m, ins):
    """contract of normalizeTime(), itself discharged by the unit 'TimeBase::normalizeTime' of C04:
       requires the value to be normalised already or |secs| <= 2^62; ensures same value, normalised; touches nothing else"""
    p = args[0]
    s, n = ex.load(st, p, ir.Ty('int', w=64)), ex.load(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=32))
    S, N = ex.th.S(s), ex.th.S(n)
    ex.require(st, 'precondition', Or(And(S >= -BIG, S <= BIG), normalised(S, N)), 'normalizeTime: seconds within range')
    a, b = ex.th.fresh(ex.uniq('secs'), 64, True), ex.th.fresh(ex.uniq('nsecs'), 32, True)
    st.assume(And(value(a.t, b.t) == value(S, N), normalised(a.t, b.t), a.t <= S + 3, a.t >= S - 3))
    ex.store(st, p, ir.Ty('int', w=64), a)
    ex.store(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=32), b)
    return [('ret', st, None)]


def libc_clock(ex, st, args, m, ins):
    """gettimeofday(2) / clock_gettime(2): trusted to yield a wall-clock value with seconds >= 0 and a sub-second part in range; the value is a fresh unknown"""
    us = 'clock_gettime' not in m.group(0)
    p = args[0] if us else args[1]
    s, u = ex.th.fresh(ex.uniq('now.sec'), 64, True), ex.th.fresh(ex.uniq('now.sub'), 64, True)
    st.assume(And(s.t >= 0, s.t <= 2 ** 61, u.t >= 0, u.t < (10 ** 6 if us else G)))
    ex.store(st, p, ir.Ty('int', w=64), s)
    ex.store(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=64), u)
    st.ghost['now'] = (s.t, u.t * (1000 if us else 1))
    return [('ret', st, ex.th.const(32, 0))]


NORM = (r'icl_core::TimeBase::normalizeTime\(\)', norm_contract, 'contract')
NOW = (r'@?(?:gettimeofday|clock_gettime)', libc_clock)


# ---- boost::posix_time: a ptime is its microsecond tick count; only what the conversion uses
def bt_date(ex, st, args, m, ins):
    y, mo, d = [a.t for a in args[1:4]]
    if not all(isinstance(x, int) for x in (y, mo, d)):
        raise Unsupported('boost date of a symbolic day')
    import datetime
    n = (datetime.date(y, mo, d) - datetime.date(1970, 1, 1)).days
    ex.store(st, args[0], ir.Ty('int', w=32), ex.th.const(32, 2440588 + n))
    return [('ret', st, None)]


def greg(ex, st, args, m, ins):
    ex.store(st, args[0], ir.Ty('int', w=16), args[1])
    return [('ret', st, None)]


def bt_ptime(ex, st, args, m, ins):
    d = args[1]
    t = d.t
    if not isinstance(t, int):
        raise Unsupported('boost ptime of a symbolic day')
    ex.store(st, args[0], ir.Ty('int', w=64), ex.th.const(64, t * 86400 * 10 ** 6))
    return [('ret', st, None)]


def bt_period(ex, st, args, m, ins):
    ex.store(st, args[0], ir.Ty('int', w=64), args[1])
    ex.store(st, P(args[0].base, args[0].idx, args[0].off + 8), ir.Ty('int', w=64), args[2])
    return [('ret', st, None)]


def bt_length(ex, st, args, m, ins):
    p = args[0]
    a, b = ex.load(st, p, ir.Ty('int', w=64)), ex.load(st, P(p.base, p.idx, p.off + 8), ir.Ty('int', w=64))
    ex.require(st, 'precondition', ex.th.S(b) >= ex.th.S(a), 'time_period: end not before begin')
    return [('ret', st, ex.th.bin('sub', 64, I(64, ex.th.S(b), -2 ** 63, 2 ** 63 - 1), I(64, ex.th.S(a), *((-2 ** 63, 2 ** 63 - 1))), {'nsw'}, st))]


def bt_dur(ex, st, args, m, ins):
    d = ex.load(st, args[0], ir.Ty('int', w=64))
    x = ex.th.S(d)
    what = m.group(1)
    th = ex.th
    d = I(64, x, -2 ** 63, 2 ** 63 - 1)
    c = lambda v: th.const(64, v)
    if what == 'total_seconds':
        r = th.bin('sdiv', 64, d, c(10 ** 6), set(), st)
    elif what == 'total_milliseconds':
        r = th.bin('sdiv', 64, d, c(1000), set(), st)
    elif what in ('total_microseconds', 'ticks'):
        r = d
    elif what == 'total_nanoseconds':
        r = th.bin('mul', 64, d, c(1000), {'nsw'}, st)
    elif what == 'fractional_seconds':
        r = th.bin('srem', 64, d, c(10 ** 6), set(), st)
    else:
        return 'inline'
    return [('ret', st, r)]


def bt_sub(ex, st, args, m, ins):
    a, b = ex.load(st, args[0], ir.Ty('int', w=64)), args[1]
    return [('ret', st, ex.th.bin('sub', 64, I(64, ex.th.S(a), -2 ** 63, 2 ** 63 - 1), I(64, ex.th.S(b), -2 ** 63, 2 ** 63 - 1), {'nsw'}, st))]


BOOST = [
    (r'boost::gregorian::greg_(?:year|month|day)::greg_(?:year|month|day)\(unsigned short\)', greg),
    (r'boost::gregorian::date::date\(boost::gregorian::greg_year, boost::gregorian::greg_month, boost::gregorian::greg_day\)', bt_date),
    (r'boost::posix_time::ptime::ptime\(boost::gregorian::date\)', bt_ptime),
    (r'boost::date_time::period<boost::posix_time::ptime, boost::posix_time::time_duration>::period\(boost::posix_time::ptime, boost::posix_time::ptime\)', bt_period),
    (r'boost::date_time::period<boost::posix_time::ptime, boost::posix_time::time_duration>::length\(\) const', bt_length),
    (r'boost::date_time::time_duration<.*>::(total_\w+|ticks|fractional_seconds)\(\) const', bt_dur),
]
EXTRA = [NORM, NOW] + BOOST


def tb(h, name, base='class.icl_core::TimeBase', lim=BIG // 2, norm=True):
    p = h.obj(name, base, size=16)
    s, n = h.int(name + '.s', 64, True), h.int(name + '.n', 32, True)
    h.put(p, 0, s)
    h.put(p, 8, n)
    h.small += [And(s.t >= -3, s.t <= 3), And(s.t >= -10000, s.t <= 10000)]
    if lim is not None:
        h.assume(And(s.t >= -lim, s.t <= lim))
    if norm:
        h.assume(normalised(s.t, n.t))
    return p, s.t, n.t


def rd(h, o, p, off=0):
    return h.s(h.ld(o, p, off, 64)), h.s(h.ld(o, p, off + 8, 32))


def sret(h, o, f_ret):
    """a TimeSpan/TimeStamp returned in registers {i64, i32} or {i64,i64} or through memory"""
    raise Unsupported('sret')


def retpair(h, o, slot=None):
    """16 byte class returned by value: either a hidden result object or a register pair"""
    if slot is not None:
        return rd(h, o, slot)
    v = o.val
    if isinstance(v, tuple) and len(v) == 2:
        n = v[1]
        if n.w == 64:
            n = h.ex.th.trunc(n, 32)
        return h.s(v[0]), h.s(n)
    raise Unsupported('return convention')


def glob_zero(h, mod):
    """TimeSpan::cZERO: initialised to (0,0) by its dynamic initialiser before use (assumed: static initialisation order)"""
    for g in ('@_ZN8icl_core8TimeSpan5cZEROE', '@_ZN8icl_core9TimeStamp5cZEROE'):
        if g in mod.globals:
            p = h.ex.glob(h.st, g)
            o = h.st.w(p.base)
            o.cells[0] = (8, h.ex.th.const(64, 0))
            o.cells[8] = (4, h.ex.th.const(32, 0))
            o.ro = True
