"""C32 time spans as text: sign and amounts with units whose sum is the span

The text is read as it is put out. Ghost: whether the sign has been put out, the sum of the amounts so far, the unit of the last one, and an amount whose unit has not been put out yet."""
from .threadlib import *
from .timelib import normalised, value
from .c21 import NATIVE as NAT21
from vcg.cstr import Region
import re

TUS = {'t': 'tu/spantext.cpp'}
NATIVE = {'src': 'native/spantext.cpp', 'sources': NAT21['sources'], 'flags': NAT21['flags'], 'libs': NAT21['libs']}
ASSUMPTIONS = ['the stream writes a number in decimal and a text as it is (std::ostream: trusted; log streams: C27)', 'the span is normalised (C04) and its seconds are below 2^62 in magnitude']
UNIT = {'h': 3600 * 10 ** 9, 'm': 60 * 10 ** 9, 's': 10 ** 9, 'ms': 10 ** 6, 'us': 10 ** 3, 'ns': 1}


def put_text(h):
    def f(ex, st, args, m, ins):
        v = args[-1]
        if isinstance(v, P):
            r, cs = Region(ex, st, v, 'text'), ''
            while len(cs) < 20:
                c = simp(r.at(len(cs)))
                if not isinstance(c, int):
                    raise Unsupported('unknown characters')
                if c == 0:
                    break
                cs += chr(c)
        else:
            c = simp(ex.th.U(v))
            if not isinstance(c, int):
                raise Unsupported('unknown character')
            cs = chr(c)
        g = st.ghost
        if cs == '-':
            ex.require(st, 'postcondition', And(g['sign'] == 0, g['unit'] == 0, g['open'] == 0), 'the sign comes first, once')
            g['sign'] = z3.IntVal(1)
        elif cs in UNIT:
            ex.require(st, 'postcondition', And(g['open'] == 1, Or(g['unit'] == 0, g['unit'] > UNIT[cs])), 'a unit follows an amount, and is smaller than the one before')
            g['sum'] = g['sum'] + g['amount'] * UNIT[cs]
            g['unit'], g['open'] = z3.IntVal(UNIT[cs]), z3.IntVal(0)
        elif cs:
            ex.require(st, 'postcondition', z3.BoolVal(False), 'nothing but the sign, amounts and units is put out')
        return [('ret', st, args[0])]
    return f


def put_number(h):
    def f(ex, st, args, m, ins):
        g = st.ghost
        v = args[1]
        n = ex.th.U(v) if 'unsigned' in m.group(0) else ex.th.S(v)
        ex.require(st, 'postcondition', And(g['open'] == 0, n >= 0), 'an amount is not negative, and follows a unit or the sign')
        g['amount'], g['open'] = z3.IntVal(0) + n, z3.IntVal(1)
        return [('ret', st, args[0])]
    return f


def unit(rx, name):
    def u(mods):
        h = H(mods['t'], name, [], opts={}, extra=[])
        s, n = h.int('seconds', 64, True, -2 ** 62, 2 ** 62), h.int('nanoseconds', 32, True)
        h.assume(normalised(s.t, n.t))
        p = h.obj('span', None, 16)
        h.put(p, 0, s, 8)
        h.put(p, 8, n, 4)
        h.ex.new_obj(h.st, 'stream', None, 8)
        for k in ('sign', 'sum', 'unit', 'open', 'amount'):
            h.st.ghost[k] = z3.IntVal(0)
        L = r'icl_core::logging::operator<< ?\(icl_core::logging::ThreadStream&, '
        O = r'std::(?:ostream|basic_ostream<char, std::char_traits<char> ?>)'
        N = r'(?:unsigned )?(?:long long|long|int|short)\)'
        for r_, f in ((L + r'char const\*\)', put_text(h)), (r'(?:.* )?std::operator<< ?<.*\(.*, char(?: const\*)?\)', put_text(h)), (L + N, put_number(h)), (O + r'::operator<<\(' + N, put_number(h))):
            h.ex.handlers.insert(0, (re.compile(r_), f, 'trusted'))
        h.ex.hcache.clear()
        for q in h.only_ret(h.call(rx, [P('stream'), p])):
            g = q.st.ghost
            h.ex.require(q.st, 'postcondition', And(g['open'] == 0, g['unit'] > 0), 'there is an amount, and every amount has its unit')
            h.ex.require(q.st, 'postcondition', z3.If(g['sign'] == 1, -g['sum'], g['sum']) == value(s.t, n.t), 'the sum of the amounts, with the sign, is the span')
            h.ex.require(q.st, 'postcondition', z3.BoolVal(isinstance(q.val, P) and q.val.base == 'stream'), 'the stream is returned')
            h.npost += 1
        return h
    return u


UNITS = [('to a stream', unit(r'icl_core::operator<<\(std::ostream&, icl_core::TimeSpan const&\)', 'to a stream')), ('to a log', unit(r'icl_core::logging::operator<<\(icl_core::logging::ThreadStream&, icl_core::TimeSpan const&\)', 'to a log'))]
