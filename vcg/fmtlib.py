"""Trusted contracts of stream formatting: a stream is the list of the pieces of text written to it so far.
st.ghost['fmt'] : ((stream base, stream offset), flags, pieces); flags = (base, width, fill)"""
import re, z3
from . import ir
from .ir import Unsupported
from .sym import I, P, Abs, D, NULL

OS = r'(?:std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)'
SS = r'std::__cxx11::basic_(o?)stringstream<char, std::char_traits<char>, std::allocator<char> ?>'


def stream(ex, st, p):
    """the stream object a pointer into it belongs to"""
    o = st.mem.get(p.base)
    if o is None:
        raise Unsupported('unknown stream')
    for off, (sz, v) in o.cells.items():
        if isinstance(v, Abs) and v.kind == 'stream' and off <= p.off < off + v.size:
            return off, v
    raise Unsupported('no stream at %r' % (p,))


def put(ex, st, p, **kw):
    off, v = stream(ex, st, p)
    st.w(p.base).cells[off] = (v.size, v.up(**kw))


def ctor(ex, st, args, m, ins):
    p = args[0]
    size = 376 if m.group(1) else 392
    o = st.w(p.base)
    for co in [c for c in o.cells if p.off <= c < p.off + size]:
        del o.cells[co]
    o.cells[p.off] = (size, Abs('stream', size=size, base=10, width=0, fill=32, items=()))
    return [('ret', st, None)]


def dtor(ex, st, args, m, ins):
    off, v = stream(ex, st, args[0])
    st.w(args[0].base).cells[off] = (v.size, Abs('stream', size=v.size, dead=True))
    return [('ret', st, None)]


def manip(ex, st, args, m, ins):
    f = args[1].base if isinstance(args[1], P) else None
    d = ex.mod.dem.get(f, f) if hasattr(ex.mod, 'dem') else f
    b = {'@_ZSt3hexRSt8ios_base': 16, '@_ZSt3decRSt8ios_base': 10, '@_ZSt3octRSt8ios_base': 8}.get(f)
    if b is None:
        raise Unsupported('stream manipulator %s' % (f,))
    put(ex, st, args[0], base=b)
    return [('ret', st, args[0])]


def first(v):
    return v[0] if isinstance(v, tuple) else v


def setw(ex, st, args, m, ins):
    return [('ret', st, args[0])]


def do_setw(ex, st, args, m, ins):
    w = first(args[1])
    w = ex.th.U(w)
    if not isinstance(w, int):
        raise Unsupported('symbolic field width')
    put(ex, st, args[0], width=w)
    return [('ret', st, args[0])]


def do_setfill(ex, st, args, m, ins):
    c = ex.th.U(first(args[1]))
    if not isinstance(c, int):
        raise Unsupported('symbolic fill character')
    put(ex, st, args[0], fill=c)
    return [('ret', st, args[0])]


def number(ex, st, args, m, ins):
    off, v = stream(ex, st, args[0])
    put(ex, st, args[0], items=v.items + (('num', m.group(1), v.base, v.width, v.fill, args[1]),), width=0)
    return [('ret', st, args[0])]


def text(ex, st, args, m, ins):
    """str(): the result string is the list of pieces"""
    off, v = stream(ex, st, args[1])
    q = args[0]
    o = st.w(q.base)
    o.cells[q.off] = (32, Abs('text', items=v.items))
    return [('ret', st, None)]


HANDLERS = [
    (SS + r'::basic_\1stringstream\(\)', ctor),
    (SS + r'::~basic_\1stringstream\(\)', dtor),
    (OS + r'::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)', manip),
    (r'std::setw\(int\)', setw),
    (r'std::_Setfill<char> std::setfill<char>\(char\)', setw),
    (OS + r'& std::operator<< ?<char, std::char_traits<char> ?>\(' + OS + r'&, std::_Setw\)', do_setw),
    (OS + r'& std::operator<< ?<char, std::char_traits<char> ?>\(' + OS + r'&, std::_Setfill<char>\)', do_setfill),
    (OS + r'::operator<<\(((?:unsigned )?(?:int|long|short|long long))\)', number),
    (SS + r'::str\(\) const', text),
]
