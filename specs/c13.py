"""C13 a scope guard runs its action exactly once when it is destroyed, unless it is switched off at that time"""
from vcg.contract import *

TUS = {'s': 'tu/scope.cpp'}
NATIVE = {'src': 'native/scope.cpp', 'sources': []}
ASSUMPTIONS = ['boost::function is a trusted contract: a copy calls the same action, calling it runs the action once', 'the action is callable and does not throw (precondition)',
               'guards are not copied (precondition)']
A = 'icl_core::AtScopeEnd'
FN = r'boost::function(?:0<void>|<void ?\(\)>)'


def fn_at(ex, st, p):
    o = st.mem.get(p.base)
    c = o.cells.get(p.off) if o is not None else None
    if c is None or not isinstance(c[1], Abs) or c[1].kind not in ('fn', 'dead'):
        raise Unsupported('no function object at %r' % (p,))
    if c[1].kind == 'dead':
        ex.require(st, 'use-after-destruction', False, 'the function object is alive')
        raise Unsupported('use of a destroyed function object')
    return c[1]


def set_fn(st, p, v):
    st.w(p.base).cells[p.off] = (32, v)


def f_copy(ex, st, args, m, ins):
    set_fn(st, args[0], fn_at(ex, st, args[1]))
    return [('ret', st, None)]


def f_assign(ex, st, args, m, ins):
    set_fn(st, args[0], fn_at(ex, st, args[1]))
    return [('ret', st, args[0])]


def f_default(ex, st, args, m, ins):
    set_fn(st, args[0], Abs('fn', id=z3.IntVal(0)))
    return [('ret', st, None)]


def f_dtor(ex, st, args, m, ins):
    fn_at(ex, st, args[0])
    set_fn(st, args[0], Abs('dead', gen=-1))
    return [('ret', st, None)]


def f_call(ex, st, args, m, ins):
    v = fn_at(ex, st, args[0])
    ex.require(st, 'precondition', v.id != 0, 'the action called is not empty')
    st.ghost['runs'] = st.ghost['runs'] + 1
    st.ghost['ran'] = v.id
    return [('ret', st, None)]


def f_swap(ex, st, args, m, ins):
    a, b = fn_at(ex, st, args[0]), fn_at(ex, st, args[1])
    set_fn(st, args[0], b)
    set_fn(st, args[1], a)
    return [('ret', st, None)]


def f_empty(ex, st, args, m, ins):
    return [('ret', st, I(1, fn_at(ex, st, args[0]).id == 0))]


def f_bool(ex, st, args, m, ins):
    return [('ret', st, I(1, fn_at(ex, st, args[0]).id != 0))]


HS = [(FN + r'::function0?\(boost::function.* const&\)', f_copy), (FN + r'::function0?\(\)', f_default), (FN + r'::~function0?\(\)', f_dtor),
      (FN + r'::operator\(\)\(\) const', f_call), (FN + r'::operator=\(boost::function.* const&\)', f_assign), (FN + r'::swap\(.*\)', f_swap),
      (r'boost::function_base::empty\(\) const', f_empty), (FN + r'::operator bool\(\) const', f_bool)]


class G:
    def __init__(self, h, fresh=True):
        self.h = h
        self.of, self.orr = h.off('a_fn'), h.off('a_run')
        self.p = h.obj('guard', None, h.off('a_size'))
        self.id = z3.Int('action')
        h.inputs['action'] = self.id
        h.assume(self.id != 0)
        h.st.ghost['runs'], h.st.ghost['ran'] = z3.IntVal(0), z3.IntVal(0)
        if fresh:
            h.st.w('guard').cells[self.of] = (32, Abs('fn', id=self.id))
            on = h.int('enabled', 8, False, 0, 1)
            h.put(self.p, self.orr, on)
            self.on = on.t

    def fn(self, o):
        c = o.st.mem['guard'].cells.get(self.of)
        return c[1] if c else None

    def armed(self, o, what, on):
        h = self.h
        f = self.fn(o)
        h.post(o, what + ': the guard keeps the action', And(f is not None and f.kind == 'fn', f.id == self.id if f is not None and f.kind == 'fn' else False))
        h.post(o, what + ': switched on', h.u(h.ld(o, self.p, self.orr, 8)) == on)
        h.post(o, what + ': the action has not run', o.st.ghost['runs'] == 0)


def u_ctor(mods):
    h = H(mods['s'], 'AtScopeEnd::AtScopeEnd', [], extra=HS)
    g = G(h, False)
    f = h.obj('f', None, 32)
    h.st.w('f').cells[0] = (32, Abs('fn', id=g.id))
    for o in h.only_ret(h.call(A + '::AtScopeEnd(boost::function<void ()> const&)', [g.p, f])):
        g.armed(o, 'a new guard', 1)
        h.frame(o, [('guard', None)])
    return h


def u_switch(mods):
    out = []
    for f, on in (('enable', 1), ('disable', 0)):
        h = H(mods['s'], 'AtScopeEnd::' + f, [], extra=HS)
        g = G(h)
        for o in h.only_ret(h.call('%s::%s()' % (A, f), [g.p])):
            g.armed(o, f, on)
            h.frame(o, [('guard', g.orr)])
        out.append(h)
    return out


def u_dtor(mods):
    h = H(mods['s'], 'AtScopeEnd::~AtScopeEnd', [], extra=HS)
    g = G(h)
    for o in h.only_ret(h.call(A + '::~AtScopeEnd()', [g.p])):
        h.post(o, 'the action runs exactly once if switched on, else not at all', o.st.ghost['runs'] == g.on)
        h.post(o, 'it is the given action that runs', z3.Implies(g.on == 1, o.st.ghost['ran'] == g.id))
        f = g.fn(o)
        h.post(o, 'the action is released', f is not None and f.kind == 'dead')
        h.frame(o, [('guard', None)])
    return h


UNITS = [('construction', u_ctor), ('switching', u_switch), ('end of scope', u_dtor)]
