"""Loop rule: cut at the loop head with an inductive invariant.

The invariant is the largest inductive subset (Houdini) of generic candidates
over whatever variables the loop really has, plus semantic candidate templates
supplied by the contract.  Nothing refers to source-level names, so renaming or
rewriting a loop does not invalidate the contract."""
import z3, time
from . import ir, smt
from .ir import Unsupported


def _S():
    from . import sym
    return sym


class LoopCtx:
    pass


def consts_of(e, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, (int, bool)):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        else:
            st.extend(x.children())
    return acc


def same(a, b):
    """syntactic equality of two abstract values"""
    sym = _S()
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, sym.I):
        return eqt(a.t, b.t)
    if isinstance(a, sym.P):
        if a.base != b.base or type(a.off) is not type(b.off):
            return False
        if isinstance(a.off, tuple):
            return a.off[:4] == b.off[:4] and eqt(a.off[4], b.off[4]) and a.off[5] == b.off[5] and eqt(a.idx, b.idx)
        return a.off == b.off and eqt(a.idx, b.idx)
    if isinstance(a, sym.D):
        return eqt(a.t, b.t)
    if isinstance(a, sym.ArrV):
        return eqt(a.a, b.a)
    if isinstance(a, sym.Abs):
        if a.kind != b.kind or set(a.__dict__) != set(b.__dict__):
            return False
        for k in a.__dict__:
            x, y = a.__dict__[k], b.__dict__[k]
            if isinstance(x, dict):
                if set(x) != set(y) or any(not eqt(x[j], y[j]) for j in x):
                    return False
            elif not eqt(x, y):
                return False
        return True
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, sym.PInt):
        return same(a.p, b.p)
    return eqt(a, b)


def eqt(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    sym = _S()
    if isinstance(a, (sym.I, sym.P, sym.Abs)):
        return same(a, b)
    return a == b


def signed_use(fn, name, body):
    for b in body:
        for i in fn.blocks[b]:
            for o in i.a:
                o = o[1] if isinstance(o, tuple) and len(o) >= 2 and isinstance(o[1], tuple) else o
                if isinstance(o, tuple) and len(o) > 1 and o[0] == 'loc' and o[1] == name:
                    if i.op in ('add', 'sub', 'mul') and 'nsw' in i.x:
                        return True
                    if i.op == 'icmp' and i.x[0] == 's':
                        return True
                    if i.op in ('sext', 'sdiv', 'srem', 'ashr'):
                        return True
    return False


def handle_loop(self, st, header, body):
    sym = _S()
    ex = self
    d = len(st.frames)
    stopper = (d, header, body)
    fn = st.frames[-1].fn
    mark = len(ex.obls)
    # ---- deterministic (complete) unrolling while every iteration decides its exit
    cur = [st.fork()]
    exits = []
    ok = True
    mixed = ex.opts.get('mixed_unroll', 0)
    split = 0
    for it in range(ex.opts['unroll']):
        nxt = []
        left = False
        for s in cur:
            ex.enter(s, header)
            outs = ex.exec([s], -1, stopper)
            bk = [o for o in outs if o.kind == 'back']
            xs = [o for o in outs if o.kind != 'back']
            normal = [o for o in xs if o.kind == 'exit']
            if bk and normal and it >= mixed:
                ok = False
                break
            left = left or bool(normal)
            nxt += [o.st for o in bk]
            exits += xs
        if not ok:
            break
        if not nxt:
            break
        # some states leave, others go on, again and again: the exit depends on data after all
        if left:
            split += 1
            if split > 8 + mixed:
                ok = False
                break
        cur = nxt
        if len(cur) > 64:
            ok = False
            break
    else:
        ok = False
    if ok:
        if ex.recording:
            ex.loopinfo.append((fn.dem, header, 'unrolled completely', it + 1))
        return [(o.kind, o.st, o.val) for o in exits]
    del ex.obls[mark:]

    # ---- cut
    rec = ex.recording
    ex.recording = False
    base = st.fork()
    ex.enter(base, header)
    phis = [i for i in fn.blocks[header] if i.op == 'phi']
    entry = {('phi', i.dst): base.frames[-1].env[i.dst] for i in phis}
    modset = {}          # key -> how
    phimod = {}
    cmps = []

    def getval(s, k):
        if k[0] == 'phi':
            return s.frames[-1].env[k[1]]
        if k[0] == 'cell':
            c = s.mem[k[1]].cells.get(k[2])
            return c[1] if c is not None else None
        if k[0] == 'fld':
            return s.mem[k[1]].fields[k[2]]
        if k[0] == 'ghost':
            return s.ghost.get(k[1])

    def fresh_like(k, v, how):
        nm = ex.uniq('h_%s' % (k[-1],))
        if isinstance(v, sym.I):
            return ex.th.fresh(nm, v.w, how == 'signed')
        if isinstance(v, sym.P):
            if v.base is None:
                raise Unsupported('havoc of a null pointer')
            if isinstance(v.off, tuple):
                _, start, es, cnt, ix, inner = v.off
                return sym.P(v.base, v.idx, ('sub', start, es, cnt, z3.BitVec(nm, 64) if ex.th.bv else z3.Int(nm), inner))
            return sym.P(v.base, z3.BitVec(nm, 64) if ex.th.bv else z3.Int(nm), v.off)
        if isinstance(v, sym.D):
            return sym.D(z3.Const(nm, sym.DSort))
        if isinstance(v, sym.ArrV):
            return sym.ArrV(z3.Const(nm, v.a.sort()))
        if isinstance(v, sym.Abs):
            return v.havoc(ex, nm) if hasattr(v, 'havoc') else havoc_abs(ex, v, nm)
        if isinstance(v, sym.PInt):
            return sym.PInt(fresh_like(k, v.p, how))
        if isinstance(v, z3.ExprRef):
            return z3.Const(nm, v.sort())
        if isinstance(v, bool):
            return z3.Bool(nm)
        if isinstance(v, int):
            return z3.Int(nm)
        if isinstance(v, tuple):
            return tuple(fresh_like(k + (j,), x, how) for j, x in enumerate(v))
        if v is sym.UNDEF:
            return v
        raise Unsupported('cannot havoc %r' % (v,))

    proto = {}

    def havoc():
        s = base.fork()
        vals = {}
        for k in list(phimod) + list(modset):
            how = phimod.get(k) or modset.get(k)
            v0 = proto.get(k)
            if v0 is None:
                v0 = getval(base, k)
            if v0 is None:
                continue
            v = fresh_like(k, v0, how)
            vals[k] = v
            if isinstance(v, sym.Abs) and v.kind == 'vec':
                s.pc.append(v.len >= 0)
            if isinstance(v, sym.P) and not isinstance(v.off, tuple):
                o = s.mem.get(v.base)
                if o is not None and o.kind == 'pool':
                    s.pc.append(v.idx >= 0)
            if k[0] == 'phi':
                s.frames[-1].env[k[1]] = v
            elif k[0] == 'cell':
                o = s.w(k[1])
                c = o.cells.get(k[2])
                o.cells[k[2]] = (c[0] if c else proto_size[k], v)
            elif k[0] == 'fld':
                s.w(k[1]).fields[k[2]] = v
            elif k[0] == 'ghost':
                s.ghost[k[1]] = v
        return s, vals

    proto_size = {}
    for i in phis:
        k = ('phi', i.dst)
        v = entry[k]
        if isinstance(v, (sym.I,)):
            phimod[k] = 'signed' if signed_use(fn, i.dst, body) else 'unsigned'
        elif v is sym.UNDEF and i.ty.k == 'int':
            base.frames[-1].env[i.dst] = ex.th.fresh(ex.uniq('undef'), i.ty.w)
            entry[k] = base.frames[-1].env[i.dst]
            phimod[k] = 'signed' if signed_use(fn, i.dst, body) else 'unsigned'

    def unify_ptr(k, v0, v1):
        """prototype pointer for values v0 (entry) and v1 (back edge)"""
        if v0.base is None and v1.base is None:
            return v0
        if v0.base is None or v1.base is None:
            a = v1 if v0.base is None else v0
            o = base.mem.get(a.base)
            if o is not None and o.kind == 'pool' and a.off == 0:
                return sym.P(a.base, 0, 0)
            raise Unsupported('loop pointer null/non-null')
        if v0.base != v1.base:
            raise Unsupported('loop pointer changes region')
        if isinstance(v0.off, tuple) != isinstance(v1.off, tuple):
            # promote the constant-offset one
            a, c = (v0, v1) if isinstance(v0.off, tuple) else (v1, v0)
            _, start, es, cnt, ix, inner = a.off
            return sym.P(a.base, a.idx, ('sub', start, es, cnt, ex.ix(0), inner))
        if not isinstance(v0.off, tuple) and v0.off != v1.off:
            o = base.mem.get(v0.base)
            if o is not None and o.kind == 'obj':
                dlt = abs(v0.off - v1.off)
                r = ex.subarr(o.ty, min(v0.off, v1.off), dlt) if o.ty is not None else ((0, o.size // dlt) if o.size else None)
                if r:
                    return sym.P(v0.base, v0.idx, ('sub', r[0], dlt, r[1], ex.ix(0), 0))
            raise Unsupported('loop pointer stride')
        return v0

    def promote(v, pr):
        """view v in the shape of prototype pr"""
        if isinstance(v, sym.P) and isinstance(pr, sym.P):
            if v.base is None and pr.base is not None:
                return sym.P(pr.base, 0, 0)
            if isinstance(pr.off, tuple) and not isinstance(v.off, tuple):
                _, start, es, cnt, ix, inner = pr.off
                dd = v.off - start - inner
                if dd % es:
                    raise Unsupported('promote')
                return sym.P(v.base, v.idx, ('sub', start, es, cnt, ex.ix(dd // es), inner))
        return v

    sig = None
    for rnd in range(12):
        s, vals = havoc()
        del cmps[:]
        ex.cmplog = cmps
        outs = ex.exec([s.fork()], -1, stopper)
        ex.cmplog = None
        changed = False
        backs = []
        for o in outs:
            if o.kind != 'back':
                continue
            b = o.st
            ex.enter(b, header)
            backs.append(b)
            for i in phis:
                k = ('phi', i.dst)
                v0, v1 = s.frames[-1].env[i.dst], b.frames[-1].env[i.dst]
                if k in phimod:
                    if isinstance(v1, sym.I) and v1.w > 1 and not ex.th.bv and v1.lo < 0 and not isinstance(v1.t, int) and phimod[k] == 'unsigned' and v1.hi < (1 << (v1.w - 1)):
                        phimod[k] = 'signed'
                        changed = True
                    if isinstance(v1, sym.P):
                        pr = unify_ptr(k, proto.get(k, entry[k]), v1)
                        if not same(pr, proto.get(k, entry[k])):
                            if shape(pr) != shape(proto.get(k, entry[k])):
                                proto[k] = pr
                                changed = True
                    continue
                if v1 is sym.UNDEF or v0 is sym.UNDEF:
                    continue
                if not same(v0, v1):
                    if isinstance(v0, sym.P) and isinstance(v1, sym.P):
                        proto[k] = unify_ptr(k, v0, v1)
                    phimod[k] = 'x'
                    changed = True
            for bs, o0 in s.mem.items():
                o1 = b.mem.get(bs)
                if o1 is o0 or o1 is None:
                    continue
                if o0.alive != o1.alive:
                    raise Unsupported('object freed inside a loop')
                # an array whose elements were known one by one is accessed at an unknown index inside the loop: it is one array from the beginning
                conv = [(off, sz) for off, (sz, v1) in o1.cells.items() if isinstance(v1, sym.ArrV) and isinstance(sz, tuple) and isinstance(off, int) and sz[0] in (1, 2, 4, 8)
                        and any(isinstance(o0.cells.get(q, (0, 0))[1], sym.I) for q in range(off, off + sz[0] * sz[1], sz[0]))]
                if conv and bs in base.mem:
                    for off, sz in conv:
                        if not isinstance(base.mem[bs].cells.get(off, (0, 0))[1], sym.ArrV):
                            ex.as_array(base, bs, off, sz[0], sz[1], ir.Ty('int', w=8 * sz[0]))
                        for q in range(off, off + sz[0] * sz[1], sz[0]):
                            for dct in (modset, proto, proto_size):
                                dct.pop(('cell', bs, q), None)
                    changed = True
                    continue
                for off, (sz, v1) in o1.cells.items():
                    c0 = o0.cells.get(off)
                    k = ('cell', bs, off)
                    if c0 is None:
                        # lazily created or first written inside the loop
                        if o0.fresh or True:
                            if k not in modset:
                                if ex.lazy_same(o0, off, sz, v1):
                                    continue
                                modset[k] = 'unsigned'
                                proto[k] = v1
                                proto_size[k] = sz
                                changed = True
                        continue
                    if same(c0[1], v1):
                        continue
                    if k not in modset:
                        modset[k] = 'signed' if isinstance(v1, sym.I) and v1.w > 1 and not ex.th.bv and v1.lo < 0 else 'unsigned'
                        if isinstance(v1, sym.P) and isinstance(c0[1], sym.P):
                            proto[k] = unify_ptr(k, c0[1], v1)
                        elif isinstance(v1, sym.Abs):
                            proto[k] = merge_abs(c0[1], v1)
                        elif isinstance(v1, sym.ArrV) and not isinstance(c0[1], sym.ArrV):
                            proto[k] = v1
                            proto_size[k] = sz
                        changed = True
                    elif isinstance(v1, sym.I) and v1.w > 1 and not ex.th.bv and modset[k] == 'unsigned' and v1.lo < 0 and v1.hi < (1 << (v1.w - 1)) and not isinstance(v1.t, int):
                        modset[k] = 'signed'
                        changed = True
                for off in o0.cells:
                    if off not in o1.cells:
                        raise Unsupported('cell structure changes in a loop (%s+%s)' % (bs, off))
                for off, a1 in o1.fields.items():
                    a0 = o0.fields.get(off)
                    k = ('fld', bs, off)
                    if a0 is not None and not a0.eq(a1) and k not in modset:
                        modset[k] = 'x'
                        changed = True
            for g in b.ghost:
                if g == 'exc_sel':
                    continue
                if g not in s.ghost:
                    raise Unsupported('ghost created in loop')
                k = ('ghost', g)
                if not same(s.ghost[g], b.ghost[g]) and k not in modset:
                    modset[k] = 'x'
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported('loop frame did not stabilise')

    dry, dry_backs = s, backs
    keys = list(phimod) + list(modset)

    def values(sx):
        r = {}
        for k in keys:
            v = getval(sx, k)
            if k in proto and v is not None:
                v = promote(v, proto[k])
            r[k] = v
        return r
    ent = values(base)
    ctx = LoopCtx()
    ctx.keys, ctx.entry, ctx.fn, ctx.ex, ctx.base = keys, ent, fn, ex, base
    ctx.havocked = set()
    s, vals = havoc()
    for k in keys:
        for t in terms_of(ex, getval(s, k)):
            ctx.havocked |= consts_of(t[1])
    # loop-invariant comparison operands
    inv_terms = []
    seen = set()
    # constants created during dry runs carry h_ names; only accept terms over pre-loop constants
    pre = set()
    for x in base.pc:
        consts_of(x, pre)
    for v in base.frames[-1].env.values():
        for t in terms_of(ex, v):
            consts_of(t[1], pre)
    for o in base.mem.values():
        for c in o.cells.values():
            for t in terms_of(ex, c[1]):
                consts_of(t[1], pre)
    for (a, b) in cmps:
        for t in (a, b):
            if isinstance(t, int):
                tt = t
                kk = t
            else:
                tt = z3.simplify(t)
                kk = tt.get_id()
                if not consts_of(tt) <= pre:
                    continue
            if kk not in seen:
                seen.add(kk)
                inv_terms.append(tt)
    ctx.terms = inv_terms[:12]

    cands = []
    if not ex.th.bv:
        cands += generic(ex, ctx)
        cands += array_writes(ex, ctx, values(dry), [values(b) for b in dry_backs], pre)
    for k in keys:
        if k[0] == 'ghost' and z3.is_bool(ent[k]):
            cands.append(('ghost %s unchanged' % (k[1],), lambda v, k=k: v[k] == ent[k]))
    for t in ex.templates:
        cands += t(ex, ctx)
    # names unique
    # ---- entry filter
    pc0 = base.pc
    cands = filter_c(ex, pc0, [(n, f, f(ent)) for n, f in safe(cands, ent)])
    ms = ex.opts['houdini_ms']
    for rnd in range(60):
        s, vals = havoc()
        cv = values(s)
        for n, f in cands:
            g = f(cv)
            if not sym.is_true(g):
                s.pc.append(sym.Bz(g))
        outs = ex.exec([s.fork()], -1, stopper)
        n0 = len(cands)
        backs = []
        for o in outs:
            if o.kind != 'back':
                continue
            b = o.st
            ex.enter(b, header)
            nv = values(b)
            backs.append((b, cv, nv))
            cands = filter_c(ex, b.pc, [(n, f, f(nv)) for n, f in safe(cands, nv)])
        if len(cands) == n0:
            break
    else:
        raise Unsupported('invariant inference did not converge')
    # ---- termination
    term = None
    if ex.opts['term']:
        ms_list = []
        scal = [(k, nm) for k in keys for nm, _ in terms_of(ex, getval(s, k)) if is_scalar_term(_)]
        if not ex.th.bv:
            def tv(v, k, nm):
                return dict(terms_of(ex, v[k]))[nm]
            for k, nm in scal:
                ms_list.append(('%s.%s' % (k, nm), lambda v, k=k, nm=nm: tv(v, k, nm)))
                for t in ctx.terms:
                    ms_list.append(('%s - %s.%s' % (t, k, nm), lambda v, k=k, nm=nm, t=t: t - tv(v, k, nm)))
            for k, nm in scal:
                for k2, nm2 in scal:
                    if (k, nm) != (k2, nm2):
                        ms_list.append(('diff', lambda v, k=k, nm=nm, k2=k2, nm2=nm2: tv(v, k, nm) - tv(v, k2, nm2)))
        for m in ex.measures:
            ms_list = m(ex, ctx) + ms_list
        for nm, m in ms_list:
            good = True
            for (b, cv_, nv_) in backs:
                try:
                    a, c = m(cv_), m(nv_)
                except Exception:
                    good = False
                    break
                g = sym.And(a >= 0, c < a)
                if not ex.valid(b.pc, g, ms, quick=True):
                    good = False
                    break
            if good:
                term = nm
                break
    ex.recording = rec
    if rec:
        w = ex.where + ' @ ' + sym.short(fn.dem)
        for n, f in cands:
            o = sym.Obl('invariant holds on entry and is preserved: ' + n, 'invariant', [], z3.BoolVal(True), w)
            o.status, o.backend = 'valid', 'z3'
            ex.obls.append(o)
        if ex.opts['term']:
            o = sym.Obl('loop terminates' + (' (measure %s)' % (term,) if term else ': no decreasing measure found'), 'termination', list(base.pc), z3.BoolVal(term is not None), w)
            if term:
                o.status, o.backend = 'valid', 'z3'
            ex.obls.append(o)
        ex.loopinfo.append((fn.dem, header, 'invariant', len(cands)))
    # ---- final pass
    s, vals = havoc()
    cv = values(s)
    for n, f in cands:
        g = f(cv)
        if not sym.is_true(g):
            s.pc.append(sym.Bz(g))
    outs = ex.exec([s], -1, stopper)
    return [(o.kind, o.st, o.val) for o in outs if o.kind != 'back']


def shape(v):
    sym = _S()
    if isinstance(v, sym.P):
        return (v.base, v.off if not isinstance(v.off, tuple) else v.off[:4] + (v.off[5],))
    return None


def merge_abs(a, b):
    return b


def havoc_abs(ex, v, nm):
    d = {}
    for k, x in v.__dict__.items():
        if k in ('kind', 'stride', 'ptrf', 'tys', 'ety'):
            d[k] = x
        elif k == 'gen':
            d[k] = x
        elif isinstance(x, dict):
            d[k] = {j: z3.Const('%s.%s.%s' % (nm, k, j), y.sort()) for j, y in x.items()}
        elif isinstance(x, z3.ExprRef):
            d[k] = z3.Const('%s.%s' % (nm, k), x.sort())
        elif isinstance(x, int) and not isinstance(x, bool):
            d[k] = z3.Int('%s.%s' % (nm, k))
        else:
            d[k] = x
    kind = d.pop('kind', v.kind)
    from .sym import Abs
    r = Abs(kind, **d)
    return r


def is_scalar_term(t):
    return isinstance(t, int) and not isinstance(t, bool) or (isinstance(t, z3.ExprRef) and z3.is_int(t))


def terms_of(ex, v):
    """named scalar SMT components of a value"""
    sym = _S()
    if isinstance(v, sym.I):
        return [('', v.t)]
    if isinstance(v, sym.P):
        if v.base is None:
            return []
        if isinstance(v.off, tuple):
            return [('ix', v.off[4])]
        return [('idx', v.idx)]
    if isinstance(v, sym.Abs):
        return [(k, x) for k, x in v.__dict__.items() if isinstance(x, z3.ExprRef) or (isinstance(x, int) and not isinstance(x, bool) and k in ('len',))]
    if isinstance(v, sym.D):
        return [('', v.t)]
    if isinstance(v, sym.ArrV):
        return [('a', v.a)]
    if isinstance(v, sym.PInt):
        return terms_of(ex, v.p)
    if isinstance(v, z3.ExprRef):
        return [('', v)]
    if isinstance(v, int) and not isinstance(v, bool):
        return [('', v)]
    return []


def safe(cands, vals):
    r = []
    for n, f in cands:
        try:
            f(vals)
        except (KeyError, AttributeError, TypeError, z3.Z3Exception):
            continue
        r.append((n, f))
    return r


def filter_c(ex, pc, triples):
    """largest subset of candidate goals valid under pc"""
    sym = _S()
    live = [(n, f, sym.Bz(g)) for n, f, g in triples if not sym.is_false(g)]
    if not live:
        return []
    if not ex.feas(pc):
        return [(n, f) for n, f, g in live]
    ms = ex.opts['houdini_ms']
    for rnd in range(40):
        if not live:
            return []
        goal = z3.And(*[g for _, _, g in live])
        r, m, _ = smt.valid(ex.pcfull(pc, [goal]), goal, ms, want_model=True, quick=True)
        if r == 'valid':
            return [(n, f) for n, f, g in live]
        if r == 'invalid' and m is not None:
            keep = [x for x in live if not z3.is_false(m.eval(x[2], model_completion=True))]
            if len(keep) < len(live):
                live = keep
                continue
        break
    keep = []
    for x in live:
        if ex.deadline and time.time() > ex.deadline:
            raise Unsupported('time budget exhausted')
        if ex.valid(pc, x[2], ms, quick=True):
            keep.append(x)
    return [(n, f) for n, f, g in keep]


def arrays_of(v):
    """array components of a value: (path, term)"""
    sym = _S()
    if isinstance(v, sym.Abs):
        return [((k, j), y) for k, x in v.__dict__.items() if isinstance(x, dict) for j, y in x.items() if isinstance(y, z3.ExprRef) and z3.is_array(y)]
    if isinstance(v, sym.ArrV):
        return [('a', v.a)]
    if isinstance(v, z3.ExprRef) and z3.is_array(v):
        return [('', v)]
    return []


def unwrap(t):
    """the term inside a wrap-around correction: If(c, x +- 2^k, x) -> x (only used to guess candidates)"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.children()[1:]
        d = z3.simplify(a - b)
        if not z3.is_int_value(d) or abs(d.as_long()) not in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            break
        t = b
    return t


def array_writes(ex, ctx, head, backs, pre):
    """what one iteration writes into an array, as a function of the index: candidates 'every index passed so far holds that value'"""
    sym = _S()
    q = z3.Int('q!arr')
    scal = [(k, nm, t) for k in ctx.keys for nm, t in terms_of(ex, head[k]) if is_scalar_term(t) and isinstance(t, z3.ExprRef)]
    out, seen = [], set()
    for nv in backs:
        for k in ctx.keys:
            for path, t in arrays_of(nv[k]):
                if t.sort().domain() != z3.IntSort():
                    continue
                a0 = dict(arrays_of(head[k])).get(path)
                while z3.is_store(t) and a0 is not None:
                    t, ix, val = t.children()
                    ix = unwrap(ix)
                    for (sk, nm, st) in scal:
                        c = z3.simplify(ix - st)
                        if not z3.is_int_value(c):
                            continue
                        c = c.as_long()
                        v = z3.simplify(z3.substitute(val, (st, q - c)))
                        if not consts_of(v) - {'q!arr'} <= pre:
                            continue
                        key = (k, path, sk, nm, c, v.get_id())
                        if key in seen:
                            continue
                        seen.add(key)
                        ent = dict(terms_of(ex, ctx.entry[sk])).get(nm)
                        e0 = dict(arrays_of(ctx.entry[k])).get(path)
                        if ent is None or e0 is None:
                            continue
                        ent = z3.IntVal(ent) if isinstance(ent, int) else ent

                        def arr(vals, k=k, path=path):
                            return dict(arrays_of(vals[k]))[path]

                        def cur(vals, sk=sk, nm=nm):
                            return dict(terms_of(ex, vals[sk]))[nm]
                        up = lambda vals, ent=ent, c=c, cur=cur: z3.And(q >= ent + c, q < cur(vals) + c)
                        dn = lambda vals, ent=ent, c=c, cur=cur: z3.And(q <= ent + c, q > cur(vals) + c)
                        for rng in (up, dn):
                            out.append(('array elements passed hold the value written', lambda vals, rng=rng, arr=arr, v=v: z3.ForAll([q], z3.Implies(rng(vals), z3.Select(arr(vals), q) == v))))
                            out.append(('array elements not passed are unchanged', lambda vals, rng=rng, arr=arr, e0=e0: z3.ForAll([q], z3.Implies(z3.Not(rng(vals)), z3.Select(arr(vals), q) == z3.Select(e0, q)))))
    return out


def generic(ex, ctx):
    out = []
    sym = _S()
    ints = []
    for k in ctx.keys:
        v = ctx.entry[k]
        for nm, t in terms_of(ex, v):
            if isinstance(v, sym.I) and v.w == 1:
                if isinstance(t, bool):
                    out.append(('%s unchanged' % (k,), lambda vals, k=k, t=t: sym.Bz(vals[k].t) == t))
                continue
            if is_scalar_term(t):
                ints.append((k, nm, t))

    def g(vals, k, nm):
        return dict(terms_of(ex, vals[k]))[nm]
    T = []
    for t in ctx.terms:
        T.append(t)
    for k, nm, e in ints:
        K = '%s%s' % (k[-1], '.' + nm if nm else '')
        out.append(('%s >= entry' % K, lambda v, k=k, nm=nm, e=e: g(v, k, nm) >= e))
        out.append(('%s <= entry' % K, lambda v, k=k, nm=nm, e=e: g(v, k, nm) <= e))
        for t in T:
            out.append(('%s <= %s' % (K, t), lambda v, k=k, nm=nm, t=t: g(v, k, nm) <= t))
            out.append(('%s <= %s+1' % (K, t), lambda v, k=k, nm=nm, t=t: g(v, k, nm) <= t + 1))
            out.append(('%s >= %s' % (K, t), lambda v, k=k, nm=nm, t=t: g(v, k, nm) >= t))
            out.append(('%s < %s' % (K, t), lambda v, k=k, nm=nm, t=t: g(v, k, nm) < t))
    for i, (k, nm, e) in enumerate(ints if ex.opts.get('pairs', True) else ()):
        for (k2, nm2, e2) in ints[i + 1:]:
            K = '%s/%s' % (k[-1], k2[-1])
            out.append(('%s difference constant' % K, lambda v, k=k, nm=nm, e=e, k2=k2, nm2=nm2, e2=e2: g(v, k, nm) - g(v, k2, nm2) == e - e2))
            out.append(('%s sum constant' % K, lambda v, k=k, nm=nm, e=e, k2=k2, nm2=nm2, e2=e2: g(v, k, nm) + g(v, k2, nm2) == e + e2))
            out.append(('%s ordered' % K, lambda v, k=k, nm=nm, k2=k2, nm2=nm2: g(v, k, nm) <= g(v, k2, nm2)))
            out.append(('%s ordered rev' % K, lambda v, k=k, nm=nm, k2=k2, nm2=nm2: g(v, k, nm) >= g(v, k2, nm2)))
    return out
