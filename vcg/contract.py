"""Contract harness: set up the symbolic pre-state, run the real code's IR, state the postconditions."""
import time, re, os, subprocess, traceback, json
import z3
from . import ir, smt, sym, stl
from .sym import *
from .ir import Unsupported


DEADLINE = None


class H:
    """verification of one function (or a short client of several) against its contract"""

    def __init__(self, mod, name, fns, bv=False, opts=None, extra=()):
        self.mod, self.name = mod, name
        self.ex = Ex(mod, bv, opts)
        stl.install(self.ex, extra)
        self.ex.deadline = DEADLINE
        self.ex.where = name
        self.st = State()
        self.fns = fns
        self.covers = []       # (name, pc)
        self.assumptions = []
        self.inputs = {}       # name -> term for counterexamples
        self.small = []        # preferred bounds for counterexamples
        self.npost = 0
        self.called = []

    # ------------------------------------------------ set-up
    def int(self, name, w=64, signed=False, lo=None, hi=None):
        v = self.ex.th.fresh(name, w, signed)
        self.inputs[name] = v.t
        if lo is not None:
            self.assume(v.t >= lo)
        if hi is not None:
            self.assume(v.t <= hi)
        return v

    def assume(self, c):
        self.st.assume(c)

    def obj(self, name, ty=None, size=None):
        t = self.type(ty) if isinstance(ty, str) else ty
        return self.ex.new_obj(self.st, name, t, size)

    def type(self, n):
        for k in ('%"' + n + '"', '%' + n):
            if k in self.mod.types:
                return self.mod.types[k]
        c = [k for k in self.mod.types if re.fullmatch(r'%"?' + re.escape(n) + r'(\.\d+)?"?', k)]
        if c:
            return self.mod.types[sorted(c)[0]]
        raise Unsupported('type %s not found' % n)

    def put(self, p, off, v, size=None):
        o = self.st.w(p.base)
        if size is None:
            size = (v.w + 7) // 8 if isinstance(v, I) else 8
        o.cells[p.off + off] = (size, v)

    def vec(self, p, off, name, T, length=None):
        v = stl.mkvec(self.ex, name, T, length)
        o = self.st.w(p.base)
        o.cells[p.off + off] = (24, v)
        if not self.ex.th.bv and not isinstance(v.len, int):
            self.assume(And(v.len >= 0, v.len <= stl.MAXLEN // v.stride))
            self.inputs[name + '.len'] = v.len
        return v

    def off(self, name):
        """value of a constant the translation unit emits for the specification (member offsets, sizes)"""
        g = self.mod.globals.get('@vcg_' + name)
        if g is None or g[1] is None:
            raise Unsupported('layout constant %s missing' % name)
        return 0 if g[1][0] == 'zero' else g[1][1]

    def has(self, dem):
        return any(f.body_text is not None for f in self.mod.bydem.get(dem, []))

    def fn(self, dem, var=None):
        fs = self.mod.bydem.get(dem) or []
        fs = [f for f in fs if f.body_text is not None]
        if var is not None:
            # which of the compiler's constructor/destructor variants (complete object C1/D1, base object C2/D2, deleting D0)
            fv = [f for f in fs if re.search(r'[a-zA-Z_0-9]%s(E|I)' % var, f.name)]
            if not fv and var in ('C1', 'D1'):
                # the complete-object variant is an alias of the base-object one
                fv = [f for f in fs if re.search(r'[a-zA-Z_0-9]%s2(E|I)' % var[0], f.name)]
            if not fv:
                raise Unsupported('function under contract not found in the translation unit: %s (%s)' % (dem, var))
            return fv[0]
        if not fs:
            # regular expression?
            fs = [f for d, l in self.mod.bydem.items() for f in l if f.body_text is not None and re.fullmatch(dem, d)]
            if len(fs) > 1 and len({f.dem for f in fs}) > 1:
                raise Unsupported('ambiguous function ' + dem)
        if not fs:
            raise Unsupported('function under contract not found in the translation unit: ' + dem)
        return fs[-1] if len(fs) > 1 and 'C2' in fs[-1].name else fs[0]

    # ------------------------------------------------ execution
    def call(self, dem, args, st=None, cover=True, var=None):
        st = st or self.st
        f = self.fn(dem, var)
        self.called.append(f.dem)
        if len(f.params) != len(args):
            raise Unsupported('parameter list changed: ' + f.dem)
        outs = self.ex.run(st, f, args)
        if cover:
            self.cover('precondition of %s satisfiable' % short(f.dem), st.pc)
        return outs

    def post(self, o, name, goal):
        st = o.st if isinstance(o, Outcome) else o
        self.npost += 1
        self.ex.obls.append(Obl(name, 'postcondition', list(st.pc), Bz(goal), self.name))

    def lemma(self, name, fact, st=None):
        """ghost lemma: proved here, usable afterwards"""
        st = st or self.st
        self.ex.obls.append(Obl('lemma: ' + name, 'lemma', list(st.pc), Bz(fact), self.name))
        st.assume(fact)

    def cover(self, name, pc):
        self.covers.append((name, list(pc)))

    def ld(self, o, p, off, w, signed=False):
        st = o.st if isinstance(o, Outcome) else o
        if isinstance(st, H):
            st = st.st
        rec = self.ex.recording
        self.ex.recording = False
        v = self.ex.load(st, P(p.base, p.idx, p.off + off), ir.Ty('int', w=w))
        self.ex.recording = rec
        return v

    def u(self, v):
        return self.ex.th.U(v)

    def s(self, v):
        return self.ex.th.S(v)

    def vecof(self, o, p, off):
        st = o.st if isinstance(o, Outcome) else o
        c = st.mem[p.base].cells.get(p.off + off)
        if c is None or not isinstance(c[1], Abs) or c[1].kind == 'dead':
            raise Unsupported('vector vanished')
        return c[1]

    def only_ret(self, outs, what=''):
        """every outcome must be a normal return"""
        r = []
        for o in outs:
            if o.kind == 'ret':
                r.append(o)
            else:
                self.post(o, 'no exception escapes' + what, False)
        return r

    def frame(self, o, allowed=(), since=None):
        """nothing outside `allowed` (list of (base, off or None)) changed w.r.t. the initial state (or the state `since`)"""
        st = o.st
        since = since or self.st
        from .loops import same
        for b, o0 in since.mem.items():
            o1 = st.mem.get(b)
            if o1 is o0 or o0.ro:
                continue
            if o1 is None or o1.alive != o0.alive:
                self.post(o, 'frame: object %s still exists' % (b,), False)
                continue
            if (b, None) in allowed:
                continue
            for off, (sz, v1) in o1.cells.items():
                if (b, off) in allowed:
                    continue
                c0 = o0.cells.get(off)
                if c0 is None:
                    if self.ex.lazy_same(o0, off, sz, v1):
                        continue
                    if isinstance(v1, I):
                        nm = '%s.%d' % (o0.name, off)
                        w0 = v1.w
                        init = self.ex.th.fresh(nm, w0)
                        self.post(o, 'frame: %s+%d unchanged' % (b, off), self.ex.th.eqv(v1, init))
                    continue
                if same(c0[1], v1):
                    continue
                self.post(o, 'frame: %s+%d unchanged' % (b, off), self.value_eq(c0[1], v1))
            for off, a1 in o1.fields.items():
                if (b, off) in allowed:
                    continue
                a0 = o0.fields[off]
                if not a0.eq(a1):
                    self.post(o, 'frame: %s[]+%d unchanged' % (b, off), a0 == a1)
        # data with static storage that this call was the first to touch: read only, or changed?
        for b, o1 in st.mem.items():
            if b in since.mem or not isinstance(b, str) or isinstance(o1, Abs) or b not in self.ex.mod.globals or b in self.ex.mod.tls or o1.ro or (b, None) in allowed:
                continue
            for off, (sz, v1) in list(o1.cells.items()):
                if (b, off) in allowed or self.ex.lazy_same(o1, off, sz, v1):
                    continue
                if isinstance(v1, I):
                    self.post(o, 'frame: static data %s+%d unchanged' % (b, off), self.ex.th.eqv(v1, self.ex.th.fresh('%s.%d' % (o1.name, off), v1.w)))
                elif isinstance(v1, P) and v1.base is not None and str(v1.base).startswith('%s.%d' % (o1.name, off)):
                    continue
                else:
                    self.post(o, 'frame: static data %s+%d unchanged' % (b, off), False)
            if o1.fields:
                self.post(o, 'frame: static data %s unchanged' % b, False)

    def value_eq(self, a, b):
        if isinstance(a, I) and isinstance(b, I):
            return self.ex.th.eqv(a, b)
        if isinstance(a, P) and isinstance(b, P):
            if a.base != b.base or a.off != b.off:
                return False
            return a.idx == b.idx
        if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind == 'vec':
            return And(a.len == b.len, *[a.fields[k] == b.fields[k] for k in a.fields])
        if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind:
            return And(*[x == b.__dict__[k] for k, x in a.__dict__.items() if isinstance(x, z3.ExprRef)])
        if isinstance(a, D) and isinstance(b, D):
            return a.t == b.t
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return a.a == b.a
        return False

    # ------------------------------------------------ discharge
    def discharge(self, ms=8000):
        ex = self.ex
        res = []
        for ob in ex.obls:
            t = time.time()
            if ob.status is None:
                pc = ex.pcfull(ob.pc, [ob.goal])
                r, m, be = smt.valid(pc, ob.goal, ms, use_cvc5=True, want_model=True)
                ob.status, ob.backend = r, be
                if r == 'invalid':
                    ob.model = self.model(pc, ob.goal, m)
            ob.time = time.time() - t
            res.append({'name': ob.name, 'kind': ob.kind, 'where': ob.where, 'status': ob.status, 'backend': ob.backend,
                        'time': round(ob.time, 4), 'model': ob.model})
            if ob.status != 'valid' and ob.kind == 'postcondition' and False:
                break
        vac = []
        for nm, pc in self.covers:
            r, m = smt.check_sat(ex.pcfull(pc), 5000)
            vac.append({'name': nm, 'result': r})
        return res, vac

    def model(self, pc, goal, m):
        # prefer a small counterexample
        s = z3.Solver()
        s.set('timeout', 3000)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        for b in self.small:
            s.push()
            s.add(b)
            if s.check() == z3.sat:
                m = s.model()
            else:
                s.pop()
        out = {}
        for n, t in self.inputs.items():
            try:
                v = m.eval(t, model_completion=True) if isinstance(t, z3.ExprRef) else t
                out[n] = str(v)
            except Exception:
                pass
        return out


DEFS = ('-DBOOST_DATE_TIME_DYN_LINK -DBOOST_DATE_TIME_NO_LIB -DBOOST_REGEX_DYN_LINK -DBOOST_REGEX_NO_LIB -DBOOST_FILESYSTEM_DYN_LINK '
        '-DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux '
        '-D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ -DNDEBUG').split()
COMP = ('-DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK -D_IC_BUILDER_HAS_TIME_H_ -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_PTHREAD_ -D_IC_BUILDER_Pthread_ '
        '-D_IC_BUILDER_SQLITE3_ -D_IC_BUILDER_SQLite3_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_ -D_IC_BUILDER_BOOST_FILESYSTEM_ '
        '-D_IC_BUILDER_BOOST_SYSTEM_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_EIGEN3_ -D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_ICL_CORE_ '
        '-D_IC_BUILDER_ICL_CORE_CONFIG_ -D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_ICL_CORE_LOGGING_ '
        '-D_IC_BUILDER_ICL_CORE_THREAD_').split()
INC = ['-I/opt/vp/compat', '-I/usr/include/eigen3']


def repo():
    return os.environ.get('ICL_REPO', '/repo')


def compile_ir(src, out, comp=True, extra=()):
    """clang front end (no optimisation passes) + sroa (memory to registers) on the real source"""
    cmd = ['/usr/bin/clang++-18'] + DEFS + (COMP if comp else []) + list(extra) + INC + ['-I' + repo() + '/src/icl_core/src', '-std=gnu++17', '-O1', '-Xclang',
           '-disable-llvm-passes', '-S', '-emit-llvm', '-w', '-fno-access-control', src, '-o', out + '.0.ll']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('front end failed on %s:\n%s' % (src, p.stderr[-3000:]))
    p = subprocess.run(['/usr/bin/opt', '-S', '-passes=sroa', out + '.0.ll', '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('opt failed:\n' + p.stderr[-2000:])
    os.unlink(out + '.0.ll')
    return ir.parse(open(out).read())
