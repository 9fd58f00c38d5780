"""Verification condition generator: path-wise symbolic execution of LLVM IR against contracts.

* Functions with a contract are cut at the call (the caller sees the contract only); all others are inlined.
* Loops are cut at their header: everything the loop may change is havocked and the strongest conjunction of
  candidate invariants that is inductive is assumed (Houdini); every candidate is itself checked at entry and at
  every back edge, so nothing is assumed that was not proved.
* All machine arithmetic is modular bit-vector arithmetic of the width the code uses.
"""
import time, itertools, os, zlib, ctypes, pickle, select
import z3
from ir import PTR, Ty

BV = z3.BitVecVal


def bv(x, n=64): return z3.BitVecVal(x, n)


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


def conc(t):
    """the python int of a constant term, or None"""
    if isinstance(t, int): return t
    if z3.is_bv_value(t): return t.as_long()
    return None


class Ptr:
    """kind: 'local' (base: object id), 'glob' (base: name), 'func' (base: name), or a heap kind (base: BV64 term).
       address = base + off + sum(stride * index)"""
    __slots__ = ('kind', 'base', 'off', 'idx')

    def __init__(self, kind, base, off=0, idx=()):
        self.kind, self.base, self.off, self.idx = kind, base, off, idx

    def __repr__(self): return 'Ptr(%s,%s,+%d,%s)' % (self.kind, self.base, self.off, self.idx)


_addr_of = {}


def fixed_addr(kind, base):
    k = (kind, base)
    if k not in _addr_of:
        _addr_of[k] = z3.BitVecVal(0x7f0000000000 + 0x100000 * (len(_addr_of) + 1), 64)
    return _addr_of[k]


def tobv(v, n=64):
    """any first-class value as a bit-vector"""
    if isinstance(v, Ptr):
        b = fixed_addr(v.kind, v.base) if v.kind in ('local', 'glob', 'func') else v.base
        r = b + v.off if v.off else b
        for s, i in v.idx: r = r + s * i
        return r
    if z3.is_bool(v): return z3.If(v, bv(1, n), bv(0, n))
    return v


def tobool(v):
    if z3.is_bool(v): return v
    return v != 0


def simp(t): return z3.simplify(t) if z3.is_expr(t) else t


class Frame:
    __slots__ = ('fn', 'bb', 'i', 'env', 'prev', 'res', 'normal', 'cuts', 'unroll', 'depth')

    def __init__(self, fn, depth):
        self.fn, self.bb, self.i, self.env, self.prev = fn, fn.order[0], 0, {}, None
        self.res, self.normal, self.cuts, self.unroll, self.depth = None, None, {}, {}, depth

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.i, f.env, f.prev = self.fn, self.bb, self.i, dict(self.env), self.prev
        f.res, f.normal, f.cuts, f.unroll, f.depth = self.res, self.normal, dict(self.cuts), dict(self.unroll), self.depth
        return f


class State:
    __slots__ = ('frames', 'pc', 'mem', 'g', 'trace', 'snap', 'objn', 'mdl')

    def __init__(self):
        self.frames, self.pc, self.mem, self.g, self.trace, self.snap, self.objn = [], [], {}, {}, [], None, 0
        self.mdl = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.g = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.g.items()}
        s.trace = list(self.trace)
        s.snap, s.objn, s.mdl = self.snap, self.objn, self.mdl
        return s

    @property
    def fr(self): return self.frames[-1]

    def where(self):
        for f in reversed(self.frames):
            b = f.fn.blocks[f.bb]
            k = min(f.i, len(b) - 1)
            while k >= 0:
                if b[k].line: return '%s:%d' % (f.fn.name, b[k].line)
                k -= 1
        return self.frames[-1].fn.name if self.frames else '?'


class Obligation:
    def __init__(self, name, props, status, where, secs, solver, fn, model=None, trace=None):
        self.name, self.props, self.status, self.where, self.secs, self.solver, self.fn = name, props, status, where, secs, solver, fn
        self.model, self.trace = model, trace

    def as_dict(self):
        return dict(name=self.name, props=sorted(self.props), status=self.status, where=self.where,
                    secs=round(self.secs, 3), solver=self.solver, fn=self.fn, model=self.model, trace=self.trace)


KEEP = []
DEADLINE = None
SPECULATE = True
HELPERS = 0                            # helper processes that discharge obligations while the symbolic execution goes on


class Misfit(Exception): "a stored invariant that was taken to fit does not"


class Helpers:
    """forked helpers: each computes f() from the state of the moment it was started, its result is handed to done()"""
    def __init__(self, eng, n): self.eng, self.n, self.live = eng, n, {}

    def start(self, f, done):
        while len(self.live) >= self.n: self.reap(None)
        self.reap(0)
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                ctypes.CDLL(None).prctl(1, 9)
                os.close(r)
                e = self.eng
                e.nq, e.qtime, e.helpers = 0, 0, None
                try: res = ('ok', f())
                except Undecided as x: res = ('undecided', str(x))
                except BaseException as x: res = ('error', repr(x)[:300])
                with os.fdopen(w, 'wb') as o: pickle.dump((res, e.nq, e.qtime), o)
            finally: os._exit(0)
        os.close(w)
        self.live[r] = (pid, done)

    def reap(self, wait):
        if not self.live: return
        for r in select.select(list(self.live), [], [], wait)[0]:
            pid, done = self.live.pop(r)
            with os.fdopen(r, 'rb') as f: t = f.read()
            os.waitpid(pid, 0)
            if not t: raise Undecided('a helper process ended')
            (kind, x), nq, qt = pickle.loads(t)
            self.eng.nq += nq; self.eng.qtime += qt
            if kind != 'ok': raise Undecided(x)
            done(x)

    def finish(self):
        while self.live: self.reap(None)

    def stop(self):
        for r, (pid, _) in self.live.items():
            try: os.kill(pid, 9)
            except OSError: pass
            os.waitpid(pid, 0); os.close(r)
        self.live = {}

    def each(self, f, xs):
        """[f(x)], computed at the same time"""
        h = Helpers(self.eng, self.n)
        out = {}
        try:
            for x in xs: h.start((lambda x: lambda: f(x))(x), (lambda x: lambda v: out.__setitem__(x, v))(x))
            h.finish()
        finally: h.stop()
        return [out[x] for x in xs]


class Engine:
    def __init__(self, mod, memory=None, tmo=20000):
        self.mod = mod
        self.memory = memory           # heap kinds -> handler object
        self.contracts = []            # (predicate(name), handler)
        self.templates = []            # functions (engine, header-state-info) -> candidate list
        self.obls = []
        self.suppress = 0
        self.tmo = tmo
        self.fresh_n = itertools.count()
        self.cur = '?'
        self.nq = 0
        self.qtime = 0.0
        self.maxdepth = 60
        self.paths = 0
        self.assumed = set()           # names of assumed externals
        self.inlined = set()
        self.unroll_limit = 400
        self.invs = {}
        self.mul = None
        self.div_hook = None
        self.fast, self.effects_only, self.memo = False, False, None
        self.badhints = set()
        self.ftmo = 8000
        self.cmp_hook = None
        self.hints, self.learnt = None, {}
        KEEP.append(self)
        self.helpers = Helpers(self, HELPERS) if HELPERS else None
        self.speculate = SPECULATE
        self.visits, self.drops = {}, {}       # how often a loop was cut so far; what did not fit then
        self.global_init = dict(getattr(mod, 'global_init', None) or {})
        self.deadline = DEADLINE
        self.max_obl_fail = 40
        self.unroll_ok = lambda fn, hdr: True

    # -- terms ---------------------------------------------------------------
    def fresh(self, name, n=64):
        k = next(self.fresh_n)
        return z3.Bool('%s!%d' % (name, k)) if n == 1 else z3.BitVec('%s!%d' % (name, k), n)

    # -- solving --------------------------------------------------------------
    def solve(self, fs, tmo=None):
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget used up')
        tmo = tmo or self.tmo
        t = time.time()
        for mk, share in ((z3.SimpleSolver if self.fast else z3.Solver, 0.35), (lambda: z3.SolverFor('QF_UFBV'), 0.65)):
            s = mk()
            s.set('timeout', max(200, int(tmo * share)))
            s.add(*fs)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: break
        self.qtime += time.time() - t
        self.nq += 1
        return r, s

    def hyps(self, st):
        h = list(st.pc)
        if self.memory: h += self.memory.instances(st)
        return h

    def feasible(self, st):
        # a model found earlier on this path may still satisfy what was added since
        if st.mdl and st.mdl[1] <= len(st.pc) and all(z3.is_true(st.mdl[0].eval(c, model_completion=True)) for c in st.pc[st.mdl[1]:]):
            st.mdl = (st.mdl[0], len(st.pc))
            return True
        r, s = self.solve(st.pc, 3000)
        st.mdl = (s.model(), len(st.pc)) if r == z3.sat else None
        return r != z3.unsat

    def feasible_full(self, st):
        r, _ = self.solve(self.hyps(st), 5000)
        return r != z3.unsat

    def holds(self, st, goal, tmo=None):
        """is goal valid in st (used for Houdini and branch pruning; no obligation recorded)"""
        g = goal
        if z3.is_expr(g):
            g = z3.simplify(g)
            if z3.is_true(g): return True
        r, _ = self.solve(self.hyps(st) + [z3.Not(g)], tmo or 4000)
        return r == z3.unsat

    def oblige(self, st, name, goal, props):
        """record and discharge an obligation"""
        if self.suppress: return True
        g = z3.simplify(goal)
        o = Obligation(name, frozenset(props), 'proved', st.where(), 0, 'simplifier', self.cur, None, None)
        self.obls.append(o)
        if z3.is_true(g): return True
        def put(x): o.status, o.solver, o.model, o.trace, o.secs = x
        if self.helpers:
            o.status = 'pending'
            self.helpers.start(lambda: self.discharge(st, g), put)
            return True
        put(self.discharge(st, g))
        return o.status == 'proved'

    def discharge(self, st, g):
        t = time.time()
        model = trace = None
        solver = 'z3'
        r, s = self.solve(self.hyps(st) + [z3.Not(g)])
        if r == z3.unsat: status = 'proved'
        elif r == z3.sat:
            status = 'failed'
            m = s.model()
            model = self.show_model(st, m)
            trace = [str(x) for x in st.trace[-60:]]
        else:
            r2 = self.second(self.hyps(st) + [z3.Not(g)])
            solver = 'cvc5'
            status = {'unsat': 'proved', 'sat': 'failed'}.get(r2, 'unknown')
            if status != 'proved': trace = [str(x) for x in st.trace[-60:]]
        return status, solver, model, trace, time.time() - t

    def settle(self):
        if self.helpers: self.helpers.finish()

    def second(self, fs):
        """back-up solver"""
        try:
            import cvc5
            s = z3.Solver(); s.add(*fs)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            slv = cvc5.Solver(); slv.setOption('tlimit-per', '20000')
            p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                if c.getCommandName() == 'check-sat':
                    return str(slv.checkSat())
                c.invoke(slv, sm)
        except Exception as e:
            return 'unknown'
        return 'unknown'

    def show_model(self, st, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0 and len(out) < 60:
                out[d.name()] = str(m[d])
        return out

    # -- values ---------------------------------------------------------------
    def const(self, v, ty):
        k = v[0]
        if k == 'c':
            if ty is None or (ty.k == 'int' and ty.n == 1): return z3.BoolVal(bool(v[1] & 1))
            return bv(v[1], ty.n)
        if k == 'null': return bv(0)
        if k == 'undef':
            t = self.mod.res(ty) if ty is not None else None
            if t is None or (t.k == 'int' and t.n == 1): return self.fresh('undef', 1)
            if t.k == 'ptr': return self.fresh('undef')
            if t.k == 'int': return self.fresh('undef', t.n)
            if t.k == 'struct': return [self.const(v, e) for e in t.elems]
            return None
        if k == 'zero':
            t = self.mod.res(ty)
            if t.k == 'struct': return [self.const(v, e) for e in t.elems]
            if t.k == 'array': return [self.const(v, t.elems) for _ in range(t.n)]
            if t.k == 'ptr': return bv(0)
            if t.n == 1: return z3.BoolVal(False)
            return bv(0, t.n)
        if k == 'g':
            n = v[1]
            if n in self.mod.src or n in self.mod.decls: return Ptr('func', n)
            return Ptr('glob', n)
        if k == 'gep':
            return self.gep(self.const(v[2], PTR), v[1], [(t, self.const(i, t)) for t, i in v[3]])
        if k == 'cast':
            return self.cast(v[1], v[2], self.const(v[3], v[2]), v[4])
        if k == 'agg':
            return [self.const(x, t) for t, x in v[1]]
        raise Unsupported('constant %r' % (v,))

    def val(self, st, v, ty):
        if v[0] == 'l': return st.fr.env[v[1]]
        return self.const(v, ty)

    def gep(self, p, bt, idx):
        m = self.mod
        off, terms = 0, []
        t = bt
        for n, (ity, i) in enumerate(idx):
            i = tobv(i) if not z3.is_bv(i) else i
            c = conc(z3.simplify(i))
            if n == 0: stride = m.size(bt)
            else:
                rt = m.res(t)
                if rt.k == 'struct':
                    off += m.fieldoff(rt, c); t = rt.elems[c]; continue
                t = rt.elems; stride = m.size(t)
            if c is not None:
                if c >= 1 << (i.size() - 1): c -= 1 << i.size()
                off += stride * c
            else:
                if i.size() < 64: i = z3.SignExt(64 - i.size(), i)
                terms.append((stride, i))
        if isinstance(p, Ptr):
            return Ptr(p.kind, p.base, p.off + off, p.idx + tuple(terms))
        r = p
        if off: r = r + bv(off % (1 << 64))
        for s, i in terms: r = r + bv(s) * i
        return simp(r)

    def cast(self, op, ft, v, tt):
        if op == 'ptrtoint':
            r = tobv(v)
            return z3.Extract(tt.n - 1, 0, r) if tt.n < 64 else r
        if op == 'inttoptr':
            if isinstance(v, Ptr): return v
            return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'zext':
            return tobv(v, tt.n) if z3.is_bool(v) else z3.ZeroExt(tt.n - v.size(), v)
        if op == 'sext':
            return z3.If(v, bv(-1, tt.n), bv(0, tt.n)) if z3.is_bool(v) else z3.SignExt(tt.n - v.size(), v)
        if op == 'trunc':
            r = z3.Extract(tt.n - 1, 0, v)
            return r == 1 if tt.n == 1 else r
        raise Unsupported('cast ' + op)

    def binop(self, op, a, b):
        if z3.is_bool(a):
            if op == 'and': return z3.And(a, b)
            if op == 'or': return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'): return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: self.mul(a, b) if self.mul else a * b,
                'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b),
                'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()

    def icmp(self, pr, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.kind == b.kind == 'func':
            return z3.BoolVal((a.base == b.base) == (pr == 'eq'))
        a, b = tobv(a, 1) if z3.is_bool(a) else tobv(a), tobv(b, 1) if z3.is_bool(b) else tobv(b)
        if self.cmp_hook:
            r = self.cmp_hook(pr, a, b)
            if r is not None: return r
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]()

    def ite(self, c, a, b):
        if isinstance(a, list): return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.kind == b.kind and a.off == b.off and len(a.idx) == len(b.idx) == 0 \
                and a.kind not in ('local', 'glob', 'func'):
            return Ptr(a.kind, z3.If(c, a.base, b.base), a.off)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # a null and a heap pointer
            for x, y, f in ((a, b, 0), (b, a, 1)):
                if isinstance(x, Ptr) and x.kind not in ('local', 'glob', 'func') and x.off == 0 and not x.idx and not isinstance(y, Ptr):
                    return Ptr(x.kind, z3.If(c, tobv(a), tobv(b)))
            return None
        return z3.If(c, a, b)

    # -- memory ----------------------------------------------------------------
    def new_obj(self, st, size):
        st.objn += 1
        o = '%d' % st.objn
        st.mem[o] = {}
        return Ptr('local', o)

    def flat(self, ty):
        """(offset, scalar type) leaves of a type"""
        t = self.mod.res(ty)
        if t.k == 'struct':
            for i, e in enumerate(t.elems):
                o = self.mod.fieldoff(t, i)
                for p, x in self.flat(e): yield o + p, x
        elif t.k == 'array':
            s = self.mod.size(t.elems)
            for i in range(t.n):
                for p, x in self.flat(t.elems): yield i * s + p, x
        else: yield 0, t

    def undef_of(self, t, name='mem'):
        if t.k == 'int': return self.fresh(name, t.n)
        if t.k == 'ptr': return self.fresh(name)
        raise Unsupported('value of type %r' % t)

    def cell_load(self, st, o, off, ty):
        cells = st.mem[o]
        t = self.mod.res(ty)
        if t.k in ('struct', 'array'):
            if t.k == 'struct': return [self.cell_load(st, o, off + self.mod.fieldoff(t, i), e) for i, e in enumerate(t.elems)]
            return [self.cell_load(st, o, off + i * self.mod.size(t.elems), t.elems) for i in range(t.n)]
        n = self.mod.size(t)
        c = cells.get(off)
        if c is not None and c[0] == n: return self.recast(c[1], t)
        # overlapping cells of other sizes: assemble bytes
        if c is None and not any(off - 16 < k < off + n and k + cells[k][0] > off for k in cells):
            v = self.undef_of(t, 'uninit')
            cells[off] = (n, v)
            return v
        bs = []
        for i in range(n):
            q = off + i
            for k in cells:
                if k <= q < k + cells[k][0]:
                    v = tobv(cells[k][1], 8)
                    j = q - k
                    if v.size() < 8: v = z3.ZeroExt(8 - v.size(), v)
                    bs.append(z3.Extract(8 * j + 7, 8 * j, v)); break
            else:
                v = self.fresh('uninit', 8); cells[q] = (1, v); bs.append(v)
        v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
        return self.recast(v, t)

    def recast(self, v, t):
        if t.k == 'int' and t.n == 1: return tobool(v) if not z3.is_bool(v) else v
        if t.k == 'int' and z3.is_bool(v): return tobv(v, t.n)
        if t.k == 'int' and isinstance(v, Ptr): return tobv(v)
        if t.k == 'int' and v is not None and not isinstance(v, (Ptr, list)) and v.size() != t.n:
            return z3.Extract(t.n - 1, 0, v) if v.size() > t.n else z3.ZeroExt(t.n - v.size(), v)
        return v

    def cell_store(self, st, o, off, ty, v):
        cells = st.mem[o]
        t = self.mod.res(ty)
        if t.k == 'struct':
            for i, e in enumerate(t.elems): self.cell_store(st, o, off + self.mod.fieldoff(t, i), e, v[i])
            return
        if t.k == 'array':
            s = self.mod.size(t.elems)
            for i in range(t.n): self.cell_store(st, o, off + i * s, t.elems, v[i])
            return
        n = self.mod.size(t)
        for k in list(cells):
            if k < off + n and off < k + cells[k][0] and not (k == off and cells[k][0] == n):
                # split the overlapped cell into bytes
                sz, old = cells.pop(k)
                old = tobv(old, 8 * sz)
                for j in range(sz):
                    if not (off <= k + j < off + n): cells[k + j] = (1, z3.Extract(8 * j + 7, 8 * j, old))
        cells[off] = (n, v)

    def resolve_idx(self, p):
        """constant-fold index terms"""
        off, rest = p.off, []
        for s, i in p.idx:
            c = conc(simp(i))
            if c is not None:
                if c >= 1 << 63: c -= 1 << 64
                off += s * c
            else: rest.append((s, i))
        return Ptr(p.kind, p.base, off, tuple(rest))

    def load(self, st, p, ty, atomic=False):
        """-> list of (state, value)"""
        if not isinstance(p, Ptr):
            p = self.memory.resolve_raw(self, st, p) if self.memory else p
            if not isinstance(p, Ptr): raise Unsupported('load through an unknown pointer at ' + st.where())
        p = self.resolve_idx(p)
        if p.kind == 'local':
            if p.idx: return self.sym_local_load(st, p, ty)
            return [(st, self.cell_load(st, p.base, p.off, ty))]
        if p.kind == 'glob':
            r = self.memory.glob_load(self, st, p, ty, atomic) if self.memory else None
            if r is not None: return r
            return [(st, self.glob_const(st, p, ty))]
        return self.memory.load(self, st, p, ty, atomic)

    def sym_local_load(self, st, p, ty):
        if len(p.idx) != 1: raise Unsupported('symbolic local index')
        s, i = p.idx[0]
        t = self.mod.res(ty); n = self.mod.size(t)
        cells = st.mem[p.base]
        ks = sorted(k for k in cells if (k - p.off) % s == 0 and k >= p.off and cells[k][0] == n)
        if not ks: raise Unsupported('symbolic index into an uninitialised local array')
        v = None
        for k in ks:
            x = self.recast(cells[k][1], t)
            v = x if v is None else z3.If(i == (k - p.off) // s, x, v)
        lo, hi = (ks[0] - p.off) // s, (ks[-1] - p.off) // s
        self.oblige(st, 'local array index in bounds', z3.And(z3.ULE(i, hi), z3.UGE(i, lo)), {'BOUNDS'})
        return [(st, v)]

    def glob_const(self, st, p, ty):
        if 'g:' + p.base in st.mem: 
            o = 'g:' + p.base
            return self.cell_load(st, o, p.off, ty)
        r = self.mod.globals.get(p.base)
        if r is None: raise Unsupported('global ' + p.base)
        o = 'g:' + p.base
        st.mem[o] = {}
        from ir import P
        m = __import__('re').match(r'(.*?)\b(global|constant)\s+(.*)', r)
        if not m or 'external' in m.group(1).split(): raise Unsupported('external global ' + p.base)
        q = P(self.mod, m.group(3))
        gt = q.type()
        v = q.value(gt)
        if p.base in self.global_init:
            self.cell_store(st, o, 0, gt, self.global_init[p.base])
        elif v[0] == 'str':
            s = v[1]; k = 0; i = 0
            while i < len(s):
                if s[i] == '\\' and i + 2 < len(s) + 1 and __import__('re').match(r'[0-9A-Fa-f]{2}', s[i + 1:i + 3]): c = int(s[i + 1:i + 3], 16); i += 3
                else: c = ord(s[i]); i += 1
                st.mem[o][k] = (1, bv(c, 8)); k += 1
        else: self.cell_store(st, o, 0, gt, self.const(v, gt))
        return self.cell_load(st, o, p.off, ty)

    def store(self, st, p, ty, v, atomic=False):
        if not isinstance(p, Ptr):
            p = self.memory.resolve_raw(self, st, p) if self.memory else p
            if not isinstance(p, Ptr): raise Unsupported('store through an unknown pointer at ' + st.where())
        p = self.resolve_idx(p)
        if p.kind == 'local':
            if p.idx: return self.sym_local_store(st, p, ty, v)
            self.cell_store(st, p.base, p.off, ty, v)
            return [st]
        if p.kind == 'glob':
            if self.memory:
                r = self.memory.glob_store(self, st, p, ty, v, atomic)
                if r is not None: return r
            self.glob_const(st, Ptr('glob', p.base), ty)
            self.cell_store(st, 'g:' + p.base, p.off, ty, v)
            return [st]
        return self.memory.store(self, st, p, ty, v, atomic)

    def sym_local_store(self, st, p, ty, v):
        if len(p.idx) != 1: raise Unsupported('symbolic local index')
        s, i = p.idx[0]
        t = self.mod.res(ty); n = self.mod.size(t)
        cells = st.mem[p.base]
        for k in list(cells):
            if (k - p.off) % s == 0 and k >= p.off and cells[k][0] == n:
                cells[k] = (n, z3.If(i == (k - p.off) // s, tobv(v, t.n if t.k == 'int' else 64), self.recast(cells[k][1], t)))
        return [st]

    # -- running ----------------------------------------------------------------
    def call_into(self, st, fname, args, res, normal=None):
        if len(st.frames) > self.maxdepth: raise Unsupported('inlining too deep (recursion without a contract?): ' + fname)
        fn = self.mod.fn(fname)
        f = Frame(fn, len(st.frames) + 1)
        for (ty, nm), a in zip(fn.params, args): f.env[nm] = a
        f.res, f.normal = res, normal
        st.frames.append(f)
        self.inlined.add(fname)

    def run(self, st, on_return):
        """explore every path from st; on_return(state, value) when the outermost frame returns"""
        work = [st]
        while work:
            s = work.pop()
            for kind, s2, v in self.steps(s):
                if kind == 'go': work.append(s2)
                elif kind == 'ret':
                    self.paths += 1
                    on_return(s2, v)

    def steps(self, st, region=None):
        """run st until it forks / returns / ends; yields (kind, state, value)
           region: (depth, blocks, header): stop with kind 'back' at the header, 'exit' outside of the blocks"""
        while True:
            if self.deadline and time.time() > self.deadline: raise Undecided('time budget used up')
            f = st.fr
            ins = f.fn.blocks[f.bb][f.i]
            op = ins.op
            if op == 'phi':      # handled on block entry
                f.i += 1; continue
            if op in ('br', 'switch'):
                outs = self.branch(st, ins)
                res = []
                for s2, tgt in outs:
                    r = self.enter(s2, tgt, region)
                    res += r
                if len(res) == 1 and res[0][0] == 'go' :
                    st = res[0][1]; continue
                return res
            if op == 'ret':
                v = self.val(st, ins.a[0], ins.ty) if ins.a else None
                fr = st.frames.pop()
                if not st.frames: 
                    st.frames.append(fr)
                    return [('ret', st, v)]
                if region and len(st.frames) < region[0]:
                    # returned out of the loop's own frame
                    self.after_call(st, fr, v)
                    if fr.normal is not None:
                        r = self.enter(st, fr.normal, None)
                        return [('exit', s2, x) for k, s2, x in r]
                    return [('exit', st, None)]
                self.after_call(st, fr, v)
                if fr.normal is not None:
                    r = self.enter(st, fr.normal, region)
                    if len(r) == 1 and r[0][0] == 'go': st = r[0][1]; continue
                    return r
                continue
            if op == 'resume' and st.g.get('exc') and not region:
                st.frames.pop()
                r = self.unwind(st, False)
                if r: st = r[0]; continue
                self.paths += 1
                return []
            if op == 'unreachable' or op == 'resume':
                self.paths += 1
                return []
            r = self.instr(st, ins)
            if r is None: continue
            # forked: list of states positioned at their next instruction
            if len(r) == 1: st = r[0]; continue
            return [('go', s2, None) for s2 in r]

    def after_call(self, st, fr, v):
        if fr.res is not None: st.fr.env[fr.res] = v

    def branch(self, st, ins):
        f = st.fr
        if ins.op == 'br':
            if not ins.a: return [(st, ins.x[0])]
            c = z3.simplify(tobool(self.val(st, ins.a[0], None)))
            if getattr(self.memory, 'asserts', False):
                for cond, tgt in ((c, 0), (z3.simplify(z3.Not(c)), 1)):
                    m = self.assert_block(f.fn, ins.x[tgt])
                    if m is None: continue
                    self.memory.on_assert(self, st, self.cstr(st, self.val(st, m, None)), z3.Not(cond))
                    st.pc.append(z3.Not(cond))
                    return [(st, ins.x[1 - tgt])] if self.feasible(st) else []
            if z3.is_true(c): return [(st, ins.x[0])]
            if z3.is_false(c): return [(st, ins.x[1])]
            outs = []
            for cond, tgt in ((c, ins.x[0]), (z3.simplify(z3.Not(c)), ins.x[1])):
                s2 = st.copy()
                s2.pc.append(cond)
                if self.feasible(s2):
                    s2.trace.append('%s %s' % (s2.where(), str(cond)[:160].replace('\n', ' ')))
                    outs.append((s2, tgt))
            return outs
        v = z3.simplify(self.val(st, ins.a[0], ins.ty))
        d, cases = ins.x
        outs = []
        rest = []
        cv = conc(v)
        if cv is not None:
            for k, l in cases:
                if (k % (1 << ins.ty.n)) == cv: return [(st, l)]
            return [(st, d)]
        for k, l in cases:
            c = v == bv(k, ins.ty.n)
            rest.append(z3.Not(c))
            s2 = st.copy(); s2.pc.append(c)
            if self.feasible(s2): outs.append((s2, l))
        s2 = st.copy(); s2.pc += rest
        if self.feasible(s2): outs.append((s2, d))
        return outs

    def assert_block(self, fn, lab):
        """the message of the assertion that fails in this block"""
        for i in fn.blocks[lab]:
            if i.op == 'call' and i.x['callee'][1] == '__assert_fail': return i.x['args'][0][1]
            if i.op in ('br', 'switch', 'ret', 'invoke', 'store', 'cmpxchg'): return None
        return None

    def phis(self, st, tgt, frm):
        f = st.fr
        new = {}
        for ins in f.fn.blocks[tgt]:
            if ins.op != 'phi': break
            for v, l in ins.x:
                if l == frm: new[ins.res] = self.val(st, v, ins.ty); break
            else: raise Unsupported('phi')
        return new

    def enter(self, st, tgt, region):
        """move to block tgt; cut loops"""
        f = st.fr
        frm = f.bb
        loops = f.fn.loops()
        new = self.phis(st, tgt, frm)
        if region and len(st.frames) == region[0]:
            if tgt == region[2]:
                return [('back', st, new)]
            if tgt not in region[1]:
                f.env.update(new); f.prev, f.bb, f.i = frm, tgt, 0
                # possibly the header of an enclosing or later loop: let the driver re-enter
                return [('exit', st, None)] if tgt not in loops else [('exitloop', st, (tgt, frm))]
        if tgt in loops:
            return self.loop(st, tgt, frm, new, region)
        f.env.update(new); f.prev, f.bb, f.i = frm, tgt, 0
        return [('go', st, None)]

    # -- loops --------------------------------------------------------------------
    def loop(self, st, hdr, frm, new, region):
        f = st.fr
        blocks = f.fn.loops()[hdr]
        inside = frm in blocks
        if (inside and f.unroll.get(hdr)) or (not inside and self.unroll_ok(f.fn.name, hdr) and self.try_unroll(st, hdr, new)):
            n = f.unroll.get(hdr, 0) if inside else 0
            if n + 1 > self.unroll_limit: raise Unsupported('loop unrolled too far')
            # leaving/entering resets
            f.unroll[hdr] = n + 1
            f.env.update(new); f.prev, f.bb, f.i = frm, hdr, 0
            return [('go', st, None)]
        return self.cut(st, hdr, blocks, frm, new, region)

    SAFE = ('icmp', 'add', 'sub', 'and', 'or', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'xor', 'cast', 'gep', 'select', 'extractvalue', 'freeze')

    def try_unroll(self, st, hdr, new):
        """a loop whose exit test is decided by constants when it is entered is unrolled"""
        s = st.copy()
        f = s.fr
        blocks = f.fn.loops()[hdr]
        f.env.update(new)
        b = hdr
        for _ in range(6):
            for i, ins in enumerate(f.fn.blocks[b]):
                if ins.op == 'phi': continue
                f.bb, f.i = b, i
                try:
                    if ins.op in self.SAFE: self.instr(s, ins)
                    elif ins.op == 'load' and not ins.x:
                        p = self.val(s, ins.a[0], PTR)
                        if isinstance(p, Ptr) and p.kind in ('local', 'glob'):
                            p = self.resolve_idx(p)
                            if not p.idx and (p.kind == 'local' and p.off in s.mem[p.base]):
                                f.env[ins.res] = self.cell_load(s, p.base, p.off, ins.ty)
                except (KeyError, Unsupported, z3.Z3Exception, AttributeError, TypeError):
                    pass
            t = f.fn.blocks[b][-1]
            if t.op != 'br': return False
            if len(t.x) == 1:
                if t.x[0] not in blocks or t.x[0] == hdr: return False
                b = t.x[0]; continue
            v = t.a[0]
            if v[0] != 'l' or v[1] not in f.env: return False
            try: c = z3.simplify(tobool(f.env[v[1]]))
            except Exception: return False
            exits = [x for x in t.x if x not in blocks]
            if z3.is_true(c) or z3.is_false(c):
                if exits: return True
                b = t.x[0] if z3.is_true(c) else t.x[1]
                if b == hdr: return False
                continue
            return False
        return False

    def run_body(self, hs, depth, blocks, hdr):
        """explore one arbitrary iteration from the header state; -> (back states, exit states)"""
        backs, exits = [], []
        work = [hs]
        first = True
        region = (depth, blocks, hdr)
        while work:
            s = work.pop()
            for kind, s2, v in self.steps(s, region):
                if kind == 'go': work.append(s2)
                elif kind == 'back': backs.append((s2, v))
                elif kind == 'exit': exits.append(('go', s2, None))
                elif kind == 'exitloop': exits.append(('exitloop', s2, v))
                elif kind == 'ret': exits.append(('ret', s2, v))
        return backs, exits

    def header_state(self, st, hdr, frm, new, modified, ghosts, cands, info):
        s = st.copy()
        f = s.fr
        phi = {}
        for k, v in new.items():
            if z3.is_bool(v): x = self.fresh('phi' + k, 1)
            elif isinstance(v, Ptr):
                if v.kind in ('local', 'glob', 'func') or v.idx or v.off:
                    if v.kind in ('func',): x = v
                    elif v.idx or v.off or v.kind in ('local', 'glob'):
                        x = self.memory.havoc_ptr(self, s, v) if self.memory and hasattr(self.memory, 'havoc_ptr') else None
                        if x is None: raise Unsupported('loop-carried pointer ' + repr(v))
                else: x = Ptr(v.kind, self.fresh('phi' + k))
            elif v is None: x = None
            else:
                kind = info['kinds'].get(k)
                x = self.fresh('phi' + k, v.size())
                if kind: x = Ptr(kind, x)
            phi[k] = x
        f.env.update(phi)
        for o, off in modified:
            if o not in s.mem or off not in s.mem[o]: continue
            n, v = s.mem[o][off]
            if z3.is_bool(v): nv = self.fresh('loc', 1)
            elif isinstance(v, Ptr): nv = Ptr(v.kind, self.fresh('loc')) if v.kind not in ('local', 'glob', 'func') else v
            elif v is None: nv = None
            else: nv = self.fresh('loc', v.size())
            s.mem[o][off] = (n, nv)
            phi[('mem', o, off)] = nv
        it = self.fresh('iter')
        if self.memory:
            self.memory.havoc(self, s, ghosts, phi)
        info2 = dict(info)
        info2.update(phi=phi, it=it, entry=new, estate=st, hstate=s)
        return s, phi, it, info2

    def cut(self, st, hdr, blocks, frm, new, region):
        f = st.fr
        depth = len(st.frames)
        hk = '%s %s' % (f.fn.name, hdr)
        r = None
        hint = self.hint_for(hk, f.fn.name, new)
        mk = (hk, tuple(sorted(map(str, new))), tuple((x.fn.name, x.bb, x.i) for x in st.frames[:-1]), tuple(tuple(sorted(x.unroll.items())) for x in st.frames))
        if hint and not (self.fast and hk in self.badhints):
            r = self.cut_hinted(st, hdr, blocks, frm, new, depth, f, hint)
            if r is None: self.badhints.add(hk)
        if r is None and self.effects_only: r = self.cut_quick(st, hdr, blocks, frm, new, depth, f)
        if r is None and self.memo and mk in self.memo: r = self.cut_hinted(st, hdr, blocks, frm, new, depth, f, self.memo[mk])
        if r is None: r = self.cut_search(st, hdr, blocks, frm, new, depth, f)
        backs, exits, live, learnt = r
        if self.memo is not None and not self.effects_only:
            e = self.memo.setdefault(mk, {'mod': set(), 'ghosts': set(), 'kinds': {}, 'inv': set()})
            e['mod'] |= learnt[0]; e['ghosts'] |= learnt[1]; e['kinds'].update(learnt[2]); e['inv'] |= set(c[0] for c in live)
        if not self.effects_only: self.note_inv(hk, new, live, learnt)
        if self.memory and not self.suppress:
            for b, nv in backs: self.memory.at_backedge(self, b)
        out = []
        for kind, s2, v in exits:
            if kind == 'exitloop':
                tgt, fr2 = v
                # already positioned in tgt with phis applied; re-enter through the loop machinery
                s2.fr.bb = fr2
                nv = {}
                for ins in s2.fr.fn.blocks[tgt]:
                    if ins.op != 'phi': break
                    nv[ins.res] = s2.fr.env[ins.res]
                if region and len(s2.frames) == region[0] and tgt == region[2]:
                    out.append(('back', s2, nv))
                elif region and len(s2.frames) == region[0] and tgt not in region[1]:
                    s2.fr.prev, s2.fr.bb, s2.fr.i = fr2, tgt, 0
                    out.append(('exitloop', s2, (tgt, fr2)))
                else: out += self.loop(s2, tgt, fr2, nv, region)
            elif kind == 'go' and region:
                # where did the exit land with respect to the enclosing region?
                if len(s2.frames) == region[0] and s2.fr.fn is f.fn:
                    if s2.fr.bb == region[2] and s2.fr.i == 0:
                        raise Unsupported('exit onto an enclosing header')
                    if s2.fr.bb not in region[1] and s2.fr.i == 0: out.append(('exit', s2, None)); continue
                if len(s2.frames) < region[0]: out.append(('exit', s2, None)); continue
                out.append((kind, s2, v))
            else: out.append((kind, s2, v))
        return out

    def note_inv(self, hk, new, live, learnt):
        self.invs.setdefault(hk, set()).update(c[0] for c in live)
        e = self.learnt.setdefault(hk, {'mod': set(), 'ghosts': set(), 'kinds': {}, 'inv': set(), 'vars': sorted(map(str, new))})
        e['mod'] |= learnt[0]; e['ghosts'] |= learnt[1]; e['kinds'].update(learnt[2]); e['inv'] |= set(c[0] for c in live)

    def hint_for(self, hk, fn, new):
        """the stored invariant of this loop: the one of the same header, or of a loop of the function, over the same variables"""
        if not self.hints: return None
        vs = sorted(map(str, new))
        h = self.hints.get(hk)
        if h and h['vars'] == vs: return h
        hs = [x for k, x in self.hints.items() if k.startswith(fn + ' ') and x['vars'] == vs]
        return hs[0] if len(hs) == 1 else None

    def effects(self, st, base, backs, new, modified, ghosts, kinds):
        """extend modified/ghosts/kinds by what the iterations that came back changed; -> did they grow?"""
        grow = False
        for b, nv in backs:
            for o in base.mem:
                for off, c in b.mem[o].items():
                    c0 = base.mem[o].get(off)
                    if (c0 is None or not self.same(c0[1], c[1])) and (o, off) not in modified and off in st.mem.get(o, {}):
                        modified.add((o, off)); grow = True
            if self.memory:
                for g in self.memory.ghost_diff(base, b):
                    if g not in ghosts: ghosts.add(g); grow = True
            for k, v in nv.items():
                if isinstance(v, Ptr) and not isinstance(new[k], Ptr) and k not in kinds and v.kind not in ('local', 'glob', 'func'):
                    kinds[k] = v.kind; grow = True
        return grow

    def candidates(self, inf):
        cands = []
        for t in self.templates: cands += t(self, inf)
        return cands

    def entry_live(self, st, new, phi, cands):
        """the candidates that hold when the loop is entered"""
        est = st.copy()
        esub = dict(new)
        for k in phi:
            if isinstance(k, tuple) and k[0] == 'mem': esub[k] = st.mem[k[1]][k[2]][1]
            elif isinstance(k, tuple): esub[k] = self.memory.ghost_value(st, k)
        einst = []
        for c in cands:
            try: g = c[1](est, esub, bv(0))
            except Skip: continue
            einst.append((c, g))
        return self.filter(est, einst)

    def kept(self, backs, phi, it, live):
        """the candidates that every iteration preserves"""
        keep = live
        for b, nv in backs:
            bsub = dict(nv)
            for k in phi:
                if isinstance(k, tuple) and k[0] == 'mem': bsub[k] = b.mem[k[1]][k[2]][1]
                elif isinstance(k, tuple): bsub[k] = self.memory.ghost_value(b, k)
            pairs = []
            for c in keep:
                try: pairs.append((c, c[1](b, bsub, it + 1)))
                except Skip: pass
            keep = self.filter(b, pairs)
        return keep

    def iteration(self, hs, phi, it, live, frm, hdr):
        """an arbitrary iteration: the header state with the invariant assumed"""
        h = hs.copy()
        self.assume_cands(h, live, phi, it)
        h.pc.append(z3.ULT(it, bv(1 << 62)))
        h.fr.prev, h.fr.bb, h.fr.i = frm, hdr, 0
        if not self.feasible(h): raise Unsupported('contradictory loop invariant')
        return h

    def cut_hinted(self, st, hdr, blocks, frm, new, depth, f, hint):
        """the invariant is taken from the annotation file and checked; None if it does not fit"""
        modified = set(x for x in hint['mod'] if x[0] in st.mem and x[1] in st.mem[x[0]])
        ghosts = set(hint['ghosts'])
        kinds = dict((k, v) for k, v in hint['kinds'].items() if k in new and not isinstance(new[k], Ptr))
        mark = len(self.obls)
        try:
            info = dict(kinds=kinds, hdr=hdr, fn=f.fn.name)
            hs, phi, it, inf = self.header_state(st, hdr, frm, new, modified, ghosts, [], info)
            cands = [c for c in self.candidates(inf) if c[0] in hint['inv']]
            hk = '%s %s' % (f.fn.name, hdr)
            n = self.visits[hk] = self.visits.get(hk, 0) + 1
            spec = self.helpers and self.speculate and self.memo is None and not self.suppress
            if spec:
                d = hint.get('drops', {}).get(str(n), ())
                cands = [c for c in cands if c[0] not in d]
            live = self.entry_live(st, new, phi, cands)
            was = dict(self.visits)
            while True:
                self.visits = dict(was)
                h = self.iteration(hs, phi, it, live, frm, hdr)
                backs, exits = self.run_body(h.copy(), depth, blocks, hdr)
                ok = not self.effects(st, hs, backs, new, modified, ghosts, kinds)
                if ok and spec:
                    # taken to fit for now; the answer comes from a helper
                    self.helpers.start((lambda a: lambda: len(self.kept(*a)) == len(a[3]))((backs, phi, it, live)), self.fits)
                    break
                keep = self.kept(backs, phi, it, live) if ok else live
                if len(keep) == len(live): break
                live = keep
                del self.obls[mark:]
        except Unsupported:
            ok = False
        if not ok:
            del self.obls[mark:]
            return None
        if self.memo is None and not self.suppress:
            ln = set(c[0] for c in live)
            self.drops.setdefault(hk, {})[str(n)] = sorted(c[0] for c in cands if c[0] not in ln)
        return backs, exits, live, (modified, ghosts, kinds)

    def fits(self, ok):
        if not ok: raise Misfit()

    def cut_quick(self, st, hdr, blocks, frm, new, depth, f):
        """what may a loop change, and where does it go?  (no invariant: the result is only used to find out what an enclosing loop changes)"""
        modified, ghosts, kinds = set(), set(), {}
        try:
            for _ in range(8):
                info = dict(kinds=kinds, hdr=hdr, fn=f.fn.name)
                hs, phi, it, inf = self.header_state(st, hdr, frm, new, modified, ghosts, [], info)
                hs.fr.prev, hs.fr.bb, hs.fr.i = frm, hdr, 0
                base = hs.copy()
                backs, exits = self.run_body(hs, depth, blocks, hdr)
                if not self.effects(st, base, backs, new, modified, ghosts, kinds): return backs, exits, [], (modified, ghosts, kinds)
        except Unsupported: pass
        return None

    def cut_search(self, st, hdr, blocks, frm, new, depth, f):
        if not self.fast: return self.cut_search_(st, hdr, blocks, frm, new, depth, f)
        q, mm = self.effects_only, self.memo
        try: return self.cut_search_(st, hdr, blocks, frm, new, depth, f)
        finally: self.effects_only, self.memo = q, mm

    def cut_search_(self, st, hdr, blocks, frm, new, depth, f):
        """find the invariant: every candidate that holds on entry and is preserved"""
        # 1. what does the loop change?  (run the body from a fully havocked header; grow to a fixpoint)
        modified, ghosts = set(), set()
        kinds = {}
        self.suppress += 1
        try:
            if self.fast: self.effects_only = True
            for _ in range(8):
                info = dict(kinds=kinds, hdr=hdr, fn=f.fn.name)
                hs, phi, it, inf = self.header_state(st, hdr, frm, new, modified, ghosts, [], info)
                hs.fr.prev, hs.fr.bb, hs.fr.i = frm, hdr, 0
                base = hs.copy()
                backs, exits = self.run_body(hs, depth, blocks, hdr)
                if not self.effects(st, base, backs, new, modified, ghosts, kinds): break
            else: raise Unsupported('loop effect did not stabilise')
            if self.fast: self.effects_only, self.memo = False, {}
            # 2. candidates
            info = dict(kinds=kinds, hdr=hdr, fn=f.fn.name)
            hs, phi, it, inf = self.header_state(st, hdr, frm, new, modified, ghosts, [], info)
            live = self.entry_live(st, new, phi, self.candidates(inf))
            # 3. Houdini
            while True:
                h = self.iteration(hs, phi, it, live, frm, hdr)
                backs, exits = self.run_body(h, depth, blocks, hdr)
                keep = self.kept(backs, phi, it, live)
                if len(keep) == len(live): break
                live = keep
        finally:
            self.suppress -= 1
        # the invariant is inductive: run the body for real
        if not self.suppress:
            backs, exits = self.run_body(self.iteration(hs, phi, it, live, frm, hdr), depth, blocks, hdr)
        return backs, exits, live, (modified, ghosts, kinds)

    def assume_cands(self, h, live, phi, it):
        """candidates of the form variable == term replace the variable; the others join the path condition"""
        phi = dict(phi)
        bound = set()
        for c in live:
            if len(c) > 3 and c[3] and c[3][0] not in bound:
                k, tf = c[3]
                t = z3.simplify(tf(it))
                old = phi[k]
                if old is None or z3.is_bool(old) or isinstance(old, Ptr) and (old.off or old.idx): continue
                v = Ptr(old.kind, t) if isinstance(old, Ptr) else t
                if isinstance(k, tuple):
                    n, _ = h.mem[k[1]][k[2]]
                    h.mem[k[1]][k[2]] = (n, v)
                else: h.fr.env[k] = v
                phi[k] = v
                bound.add(k)
        for c in live:
            a = c[2](h, phi, it) if len(c) > 2 and c[2] else c[1](h, phi, it)
            if not z3.is_true(z3.simplify(a)): h.pc.append(a)

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and a.kind == b.kind and self.same(a.base, b.base) and a.off == b.off and \
                len(a.idx) == len(b.idx) and all(x[0] == y[0] and self.same(x[1], y[1]) for x, y in zip(a.idx, b.idx))
        if isinstance(a, (str, int, type(None))) or isinstance(b, (str, int, type(None))): return a == b
        if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)

    def filter(self, st, pairs):
        """the candidates whose instance is valid in st (all at once first, then by model)"""
        pairs = [(c, z3.simplify(g)) for c, g in pairs]
        ok = [c for c, g in pairs if z3.is_true(g)]
        rest = [(c, g) for c, g in pairs if not z3.is_true(g)]
        if not rest: return [c for c, _ in pairs if c in ok]
        hy = self.hyps(st)
        good = []
        todo = list(range(len(rest)))
        while todo:
            r, s = self.solve(hy + [z3.Or([z3.Not(rest[i][1]) for i in todo])], 6000)
            if r == z3.unsat:
                good = todo; break
            if r == z3.sat:
                m = s.model()
                bad = [i for i in todo if z3.is_false(m.eval(rest[i][1], model_completion=True))]
                if not bad:
                    good = self.singly(hy, rest, todo)
                    break
                todo = [i for i in todo if i not in bad]
            else:
                # one by one
                good = self.singly(hy, rest, todo)
                break
        goodc = set(id(rest[i][0]) for i in good) | set(id(c) for c in ok)
        return [c for c, _ in pairs if id(c) in goodc]

    def singly(self, hy, rest, todo):
        f = lambda i: self.solve(hy + [z3.Not(rest[i][1])], self.ftmo)[0] == z3.unsat
        oks = self.helpers.each(f, todo) if self.helpers and len(todo) > 2 else [f(i) for i in todo]
        return [i for i, ok in zip(todo, oks) if ok]

    # -- instructions -----------------------------------------------------------------
    def instr(self, st, ins):
        f = st.fr
        op = ins.op
        env = f.env
        V = lambda k, ty=None: self.val(st, ins.a[k], ty or ins.ty)
        if op == 'alloca':
            env[ins.res] = self.new_obj(st, 0)
        elif op == 'load':
            outs = self.load(st, V(0, PTR), ins.ty, ins.x)
            return self.finish(outs, ins)
        elif op == 'store':
            outs = self.store(st, V(1, PTR), ins.ty, V(0), ins.x)
            for s in outs: s.fr.i += 1
            return outs
        elif op == 'gep':
            idx = [(t, self.val(st, i, t)) for t, i in ins.x]
            env[ins.res] = self.gep(V(0, PTR), ins.ty, idx)
        elif op == 'icmp':
            env[ins.res] = simp(self.icmp(ins.x, V(0), V(1)))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            r = self.div_hook(st, op, V(0), V(1)) if self.div_hook and op in ('udiv', 'urem') else None
            env[ins.res] = simp(self.binop(op, V(0), V(1)) if r is None else r)
        elif op == 'select':
            c = z3.simplify(tobool(self.val(st, ins.a[0], None)))
            a, b = V(1), V(2)
            if z3.is_true(c): env[ins.res] = a
            elif z3.is_false(c): env[ins.res] = b
            else:
                r = self.ite(c, a, b)
                if r is None:   # pointers that cannot be merged: fork
                    s2 = st.copy(); st.pc.append(c); env[ins.res] = a
                    s2.pc.append(z3.Not(c)); s2.fr.env[ins.res] = b
                    st.fr.i += 1; s2.fr.i += 1
                    return [s for s in (st, s2) if self.feasible(s)]
                env[ins.res] = simp(r) if z3.is_expr(r) else r
        elif op == 'freeze': env[ins.res] = V(0)
        elif op == 'cast':
            r = self.cast(ins.x[0], ins.x[1], self.val(st, ins.a[0], ins.x[1]), ins.ty)
            env[ins.res] = simp(r) if z3.is_expr(r) else r
        elif op == 'extractvalue':
            v = V(0)
            for k in ins.x: v = v[k]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = V(0)
            w = self.val(st, ins.a[1][1], ins.a[1][0])
            def put(v, ks):
                v = list(v); v[ks[0]] = w if len(ks) == 1 else put(v[ks[0]], ks[1:]); return v
            env[ins.res] = put(v, ins.x)
        elif op == 'fence':
            if self.memory: self.memory.fence(self, st)
        elif op == 'landingpad':
            if not st.g.get('exc'): return []
            env[ins.res] = [Ptr('opaque', bv(64)), bv(next((TYPEID(c) for c in ins.x if c == 'null' or c[1:] in st.g['exc']), 0), 32)]
        elif op == 'cmpxchg':
            p = V(0, PTR)
            outs = self.cmpxchg(st, p, ins.ty, V(1), V(2), ins.x)
            return self.finish(outs, ins)
        elif op == 'atomicrmw':
            outs = self.rmw(st, ins.x, V(0, PTR), ins.ty, V(1))
            return self.finish(outs, ins)
        elif op in ('call', 'invoke'):
            return self.call(st, ins)
        elif op == 'asm':
            if self.memory and self.memory.asm(self, st, ins): pass
            else: raise Unsupported('inline asm: ' + str(ins.x)[:120])
        else:
            raise Unsupported('instruction: ' + str(ins.x)[:160])
        f.i += 1
        return None

    def finish(self, outs, ins):
        for s, v in outs:
            if ins.res is not None: s.fr.env[ins.res] = v
            s.fr.i += 1
        return [s for s, _ in outs]

    def cmpxchg(self, st, p, ty, e, n, weak):
        if not isinstance(p, Ptr) and self.memory: p = self.memory.resolve_raw(self, st, p)
        if isinstance(p, Ptr) and p.kind not in ('local', 'glob'):
            return self.memory.cmpxchg(self, st, self.resolve_idx(p), ty, e, n, weak)
        if isinstance(p, Ptr) and p.kind == 'glob' and self.memory:
            r = self.memory.glob_cmpxchg(self, st, p, ty, e, n, weak)
            if r is not None: return r
        (st, old), = self.load(st, p, ty)
        ok = z3.simplify(tobv(old) == tobv(e))
        self.store(st, p, ty, z3.If(ok, tobv(n), tobv(old)))
        return [(st, [old, ok])]

    def rmw(self, st, k, p, ty, v):
        if not isinstance(p, Ptr) and self.memory: p = self.memory.resolve_raw(self, st, p)
        if isinstance(p, Ptr) and p.kind not in ('local', 'glob'):
            return self.memory.rmw(self, st, k, self.resolve_idx(p), ty, v)
        if isinstance(p, Ptr) and p.kind == 'glob' and self.memory:
            r = self.memory.glob_rmw(self, st, k, p, ty, v)
            if r is not None: return r
        (st, old), = self.load(st, p, ty)
        nv = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'or': lambda: old | v, 'and': lambda: old & v,
              'xor': lambda: old ^ v}[k]()
        self.store(st, p, ty, nv)
        return [(st, old)]

    def call(self, st, ins):
        f = st.fr
        callee = ins.x['callee']
        if callee[0] == 'g': name = callee[1]
        else:
            v = self.val(st, callee, PTR)
            if not (isinstance(v, Ptr) and v.kind == 'func'): raise Unsupported('indirect call at ' + st.where())
            name = v.base
        args = []
        for t, a in ins.x['args']:
            args.append(None if t.k == 'metadata' else self.val(st, a, t))
        normal = ins.x.get('normal')
        for pred, h in self.contracts:
            if pred(name):
                outs = h(self, st, name, args, ins)
                if outs is NotImplemented: continue
                return self.ret_from(outs, ins, normal)
        if self.mod.has(name):
            f.i += 1
            self.call_into(st, name, args, ins.res, normal)
            return [st]
        outs = self.builtin(st, name, args, ins)
        return self.ret_from(outs, ins, normal)

    def ret_from(self, outs, ins, normal):
        res = []
        for s, v in outs:
            if isinstance(v, Throw):
                s.g['exc'] = v.types
                res += self.unwind(s, True)
                continue
            if ins.res is not None: s.fr.env[ins.res] = v
            s.fr.i += 1
            if normal is not None:
                nv = self.phis(s, normal, s.fr.bb)
                s.fr.env.update(nv); s.fr.prev, s.fr.bb, s.fr.i = s.fr.bb, normal, 0
            res.append(s)
        return res

    def unwind(self, st, here):
        """an exception a contract throws: on to the next handler or cleanup (here: st stands at the call)"""
        while st.frames:
            f = st.fr
            lab = f.fn.blocks[f.bb][f.i if here else f.i - 1].x.get('unwind')
            if lab:
                f.env.update(self.phis(st, lab, f.bb)); f.prev, f.bb, f.i = f.bb, lab, 0
                return [st]
            here = False
            if len(st.frames) == 1: break
            st.frames.pop()
        self.memory.on_uncaught(self, st)
        return []

    def builtin(self, st, name, args, ins):
        if name.startswith('llvm.') or name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort'):
            if name.startswith('llvm.x86.sse.sfence') or name.startswith('llvm.x86.sse2.clflush') or 'clwb' in name or 'clflushopt' in name \
                    or 'fence' in name:
                if self.memory: self.memory.persist_op(self, st, name, args)
                return [(st, None)]
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                n = conc(simp(args[2]))
                if n is None: 
                    r = self.memory.memcpy(self, st, args) if self.memory and hasattr(self.memory, 'memcpy') else None
                    if r is None: raise Unsupported('memcpy of symbolic length')
                    return r
                return self.memcpy_const(st, args[0], args[1], n)
            if name.startswith('llvm.memset'):
                n = conc(simp(args[2]))
                if n is None or n > 4096: raise Unsupported('memset')
                for i in range(n): self.store(st, self.gep(args[0], Ty('int', 8), [(Ty('int', 64), bv(i))]), Ty('int', 8), args[1])
                return [(st, None)]
            if name.startswith('llvm.bswap'):
                v = args[0]; n = v.size()
                return [(st, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)]))]
            if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
                a, b = args
                c = z3.ULT(a, b) if 'umin' in name else z3.UGT(a, b)
                return [(st, z3.If(c, a, b))]
            if name.startswith('llvm.fshl'):
                a, b, c = args
                n = a.size(); k = z3.URem(c, bv(n, n))
                return [(st, z3.If(k == 0, a, (a << k) | z3.LShR(b, bv(n, n) - k)))]
            if name.startswith('llvm.eh.typeid.for'): return [(st, bv(TYPEID('@' + args[0].base), 32))]
            if name.startswith('llvm.threadlocal.address'): return [(st, args[0])]
            if name.startswith('llvm.expect'): return [(st, args[0])]
            if name.startswith('llvm.trap'): return []
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stackre', 'llvm.stacksa', 'llvm.prefetch')): return [(st, None)]
            if name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort'): return []
        if name == '__assert_fail':
            m = self.cstr(st, args[0])
            if self.memory and hasattr(self.memory, 'on_assert'): self.memory.on_assert(self, st, m)
            return []
        if self.memory:
            r = self.memory.external(self, st, name, args, ins)
            if r is not None: return r
        raise Unsupported('call of %s (no body, no contract) at %s' % (name, st.where()))

    def cstr(self, st, p):
        try:
            out = ''
            for i in range(300):
                c = conc(self.glob_const(st, Ptr('glob', p.base, p.off + i), Ty('int', 8)))
                if not c: break
                out += chr(c)
            return out
        except Exception: return '?'

    def memcpy_const(self, st, d, s, n):
        k = 0
        while k < n:
            # copy by the source's cells when they are known, else 8/4/2/1 bytes
            sz = 8 if n - k >= 8 else 4 if n - k >= 4 else 2 if n - k >= 2 else 1
            if isinstance(s, Ptr) and s.kind == 'local':
                s2 = self.resolve_idx(s)
                c = st.mem[s2.base].get(s2.off + k) if not s2.idx else None
                if c is not None and c[0] <= n - k:
                    outs = self.store(st, self.gep(d, Ty('int', 8), [(Ty('int', 64), bv(k))]),
                                      PTR if isinstance(c[1], Ptr) else Ty('int', 8 * c[0]), tobv(c[1], 8) if z3.is_bool(c[1]) else c[1])
                    st, = outs
                    k += c[0]; continue
            ty = Ty('int', 8 * sz)
            (st, v), = self.load(st, self.gep(s, Ty('int', 8), [(Ty('int', 64), bv(k))]), ty)
            st, = self.store(st, self.gep(d, Ty('int', 8), [(Ty('int', 64), bv(k))]), ty, v)
            k += sz
        return [(st, None)]


class Throw:
    """the result of a contract that throws: the type's type_info symbol and those of its bases"""
    def __init__(self, *types): self.types = types


def TYPEID(sym): return 1 if sym == 'null' else 2 + (zlib.crc32(sym.encode()) >> 2)


class Skip(Exception):
    pass


def hints_to_json(e):
    def tup(x): return list(x) if isinstance(x, tuple) else x
    return {k: {'mod': sorted(map(list, v['mod']), key=str), 'ghosts': sorted(map(list, v['ghosts']), key=str), 'kinds': v['kinds'], 'inv': sorted(v['inv']), 'vars': v['vars']}
            for k, v in e.learnt.items()}


def hints_from_json(d):
    return {k: {'mod': [tuple(x) for x in v['mod']], 'ghosts': [tuple(x) for x in v['ghosts']], 'kinds': v['kinds'], 'inv': set(v['inv']), 'vars': v['vars'], 'drops': v.get('drops', {})} for k, v in d.items()}
