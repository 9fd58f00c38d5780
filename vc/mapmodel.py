"""Rely-guarantee model of the cliff map's shared memory, and the contracts of its functions.

Shared state is seen only through atomic accesses.  Every access appends an *event*; the facts another thread can never
undo (keys stay, frozen values stay, successors stay, ...) relate it to the earlier events of the path.  The same facts
are what every own write is obliged to respect, so each thread's guarantee is every other thread's rely.

Immutable prophecy functions:  LEN(T), PAIRS(T), KEY(T,i) (the key slot i of T will hold once claimed),
FZ(T,i) (the value the slot will be frozen with), NEXT(T) (the table that will replace T).
Stable predicates about the key of the running operation (k):
  PREF(T,n)   the first n slots of k's probe sequence in T hold other keys
  NEV(T)      k was never in T, and cannot get there any more
  CLOSED(T)   k can never (again) receive a value in T
  ADM(T)      every table before T is closed for k: an operation on k may work in T
  OBS(v)      at some moment of the operation, v was k's value (VINITIAL/VTOMBSTONE: absent)
  OBSABS      at some moment of the operation, k was absent
  PRES(T)     a value was placed for k in T
  CT(T)       T is where the frozen value of the source slot may be copied to
"""
from engine import *
from mem import *
import build, re
from ir import is_lambda

B64 = z3.BitVecSort(64)
BOOL = z3.BoolSort()
fn = lambda n, *s: z3.Function(n, *s)
LEN, PAIRS, NEXT = fn('LEN', B64, B64), fn('PAIRS', B64, B64), fn('NEXT', B64, B64)
KEY, FZ = fn('KEY', B64, B64, B64), fn('FZ', B64, B64, B64)
HASH = fn('HASH', B64, B64)
LIM = fn('LIMIT', B64, B64)
NEV = fn('NEV', B64, BOOL)
PREF, CLOSED, ADM, PRES, CT = fn('PREF', B64, B64, BOOL), fn('CLOSED', B64, BOOL), fn('ADM', B64, BOOL), fn('PRES', B64, BOOL), fn('CT', B64, BOOL)
OBS, POBS = fn('OBS', B64, BOOL), fn('POBS', B64, BOOL)
OBSABS, POBSABS = z3.Bool('OBSABS'), z3.Bool('POBSABS')
ONE, TWO, ZERO = bv(1), bv(2), bv(0)
ALLP = ('U01', 'U02', 'U03', 'U04', 'U05', 'U06', 'U07', 'U08', 'U09', 'U10', 'U12', 'U13')


def umin(a, b): return z3.If(z3.ULT(a, b), a, b)


def hit(c):
    return z3.is_true(z3.simplify(c))


class MapMemory(GhostMemory):
    def __init__(self, mod, asserts=False):
        self.mod = mod
        self.c = build.constants(mod)
        c = self.c
        self.off = {c['vo_pairs']: 'pairs', c['vo_len']: 'len', c['vo_size']: 'size', c['vo_slots']: 'slots', c['vo_new']: 'new',
                    c['vo_id']: 'id', c['vo_idx']: 'cidx', c['vo_done']: 'cdone'}
        def sent(n):
            r = [v for k, v in mod.global_init.items() if re.match(r'_ZN17ConcurrentHashMapI.*E%d%sE$' % (len(n), n), k)]
            if r: return tobv(r[0])
            for k, t in mod.globals.items():
                if re.match(r'_ZN17ConcurrentHashMapI.*E%d%sE$' % (len(n), n), k):
                    x = re.search(r'global i64 (-?\d+)', t) or re.search(r'constant i64 (-?\d+)', t)
                    if x: return bv(int(x.group(1)))
            raise Unsupported('sentinel %s not found' % n)
        self.VINIT, self.VTOMB, self.TP = sent('VINITIAL'), sent('VTOMBSTONE'), sent('TOMBPRIME')
        self.MANY, self.NMO, self.KINIT, self.KTOMB = sent('MATCH_ANY'), sent('NO_MATCH_OLD'), sent('KINITIAL'), sent('KTOMBSTONE')
        self.asserts = asserts
        self.limit_fn = None
        self.limits = {}

    # -- vocabulary ---------------------------------------------------------------------------------------
    def realv(self, v): return z3.And(v & 7 == 0, v != self.VINIT, v != self.VTOMB, v != self.MANY, v != self.NMO)
    def realk(self, k): return z3.And(k & 7 == 0, k != self.KINIT, k != self.KTOMB)
    def marked(self, v): return v & TWO == TWO
    def absent(self, v): return z3.Or(v == self.VINIT, v == self.VTOMB)
    def match(self, old, p):
        return z3.Or(old == self.NMO, p == old, z3.And(old == self.MANY, z3.Not(self.absent(p))), z3.And(p == self.VINIT, old == self.VTOMB))
    def new_of(self, op, p):
        if op['F'] == 'cas': return op['new']
        return (z3.LShR(z3.If(self.absent(p), ZERO, p), 3) + 1) << 3

    def wf(self, T):
        l = LEN(T)
        return z3.And(T != 0, z3.UGE(l, 8), z3.ULE(l, bv(1 << 40)), l & (l - 1) == 0)

    def dist(self, st, T, i): return (i - HASH(st.g['key'])) & (LEN(T) - 1)

    def same(self, T, i, T2, i2):
        """formula: same slot"""
        a = z3.BoolVal(True) if T.eq(T2) else T == T2
        b = z3.BoolVal(True) if i.eq(i2) else i == i2
        return z3.simplify(z3.And(a, b))

    def add(self, st, *fs):
        for f in fs:
            f = z3.simplify(f)
            if not z3.is_true(f): st.pc.append(f)

    # -- tables ----------------------------------------------------------------------------------------------
    def table(self, eng, st, T):
        """register a table the path knows"""
        T = z3.simplify(T)
        if any(T.eq(x) for x in st.g['tabs']): return T
        st.g['tabs'] = st.g['tabs'] + [T]
        l = LEN(T)
        lim = self.limit(eng, l)
        self.add(st, z3.Implies(T != 0, self.wf(T)), LIM(T) == lim,
                 z3.Implies(NEXT(T) != 0, z3.And(self.wf(NEXT(T)), z3.UGT(LEN(NEXT(T)), l), NEXT(T) != T)),
                 PREF(T, ZERO), z3.Implies(PREF(T, umin(LIM(T), l)), NEV(T)), z3.Implies(NEV(T), CLOSED(T)),
                 z3.Implies(z3.And(ADM(T), CLOSED(T)), ADM(NEXT(T))))
        return T

    def limit(self, eng, l):
        """the real reprobeLimit"""
        f = z3.simplify(l).sexpr()
        if f not in self.limits:
            ns = [n for n in self.mod.src if '::reprobeLimit(unsigned long)' in self.mod.dem[n]]
            r = bv(10) + z3.LShR(l, 2)
            if ns:
                e = Engine(self.mod, Memory()); st = State(); out = []
                e.call_into(st, ns[0], [l], None)
                try:
                    e.run(st, lambda s, v: out.append(v))
                    if len(out) == 1: r = out[0]
                except Unsupported: pass
            self.limits[f] = r
        return self.limits[f]

    def adm_now(self, eng, st, T):
        if not st.g.get('trackadm'): return False
        return eng.holds(st, ADM(T), 2000)

    # -- events -----------------------------------------------------------------------------------------------
    def ev(self, st, e): st.g['ev'] = st.g['ev'] + [e]

    def nset(self, st, T, cond):
        st.g['nset'] = st.g['nset'] + [(T, cond)]

    def nset_now(self, st, T):
        return z3.Or([z3.And(T2 == T, c) for T2, c in st.g['nset']] + [z3.BoolVal(False)])

    def ev_key(self, eng, st, T, i, k, pers=True, own=False):
        T = self.table(eng, st, T)
        self.add(st, z3.Or(k == self.KINIT, k == KEY(T, i)), z3.Or(KEY(T, i) == self.KTOMB, self.realk(KEY(T, i))))
        for e in st.g['ev']:
            if e[0] in 'KV':
                s = self.same(T, i, e[1], e[2])
                if z3.is_false(s): continue
                if e[0] == 'K': self.add(st, z3.Implies(z3.And(s, e[3] != self.KINIT), k != self.KINIT))
                else: self.add(st, z3.Implies(z3.And(s, e[3] != self.VINIT, e[3] != self.TP), z3.And(k != self.KINIT, k != self.KTOMB)))
        self.ev(st, ('K', T, i, k))
        self.nset(st, T, k == self.KTOMB)
        if st.g.get('key') is not None:
            key, d = st.g['key'], self.dist(st, T, i)
            self.add(st, z3.Implies(PREF(T, LEN(T)), z3.And(PREF(T, d), PREF(T, d + 1))), z3.Implies(z3.And(PREF(T, d), k != self.KINIT, k != self.KTOMB, k != key), PREF(T, d + 1)),
                     z3.Implies(z3.And(PREF(T, d), k == self.KTOMB), NEV(T)))
            if self.adm_now(eng, st, T):
                f = z3.And(PREF(T, d), z3.ULT(d, LIM(T)), k == self.KINIT)
                self.add(st, z3.Implies(f, OBSABS))
                if pers: self.add(st, z3.Implies(f, POBSABS))

    def ev_val(self, eng, st, T, i, v, pers=True, own=False):
        T = self.table(eng, st, T)
        self.add(st, z3.Or(self.absent(v), v == self.TP, self.realv(v), z3.And(self.marked(v), self.realv(v ^ TWO), v == FZ(T, i))))
        self.add(st, z3.Implies(z3.And(v != self.VINIT, v != self.TP), self.realk(KEY(T, i))))
        if not own:
            for e in st.g['ev']:
                if e[0] != 'V': continue
                s = self.same(T, i, e[1], e[2])
                if z3.is_false(s): continue
                o = e[3]
                self.add(st, z3.Implies(s, z3.And(z3.Implies(o != self.VINIT, v != self.VINIT),
                                                  z3.Implies(o == self.TP, v == self.TP),
                                                  z3.Implies(self.marked(o), z3.Or(v == o, v == self.TP)))))
        # the source of a copy is still waiting: the successor of a closed copy target becomes a target
        if st.g.get('src') is not None:
            ST, SI, SV = st.g['src']
            if SV is None: SV = FZ(ST, SI)
            still = z3.And(self.same(T, i, ST, SI), v == SV, v != self.TP)
            for X, cond in st.g['closed']:
                self.add(st, z3.Implies(z3.And(still, cond, CT(X)), CT(NEXT(X))))
        self.ev(st, ('V', T, i, v))
        self.nset(st, T, self.marked(v))
        if st.g.get('key') is not None:
            key = st.g['key']
            here = KEY(T, i) == key
            self.add(st, z3.Implies(z3.And(here, v == self.TP), CLOSED(T)),
                     z3.Implies(z3.And(here, v != self.VINIT, v != self.TP), PRES(T)))
            if self.adm_now(eng, st, T):
                # a frozen value is current until it is dropped: nobody works for the key in a newer table before that
                for O in (OBS, POBS) if pers else (OBS,):
                    self.add(st, z3.Implies(here, z3.If(self.marked(v), z3.Or(v == self.TP, O(v ^ TWO)), O(v))))

    def ev_next(self, eng, st, T, r):
        T = self.table(eng, st, T)
        self.add(st, z3.Or(r == 0, r == NEXT(T)), z3.Implies(self.nset_now(st, T), r != 0))
        # a table that only this thread has is nobody's successor
        self.add(st, *[z3.Implies(r != 0, r != x) for x in st.g['fresh']])
        self.nset(st, T, r != 0)
        if 'gh:szsum' in st.g: st.g['gh:szend'] = simp(z3.Or(st.g['gh:szend'], z3.And(st.g['gh:szany'], T == st.g['gh:szlast'], r == 0)))
        if st.g.get('key') is not None and self.adm_now(eng, st, T):
            self.add(st, z3.Implies(z3.And(r == 0, NEV(T)), z3.And(OBSABS, POBSABS)))
        self.table(eng, st, r)

    # -- addresses --------------------------------------------------------------------------------------------
    def slot(self, p):
        b = p.base
        if not (z3.is_app(b) and b.decl().eq(PAIRS)): raise Unsupported('pairs of an unknown table')
        sz = self.c['vo_pair']
        i = bv(p.off // sz)
        for s, x in p.idx:
            if s % sz: raise Unsupported('odd stride into the pairs')
            i = i + (s // sz) * x
        f = p.off % sz
        what = 'K' if f == self.c['vo_key'] else 'V' if f == self.c['vo_val'] else None
        if what is None: raise Unsupported('odd offset into a pair')
        return b.arg(0), z3.simplify(i), what

    def inb(self, eng, st, T, i):
        eng.oblige(st, 'a slot access stays inside of its table', z3.ULT(i, LEN(T)), {'U12'})

    def livet(self, eng, st, T):
        eng.oblige(st, 'the table pointer is not null', T != 0, {'U12'})
        for x in st.g.get('freed', ()):
            eng.oblige(st, 'no table is used after it was unmapped', T != x, {'U12'})

    # -- accesses -----------------------------------------------------------------------------------------------
    def load(self, eng, st, p, ty, atomic):
        if p.kind == 'cont':
            if p.off == self.c['vo_cont']: return [(st, Ptr('map', z3.BitVec('hashmap', 64)))]
        if p.kind == 'map':
            if p.off == self.c['vo_top']:
                self.need_atomic(eng, st, atomic)
                t = eng.fresh('top')
                t = self.table(eng, st, t)
                self.add(st, t != 0, ADM(t))
                st.g['tops'] = st.g['tops'] + [t]
                return [(st, Ptr('table', t))]
        if p.kind == 'table' and not p.idx:
            T, f = p.base, self.off.get(p.off)
            self.livet(eng, st, T)
            T = self.table(eng, st, T)
            if f == 'pairs': return [(st, Ptr('pairs', PAIRS(T)))]
            if f == 'len': return [(st, LEN(T))]
            if f == 'new':
                self.need_atomic(eng, st, atomic)
                r = eng.fresh('next')
                self.ev_next(eng, st, T, r)
                return [(st, Ptr('table', r))]
            if f == 'id': return [(st, eng.fresh('id'))]
            if f in ('size', 'slots', 'cidx', 'cdone'):
                self.need_atomic(eng, st, atomic)
                v = eng.fresh(f)
                if f == 'cdone': self.done_load(eng, st, T, v)
                if f == 'size': st.pc.append(z3.And(v > -(1 << 59), v < (1 << 59)))       # one per slot and unfinished operation (assumed)
                if f == 'size' and 'gh:szsum' in st.g:
                    g = st.g
                    first = z3.And(z3.Not(g['gh:szany']), z3.Or([T == t for t in g['tops']] + [z3.BoolVal(False)]))
                    eng.oblige(st, 'the entries of the current table and of each of its successors are counted, once each', z3.Or(first, z3.And(g['gh:szany'], T == NEXT(g['gh:szlast']))), {'U07'})
                    g.update({'gh:szsum': simp(g['gh:szsum'] + v), 'gh:szlast': T, 'gh:szany': z3.BoolVal(True), 'gh:szend': z3.BoolVal(False)})
                return [(st, v)]
        if p.kind == 'pairs':
            T, i, w = self.slot(p)
            self.need_atomic(eng, st, atomic)
            self.livet(eng, st, T); self.inb(eng, st, T, i)
            v = eng.fresh('raw' + w)
            d = eng.fresh('dirty')
            self.add(st, z3.ULE(d, 1))
            (self.ev_key if w == 'K' else self.ev_val)(eng, st, T, i, v, pers=False)
            return [(st, v | d)]
        raise Unsupported('load of %r' % p)

    def need_atomic(self, eng, st, atomic):
        eng.oblige(st, 'shared words are read atomically', z3.BoolVal(bool(atomic)), {'U10', 'U12'})

    def store(self, eng, st, p, ty, v, atomic):
        if p.kind in ('pairs', 'table', 'map'):
            eng.oblige(st, 'shared words are never overwritten blindly (%s)' % (self.off.get(p.off, p.kind) if p.kind == 'table' else p.kind),
                       z3.BoolVal(False), {'U01', 'U03', 'U04', 'U08', 'U10'})
            return [st]
        raise Unsupported('store to %r' % p)

    def cmpxchg(self, eng, st, p, ty, e, n, weak):
        if p.kind == 'table' and self.off.get(p.off) == 'new': return self.cas_next(eng, st, p.base, e, n, weak)
        if p.kind == 'map' and p.off == self.c['vo_top']: return self.cas_top(eng, st, e, n, weak)
        if p.kind == 'table' and self.off.get(p.off) == 'cidx':
            ok = st.copy()
            v = eng.fresh('cidx')
            return [(ok, [e, z3.BoolVal(True)]), (st, [v, z3.BoolVal(False)])]
        if p.kind == 'pairs':
            T, i, w = self.slot(p)
            self.livet(eng, st, T); self.inb(eng, st, T, i)
            bad = st.copy()
            e, n = tobv(e), tobv(n)
            ov, nv = e & ~ONE, n & ~ONE
            eng.oblige(st, 'a word is stored with its dirty flag set', n & ONE == ONE, {'U10'})
            self.own_write(eng, st, T, i, w, ov, nv)
            v = eng.fresh('raw' + w); d = eng.fresh('dirty')
            self.add(bad, z3.ULE(d, 1), (v | d) != e)
            (self.ev_key if w == 'K' else self.ev_val)(eng, bad, T, i, v, pers=False)
            return [(s, r) for s, r in ((st, [e, z3.BoolVal(True)]), (bad, [v | d, z3.BoolVal(False)])) if eng.feasible(s)]
        raise Unsupported('cmpxchg on %r' % p)

    def cas_next(self, eng, st, T, e, n, weak):
        self.livet(eng, st, T)
        T = self.table(eng, st, T)
        e, n = tobv(e), tobv(n)
        bad = st
        st = bad.copy()
        # success
        self.add(st, z3.Implies(self.nset_now(st, T), e != 0), z3.Or(e == 0, e == NEXT(T)))
        if eng.feasible(st):
            eng.oblige(st, 'a successor is only placed where there is none', e == 0, {'U08'})
            own = z3.Or([n == x for x in st.g['fresh']] + [z3.BoolVal(False)])
            eng.oblige(st, 'a successor is a newly made table that nobody else has', own, {'U08'})
            eng.oblige(st, 'a successor is larger, and a power of two', z3.And(z3.UGT(LEN(n), LEN(T)), LEN(n) & (LEN(n) - 1) == 0), {'U08', 'U12'})
            self.add(st, n == NEXT(T))
            st.g['fresh'] = [x for x in st.g['fresh'] if not eng.holds(st, x == n)]
            self.nset(st, T, z3.BoolVal(True))
        r = eng.fresh('next')
        self.ev_next(eng, bad, T, r)
        if not weak: self.add(bad, r != e)
        outs = [(st, [Ptr('table', e), z3.BoolVal(True)]), (bad, [Ptr('table', r), z3.BoolVal(False)])]
        return [(s, v) for s, v in outs if eng.feasible(s)]

    def cas_top(self, eng, st, e, n, weak):
        e, n = tobv(e), tobv(n)
        bad = st.copy()
        T = self.table(eng, st, e)
        eng.oblige(st, 'a table is promoted only over its predecessor', z3.And(n == NEXT(T), n != 0, self.nset_now(st, T)), {'U08'})
        lbs = [z3.UGE(b, LEN(T)) for X, b in st.g['lb'] if X.eq(T) or eng.holds(st, X == T)]
        eng.oblige(st, 'a table is promoted only after every slot of its predecessor was reported migrated', z3.Or(lbs + [z3.BoolVal(False)]), {'U08', 'U09'})
        t = eng.fresh('top')
        t = self.table(eng, bad, t)
        self.add(bad, t != 0)
        if not weak: self.add(bad, t != e)
        return [(s, v) for s, v in ((st, [Ptr('table', e), z3.BoolVal(True)]), (bad, [Ptr('table', t), z3.BoolVal(False)])) if eng.feasible(s)]

    def done_load(self, eng, st, T, v):
        cr = self.acc(st, 'credit', T)
        self.add(st, z3.ULE(v, LEN(T)), z3.ULE(cr, LEN(T)), z3.ULE(v + cr, LEN(T)))
        st.g['lb'] = st.g['lb'] + [(T, v)]

    def rmw(self, eng, st, k, p, ty, v):
        if p.kind == 'table' and not p.idx:
            T, f = p.base, self.off.get(p.off)
            self.livet(eng, st, T)
            T = self.table(eng, st, T)
            v = tobv(v)
            if k == 'sub': k, v = 'add', -v
            if k != 'add': raise Unsupported('rmw ' + k)
            o = eng.fresh(f)
            if f in ('size', 'slots'):
                self.acc_add(st, 'd' + f, T, -v, eng)
                return [(st, o)]
            if f == 'cdone':
                cr = self.acc(st, 'credit', T, eng)
                eng.oblige(st, 'a thread reports only slots whose migration it completed itself', z3.ULE(v, cr), {'U08', 'U09'})
                self.done_load(eng, st, T, o)
                st.g['lb'] = [(X, b + v) if X.eq(T) else (X, b) for X, b in st.g['lb']]
                self.acc_add(st, 'credit', T, -v, eng)
                return [(st, o)]
            if f == 'cidx': return [(st, o)]
        if p.kind == 'pairs':
            T, i, w = self.slot(p)
            eng.oblige(st, 'slots are only changed by compare-and-swap', z3.BoolVal(False), {'U01', 'U03', 'U04', 'U10'})
            return [(st, eng.fresh('rmw'))]
        raise Unsupported('rmw on %r' % p)

    # per-table ghost accounts -------------------------------------------------------------------------------------
    def acc_key(self, st, what, T, eng=None):
        k = 'gh:%s:%s' % (what, T.sexpr())
        if k in st.g or eng is None: return k
        for k2 in st.g:
            if isinstance(k2, str) and k2.startswith('gh:%s:' % what):
                if eng.holds(st, st.g['tabof'][k2] == T, 1000): return k2
        return k

    def acc(self, st, what, T, eng=None): return st.g.get(self.acc_key(st, what, T, eng), ZERO)

    def acc_add(self, st, what, T, d, eng=None):
        k = self.acc_key(st, what, T, eng)
        st.g[k] = simp(st.g.get(k, ZERO) + d)
        if k not in st.g['tabof']:
            st.g['tabof'] = dict(st.g['tabof']); st.g['tabof'][k] = T

    def ghost_diff(self, base, b):
        out = []
        for k in set(base.g) | set(b.g):
            if not (isinstance(k, str) and k.startswith('gh:')): continue
            x, y = base.g.get(k, ZERO), b.g.get(k, ZERO)
            if not x.eq(y): out.append(('ghost', k))
        return out

    def ghost_value(self, st, key): return st.g.get(key[1], ZERO)

    def havoc(self, eng, st, ghosts, phi):
        for g in ghosts:
            v = st.g.get(g[1], ZERO)
            nv = eng.fresh(g[1].split(':')[1], 1 if z3.is_bool(v) else 64)
            st.g[g[1]] = nv
            phi[g] = nv

    # -- own writes ----------------------------------------------------------------------------------------------------
    def own_write(self, eng, st, T, i, w, ov, nv):
        if w == 'K': self.own_key(eng, st, T, i, ov, nv)
        else: self.own_val(eng, st, T, i, ov, nv)

    def own_key(self, eng, st, T, i, ov, nv):
        T = self.table(eng, st, T)
        self.ev_key(eng, st, T, i, ov)
        if not eng.feasible(st): return
        key = st.g.get('opkey')
        eng.oblige(st, 'a key is only placed in an unclaimed slot', ov == self.KINIT, {'U01'})
        retire = z3.And(nv == self.KTOMB, self.nset_now(st, T))
        if key is None: eng.oblige(st, 'a slot is retired only once a larger table exists', retire, {'U01', 'U02'})
        else:
            eng.oblige(st, 'a slot is claimed for the key of the operation, or retired once a larger table exists',
                       z3.Or(retire, z3.And(nv == key, self.realk(nv))), {'U01', 'U02'})
            d = self.dist(st, T, i)
            eng.oblige(st, 'a key is claimed at its first free probe position, within the reprobe limit',
                       z3.Or(retire, z3.And(PREF(T, d), z3.ULT(d, LIM(T)))), {'U02'})
            self.acc_add(st, 'dslots', T, z3.If(nv == self.KTOMB, ZERO, ONE))
        # from now on the slot holds it
        self.add(st, KEY(T, i) == nv)
        self.ev(st, ('K', T, i, nv))
        self.nset(st, T, nv == self.KTOMB)

    def own_val(self, eng, st, T, i, p, w):
        T = self.table(eng, st, T)
        self.ev_val(eng, st, T, i, p)
        if not eng.feasible(st): return
        ns = self.nset_now(st, T)
        retire = z3.And(self.absent(p), w == self.TP, ns)
        mark = z3.And(self.realv(p), w == p | TWO, ns)
        frozen = self.marked(p)
        eng.oblige(st, 'a frozen value only ever becomes the migrated marker', z3.Implies(frozen, z3.And(w == self.TP, p != self.TP)), {'U03'})
        eng.oblige(st, 'a value is never set back to the initial one', w != self.VINIT, {'U03', 'U04'})
        eng.oblige(st, 'a value is frozen, unchanged, only once a larger table exists', z3.Implies(z3.And(self.marked(w), z3.Not(frozen)), z3.Or(retire, mark)), {'U03', 'U09'})
        # migrated
        ev = [z3.BoolVal(False)]
        if st.g.get('src') is not None:
            ST, SI, SV = st.g['src']
            ev += [z3.And(CT(X), PRES(X), self.same(T, i, ST, SI)) for X in st.g['tabs']]
        eng.oblige(st, 'a frozen value is dropped only after it was placed in the table that takes over', z3.Implies(frozen, z3.Or(ev)), {'U09', 'U08'})
        # installs
        op = st.g.get('op')
        inst = z3.And(z3.Not(self.marked(w)), z3.Not(frozen))
        if op is None:
            eng.oblige(st, 'no value is changed outside of an update or a copy', z3.Not(inst), {'U04'})
        else:
            hk = z3.Or([z3.And(self.same(T, i, e[1], e[2]), e[3] == op['key']) for e in st.g['ev'] if e[0] == 'K'] + [z3.BoolVal(False)])
            eng.oblige(st, "an update changes only the slot of its own key", z3.Implies(inst, z3.And(hk, self.realk(op['key']))), {'U02', 'U04', 'U01'})
            if op['mode'] == 'copy':
                eng.oblige(st, 'a copy only fills an untouched slot, with the frozen value', z3.Implies(inst, z3.And(p == self.VINIT, w == op['new'])), {'U09'})
                eng.oblige(st, 'a copy goes only to the table that takes over', z3.Implies(inst, CT(T)), {'U09'})
            else:
                eng.oblige(st, 'an update works in the table that is current for its key', z3.Implies(inst, ADM(T)), {'U04', 'U09'})
                eng.oblige(st, 'an update replaces only a value that matches its expectation', z3.Implies(inst, self.match(op['old'], p)), {'U04'})
                eng.oblige(st, 'an update places the new value it was asked to place', z3.Implies(inst, w == self.new_of(op, p)),
                           {'U04', 'U06'} if op['F'] == 'inc' else {'U04'})
                eng.oblige(st, 'an update takes effect at most once', z3.Implies(inst, z3.Not(st.g['gh:inst'])), {'U04', 'U06'})
                st.g['gh:iprev'] = simp(z3.If(inst, p, st.g['gh:iprev']))
                st.g['gh:inst'] = simp(z3.Or(inst, st.g['gh:inst']))
        # what the table holds: an entry counts from its first value until it is removed, or migrated
        cnt = lambda x: z3.If(z3.Or(self.absent(x), x == self.TP), ZERO, ONE)
        self.acc_add(st, 'dsize', T, simp(cnt(w) - cnt(p)), eng)
        self.acc_add(st, 'credit', T, z3.If(w == self.TP, ONE, ZERO), eng)
        if not eng.feasible(st): return
        self.add(st, z3.Or(self.absent(w), w == self.TP, self.realv(w), z3.And(self.marked(w), self.realv(w ^ TWO), w == FZ(T, i))))
        self.ev(st, ('V', T, i, w))
        self.nset(st, T, self.marked(w))
        if st.g.get('key') is not None:
            here = KEY(T, i) == st.g['key']
            self.add(st, z3.Implies(z3.And(here, w == self.TP), CLOSED(T)), z3.Implies(z3.And(here, w != self.VINIT, w != self.TP), PRES(T)))

    # -- other accesses -----------------------------------------------------------------------------------------------
    def glob_rmw(self, eng, st, k, p, ty, v):
        if 'fileNameCounter' in p.base: return [(st, eng.fresh('count'))]
        return None

    def glob_load(self, eng, st, p, ty, atomic):
        if 'fileNameCounter' in p.base: return [(st, eng.fresh('count'))]
        return None

    def resolve_raw(self, eng, st, p):
        if z3.is_expr(p) and conc(z3.simplify(p)) == 0: 
            eng.oblige(st, 'the table pointer is not null', z3.BoolVal(False), {'U12'})
        if z3.is_expr(p):
            for T in st.g['tabs']:
                d = conc(z3.simplify(p - T))
                if d is not None and d < 4096: return Ptr('table', T, d)
            for T in st.g['tabs']:
                if eng.holds(st, p == T): return Ptr('table', T)
        return p

    def havoc_ptr(self, eng, st, v):
        return None

    def external(self, eng, st, name, args, ins):
        if name in ('_ZNSt6chrono3_V212steady_clock3nowEv',): return [(st, eng.fresh('ext'))]
        return None

    def on_assert(self, eng, st, m, goal=None):
        if self.asserts:
            eng.oblige(st, 'assertion: ' + m, z3.BoolVal(False) if goal is None else goal, {'U13'})


# ==================================================================================================================
def roles(mod):
    R = {}
    def put(role, pat, excl=None):
        for n in list(mod.src) + list(mod.decls):
            d = mod.dem.get(n, n)
            if re.search(pat, d) and not is_lambda(d) and not (excl and re.search(excl, d)): R.setdefault(role, []).append(n)
    CH = r'ConcurrentHashMap<unsigned long, unsigned long, std::hash<unsigned long> ?>::'
    put('pcas_read', r'^(unsigned long |static )?.*\bpcas_read<')
    put('pcas', r'\bpcas<')
    put('hash', r'^std::hash<unsigned long>::operator\(\)')
    put('pim', '^' + CH + r'putIfMatch\(' + CH + r'Table\*, ')
    put('pubpim', '^' + CH + r'putIfMatch\(unsigned long')
    put('copySlot', r'::CHM::copySlot\(')
    put('copyCheck', r'::CHM::copyCheckAndPromote\(')
    put('copySlotAndCheck', r'::CHM::copySlotAndCheck\(')
    put('resize', r'::CHM::resize\(')
    put('helpCopyImpl', r'::CHM::helpCopyImpl\(')
    put('helpCopy', '^' + CH + r'helpCopy\(')
    put('getImpl', '^' + CH + r'getImpl\(')
    put('mmapTable', r'::Table::mmapTable\(')
    put('munmapTable', r'::Table::munmapTable\(')
    put('fileName', r'::getOrderedFileName(\[[^\]]*\])?\(')
    put('string', r'^(std::__cxx11::basic_string<char[^()]*> )?std::(__cxx11::)?(basic_string|allocator|to_string|operator\+<char)')
    for n in ('put', 'putIfAbsent', 'remove', 'replace', 'update', 'get', 'containsKey', 'size', 'isEmpty'):
        put('api:' + n, '^' + CH + n + r'\(')
    put('casvalue', r'::Table::CASvalue\(')
    put('increment', r'::Table::increment\(')
    for n in ('insert', 'erase', 'contains', 'get', 'count', 'increment'): put('ucf:' + n, r'^ucf::container_type::' + n + r'\(')
    put('isKeyReserved', r'::isKeyReserved\('); put('isValueReserved', r'::isValueReserved\(')
    return R


class Map:
    """engine + contracts for one verification run"""

    def __init__(self, mod, asserts=False):
        self.mod = mod
        self.m = MapMemory(mod, asserts)
        self.eng = Engine(mod, self.m)
        self.R = roles(mod)
        self.role = {n: r for r, ns in self.R.items() for n in ns if r in
                     ('pcas_read', 'pcas', 'hash', 'pim', 'copySlot', 'copyCheck', 'copySlotAndCheck', 'resize', 'helpCopyImpl', 'helpCopy', 'getImpl', 'mmapTable', 'munmapTable', 'fileName', 'string')}
        self.off = set()
        self.eng.contracts.append((lambda n: n in self.role and n not in self.off, self.contract))
        self.eng.templates = [map_templates]
        self.used = set()

    def contract(self, eng, st, name, args, ins):
        r = self.role[name]
        if r in self.off: return NotImplemented
        out = getattr(self, 'c_' + r)(eng, st, args, ins)
        if out is not NotImplemented: self.used.add(r)
        return out

    # ---- contracts -----------------------------------------------------------------------------------------------
    def slot_of(self, eng, st, p):
        if not isinstance(p, Ptr): raise Unsupported('pcas on an unknown address')
        p = eng.resolve_idx(p)
        if p.kind != 'pairs': raise Unsupported('pcas outside of the pairs')
        T, i, w = self.m.slot(p)
        self.m.livet(eng, st, T); self.m.inb(eng, st, T, i)
        return T, i, w

    def c_pcas_read(self, eng, st, args, ins):
        T, i, w = self.slot_of(eng, st, args[0])
        v = eng.fresh('key' if w == 'K' else 'val')
        (self.m.ev_key if w == 'K' else self.m.ev_val)(eng, st, T, i, v)
        st.trace.append('%s reads %s of slot %s: %s' % (st.where(), w, str(i)[:60].replace('\n', ' '), v))
        return [(st, v)]

    def c_pcas(self, eng, st, args, ins):
        T, i, w = self.slot_of(eng, st, args[0])
        (st, old), = eng.load(st, args[1], Ty('int', 64))
        old, new = tobv(old), tobv(args[2])
        bad = st.copy()
        outs = []
        self.m.own_write(eng, st, T, i, w, old, new)
        st.trace.append(('%s cas %s %s->%s succeeds' % (st.where(), w, z3.simplify(old), z3.simplify(new))).replace('\n', ' '))
        if eng.feasible(st): outs.append((st, z3.BoolVal(True)))
        c = eng.fresh('key' if w == 'K' else 'val')
        (self.m.ev_key if w == 'K' else self.m.ev_val)(eng, bad, T, i, c)
        bad.pc.append(c != old)
        bad, = eng.store(bad, args[1], Ty('int', 64), c)
        bad.trace.append('%s cas %s fails' % (bad.where(), w))
        if eng.feasible(bad): outs.append((bad, z3.BoolVal(False)))
        return outs

    def c_hash(self, eng, st, args, ins): return [(st, HASH(tobv(args[1])))]

    def tab(self, a):
        return a.base if isinstance(a, Ptr) and a.kind == 'table' and not a.off and not a.idx else tobv(a)

    def c_pim(self, eng, st, args, ins):
        m = self.m
        X, key, new, old = self.tab(args[1]), tobv(args[2]), tobv(args[3]), tobv(args[4])
        X = m.table(eng, st, X)
        m.livet(eng, st, X)
        f = args[5]
        F = 'cas' if isinstance(f, Ptr) and f.base in self.R.get('casvalue', ()) else 'inc' if isinstance(f, Ptr) and f.base in self.R.get('increment', ()) else None
        r = eng.fresh('ret')
        st.g['rets'] = st.g['rets'] + [r]
        if eng.holds(st, old == m.VINIT):
            src = st.g.get('src')
            if src is None:
                eng.oblige(st, 'a copy happens only while a slot is migrated', z3.BoolVal(False), {'U09'}); return [(st, r)]
            ST, SI, SV = src
            if SV is None: SV = FZ(ST, SI)
            eng.oblige(st, 'the key and the frozen value of the slot are what is copied',
                       z3.And(key == st.g['key'], m.realk(key), new == SV & ~TWO, m.realv(new)), {'U09'})
            eng.oblige(st, 'a frozen value is copied as it is', z3.BoolVal(F == 'cas'), {'U09', 'U04'})
            seen = z3.Or([z3.And(m.same(e[1], e[2], ST, SI), e[3] == SV) for e in st.g['ev'] if e[0] == 'V'] + [z3.BoolVal(False)])
            eng.oblige(st, 'only a frozen value is copied', z3.And(m.marked(SV), seen), {'U09', 'U03'})
            eng.oblige(st, 'a value is copied only to the table that takes over', CT(X), {'U09'})
            m.add(st, z3.Implies(r == m.TP, CLOSED(X)), z3.Implies(r != m.TP, PRES(X)))
            st.g['closed'] = st.g['closed'] + [(X, r == m.TP)]
            m.nset(st, X, r == m.TP)
            return [(st, r)]
        op = st.g.get('op')
        if op is None or op['mode'] != 'user':
            eng.oblige(st, 'updates happen only on behalf of an update', z3.BoolVal(False), {'U04', 'U09'})
            return [(st, r)]
        eng.oblige(st, 'a continued update keeps its key, its values and its way of computing the new value',
                   z3.And(key == op['key'], new == op['new'], old == op['old'], z3.BoolVal(F == op['F'])), {'U04', 'U06'})
        eng.oblige(st, 'an update continues only in the table that is current for its key', ADM(X), {'U04', 'U09', 'U02'})
        eng.oblige(st, 'an update that took effect is not repeated', z3.Not(st.g['gh:inst']), {'U04', 'U06'})
        inst, prev = eng.fresh('inst', 1), eng.fresh('prev')
        st.g['gh:inst'], st.g['gh:iprev'] = inst, prev
        m.add(st, post_user(m, op, r, inst, prev, OBS, OBSABS), post_user(m, op, r, inst, prev, POBS, POBSABS))
        return [(st, r)]

    def c_copySlot(self, eng, st, args, ins):
        m = self.m
        # (this, hashMap, idx, oldTable, newTable)
        T, X, i = self.tab(args[3]), self.tab(args[4]), tobv(args[2])
        T = m.table(eng, st, T)
        m.livet(eng, st, T); m.inb(eng, st, T, i)
        eng.oblige(st, 'a slot is migrated to the successor of its table', z3.And(X == NEXT(T), X != 0, m.nset_now(st, T)), {'U09', 'U08', 'U12'})
        ret = eng.fresh('did', 1)
        m.ev_val(eng, st, T, i, m.TP)
        m.acc_add(st, 'credit', T, z3.If(ret, ONE, ZERO), eng)
        return [(st, ret)]

    def own_chm(self, eng, st, th, T, msg):
        eng.oblige(st, msg, z3.And(th.base == T, z3.BoolVal(th.off == self.m.c['vo_chm'])) if isinstance(th, Ptr) and th.kind == 'table' else z3.BoolVal(False), {'U08'})

    def c_copyCheck(self, eng, st, args, ins):
        m = self.m
        T, n = m.table(eng, st, self.tab(args[2])), tobv(args[3])
        m.livet(eng, st, T)
        self.own_chm(eng, st, args[0], T, 'migrated slots are reported to their own table')
        eng.oblige(st, 'a thread reports only slots whose migration it completed itself', z3.ULE(n, m.acc(st, 'credit', T, eng)), {'U08', 'U09'})
        eng.oblige(st, 'a table is promoted over only once it has a successor', m.nset_now(st, T), {'U08', 'U12'})
        m.acc_add(st, 'credit', T, -n, eng)
        return [(st, None)]

    def c_copySlotAndCheck(self, eng, st, args, ins):
        m = self.m
        T, i = m.table(eng, st, self.tab(args[2])), tobv(args[3])
        m.livet(eng, st, T); m.inb(eng, st, T, i)
        self.own_chm(eng, st, args[0], T, 'a slot is migrated through the control block of its own table')
        eng.oblige(st, 'a slot is migrated only once there is a successor', m.nset_now(st, T), {'U09', 'U08', 'U12'})
        m.ev_val(eng, st, T, i, m.TP)
        m.table(eng, st, NEXT(T))
        m.add(st, NEXT(T) != 0)
        return [(st, Ptr('table', NEXT(T)))]

    def c_resize(self, eng, st, args, ins):
        m = self.m
        T = m.table(eng, st, self.tab(args[2]))
        m.livet(eng, st, T)
        self.own_chm(eng, st, args[0], T, 'a table grows through its own control block')
        r = NEXT(T)
        m.add(st, r != 0)
        m.nset(st, T, z3.BoolVal(True))
        m.table(eng, st, r)
        return [(st, Ptr('table', r))]

    def c_helpCopyImpl(self, eng, st, args, ins):
        m = self.m
        T = m.table(eng, st, self.tab(args[2]))
        m.livet(eng, st, T)
        self.own_chm(eng, st, args[0], T, 'a table is migrated through its own control block')
        eng.oblige(st, 'a table is migrated only once it has a successor', m.nset_now(st, T), {'U08', 'U12'})
        return [(st, None)]

    def c_helpCopy(self, eng, st, args, ins): return [(st, args[1])]

    def c_getImpl(self, eng, st, args, ins):
        m = self.m
        X, key, h = m.table(eng, st, self.tab(args[1])), tobv(args[2]), tobv(args[3])
        m.livet(eng, st, X)
        eng.oblige(st, 'a lookup continues with its key and the full hash of it', z3.And(key == st.g['key'], h == HASH(st.g['key'])), {'U05', 'U02'})
        eng.oblige(st, 'a lookup continues only in a table that is current for its key', ADM(X), {'U05', 'U09', 'U02'})
        r = eng.fresh('ret')
        st.g['rets'] = st.g['rets'] + [r]
        m.add(st, post_get(m, r, OBS, OBSABS), post_get(m, r, POBS, POBSABS))
        return [(st, r)]

    def c_mmapTable(self, eng, st, args, ins):
        m = self.m
        nw, cap = tobool(args[0]), tobv(args[1])
        T = eng.fresh('mapped')
        eng.oblige(st, 'a replacement table is made new', nw, {'U08', 'U11'})
        eng.oblige(st, 'a new table counts no entries', tobv(args[2]) == 0, {'U07'})
        eng.oblige(st, 'a table has a power of two of slots, at least eight', z3.And(cap & (cap - 1) == 0, z3.UGE(cap, 8)), {'U12', 'U08'})
        m.add(st, T != 0, z3.And([T != x for x in st.g['tabs']] + [z3.BoolVal(True)]), LEN(T) == cap, z3.ULE(cap, bv(1 << 40)))
        m.table(eng, st, T)
        st.g['fresh'] = st.g['fresh'] + [T]
        return [(st, Ptr('table', T))]

    def c_munmapTable(self, eng, st, args, ins):
        T = self.tab(args[0])
        eng.oblige(st, 'only a table that was never published is unmapped', z3.Or([T == x for x in st.g['fresh']] + [z3.BoolVal(False)]), {'U12', 'U08'})
        st.g['fresh'] = [x for x in st.g['fresh'] if not eng.holds(st, x == T)]
        st.g['freed'] = st.g['freed'] + [T]
        return [(st, eng.fresh('ok', 1))]

    def c_fileName(self, eng, st, args, ins): return [(st, None)]

    def c_string(self, eng, st, args, ins):
        d = self.mod.dem.get(ins.x['callee'][1], '')
        t = ins.ty
        if t is None or t.k == 'void': return [(st, None)]
        if t.k == 'ptr': return [(st, Ptr('opaque', eng.fresh('str')))]
        return [(st, eng.fresh('str', t.n))]

    # ---- states ----------------------------------------------------------------------------------------------------
    def state(self, key=None):
        st = State()
        st.g.update({'ev': [], 'tabs': [], 'nset': [], 'closed': [], 'fresh': [], 'freed': [], 'lb': [], 'tabof': {}, 'key': key, 'opkey': None, 'rets': [], 'tops': [],
                     'src': None, 'op': None, 'gh:inst': z3.BoolVal(False), 'gh:iprev': ZERO})
        return st

    def accounts_zero(self, eng, s, what, msg, props):
        for k in list(s.g):
            if isinstance(k, str) and k.startswith('gh:%s:' % what): eng.oblige(s, msg, s.g[k] == 0, props)
        eng.oblige(s, msg + ' (all)', z3.BoolVal(True), props)


def post_user(m, op, r, inst, prev, obs, obsabs):
    yes = z3.And(m.match(op['old'], prev), z3.Or(r == prev, z3.And(prev == m.VINIT, r == m.VTOMB)), z3.Or(m.absent(prev), m.realv(prev)))
    same = r == op['new'] if op['F'] == 'cas' else z3.BoolVal(False)
    no = z3.Or(z3.And(op['new'] == m.VTOMB, m.absent(r), obsabs),
               z3.And(obs(r), z3.Or(m.absent(r), m.realv(r)), z3.Or(same, z3.Not(m.match(op['old'], r)))))
    return z3.If(inst, yes, no)


def post_get(m, r, obs, obsabs):
    return z3.Or(z3.And(r == m.VINIT, z3.Or(obsabs, obs(m.VTOMB), obs(m.VINIT))), z3.And(m.realv(r), obs(r)))


# ==================================================================================================================
def map_templates(eng, info):
    m = eng.memory
    phi, est = info['phi'], info['estate']
    g = est.g
    out = []
    ent = lambda k: info['entry'][k] if k in info['entry'] else (est.mem[k[1]][k[2]][1] if isinstance(k, tuple) and k[0] == 'mem' else m.ghost_value(est, k))
    vs = [k for k, v in phi.items() if v is not None and not (isinstance(k, tuple) and k[0] == 'ghost')]
    bvs = [k for k in vs if not isinstance(phi[k], Ptr) and not z3.is_bool(phi[k]) and phi[k].size() == 64]
    ptrs = [k for k in vs if isinstance(phi[k], Ptr) and phi[k].kind == 'table']
    gh = [k for k in phi if isinstance(k, tuple) and k[0] == 'ghost']
    key = g.get('key')
    tabs = list(g['tabs'])
    tn = lambda T: 't%d' % [n for n, x in enumerate(tabs) if x.eq(T)][0]
    def kn(k):
        if isinstance(k, tuple) and k[0] == 'ghost':
            w = k[1].split(':')[1]
            T = g['tabof'].get(k[1])
            n = [tn(x) for x in tabs if T is not None and x.eq(T)]
            return 'ghost %s %s' % (w, n[0] if n else '')
        return str(k)
    def eq(k, nm, tf): out.append(('%s %s' % (kn(k), nm), lambda s, p, it: tobv(p[k]) == tf(it), None, (k, tf)))
    for k in bvs:
        e0 = tobv(ent(k))
        eq(k, 'unchanged', lambda it, e0=e0: e0)
        eq(k, 'counts', lambda it, e0=e0: e0 + it)
        for T in tabs: eq(k, 'walks %s' % tn(T), lambda it, e0=e0, T=T: (e0 + it) & (LEN(T) - 1))
    for k in vs:
        if z3.is_bool(phi[k]): out.append(('%s unchanged' % (k,), lambda s, p, it, k=k, e0=ent(k): p[k] == e0))
    for k in ptrs:
        eq(k, 'unchanged', lambda it, e0=tobv(ent(k)): e0)
    if 'gh:szsum' in g:
        gv = lambda p, n: p.get(('ghost', n), g[n])
        for k in ptrs:
            e0 = tobv(ent(k))
            out.append(('%s counted last' % kn(k), lambda s, p, it, k=k, e0=e0: z3.If(gv(p, 'gh:szany'), tobv(p[k]) == gv(p, 'gh:szlast'), tobv(p[k]) == e0)))
            out.append(('%s counted next' % kn(k), lambda s, p, it, k=k, e0=e0: z3.If(gv(p, 'gh:szany'), z3.If(tobv(p[k]) == 0, gv(p, 'gh:szend'), tobv(p[k]) == NEXT(gv(p, 'gh:szlast'))), tobv(p[k]) == e0)))
        out.append(('something counted', lambda s, p, it: gv(p, 'gh:szany')))
        out.append(('the last counted is a table', lambda s, p, it: z3.Or(z3.Not(gv(p, 'gh:szany')), gv(p, 'gh:szlast') != 0), lambda s, p, it: (m.table(eng, s, gv(p, 'gh:szlast')), z3.Or(z3.Not(gv(p, 'gh:szany')), gv(p, 'gh:szlast') != 0))[1]))
    for k in gh:
        e0 = m.ghost_value(est, k)
        out.append(('%s unchanged' % kn(k), lambda s, p, it, k=k, e0=e0: p[k] == e0))
        if not z3.is_bool(e0):
            for j in bvs:
                out.append(('%s follows %s' % (kn(k), kn(j)), lambda s, p, it, k=k, j=j, e0=e0, f0=tobv(ent(j)): p[k] - e0 == tobv(p[j]) - f0))
    for k in bvs:
        out.append(('%s unmarked' % (k,), lambda s, p, it, k=k: tobv(p[k]) & 7 == 0))
        out.append(('%s not migrating' % (k,), lambda s, p, it, k=k: tobv(p[k]) & 2 == 0))
        for c, nm in ((m.VINIT, 'VINIT'), (m.TP, 'TP'), (m.VTOMB, 'VTOMB')):
            out.append(('%s not %s' % (k, nm), lambda s, p, it, k=k, c=c: tobv(p[k]) != c))
        for T in tabs:
            out.append(('%s < len %s' % (kn(k), tn(T)), lambda s, p, it, k=k, T=T: z3.ULT(tobv(p[k]), LEN(T))))
            out.append(('%s < limit %s' % (kn(k), tn(T)), lambda s, p, it, k=k, T=T: z3.ULT(tobv(p[k]), LIM(T))))
            out.append(('%s <= len %s' % (kn(k), tn(T)), lambda s, p, it, k=k, T=T: z3.ULE(tobv(p[k]), LEN(T))))
            if key is not None:
                out.append(('%s positions seen %s' % (kn(k), tn(T)), lambda s, p, it, k=k, T=T: PREF(T, umin(tobv(p[k]), LEN(T)))))
                out.append(('%s probe %s' % (kn(k), tn(T)), lambda s, p, it, k=k, T=T: (tobv(p[k]) - HASH(key)) & (LEN(T) - 1) == it & (LEN(T) - 1)))
        for j in bvs:
            if str(j) != str(k):
                out.append(('%s <= %s' % (k, j), lambda s, p, it, k=k, j=j: z3.ULE(tobv(p[k]), tobv(p[j]))))
                for T in tabs:
                    if key is not None:
                        out.append(('%s probes %s %s' % (kn(k), kn(j), tn(T)), lambda s, p, it, k=k, j=j, T=T: (tobv(p[k]) - HASH(key) - tobv(p[j])) & (LEN(T) - 1) == 0))
    for T in tabs:
        out.append(('iterations < limit %s' % tn(T), lambda s, p, it, T=T: z3.ULT(it, LIM(T))))
        out.append(('iterations < len %s' % tn(T), lambda s, p, it, T=T: z3.ULT(it, LEN(T))))
        if key is not None: out.append(('iteration positions seen %s' % tn(T), lambda s, p, it, T=T: PREF(T, umin(it, LEN(T)))))
    if g.get('op'):
        for k in bvs:
            out.append(('%s absent or real' % (k,), lambda s, p, it, k=k: z3.Or(m.absent(tobv(p[k])), m.realv(tobv(p[k])))))
    # a variable holds a value read from a slot
    slots = []
    for e in g['ev']:
        if e[0] == 'V' and not any(e[1].eq(a) and e[2].eq(b) for a, b in slots): slots.append((e[1], e[2]))
    for k in bvs:
        for sn, (T, i) in enumerate(slots):
            def chk(s, p, it, k=k, T=T, i=i):
                x = tobv(p[k])
                return z3.Or([z3.And(m.same(T, i, e[1], e[2]), e[3] == x) for e in s.g['ev'] if e[0] == 'V'] + [z3.BoolVal(False)])
            def asm(s, p, it, k=k, T=T, i=i):
                m.ev_val_again(s, T, i, tobv(p[k]))
                return z3.BoolVal(True)
            out.append(('%s was read from slot %d' % (kn(k), sn), chk, asm))
            for nm, P in (('observed', OBS), ('observed persisted', POBS)):
                out.append(('%s %s slot %d' % (kn(k), nm, sn), lambda s, p, it, k=k, P=P, T=T, i=i: z3.Implies(z3.And(KEY(T, i) == key, z3.Not(m.marked(tobv(p[k])))), P(tobv(p[k])))) if key is not None
                           else ('true', lambda s, p, it: z3.BoolVal(True)))
    for k in ptrs:
        if ent(k) is None: continue
        out.append(('%s not null' % (k,), lambda s, p, it, k=k: tobv(p[k]) != 0))
        def reg(s, p, it, k=k):
            m.table(eng, s, tobv(p[k]))
            return tobv(p[k]) != 0
        out.append(('%s a table' % (k,), lambda s, p, it, k=k: tobv(p[k]) != 0, reg))
        if key is not None:
            out.append(('%s current' % (k,), lambda s, p, it, k=k: ADM(tobv(p[k]))))
            out.append(('%s copy target' % (k,), lambda s, p, it, k=k: CT(tobv(p[k]))))
        # positions in a table that changes from iteration to iteration
        for j in bvs:
            kj = (kn(j), kn(k))
            out.append(('%s is the length of %s' % kj, lambda s, p, it, k=k, j=j: tobv(p[j]) == LEN(tobv(p[k]))))
            out.append(('%s is the mask of %s' % kj, lambda s, p, it, k=k, j=j: tobv(p[j]) == LEN(tobv(p[k])) - 1))
            out.append(('%s < len of %s' % kj, lambda s, p, it, k=k, j=j: z3.ULT(tobv(p[j]), LEN(tobv(p[k])))))
            out.append(('%s < limit of %s' % kj, lambda s, p, it, k=k, j=j: z3.ULT(tobv(p[j]), LIM(tobv(p[k])))))
            if key is None: continue
            out.append(('%s positions seen of %s' % kj, lambda s, p, it, k=k, j=j: PREF(tobv(p[k]), umin(tobv(p[j]), LEN(tobv(p[k]))))))
            out.append(('%s home in %s' % kj, lambda s, p, it, k=k, j=j: (tobv(p[j]) - HASH(key)) & (LEN(tobv(p[k])) - 1) == 0))
            for l in bvs:
                if str(j) != str(l):
                    out.append(('%s probes %s in %s' % (kn(j), kn(l), kn(k)), lambda s, p, it, k=k, j=j, l=l: (tobv(p[j]) - HASH(key) - tobv(p[l])) & (LEN(tobv(p[k])) - 1) == 0))
    return out


def ev_val_again(self, s, T, i, v):
    """a value known to have been read from the slot earlier (loop invariant)"""
    self.add(s, z3.Or(self.absent(v), v == self.TP, self.realv(v), z3.And(self.marked(v), self.realv(v ^ TWO), v == FZ(T, i))),
             z3.Implies(z3.And(v != self.VINIT, v != self.TP), self.realk(KEY(T, i))))
    self.ev(s, ('V', T, i, v))
    self.nset(s, T, self.marked(v))
    if s.g.get('key') is not None:
        here = KEY(T, i) == s.g['key']
        self.add(s, z3.Implies(z3.And(here, v == self.TP), CLOSED(T)), z3.Implies(z3.And(here, v != self.VINIT, v != self.TP), PRES(T)))


MapMemory.ev_val_again = ev_val_again
