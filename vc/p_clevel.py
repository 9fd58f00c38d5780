"""The clevel hash map (include/libpmemobj++/experimental/clevel_hash.hpp): its operations against contracts on slots, levels and meta words.

Persistent objects are named by pool offset.  The levels form one chain: level number r has the offset LV(r), the bucket
array BK(r) and the capacity CAP(r) (any strictly injective naming serves; this one is easy to decode).  A meta object M
names the levels ML(M)..MF(M) that are in use.  An entry E has a key KEYOF(E), immutable once published.  A slot word is 0
or the offset of an entry with the tag of the hash of that entry's key in its top 16 bits; every load of a slot
or of the meta word returns any word other threads may have put there (within that invariant, which every store here is proved to keep).
"""
import z3, re
from engine import *
from mem import *
import build
from p_adapter import plain
from ir import is_lambda

B64 = z3.BitVecSort(64)
UF = lambda n, *s: z3.Function(n, *s)
KEYOF = UF('KEYOF', B64, B64)
HASH = UF('HASH', B64, B64)
CAPU = UF('CAP', B64, B64)
SEQ = UF('SEQ', B64, B64)
MODE = {'cap': None}
def CAPF(r): return MODE['cap'](r) if MODE['cap'] else CAPU(r)
MLF, MFF = UF('ML', B64, B64), UF('MF', B64, B64)
RSF = UF('RS', B64, z3.BoolSort())
MUL = UF('MULK', B64, B64, B64)
MASK = 0x0000FFFFFFFFFFFC
MAXR = 24
T, F = z3.BoolVal(True), z3.BoolVal(False)
I8, I16, I32, I64 = (Ty('int', n) for n in (8, 16, 32, 64))
BOOL = Ty('int', 1)


def LV(r): return bv(1 << 46) + (r << 8)
def RK(v): return z3.LShR(v, 8) & 0xff
def BK(r): return (r + 1) << 40
def off(w): return w & MASK
def tag(w): return z3.Extract(63, 48, w)
def TAG(k): return z3.Extract(63, 48, HASH(k))
def capfact(r): c = CAPF(r); return z3.And(c & (c - 1) == 0, z3.UGE(c, 4), z3.ULE(c, bv(1 << 32)), c * 2 == CAPF(r + 1))


def metafact(m): return z3.And(m & MASK == m, z3.ULT(MLF(m), MFF(m)), z3.ULE(MFF(m), MAXR), z3.ULE(MFF(m) - MLF(m), 15))


class Slot:
    """a decoded slot address"""
    def __init__(self, r, i, j): self.r, self.i, self.j = r, i, j


def saddr(r, i, j): return BK(r) + (i << 6) + (j << 3)


class CL(GhostMemory):
    tracked = ('seenX', 'seenY', 'hit', 'checked', 'mv', 'pm', 'lr', 'top', 'pers', 'lost', 'ca', 'removed', 'freeable', 'stored', 'abs', 'entry', 'freed', 'eb', 'ebf', 'eba', 'ebread', 'mread', 'nm', 'nf', 'nlast', 'nr',
               'upp', 'gone', 'sa', 'sw', 'EB', 'mpers', 'inst', 'insp', 'ebpers', 'instw', 'confirm', 'fm', 'cw')

    def __init__(self, mod):
        self.mod = mod
        self.c = {k[3:]: v for k, v in build.constants(mod).items()}
        self.eng = e = Engine(mod, self)
        e.templates = [templates]
        e.fast = True
        e.unroll_ok = self.unroll_ok
        e.mul = lambda a, b: MUL(a, b) if conc(simp(b)) is not None and conc(simp(b)) > 1 << 32 else MUL(b, a) if conc(simp(a)) is not None and conc(simp(a)) > 1 << 32 else a * b
        e.div_hook = self.div
        self.used = set(); e.used = self.used
        self.pl = {n: plain(mod.dem.get(n, n))[0] + ('::lambda' if is_lambda(mod.dem.get(n, n)) else '') for n in list(mod.src) + list(mod.decls)}
        self.handler = {}
        P = 'pmem::obj::experimental::clevel_hash::'
        for n, p in self.pl.items():
            h = None
            if p == 'std::hash::operator()': h = self.h_hash
            elif p in ('pmemobj_direct', 'pmemobj_direct_inline'): h = self.h_direct
            elif p == P + 'get_pool_base': h = self.h_pool
            elif p.startswith('std::basic_ostream') or p.startswith('std::ostream') or p.startswith('std::operator<<'): h = self.h_out
            elif p.startswith(P) and p[len(P):] in ('find', 'find_empty_slot', 'expand', 'del_dup', 'capacity'): h = getattr(self, 'c_' + p[len(P):])
            elif p == 'pmem::obj::make_persistent_atomic': h = self.h_make
            elif p in ('pmem::obj::delete_persistent_atomic',): h = self.h_delete
            elif p.endswith('::internal::make_persistent_object'): h = self.h_alloc
            if h: self.handler[n] = h
        self.off = set()
        e.contracts.append((lambda n: n in self.handler and self.pl[n] not in self.off, self.contract))

    def unroll_ok(self, fn, hdr): return 'arrayctor' in hdr or self.tiny(fn, hdr)

    def tiny(self, fn, hdr):
        """a loop that counts from a constant to at most 3"""
        f = self.mod.fn(fn)
        blocks = f.loops()[hdr]
        val = {}
        for ins in f.blocks[hdr]:
            if ins.op == 'phi':
                if any(v[0] == 'c' and l not in blocks for v, l in ins.x): val[ins.res] = True
            elif ins.op == 'cast' and ins.a and ins.a[0][0] == 'l' and ins.a[0][1] in val: val[ins.res] = True
            elif ins.op == 'icmp':
                for a, b in (ins.a, ins.a[::-1]):
                    if a[0] == 'l' and a[1] in val and b[0] == 'c' and b[1] <= 3: return True
        return False

    def contract(self, eng, st, name, args, ins):
        h = self.handler[name]
        r = h(st, args, ins, name)
        if r is not NotImplemented and h.__name__.startswith('c_'): self.used.add(self.pl[name])
        return r

    # -- arithmetic --------------------------------------------------------------
    def div(self, st, op, a, b):
        k = conc(simp(b))
        if k and k & (k - 1) == 0:
            return z3.LShR(a, k.bit_length() - 1) if op == 'udiv' else a & (k - 1)
        if op == 'urem' and self.eng.holds(st, z3.And(b != 0, b & (b - 1) == 0)): return a & (b - 1)
        return None

    # -- what the names mean -----------------------------------------------------
    def fidx(self, k, r): return HASH(k) & (z3.LShR(CAPF(r), 1) - 1)
    def sidx(self, k, r):
        h = z3.LShR(CAPF(r), 1)
        t = z3.ZeroExt(48, (z3.LShR(TAG(k), bv(1, 16)) << 1) + 1)
        return ((self.fidx(k, r) ^ MUL(t, bv(0xc6a4a7935bd1e995))) & (h - 1)) + h
    def cand(self, k, s): return z3.Or(s.i == self.fidx(k, s.r), s.i == self.sidx(k, s.r))
    def ofkey(self, w, k): return z3.And(off(w) != 0, KEYOF(off(w)) == k)
    def wordok(self, w): return z3.Or(w == 0, z3.And(off(w) != 0, w & 3 == 0, tag(w) == TAG(KEYOF(off(w)))))

    def newmeta(self, st, same_last=False):
        """a value of the meta word other threads may have stored by now"""
        g = st.g
        m = self.eng.fresh('meta')
        st.pc += [m != 0, metafact(m), capfact(MLF(m)), capfact(MFF(m))]
        p = g['mv']
        st.pc.append(z3.Implies(p != 0, z3.And(z3.ULE(MLF(p), MLF(m)), z3.ULE(MFF(p), MFF(m)), z3.ULE(SEQ(p), SEQ(m)), (SEQ(p) == SEQ(m)) == (p == m))))
        if g.get('resizer'): st.pc.append(z3.Implies(p != 0, MLF(p) == MLF(m)))
        if g.get('top') is not None: g['top'] = z3.simplify(z3.If(z3.ULT(g['top'], MFF(m)), MFF(m), g['top']))
        return m

    # -- memory ------------------------------------------------------------------
    def decode(self, p):
        """slot pointer -> (Slot, byte offset in the slot)"""
        o = p.off
        i, j = bv(0), bv(0)
        base = tobv(p.base)
        for s, x in p.idx:
            if s % 64 == 0: i = i + (s // 64) * x
            elif s % 8 == 0 and s < 64: j = j + (s // 8) * x
            else: raise Unsupported('odd stride in the buckets')
        j = j + bv((o // 8) % 8)
        i = i + bv(o // 64)
        a = base
        return Slot(z3.simplify(z3.LShR(a, 40) - 1), z3.simplify((z3.LShR(a, 6) & bv((1 << 34) - 1)) + i), z3.simplify((z3.LShR(a, 3) & 7) + j)), o % 8

    def known(self, st, s, null_ok=False):
        self.eng.oblige(st, 'only slots of existing buckets are accessed', z3.And(z3.ULE(s.r, st.g['top']), z3.ULT(s.i, CAPF(s.r)), z3.ULT(s.j, 8)), self.P)

    def isX(self, st, s, w='x'):
        g = st.g
        return z3.And(s.r == g[w + 'r'], s.j == g[w + 'j'], s.i == z3.If(g[w + 's'], self.sidx(g['key'], s.r), self.fidx(g['key'], s.r)))

    def observe(self, st, s, w):
        g = st.g
        if g.get('key') is None: return
        non = z3.Not(self.ofkey(w, g['key']))
        x = z3.And(self.isX(st, s), non)
        g['seenY'] = simp(z3.Or(g['seenY'], z3.And(g['seenX'], self.isX(st, s, 'y'), non)))
        g['seenX'] = simp(z3.Or(g['seenX'], x))
        g['hit'] = simp(z3.Or(g['hit'], z3.And(self.cand(g['key'], s), self.ofkey(w, g['key']))))
        g['checked'] = F

    def slot_word(self, st, s):
        w = self.eng.fresh('word')
        st.pc.append(self.wordok(w))
        return w

    def load(self, eng, st, p, ty, atomic):
        g = st.g
        if p.kind == 'tmp':
            q = self.tmp(st, p)
            return eng.load(st, q, ty)
        n = eng.mod.size(ty)
        if p.kind == 'cl':
            if p.idx: raise Unsupported('index into the map object')
            o = p.off
            if o == self.c['meta'] and n == 8:
                m = self.newmeta(st)
                self.on_meta(st, m)
                return [(st, m)]
            if o == self.c['uuid']: return [(st, bv(77))]
            if o == self.c['expand_bucket']:
                if g.get('resizer'): return [(st, g['EB'])]
                v = eng.fresh('expand_bucket')
                self.on_eb(st, v)
                return [(st, v)]
            if o == self.c['run']: return [(st, eng.fresh('run', 8))]
            for f in ('tmp_meta', 'tmp_level', 'tmp_entry'):
                if o == self.c[f]: return [(st, bv(77))]
                if o == self.c[f] + 8: return [(st, bv({'tmp_meta': 1 << 20, 'tmp_level': 2 << 20, 'tmp_entry': 3 << 20}[f]))]
            return [(st, eng.undef_of(ty))]
        if p.kind == 'meta':
            b = tobv(p.base)
            eng.oblige(st, 'no access through a null meta pointer', b != 0, self.P)
            g['pm'] = b
            if p.off == self.c['first']: return [(st, LV(MFF(b)))]
            if p.off == self.c['last']: return [(st, LV(MLF(b)))]
            if p.off == self.c['resizing']:
                v = z3.If(RSF(b), bv(1, 8 * n), bv(0, 8 * n)) if not (ty.k == 'int' and ty.n == 1) else RSF(b)
                return [(st, v)]
        if p.kind == 'lvl':
            b = tobv(p.base)
            eng.oblige(st, 'no access through a null level pointer', b != 0, self.P)
            nl = g.get('nl')
            if nl is not None and b.eq(nl.base): return eng.load(st, Ptr('local', nl.obj, p.off), ty)
            r = z3.simplify(RK(b))
            eng.oblige(st, 'only levels of the table are read', z3.And(b == LV(r), z3.ULE(r, g['top'])), self.P)
            st.pc.append(capfact(r))
            if p.off == self.c['buckets']: return [(st, bv(77))]
            if p.off == self.c['buckets'] + 8: g['lr'] = r; return [(st, BK(r))]
            if p.off == self.c['capacity']: return [(st, CAPF(r))]
            if p.off == self.c['up']:
                c = eng.fresh('grown', 1)
                v = z3.If(z3.Or(z3.ULT(r, g['top']), c), LV(r + 1), bv(0))
                g['top'] = z3.simplify(z3.If(z3.And(r == g['top'], c), r + 1, g['top']))
                st.pc.append(z3.ULE(g['top'], MAXR + 1))
                return [(st, z3.simplify(v))]
        if p.kind == 'ent':
            b = tobv(p.base)
            eng.oblige(st, 'no access through a null entry pointer', b != 0, self.P)
            if p.off == 0: return [(st, KEYOF(b))]
            return [(st, eng.fresh('value'))]
        if p.kind in ('bkt', 'slot'):
            s, o = self.decode(p)
            self.known(st, s)
            w = self.slot_word(st, s)
            self.observe(st, s, w)
            self.on_slot_load(st, s, w)
            if o + n > 8: raise Unsupported('read across slots')
            return [(st, w if n == 8 else z3.Extract(8 * (o + n) - 1, 8 * o, w))]
        raise Unsupported('load of %r' % p)

    def on_slot_load(self, st, s, w):
        g = st.g
        a = saddr(s.r, s.i, s.j)
        if g.get('dup') is not None:      # del_dup: another slot was seen with the key
            r, k = g['dup']
            g['inst'] = simp(z3.Or(g['inst'], z3.And(a != r, self.ofkey(w, k))))
        if g.get('resizer'):
            bot = s.r == MLF(g['pm'])
            g['gone'] = simp(z3.Or(g['gone'], z3.And(a == g['za'], w == 0)))
            g['sa'] = simp(z3.If(bot, a, g['sa'])); g['sw'] = simp(z3.If(bot, w, g['sw']))

    def on_eb(self, st, v):
        g = st.g
        g['eb'] = v
        g['eba'] = v
        g['ebread'] = T

    def on_meta(self, st, m):
        g = st.g
        same = m == g['mv']
        g['seenX'] = simp(z3.And(g['seenX'], same)); g['seenY'] = simp(z3.And(g['seenY'], same))
        g['checked'] = simp(same)
        g['mread'] = T
        g['mv'] = m

    # every change of a slot
    def write(self, st, s, e, n, how):
        """the slot's word changes from e to n"""
        g, eng = st.g, self.eng
        st.pc.append(self.wordok(e))
        n = z3.simplify(n)
        a = saddr(s.r, s.i, s.j)
        if conc(n) == 0:
            if how == 'store':
                eng.oblige(st, 'a slot of the level being drained is cleared only after its word was copied to the top level, and the copy written back',
                           z3.And(a == g['sa'], g['inst'], g['insp'], g['instw'] == g['sw'], off(g['sw']) != 0) if g.get('resizer') else F, {'C02', 'C03', 'C04'})
                if g.get('resizer'): g['gone'] = simp(z3.Or(g['gone'], a == g['za']))
            elif g.get('dup') is not None:
                eng.oblige(st, 'a duplicate is removed only while another slot was seen holding an entry with the same key', z3.And(a == g['dup'][0], self.ofkey(e, g['dup'][1]), g['inst']), {'C02'})
            else:
                eng.oblige(st, 'only the slot of an entry with the key is emptied', self.ofkey(e, g['key']) if g.get('key') is not None else F, {'C02'})
            g['removed'] = T
            g['freeable'] = off(e)
        else:
            eng.oblige(st, 'a slot gets an entry with the tag of the hash of its key', z3.And(off(n) != 0, self.wordok(n)), {'C02'})
            k = KEYOF(off(n))
            eng.oblige(st, 'an entry is stored only in a slot of one of the two buckets of its key', z3.And(self.cand(k, s), z3.ULT(s.j, 8)), {'C02'})
            eng.oblige(st, 'a slot with an entry is overwritten only by an entry with the same key', z3.Or(off(e) == 0, KEYOF(off(e)) == k), {'C02'})
            eng.oblige(st, 'an entry that was freed is not stored', z3.Not(g['freed']), {'C02'})
            if g.get('resizer'):
                eng.oblige(st, 'a drained entry is copied unchanged, to an empty slot of the top level', z3.And(n == g['sw'], off(e) == 0, s.r == MFF(g['pm']), s.r != MLF(g['pm'])), {'C02', 'C03'})
                g['inst'] = T; g['instw'] = n; g['insp'] = F
            else:
                eng.oblige(st, 'the entry the operation made is stored', off(n) == g['entry'], {'C02'})
                g['stored'] = T
            if g.get('kind') == 'insert':
                eng.oblige(st, 'a new entry is stored only after one pass found its key absent', g['abs'], {'C01'})
                eng.oblige(st, 'an insert overwrites only empty slots', off(e) == 0, {'C02'})
                g['abs'] = F if False else g['abs']
        if g.get('accum', True): g['lost'] = simp(z3.Or(g['lost'], z3.Not(g['pers'])))
        g['pers'] = F
        g['ca'] = a
        g['cw'] = bv(0)
        g['mread'] = F; g['ebread'] = F
        self.observe(st, s, n)

    def persisted(self, st, a, n):
        g = st.g
        if isinstance(a, Ptr) and a.kind in ('bkt', 'slot'):
            s, o = self.decode(a)
            hit = z3.And(saddr(s.r, s.i, s.j) == g['ca'], tobv(n) >= 8) if o == 0 else F
            g['pers'] = simp(z3.Or(g['pers'], hit))
            if g.get('resizer'): g['insp'] = simp(z3.Or(g['insp'], hit))
        if isinstance(a, Ptr) and a.kind == 'cl' and a.off == self.c['meta'] and not a.idx: g['mpers'] = T
        if isinstance(a, Ptr) and a.kind == 'cl' and a.off == self.c['expand_bucket'] and not a.idx: g['ebpers'] = T
        if isinstance(a, Ptr) and a.kind == 'lvl' and not a.idx:
            nl = g.get('nl')
            if nl is not None and tobv(a.base).eq(nl.base): nl.pers = nl.pers | {a.off}
            elif a.off == self.c['up']: g['upp'] = simp(RK(tobv(a.base)))

    def tmp(self, st, p):
        """an element of the calling thread's part of the allocation buffers"""
        if not isinstance(p, Ptr) or p.kind != 'tmp': return p
        tot = bv(p.off - p.off % 16)
        for s, x in p.idx: tot = tot + s * x
        self.eng.oblige(st, "only the thread's own allocation buffers are used", tot == 16 * st.g['tid'], {'C02'})
        return Ptr('local', st.g['tmp'][conc(simp(p.base))], p.off % 16)

    def store(self, eng, st, p, ty, v, atomic):
        g = st.g
        if p.kind == 'tmp': return eng.store(st, self.tmp(st, p), ty, v)
        if p.kind == 'lvl':
            nl = g.get('nl')
            if nl is None or not tobv(p.base).eq(nl.base): raise Unsupported('store to a published level')
            nl.pers = nl.pers - {p.off}
            return eng.store(st, Ptr('local', nl.obj, p.off), ty, v)
        if p.kind in ('bkt', 'slot') and eng.mod.size(ty) == 8:
            s, o = self.decode(p)
            if o: raise Unsupported('store into a part of a slot')
            self.known(st, s)
            self.write(st, s, self.slot_word(st, s), tobv(v), 'store')
            return [st]
        if p.kind == 'cl' and p.off == self.c['expand_bucket'] and g.get('resizer'):
            v = tobv(v)
            eng.oblige(st, 'the drain position moves only past buckets whose slots were all seen empty or moved',
                       z3.Implies(z3.And(z3.Or(z3.And(g['zr'] == MLF(g['mv']), z3.ULT(g['zi'], v)))), g['gone']), {'C03'})
            eng.oblige(st, 'the drain position moves within the level', z3.ULE(v, CAPF(MLF(g['mv']))), {'C03'})
            g['EB'] = v; g['ebpers'] = F
            return [st]
        raise Unsupported('store to %r' % p)

    def cmpxchg(self, eng, st, p, ty, e, n, weak):
        g = st.g
        e, n = tobv(e), tobv(n)
        bad = st.copy()
        if p.kind in ('bkt', 'slot'):
            s, o = self.decode(p)
            if o: raise Unsupported('cas on a part of a slot')
            self.known(st, s)
            w = self.slot_word(bad, s)
            bad.pc.append(w != e)
            self.write(st, s, e, n, 'cas')
            return [(x, y) for x, y in ((st, [e, T]), (bad, [w, F])) if eng.feasible(x)]
        if p.kind == 'cl' and p.off == self.c['meta'] and not p.idx:
            w = self.newmeta(bad)
            bad.pc.append(w != e)
            self.on_meta(bad, w)
            self.meta_change(st, e, n)
            return [(st, [e, T]), (bad, [w, F])]
        if p.kind == 'lvl' and p.off == self.c['up'] and not p.idx:
            r = simp(RK(tobv(p.base)))
            nl = g.get('nl')
            eng.oblige(st, 'a level is appended only at the end of the chain', e == 0, {'C03'})
            ok = nl is not None and n.eq(nl.base)
            eng.oblige(st, 'the appended level is the one just made', z3.BoolVal(ok), {'C03'})
            if ok:
                f = lambda o: tobv(eng.cell_load(st, nl.obj, o, I64))
                eng.oblige(st, 'an appended level has twice the buckets of the one below, all empty, and no successor',
                           z3.And(f(self.c['capacity']) == 2 * CAPF(r), f(self.c['up']) == 0, f(self.c['buckets'] + 8) == nl.arr, nl.arr != 0, nl.n == 2 * CAPF(r)), {'C03'})
                eng.oblige(st, 'a level is written back before it is appended', z3.BoolVal({self.c['capacity'], self.c['up']} <= nl.pers), {'C04'})
                st.pc.append(nl.base == LV(r + 1))
            st.pc.append(z3.ULE(r, g['top']))
            st.pc.append(g['top'] == r)     # the chain ended here
            g['top'] = simp(r + 1)
            g['nl'] = None
            g['upp'] = bv(1 << 20)
            bad.g['top'] = simp(z3.If(bad.g['top'] == r, r + 1, bad.g['top']))
            bad.pc.append(z3.UGE(bad.g['top'], r + 1))
            return [(st, [e, T]), (bad, [LV(r + 1), F])]
        raise Unsupported('cas on %r' % p)

    def meta_change(self, st, e, n):
        g, eng = st.g, self.eng
        P = {'C03'}
        eng.oblige(st, 'the meta word gets a newly made meta object', z3.And(n == g['nm'], n != 0) if 'nm' in g else F, P)
        if 'nm' not in g: return
        eng.oblige(st, 'a meta object replaces the one it was made from', e == g['pm'], P)
        fo, la = MFF(e), MLF(e)
        if g.get('resizer'):
            eng.oblige(st, 'draining keeps the top level', g['nf'] == LV(fo), P)
            eng.oblige(st, 'draining drops the bottom level only', g['nlast'] == LV(la + 1), P)
            eng.oblige(st, 'the bottom level is dropped only when it is not the last but one', z3.ULT(la + 1, fo), P)
            eng.oblige(st, 'the bottom level is dropped only after every slot of it was seen empty or moved', z3.Implies(z3.And(g['zr'] == la, z3.ULT(g['zi'], CAPF(la))), g['gone']), P)
            eng.oblige(st, 'draining goes on while more than two levels are left', g['nr'] == (fo - la != 2), P)
        else:
            eng.oblige(st, 'growing adds at most the next level', z3.Or(g['nf'] == LV(fo), z3.And(g['nf'] == LV(fo + 1), z3.ULE(fo + 1, g['top']))), P)
            eng.oblige(st, 'growing keeps the bottom level', g['nlast'] == LV(la), P)
            eng.oblige(st, 'growing starts the draining of the bottom level', g['nr'], P)
            eng.oblige(st, 'a level is in use only after the link to it was written back', z3.Implies(g['nf'] == LV(fo + 1), g['upp'] == fo), {'C04'})
        m = g['nm']
        st.pc += [LV(MFF(m)) == g['nf'], LV(MLF(m)) == g['nlast'], RSF(m) == g['nr'], m & MASK == m, z3.ULT(MLF(m), MFF(m)), z3.ULE(MFF(m), MAXR), z3.ULE(MFF(m) - MLF(m), 15),
                  z3.ULT(SEQ(e), SEQ(m)), z3.ULE(SEQ(g['mv']), SEQ(m)), capfact(MLF(m)), capfact(MFF(m))]
        self.on_meta(st, m)
        g['nm'] = bv(0)
        g['mpers'] = F
        g['confirm'] = T

    # -- contracts -----------------------------------------------------------------
    def h_hash(self, st, args, ins, name):
        (st, k), = self.eng.load(st, args[1], I64)
        return [(st, HASH(tobv(k)))]

    def h_direct(self, st, args, ins, name):
        # pmemobj_direct(oid): the address of an object of the pool
        o = args[-1] if len(args) > 1 else args[0][1] if isinstance(args[0], list) else args[0]
        o = tobv(o)
        kind = None
        for f in reversed(st.frames):
            d = self.mod.dem.get(f.fn.name, f.fn.name)
            m = re.search(r'(compound_pool_ptr|persistent_ptr)<(.*)', d)
            if not m: continue
            t = m.group(2)
            end = re.search(r'(level_meta|level_bucket|::bucket \[\]|pair<)', t)
            if t.startswith('pmem::obj::persistent_ptr<'): kind = 'tmp'
            else:
                # the last component of the template argument
                x = re.match(r'pmem::obj::experimental::clevel_hash<.*?>::(level_meta|level_bucket|bucket)\b', t)
                q = t.split('>::')[0] if False else t
                kind = {'level_meta': 'meta', 'level_bucket': 'lvl', 'bucket': 'bkt'}[last_member(t)] if t.startswith('pmem::obj::experimental::clevel_hash<') else 'ent' if t.startswith('std::pair<') else None
            break
        if kind is None: raise Unsupported('address of an object of unknown type')
        return [(st, Ptr(kind, z3.simplify(o)))]

    def ghost_diff(self, base, b):
        x, y = base.g.get('nl'), b.g.get('nl')
        if (x is None) != (y is None) or x is not None and not (x.base.eq(y.base) and x.obj == y.obj and x.pers == y.pers and tobv(x.arr).eq(tobv(y.arr)) and tobv(x.n).eq(tobv(y.n))): raise Unsupported('a level made in a loop')
        return super().ghost_diff(base, b)

    def h_pool(self, st, args, ins, name):
        if ins.ty.k == 'void': return [(st, None)]
        return [(st, Ptr('opaque', bv(4096)) if ins.ty.k == 'ptr' else self.eng.const(('undef',), ins.ty))]

    def h_out(self, st, args, ins, name):
        return [(st, Ptr('opaque', bv(4096)) if ins.ty.k == 'ptr' else None)]

    def glob_load(self, eng, st, p, ty, atomic): return None

    def external(self, eng, st, name, args, ins):
        if name == 'pmemobj_tx_stage': return [(st, bv(0, 32))]
        if name == 'usleep': return [(st, bv(0, 32))]
        if name == 'pmemobj_persist':
            self.persisted(st, args[1], args[2])
            return [(st, None)]
        if name == 'pmemobj_free': return self.h_free(st, args, ins, name)
        return None

    def state(self, key=True):
        st = State()
        g = st.g
        g.update(seenX=F, seenY=F, hit=F, checked=F, mv=bv(0), pm=bv(0), lr=bv(0), top=z3.BitVec('top', 64), pers=T, lost=F, ca=bv(0), removed=F, freeable=bv(0), stored=F, abs=F, entry=bv(0), freed=F, eb=bv(0), ebf=bv(0), eba=bv(0), ebread=F, mread=F, confirm=F,
                 nm=bv(0), nf=bv(0), nlast=bv(0), nr=F, upp=bv(1 << 20), mpers=T, gone=F, sa=bv(0), sw=bv(0), inst=F, insp=F, instw=bv(0), EB=bv(0), ebpers=T, fm=bv(0), cw=bv(0))
        st.pc += [z3.ULE(g['top'], MAXR)]
        g['key'] = z3.BitVec('key', 64) if key else None
        for w in 'xy':
            g[w + 'r'], g[w + 's'], g[w + 'j'] = z3.BitVec('rank_' + w, 64), z3.Bool('right_' + w), z3.BitVec('slot_' + w, 64)
            st.pc += [z3.ULT(g[w + 'j'], 8), z3.ULE(g[w + 'r'], MAXR), capfact(g[w + 'r'])]
        st.pc += [z3.ULT(g['xr'], g['yr'])]
        return st

    def fresh_off(self, st, name):
        o = self.eng.fresh(name)
        st.pc += [o != 0, o & MASK == o]
        return o

    def h_make(self, st, args, ins, name):
        # libpmemobj's atomic allocation: the object is initialised and written back before the pointer to it is
        g, eng = st.g, self.eng
        d = self.mod.dem[name]
        k = re.search(r'make_persistent_atomic<(.*)', d).group(1)
        k = 'array' if re.match(r'pmem::obj::experimental::clevel_hash<', k) and last_member(k) == 'bucket' else last_member(k)
        args = [self.tmp(st, a) for a in args]
        if k == 'array':
            nl = g.get('nl')
            p = args[1]
            if nl is None or not (isinstance(p, Ptr) and p.kind == 'lvl' and tobv(p.base).eq(nl.base)): raise Unsupported('buckets of another level')
            if len(args) > 3: args = args[:3]
            nl.arr, nl.n = self.fresh_off(st, 'array'), tobv(args[2])
            eng.cell_store(st, nl.obj, p.off, I64, bv(77)); eng.cell_store(st, nl.obj, p.off + 8, I64, nl.arr)
            return [(st, None)]
        if k not in ('level_meta', 'level_bucket'): raise Unsupported('allocation of ' + k)
        o = self.fresh_off(st, k)
        for q, v in ((0, bv(77)), (8, o)): eng.cell_store(st, args[1].base, args[1].off + q, I64, v)
        if k == 'level_bucket':
            if len(args) > 2 and isinstance(args[2], Ptr) and args[2].kind == 'local' and 'allocation_flag' not in d: raise Unsupported('arguments of a level')
            obj = eng.new_obj(st, 32)
            for q in range(0, self.c['szlevel'], 8): eng.cell_store(st, obj.base, q, I64, bv(0))
            g['nl'] = NewLevel(o, obj.base)
            return [(st, None)]
        (st, f), = eng.load(st, args[2], I64)
        (st, l), = eng.load(st, args[3], I64)
        (st, r), = eng.load(st, args[4], I8)
        g = st.g
        g['nm'], g['nf'], g['nlast'], g['nr'] = o, tobv(f), tobv(l), simp(tobool(r))
        return [(st, None)]

    def h_delete(self, st, args, ins, name):
        g, eng = st.g, self.eng
        d = self.mod.dem[name]
        p = self.tmp(st, args[0])
        k = re.search(r'delete_persistent_atomic<(.*)', d).group(1)
        if k.startswith('std::pair<'):
            (st, o), = eng.load(st, eng.gep(p, I8, [(I64, bv(8))]), I64)
            g = st.g
            eng.oblige(st, 'an entry is freed only if it was not stored, once', z3.And(tobv(o) == g['entry'], z3.Not(g['stored']), z3.Not(g['freed'])), {'C02'})
            g['freed'] = T
            return [(st, None)]
        if last_member(k) == 'level_meta':
            (st, o), = eng.load(st, eng.gep(p, I8, [(I64, bv(8))]), I64)
            g = st.g
            eng.oblige(st, 'a meta object is freed only if it was not published', z3.And(tobv(o) == g['nm'], tobv(o) != 0), {'C03'})
            g['nm'] = bv(0)
            return [(st, None)]
        nl = g.get('nl')
        eng.oblige(st, 'a level is freed only if it was not appended', z3.BoolVal(nl is not None), {'C03'})
        return [(st, None)]

    def h_alloc(self, st, args, ins, name):
        # make_persistent_object(pop, ptr, entry): a new entry, initialised and written back
        g, eng = st.g, self.eng
        p = self.tmp(st, args[1])
        o = self.fresh_off(st, 'entry')
        for q, v in ((0, bv(77)), (8, o)): eng.cell_store(st, p.base, p.off + q, I64, v)
        (st, k), = eng.load(st, args[2], I64)
        st.pc.append(KEYOF(o) == tobv(k))
        eng.oblige(st, 'an operation makes one entry', st.g['entry'] == 0, {'C02'})
        st.g['entry'] = o
        return [(st, None)]

    def h_free(self, st, args, ins, name):
        g, eng = st.g, self.eng
        (st, o), = eng.load(st, eng.gep(args[0], I8, [(I64, bv(8))]), I64)
        g = st.g
        eng.oblige(st, 'only the entry just removed is freed, once', z3.And(tobv(o) == g['freeable'], tobv(o) != 0), {'C02'})
        if g.get('dup') is not None: eng.oblige(st, 'an entry that another slot still holds is not freed', tobv(o) != off(g['dupe1']), {'C02'})
        g['freeable'] = bv(0)
        return [(st, None)]

    def out(self, st, p, ty, v):
        s, = self.eng.store(st, p, ty, v)
        return s

    def after_find(self, st):
        g = st.g
        m = self.newmeta(st)
        g['mv'] = m; g['pm'] = m; g['fm'] = m; g['checked'] = T; g['cw'] = bv(0)
        return m

    def c_find(self, st, args, ins, name):
        # contract proved by the jobs find and find.dup
        eng, g = self.eng, st.g
        this, pop, key, partial, nl, old, e, ln, idx, fix, tid, mc = args
        (st, k), = eng.load(st, key, I64)
        (st, c), = eng.load(st, mc, I64)
        g = st.g
        eng.oblige(st, 'find is called with the key, its tag and the current pass', z3.And(tobv(k) == g['key'], partial == TAG(g['key']), tobv(c) == g['mv']), {'C01'})
        g['ebf'] = g['eb']
        m = self.after_find(st)
        fx = tobool(fix)
        outs = []
        for kind in ('absent', 'vacant', 'found'):
            s = st.copy()
            gg = s.g
            lnum, ix, j = eng.fresh('level_num'), eng.fresh('idx'), eng.fresh('slot')
            left = eng.fresh('left', 1)
            r = simp(MLF(m) + lnum)
            s.pc += [z3.ULE(lnum, MFF(m) - MLF(m)), z3.ULT(j, 8), ix == z3.If(left, self.fidx(gg['key'], r), self.sidx(gg['key'], r)), capfact(r)]
            gg['seenX'] = gg['seenY'] = z3.BoolVal(kind != 'found')
            s = self.out(s, nl, I64, simp(MFF(m) - MLF(m) + 1)); s = self.out(s, mc, I64, m)
            gg = s.g
            gg['abs'] = z3.BoolVal(kind != 'found')
            if kind != 'absent':
                s = self.out(s, ln, I64, lnum); s = self.out(s, idx, I64, ix)
                w = eng.fresh('old_e')
                slot = Ptr('bkt', simp(saddr(r, ix, j)))
                if kind == 'vacant':
                    s.pc.append(w == 0)
                else:
                    gg['hit'] = T
                    gg['cw'] = w
                    s.pc.append(z3.Implies(fx, z3.And(self.wordok(w), self.ofkey(w, gg['key']))))
                    s.pc.append(z3.Implies(w == gg['entry'] | (z3.Concat(TAG(gg['key']), bv(0, 48))), self.ofkey(w, gg['key'])))
                s = self.out(s, old, I64, w)
                if kind == 'vacant' or z3.is_true(simp(fx)): s = self.out(s, e, PTR, slot)
                else: s = self.out(s, e, PTR, Ptr('bkt', eng.fresh('anything')))
            if not eng.feasible(s): continue
            code = bv(0, 32) if kind == 'absent' else z3.If(left, bv(1 if kind == 'found' else 3, 32), bv(2 if kind == 'found' else 4, 32))
            outs.append((s, code))
        return outs

    def c_find_empty_slot(self, st, args, ins, name):
        # contract proved by the job find_empty_slot
        eng = self.eng
        this, pop, key, partial, nl, e, ln, mc = args
        (st, k), = eng.load(st, key, I64)
        (st, c), = eng.load(st, mc, I64)
        g = st.g
        eng.oblige(st, 'find_empty_slot is called with the key, its tag and the current pass', z3.And(tobv(k) == g['key'], partial == TAG(g['key']), tobv(c) == g['mv']), {'C01'})
        m = self.after_find(st)
        outs = []
        for kind in ('absent', 'vacant'):
            s = st.copy()
            gg = s.g
            gg['seenX'] = gg['seenY'] = F
            s = self.out(s, nl, I64, simp(MFF(m) - MLF(m) + 1)); s = self.out(s, mc, I64, m)
            lnum, j, left = eng.fresh('level_num'), eng.fresh('slot'), eng.fresh('left', 1)
            r = simp(MLF(m) + lnum)
            s.pc += [z3.ULE(lnum, MFF(m) - MLF(m)), z3.ULT(j, 8), capfact(r)]
            if kind == 'vacant':
                s = self.out(s, ln, I64, lnum)
                s = self.out(s, e, PTR, Ptr('bkt', simp(saddr(r, z3.If(left, self.fidx(gg['key'], r), self.sidx(gg['key'], r)), j))))
            else: s = self.out(s, e, PTR, bv(0))
            outs.append((s, bv(0, 32) if kind == 'absent' else z3.If(left, bv(3, 32), bv(4, 32))))
        return outs

    def c_expand(self, st, args, ins, name):
        # contract proved by the job expand: no slot of the table changes
        eng = self.eng
        (st, c), = eng.load(st, args[3], I64)
        g = st.g
        eng.oblige(st, 'expand gets a meta that was read from the table', z3.And(tobv(c) == g['pm'], tobv(c) != 0), {'C03'})
        if g.get('resizer') is None:
            m = self.newmeta(st); g['mv'] = m; g['seenX'] = g['seenY'] = F; g['checked'] = F
        else: m = self.newmeta(st); g['mv'] = m
        return [(st, None)]

    def c_del_dup(self, st, args, ins, name):
        # contract proved by the job del_dup
        eng = self.eng
        this, pop, p1, p2, e1, e2 = args
        (st, w1), = eng.load(st, e1, I64)
        (st, w2), = eng.load(st, e2, I64)
        a = []
        for p in (p1, p2):
            if not (isinstance(p, Ptr) and p.kind in ('bkt', 'slot')): raise Unsupported('del_dup of something else than slots')
            s, o = self.decode(p)
            self.known(st, s)
            a.append(saddr(s.r, s.i, s.j))
        eng.oblige(st, 'a duplicate is looked for in another slot than the one it is a duplicate of', a[0] != a[1], {'C02'})
        eng.oblige(st, 'del_dup gets words of entries', z3.And(off(tobv(w1)) != 0, off(tobv(w2)) != 0), {'C02'})
        return [(st, None)]

    def c_capacity(self, st, args, ins, name): return [(st, self.eng.fresh('slots'))]


class NewLevel:
    """a level that is not in the table yet"""
    def __init__(self, base, obj): self.base, self.obj, self.pers, self.arr, self.n = base, obj, frozenset(), bv(0), bv(0)
    def copy(self):
        x = NewLevel(self.base, self.obj)
        x.pers, x.arr, x.n = self.pers, self.arr, self.n
        return x


def last_member(t):
    """X of `clevel_hash<...>::X...`"""
    d, i = 0, 0
    while i < len(t):
        if t[i] == '<': d += 1
        elif t[i] == '>':
            d -= 1
            if d == 0: break
        i += 1
    return re.match(r'::(\w+)', t[i + 1:]).group(1)


def templates(eng, info):
    m = eng.memory
    phi, est = info['phi'], info['estate']
    g0 = est.g
    out = []
    def add(n, f, a=None): out.append((n, f, a))
    gv = lambda p, s, k: p.get(('ghost', k), s.g[k])
    pm = lambda p, s: gv(p, s, 'pm')
    last = lambda p, s: gv(p, s, 'mv')
    isvar = lambda k, v: v is not None and not isinstance(v, (Ptr, list)) and not (isinstance(k, tuple) and k[0] == 'ghost')
    isobj = lambda v: isinstance(v, Ptr) and v.kind in ('meta', 'lvl') and not v.idx and not v.off
    arr = {}
    for k in phi:
        if isinstance(k, tuple) and k[0] == 'mem': arr.setdefault(k[1], []).append(k)
    arr = {o: sorted(ks, key=lambda k: k[2]) for o, ks in arr.items() if len(ks) >= 8}
    inarr = set(k for ks in arr.values() for k in ks)
    num = [k for k, v in phi.items() if isobj(v) or isvar(k, v) and not z3.is_bool(v) and v.size() == 64 and k not in inarr]
    small = [k for k, v in phi.items() if isvar(k, v) and (z3.is_bool(v) or v.size() == 8)]
    res = [k for k, v in phi.items() if isvar(k, v) and not z3.is_bool(v) and v.size() == 32]
    V = lambda p, k: tobv(p[k])
    B = lambda p, k: p[k] if z3.is_bool(p[k]) else z3.Extract(0, 0, p[k]) == 1
    for (t, k) in [k for k in phi if isinstance(k, tuple) and k[0] == 'ghost']:
        if g0.get(k) is None: continue
        add('%s unchanged' % k, lambda s, p, it, k=k: gv(p, s, k) == g0[k])
        if z3.is_bool(g0[k]):
            add('%s holds' % k, lambda s, p, it, k=k: gv(p, s, k))
            add('%s does not hold' % k, lambda s, p, it, k=k: z3.Not(gv(p, s, k)))
            for b in small:
                add('%s if %s' % (k, b), lambda s, p, it, k=k, b=b: z3.Implies(B(p, b), gv(p, s, k)))
                add('%s unless %s' % (k, b), lambda s, p, it, k=k, b=b: z3.Implies(z3.Not(B(p, b)), gv(p, s, k)))
                add('not %s unless %s' % (k, b), lambda s, p, it, k=k, b=b: z3.Implies(z3.Not(B(p, b)), z3.Not(gv(p, s, k))))
                add('not %s if %s' % (k, b), lambda s, p, it, k=k, b=b: z3.Implies(B(p, b), z3.Not(gv(p, s, k))))
    if ('ghost', 'mv') in phi or ('ghost', 'pm') in phi:
        add('a meta, or none yet', lambda s, p, it: z3.Or(last(p, s) == 0, metafact(last(p, s))))
        add('a meta', lambda s, p, it: z3.And(last(p, s) != 0, metafact(last(p, s))))
        add('a meta of the pass, or none yet', lambda s, p, it: z3.Or(pm(p, s) == 0, metafact(pm(p, s))))
        add('the meta of the pass is not newer than the last one', lambda s, p, it: z3.Or(pm(p, s) == 0, z3.And(z3.ULE(SEQ(pm(p, s)), SEQ(last(p, s))), (SEQ(pm(p, s)) == SEQ(last(p, s))) == (pm(p, s) == last(p, s)))))
        add('the meta of the pass is the last one', lambda s, p, it: pm(p, s) == last(p, s))
        add('same bottom level', lambda s, p, it: MLF(last(p, s)) == MLF(g0['mv']))
        add('not below the first meta', lambda s, p, it: z3.Or(g0['mv'] == 0, z3.And(z3.ULE(MLF(g0['mv']), MLF(last(p, s))), z3.ULE(MFF(g0['mv']), MFF(last(p, s))))))
    add('the levels of the meta exist', lambda s, p, it: z3.Or(last(p, s) == 0, z3.ULE(MFF(last(p, s)), gv(p, s, 'top'))))
    add('the levels of the pass exist', lambda s, p, it: z3.Or(pm(p, s) == 0, z3.ULE(MFF(pm(p, s)), gv(p, s, 'top'))))
    add('the chain does not shrink', lambda s, p, it: z3.ULE(g0['top'], gv(p, s, 'top')))
    add('not too many levels', lambda s, p, it: z3.ULE(gv(p, s, 'top'), MAXR + 1))
    # level pointers and counters
    for k in num:
        add('%s the last meta' % (k,), lambda s, p, it, k=k: V(p, k) == last(p, s))
        add('%s the meta of the pass' % (k,), lambda s, p, it, k=k: V(p, k) == pm(p, s))
        add('%s a level in use' % (k,), lambda s, p, it, k=k: z3.And(V(p, k) == LV(RK(V(p, k))), z3.ULE(MLF(pm(p, s)), RK(V(p, k))), z3.ULE(RK(V(p, k)), MFF(pm(p, s)))))
        add('%s below the levels in use' % (k,), lambda s, p, it, k=k: z3.ULE(V(p, k), MFF(pm(p, s)) - MLF(pm(p, s))))
        add('%s the top level' % (k,), lambda s, p, it, k=k: V(p, k) == LV(MFF(pm(p, s))))
        add('%s the bottom level' % (k,), lambda s, p, it, k=k: V(p, k) == LV(MLF(pm(p, s))))
        add('%s counts' % (k,), lambda s, p, it, k=k: V(p, k) == it)
        add('%s counts from 1' % (k,), lambda s, p, it, k=k: V(p, k) == it + 1)
        for j in num:
            if j is not k:
                add('%s numbers level %s' % (k, j), lambda s, p, it, k=k, j=j: RK(V(p, j)) == MLF(pm(p, s)) + V(p, k))
                add('%s numbers level %s from 1' % (k, j), lambda s, p, it, k=k, j=j: RK(V(p, j)) + 1 == MLF(pm(p, s)) + V(p, k))
        add('%s <= 8' % (k,), lambda s, p, it, k=k: z3.ULE(V(p, k), 8))
        for o, ks in arr.items():
            for n, q in enumerate(ks):
                add('%s: %d levels noted' % (k, n), lambda s, p, it, k=k, q=q, n=n: z3.Implies(z3.UGT(V(p, k), n), V(p, q) == LV(MLF(pm(p, s)) + n)))
    if g0.get('kind') == 'update':
        add('stored and confirmed', lambda s, p, it: z3.Implies(z3.Not(gv(p, s, 'stored')), gv(p, s, 'stored')))
    if g0.get('resizer'):
        zdone = lambda p, s: z3.Implies(z3.And(s.g['zr'] == MLF(last(p, s)), z3.ULT(s.g['zi'], gv(p, s, 'EB'))), gv(p, s, 'gone'))
        add('drained below the drain position', lambda s, p, it: z3.Or(last(p, s) == 0, zdone(p, s)))
        add('the drain position is in the level', lambda s, p, it: z3.Or(last(p, s) == 0, z3.ULE(gv(p, s, 'EB'), CAPF(MLF(last(p, s))))))
        add('the drain position is in the level (<)', lambda s, p, it: z3.Or(last(p, s) == 0, z3.ULT(gv(p, s, 'EB'), CAPF(MLF(last(p, s))))))
        add('the bottom level is drained', lambda s, p, it: z3.Implies(z3.And(s.g['zr'] == MLF(last(p, s)), z3.ULT(s.g['zi'], CAPF(MLF(last(p, s))))), gv(p, s, 'gone')))
        add('gone kept', lambda s, p, it: z3.Implies(g0['gone'], gv(p, s, 'gone')))
        add('more than two levels', lambda s, p, it: z3.ULE(MLF(last(p, s)) + 2, MFF(last(p, s))))
        for k in num:
            for nm, cmp in (('below', z3.ULT), ('from', z3.UGE), ('after', z3.UGT)):
                add('bucket drained %s slot %s' % (nm, k), lambda s, p, it, k=k, cmp=cmp: z3.Implies(z3.And(s.g['zr'] == MLF(last(p, s)), s.g['zi'] == gv(p, s, 'EB'), cmp(s.g['zj'], V(p, k))), gv(p, s, 'gone')))
        for b in small:
            add('moved if %s' % (b,), lambda s, p, it, b=b: z3.Implies(z3.And(B(p, b), gv(p, s, 'sa') == s.g['za']), gv(p, s, 'gone')))
    if g0.get('key') is None: return out
    # what has been seen
    sg = {'x': 'seenX', 'y': 'seenY'}
    guards = [('', lambda p: T)]
    if g0.get('io') and g0.get('dupmode') and res:      # the pass goes on after the key was found
        guards = [(' unless found %s' % k, lambda p, k=k: z3.Not(z3.Or(p[k] == 1, p[k] == 2))) for k in res]
    add0 = add
    for gn, gd in guards:
      def add(n, f, gn=gn, gd=gd): add0(n + gn, lambda s, p, it, f=f, gd=gd: z3.Implies(gd(p), f(s, p, it)))
      for w in 'xy':
          S = lambda p, s, w=w: gv(p, s, sg[w])
          add('%s kept' % sg[w], lambda s, p, it, S=S, w=w: z3.Implies(g0[sg[w]], S(p, s)))
          u = lambda p, s, w=w: z3.And(z3.ULE(MLF(pm(p, s)), s.g['xr']), pm(p, s) == last(p, s))
          for k in num:
              add('%s below level %s' % (sg[w], k), lambda s, p, it, k=k, S=S, w=w, u=u: z3.Implies(z3.And(u(p, s), z3.ULT(s.g[w + 'r'], RK(V(p, k)))), S(p, s)))
              add('%s below level number %s' % (sg[w], k), lambda s, p, it, k=k, S=S, w=w, u=u: z3.Implies(z3.And(u(p, s), z3.ULT(s.g[w + 'r'], MLF(pm(p, s)) + V(p, k))), S(p, s)))
              for side in (False, True):
                  pos = lambda s, p, w=w, side=side: z3.And(s.g[w + 'r'] == gv(p, s, 'lr'), s.g[w + 's'] == side)
                  for nm, cmp in (('before', z3.ULT), ('from', z3.UGE), ('after', z3.UGT)):
                      add('%s %s slot %s of the %s bucket' % (sg[w], nm, k, 'right' if side else 'left'),
                          lambda s, p, it, k=k, S=S, w=w, pos=pos, cmp=cmp, u=u: z3.Implies(z3.And(u(p, s), pos(s, p), cmp(s.g[w + 'j'], V(p, k))), S(p, s)))
          add('%s below the level' % sg[w], lambda s, p, it, S=S, w=w, u=u: z3.Implies(z3.And(u(p, s), z3.ULT(s.g[w + 'r'], gv(p, s, 'lr'))), S(p, s)))
          for side in (False, True):
              add('%s in the whole %s bucket' % (sg[w], 'right' if side else 'left'),
                  lambda s, p, it, S=S, w=w, side=side, u=u: z3.Implies(z3.And(u(p, s), s.g[w + 'r'] == gv(p, s, 'lr'), s.g[w + 's'] == side), S(p, s)))
    add = add0
    # what find has found
    io = g0.get('io')
    if io:
        cell = lambda s, n: tobv(s.mem[io[n]][0][1])
        st8 = lambda s: (cell(s, 'e'), cell(s, 'level_num'), cell(s, 'idx') if 'idx' in io else None, cell(s, 'old_e') if 'old_e' in io else None)
        code = lambda p, k, a, b: z3.Or(p[k] == a, p[k] == b)
        for k in res:
            add('%s a result' % (k,), lambda s, p, it, k=k: z3.ULE(p[k], 4))
            def slotok(s, p, k, l, r, w):
                e, ln, ix, old = st8(s)
                rr = MLF(pm(p, s)) + ln
                i = z3.LShR(e, 6) & bv((1 << 34) - 1)
                ok = [z3.ULE(ln, MFF(pm(p, s)) - MLF(pm(p, s))), e == saddr(rr, i, z3.LShR(e, 3) & 7), i == z3.If(p[k] == l, m.fidx(s.g['key'], rr), m.sidx(s.g['key'], rr))]
                if ix is not None: ok.append(ix == i)
                if old is not None: ok.append(w(old))
                return z3.Implies(code(p, k, l, r), z3.And(ok))
            def safe(f):
                def g(s, p, it):
                    try: return f(s, p, it)
                    except (KeyError, AttributeError): raise Skip()
                return g
            add('%s vacancy' % (k,), safe(lambda s, p, it, k=k: slotok(s, p, k, 3, 4, lambda o: o == 0)))
            add('%s found' % (k,), safe(lambda s, p, it, k=k: slotok(s, p, k, 1, 2, lambda o: z3.And(m.wordok(o), m.ofkey(o, s.g['key'])))))
            add('%s not found yet' % (k,), lambda s, p, it, k=k: z3.Not(code(p, k, 1, 2)))
            add('%s found means seen' % (k,), lambda s, p, it, k=k: z3.Implies(code(p, k, 1, 2), gv(p, s, 'hit')))
            for n in num:
                add('%s found in slot %s' % (k, n), safe(lambda s, p, it, k=k, n=n: z3.Implies(code(p, k, 1, 2), V(p, n) == z3.LShR(cell(s, 'e'), 3) & 7)))
                add('%s found word %s' % (k, n), safe(lambda s, p, it, k=k, n=n: z3.Implies(code(p, k, 1, 2), V(p, n) == cell(s, 'old_e'))))
                pe = lambda s: z3.LShR(cell(s, 'e'), 40) - 1
                sl = lambda s: z3.LShR(cell(s, 'e'), 3) & 7
                le = lambda s, p: cell(s, 'idx') == m.fidx(s.g['key'], gv(p, s, 'lr'))
                add('%s found below level number %s' % (k, n), safe(lambda s, p, it, k=k, n=n: z3.Implies(code(p, k, 1, 2), z3.ULT(pe(s), MLF(pm(p, s)) + V(p, n)))))
                add('%s found before slot %s on the left' % (k, n), safe(lambda s, p, it, k=k, n=n: z3.Implies(code(p, k, 1, 2),
                    z3.Or(z3.ULT(pe(s), gv(p, s, 'lr')), z3.And(pe(s) == gv(p, s, 'lr'), le(s, p), z3.ULT(sl(s), V(p, n)))))))
                add('%s found before slot %s on the right' % (k, n), safe(lambda s, p, it, k=k, n=n: z3.Implies(code(p, k, 1, 2),
                    z3.Or(z3.ULT(pe(s), gv(p, s, 'lr')), z3.And(pe(s) == gv(p, s, 'lr'), z3.Or(le(s, p), z3.ULT(sl(s), V(p, n))))))))
    return out


def absent(m, st):
    """every candidate slot of every level in use was seen without the key, lower levels first, under one value of the meta word"""
    g = st.g
    mv = g['pm']
    use = lambda r: z3.And(z3.ULE(MLF(mv), r), z3.ULE(r, MFF(mv)))
    return z3.And(g['checked'], mv != 0, mv == g['mv'], z3.Implies(z3.And(use(g['xr']), use(g['yr'])), z3.And(g['seenX'], g['seenY'])))


def fn_of(m, name):
    P = 'pmem::obj::experimental::clevel_hash::'
    ns = [n for n in m.mod.src if m.pl[n] == P + name]
    if len(ns) != 1: raise Unsupported('function not found: ' + name)
    return ns[0]


THIS = lambda: Ptr('cl', bv(1 << 30))


def keyobj(m, st):
    k = m.eng.new_obj(st, 8)
    m.eng.cell_store(st, k.base, 0, I64, st.g['key'])
    return k


def run_search(mod, hints=None):
    m = CL(mod)
    m.P = {'C01'}
    eng = m.eng
    eng.hints = hints
    st = m.state()
    r = eng.new_obj(st, 32)
    eng.cur = 'clevel_hash::search'
    eng.call_into(st, fn_of(m, 'search'), [r, THIS(), keyobj(m, st)], None)

    def ret(s, v):
        f = tobool(eng.cell_load(s, r.base, m.c['r_found'], I8))
        eng.oblige(s, 'found is reported only of a key that was seen in one of its slots', z3.Implies(f, s.g['hit']), m.P)
        eng.oblige(s, 'not found is reported only if one pass, from the bottom level up, saw no slot with the key', z3.Implies(z3.Not(f), absent(m, s)), m.P)
    eng.run(st, ret)
    return eng


def run_erase(mod, hints=None):
    m = CL(mod)
    m.P = {'C01', 'C02'}
    eng = m.eng
    eng.hints = hints
    st = m.state()
    r = eng.new_obj(st, 32)
    eng.cur = 'clevel_hash::erase'
    eng.call_into(st, fn_of(m, 'erase'), [r, THIS(), keyobj(m, st), z3.BitVec('tid', 64)], None)

    def ret(s, v):
        g = s.g
        f = tobool(eng.cell_load(s, r.base, m.c['r_found'], I8))
        eng.oblige(s, 'a removal is reported only if this call removed an entry with the key', z3.Implies(f, g['removed']), {'C01'})
        eng.oblige(s, 'a removal is reported', z3.Implies(g['removed'], f), {'C01'})
        eng.oblige(s, 'not found is reported only if one pass, from the bottom level up, saw no slot with the key', z3.Implies(z3.Not(f), absent(m, s)), {'C01'})
        eng.oblige(s, 'an emptied slot is written back before the call returns', z3.And(g['pers'], z3.Not(g['lost'])), {'C04'})
    eng.run(st, ret)
    return eng


def slotptr(m, st, n):
    r, i, j = (z3.BitVec('%s_%s' % (x, n), 64) for x in ('rank', 'bucket', 'slot'))
    st.pc += [z3.ULE(r, st.g['top']), z3.ULT(i, CAPF(r)), z3.ULT(j, 8), capfact(r)]
    return Ptr('bkt', saddr(r, i, j))


def run_del_dup(mod, hints=None):
    m = CL(mod)
    m.off.add('pmem::obj::experimental::clevel_hash::del_dup')
    m.P = {'C02'}
    eng = m.eng
    st = m.state(key=False)
    g = st.g
    p1, p2 = slotptr(m, st, '1'), slotptr(m, st, '2')
    w1, w2 = z3.BitVec('e1', 64), z3.BitVec('e2', 64)
    st.pc += [tobv(p1) != tobv(p2), off(w1) != 0, off(w2) != 0, m.wordok(w1), m.wordok(w2)]
    e1, e2 = eng.new_obj(st, 8), eng.new_obj(st, 8)
    eng.cell_store(st, e1.base, 0, I64, w1); eng.cell_store(st, e2.base, 0, I64, w2)
    g['dup'] = (tobv(p2), KEYOF(off(w1)))
    g['dupe1'] = w1
    g['inst'] = F
    eng.cur = 'clevel_hash::del_dup'
    eng.call_into(st, fn_of(m, 'del_dup'), [THIS(), eng.new_obj(st, 16), p1, p2, e1, e2], None)
    eng.run(st, lambda s, v: eng.oblige(s, 'an emptied slot is written back before the call returns', z3.And(s.g['pers'], z3.Not(s.g['lost'])), {'C04'}))
    return eng


def run_find(mod, dup, hints=None):
    m = CL(mod)
    m.off.add('pmem::obj::experimental::clevel_hash::find')
    m.P = {'C01', 'C02'}
    eng = m.eng
    eng.hints = hints
    st = m.state()
    g = st.g
    o = {n: eng.new_obj(st, 8) for n in ('n_levels', 'old_e', 'e', 'level_num', 'idx', 'm_copy')}
    mc = m.newmeta(st)
    g['mv'] = mc
    for n in ('n_levels', 'level_num', 'idx', 'old_e', 'e'): eng.cell_store(st, o[n].base, 0, I64, z3.BitVec('in_' + n, 64))
    eng.cell_store(st, o['m_copy'].base, 0, I64, mc)
    g['io'] = {n: p.base for n, p in o.items()}
    g['dupmode'] = dup
    eng.cur = 'clevel_hash::find (%s duplicates)' % ('removing' if dup else 'not removing')
    eng.call_into(st, fn_of(m, 'find'), [THIS(), eng.new_obj(st, 16), keyobj(m, st), TAG(g['key']), o['n_levels'], o['old_e'], o['e'], o['level_num'], o['idx'], z3.BoolVal(dup),
                                         z3.BitVec('tid', 64), o['m_copy']], None)

    def ret(s, v):
        g = s.g
        v = tobv(v, 32)
        cell = lambda n: tobv(eng.cell_load(s, o[n].base, 0, I64))
        e, ln, ix, old = cell('e'), cell('level_num'), cell('idx'), cell('old_e')
        pm = g['pm']
        rr = MLF(pm) + ln
        i = z3.LShR(e, 6) & bv((1 << 34) - 1)
        found, vac = z3.Or(v == 1, v == 2), z3.Or(v == 3, v == 4)
        left = z3.Or(v == 1, v == 3)
        slot = z3.And(e == saddr(rr, i, z3.LShR(e, 3) & 7), i == ix)
        eng.oblige(s, 'find returns one of its results', z3.ULE(v, 4), m.P)
        eng.oblige(s, 'found is reported only of a key that was seen in one of its slots', z3.Implies(found, g['hit']), {'C01'})
        eng.oblige(s, 'not found is reported only if one pass, from the bottom level up, saw no slot with the key', z3.Implies(z3.Not(found), absent(m, s)), {'C01'})
        eng.oblige(s, 'the level and the bucket that find reports are those of the slot', z3.Implies(z3.Or(found, vac), z3.And(z3.ULE(ln, MFF(pm) - MLF(pm)), ix == z3.If(left, m.fidx(g['key'], rr), m.sidx(g['key'], rr)))), {'C01', 'C02'})
        eng.oblige(s, 'a vacancy is an empty slot of one of the two buckets of the key', z3.Implies(vac, z3.And(slot, old == 0)), {'C02'})
        if dup: eng.oblige(s, 'the slot and the word that find reports are those of an entry with the key', z3.Implies(found, z3.And(slot, m.wordok(old), m.ofkey(old, g['key']))), {'C01', 'C02'})
        eng.oblige(s, 'find leaves the pass it belongs to in m_copy', z3.And(cell('m_copy') == g['mv'], pm == g['mv']), m.P)
        eng.oblige(s, 'find changes no slot itself', g['pers'], {'C02'})
    eng.run(st, ret)
    return eng


def run_find_empty(mod, hints=None):
    m = CL(mod)
    m.off.add('pmem::obj::experimental::clevel_hash::find_empty_slot')
    m.P = {'C02'}
    eng = m.eng
    eng.hints = hints
    st = m.state()
    g = st.g
    o = {n: eng.new_obj(st, 8) for n in ('n_levels', 'e', 'level_num', 'm_copy')}
    mc = m.newmeta(st)
    g['mv'] = mc
    for n in ('n_levels', 'level_num', 'e'): eng.cell_store(st, o[n].base, 0, I64, z3.BitVec('in_' + n, 64))
    eng.cell_store(st, o['m_copy'].base, 0, I64, mc)
    g['io'] = {n: p.base for n, p in o.items()}
    eng.cur = 'clevel_hash::find_empty_slot'
    eng.call_into(st, fn_of(m, 'find_empty_slot'), [THIS(), eng.new_obj(st, 16), keyobj(m, st), TAG(g['key']), o['n_levels'], o['e'], o['level_num'], o['m_copy']], None)

    def ret(s, v):
        g = s.g
        v = tobv(v, 32)
        cell = lambda n: tobv(eng.cell_load(s, o[n].base, 0, I64))
        e, ln = cell('e'), cell('level_num')
        pm = g['pm']
        rr = MLF(pm) + ln
        i = z3.LShR(e, 6) & bv((1 << 34) - 1)
        vac = z3.Or(v == 3, v == 4)
        eng.oblige(s, 'find_empty_slot reports a vacancy or none', z3.Or(v == 0, vac), m.P)
        eng.oblige(s, 'a vacancy is a slot of one of the two buckets of the key', z3.Implies(vac, z3.And(z3.ULE(ln, MFF(pm) - MLF(pm)), e == saddr(rr, i, z3.LShR(e, 3) & 7), i == z3.If(v == 3, m.fidx(g['key'], rr), m.sidx(g['key'], rr)))), {'C02'})
        eng.oblige(s, 'find_empty_slot leaves the pass it belongs to in m_copy', z3.And(cell('m_copy') == g['mv'], pm == g['mv']), m.P)
    eng.run(st, ret)
    return eng


def alloc_fn(m):
    ns = [n for n in m.mod.src if m.pl[n].endswith('clevel_hash::allocate_KV_copy_construct')]
    if len(ns) != 1: raise Unsupported('allocate_KV_copy_construct')
    return Ptr('func', ns[0])


def op_state(m, kind):
    eng = m.eng
    st = m.state()
    g = st.g
    g['tid'] = z3.BitVec('tid', 64)
    st.pc.append(z3.ULT(g['tid'], 1 << 20))
    g['kind'] = kind
    g['tmp'] = Frozen({k << 20: eng.new_obj(st, 16).base for k in (1, 2, 3)})
    pair = eng.new_obj(st, 16)
    eng.cell_store(st, pair.base, 0, I64, g['key']); eng.cell_store(st, pair.base, 8, I64, z3.BitVec('value', 64))
    return st, pair


class Frozen(dict):
    def copy(self): return self


def run_insert(mod, hints=None):
    m = CL(mod)
    m.P = {'C01', 'C02'}
    eng = m.eng
    eng.hints = hints
    st, pair = op_state(m, 'insert')
    st.g['accum'] = False
    r = eng.new_obj(st, 32)
    eng.cur = 'clevel_hash::generic_insert'
    eng.call_into(st, fn_of(m, 'generic_insert'), [r, THIS(), pair, pair, alloc_fn(m), st.g['tid'], z3.BitVec('id', 64)], None)

    def ret(s, v):
        g = s.g
        f = tobool(eng.cell_load(s, r.base, m.c['r_found'], I8))
        eng.oblige(s, 'an insert is refused only if the key was seen in one of its slots', z3.Implies(f, z3.And(g['hit'], z3.Not(g['stored']))), {'C01'})
        eng.oblige(s, 'an insert is reported only after its entry was stored', z3.Implies(z3.Not(f), g['stored']), {'C01'})
        rank = z3.LShR(g['ca'], 40) - 1
        eng.oblige(s, 'an insert into the bottom level is reported only if that level was not being drained after the entry was stored',
                   z3.Implies(z3.Not(f), z3.Or(rank != MLF(g['fm']), z3.And(g['mread'], z3.Not(RSF(g['mv']))))), {'C01'})
        eng.oblige(s, 'the slot of a new entry is written back before the insert is reported', z3.Implies(z3.Not(f), g['pers']), {'C04'})
    eng.run(st, ret)
    return eng


def run_update(mod, hints=None):
    m = CL(mod)
    m.P = {'C01', 'C02'}
    eng = m.eng
    eng.hints = hints
    st, pair = op_state(m, 'update')
    r = eng.new_obj(st, 32)
    eng.cur = 'clevel_hash::generic_update'
    eng.call_into(st, fn_of(m, 'generic_update'), [r, THIS(), pair, pair, alloc_fn(m), st.g['tid']], None)

    def ret(s, v):
        g = s.g
        f = tobool(eng.cell_load(s, r.base, m.c['r_found'], I8))
        rank, ix = z3.LShR(g['ca'], 40) - 1, z3.LShR(g['ca'], 6) & bv((1 << 34) - 1)
        same = z3.And(g['mread'], g['mv'] == g['fm'])
        clear = z3.Or(rank != MLF(g['fm']), ix < g['ebf'], z3.And(g['ebread'], ix > g['eba']))
        eng.oblige(s, 'an update is reported only after its entry was stored', z3.Implies(f, g['stored']), {'C01'})
        eng.oblige(s, 'an update is reported only if its slot was not being drained when the entry was stored, or a later pass saw the new entry in the table, or no entry of the key',
                   z3.Implies(f, z3.Or(z3.And(same, clear), z3.And(g['cw'] == g['entry'] | (z3.Concat(TAG(g['key']), bv(0, 48)))), absent(m, s))), {'C01'})
        eng.oblige(s, 'an update is refused only if one pass saw no slot with the key', z3.Implies(z3.Not(f), z3.And(absent(m, s), z3.Not(g['stored']))), {'C01'})
        eng.oblige(s, 'a changed slot is written back before the update is reported', z3.And(g['pers'], z3.Not(g['lost'])), {'C04'})
    eng.run(st, ret)
    return eng


def grow_caps(st):
    h = z3.BitVec('log2_cap', 64)
    MODE['cap'] = lambda r: bv(1) << (h + r)
    return [z3.UGE(h, 2), z3.ULE(h, 6)]


def run_expand(mod, hints=None):
    m = CL(mod)
    m.off.add('pmem::obj::experimental::clevel_hash::expand')
    m.P = {'C03'}
    eng = m.eng
    eng.hints = hints
    try:
        pcs = grow_caps(None)
        st, pair = op_state(m, 'expand')
        g = st.g
        st.pc += pcs
        g['key'] = None
        mc = m.newmeta(st)
        g['mv'] = mc
        g['pm'] = mc
        o = eng.new_obj(st, 8)
        eng.cell_store(st, o.base, 0, I64, mc)
        eng.cur = 'clevel_hash::expand'
        eng.call_into(st, fn_of(m, 'expand'), [THIS(), eng.new_obj(st, 16), g['tid'], o], None)

        def ret(s, v):
            g = s.g
            eng.oblige(s, 'a new meta word is written back before expand returns', g['mpers'], {'C04'})
        eng.run(st, ret)
    finally: MODE['cap'] = None
    return eng


def run_resize(mod, hints=None):
    m = CL(mod)
    m.P = {'C02', 'C03'}
    eng = m.eng
    eng.hints = hints
    try:
        st, pair = op_state(m, 'resize')
        g = st.g
        g['key'] = None
        g['tid'] = bv(0)
        g['resizer'] = True
        for z in ('zr', 'zi', 'zj'): g[z] = z3.BitVec(z, 64)
        g['za'] = saddr(g['zr'], g['zi'], g['zj'])
        st.pc += [z3.ULE(g['zr'], MAXR), z3.ULT(g['zi'], CAPF(g['zr'])), z3.ULT(g['zj'], 8), capfact(g['zr'])]
        g.update(gone=z3.Bool('gone0'), EB=z3.BitVec('drain_position', 64))
        # what resize leaves behind is what it starts from: the buckets below the drain position are drained
        mc = m.newmeta(st)
        g['mv'] = mc
        st.pc += [z3.Implies(z3.And(g['zr'] == MLF(mc), z3.ULT(g['zi'], g['EB'])), g['gone']), z3.ULT(g['EB'], CAPF(MLF(mc)))]
        eng.cur = 'clevel_hash::resize'
        eng.call_into(st, fn_of(m, 'resize'), [THIS()], None)

        def ret(s, v):
            g = s.g
            eng.oblige(s, 'the meta word and the drain position are written back before the drainer stops', z3.And(g['mpers'], g['ebpers']), {'C04'})
        eng.run(st, ret)
    finally: MODE['cap'] = None
    return eng


JOBS = {'search': run_search, 'erase': run_erase, 'del_dup': run_del_dup, 'find': lambda mod, hints=None: run_find(mod, False, hints), 'find.dup': lambda mod, hints=None: run_find(mod, True, hints),
        'find_empty_slot': run_find_empty, 'insert': run_insert, 'update': run_update, 'expand': run_expand, 'resize': run_resize}


def run(mod, job, asserts=False, hints=None): return JOBS[job](mod, hints)
