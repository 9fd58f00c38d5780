"""D01 (flushing a range) and D02 (the dirty-bit protocol of one word) on the real functions of include/persistence.hpp."""
from engine import *
from mem import *
import re

DIRTY = bv(1)


class FlushMemory(GhostMemory):
    """ghost 'fl': the watched cache line has been flushed; 'fe': ... and a fence followed"""
    tracked = ('fl', 'fe')

    def persist_op(self, eng, st, name, args):
        if 'fence' in name:
            st.g['fe'] = simp(z3.Or(st.g['fe'], st.g['fl']))
            st.g['anyfence'] = True
        else:
            a = tobv(args[0])
            st.g['fl'] = simp(z3.Or(st.g['fl'], (a & bv(~63)) == st.g['line']))

    def external(self, eng, st, name, args, ins): return None


def flush_templates(eng, info):
    out = []
    phi = info['phi']
    gl = [k for k in phi if isinstance(k, tuple) and k[0] == 'ghost' and k[1] == 'fl']
    if not gl: return out
    line = info['estate'].g['line']
    fl0 = info['estate'].g['fl']
    ks = [k for k, v in phi.items() if not isinstance(k, tuple) or k[0] == 'mem']
    ks = [k for k in ks if not z3.is_bool(phi[k]) and phi[k] is not None]
    for k in ks:
        e0 = info['entry'].get(k)
        if e0 is None and isinstance(k, tuple): e0 = info['estate'].mem[k[1]][k[2]][1]
        e0 = tobv(e0)
        if e0.size() != 64: continue
        out.append(('flushed below %s' % (k,), lambda s, p, it, k=k, e0=e0: z3.Implies(
            z3.And(z3.ULE(e0, line), z3.ULT(line, tobv(p[k]))), s.g['fl'])))
        out.append(('flushed by index %s' % (k,), lambda s, p, it, k=k, e0=e0: z3.Implies(
            z3.And(z3.ULE(s.g['start'], line), z3.ULT(line, s.g['start'] + 64 * tobv(p[k]))), s.g['fl'])))
        out.append(('flushed by offset %s' % (k,), lambda s, p, it, k=k, e0=e0: z3.Implies(
            z3.And(z3.ULE(s.g['start'], line), z3.ULT(line, s.g['start'] + tobv(p[k]))), s.g['fl'])))
        out.append(('aligned %s' % (k,), lambda s, p, it, k=k, e0=e0: (tobv(p[k]) - e0) & bv(63) == 0))
        out.append(('grows %s' % (k,), lambda s, p, it, k=k, e0=e0: z3.ULE(e0, tobv(p[k]))))
        end = info['estate'].g['end']
        out.append(('bounded %s' % (k,), lambda s, p, it, k=k: z3.ULT(tobv(p[k]), end + 64)))
        out.append(('bounded off %s' % (k,), lambda s, p, it, k=k: z3.ULT(tobv(p[k]), end - s.g['start'] + 64)))
        for d in ('len', 'plen'):
            out.append(('down %s %s' % (k, d), lambda s, p, it, k=k, e0=e0: z3.ULE(tobv(p[k]), e0)))
    for k in ks:
        for j in ks:
            if str(k) < str(j) and tobv(phi[k]).size() == tobv(phi[j]).size() == 64:
                e1, e2 = [tobv(info['entry'].get(x) if x in info['entry'] else info['estate'].mem[x[1]][x[2]][1]) for x in (k, j)]
                out.append(('sum %s %s' % (k, j), lambda s, p, it, k=k, j=j, e1=e1, e2=e2: tobv(p[k]) - e1 == e2 - tobv(p[j])))
                out.append(('diff %s %s' % (k, j), lambda s, p, it, k=k, j=j, e1=e1, e2=e2: tobv(p[k]) - e1 == tobv(p[j]) - e2))
    return out


def find(mod, pat):
    return [n for n in mod.src if re.search(pat, mod.dem.get(n, ''))]


def start(eng, mem, fname, args, g):
    st = State()
    st.g.update(g)
    st.g['sum'] = False
    eng.cur = eng.mod.dem.get(fname, fname)[:120]
    eng.call_into(st, fname, args, None)
    return st


def run_d01(mod, tier='quick'):
    eng = Engine(mod, FlushMemory())
    eng.templates = [flush_templates]
    names = find(mod, r'^PERSIST\(') , find(mod, r'^PERSIST_FLUSH_ONLY\('), find(mod, r'^PERSIST_BARRIER_ONLY\(')
    for ns, want in zip(names, ('both', 'flush', 'fence')):
        if not ns: raise Unsupported('function not found (%s)' % want)
        addr, ln, j = z3.BitVec('addr', 64), z3.BitVec('len', 64), z3.BitVec('byte', 64)
        pre = [z3.ULT(j, ln), z3.ULT(ln, bv(1 << 62)), z3.ULT(addr, bv(1 << 62))]
        g = dict(line=(addr + j) & bv(~63), fl=z3.BoolVal(False), fe=z3.BoolVal(False), start=addr & bv(~63), end=addr + ln, anyfence=False)
        fn = mod.fn(ns[0])
        st = start(eng, eng.memory, ns[0], [addr, ln][:len(fn.params)], g)
        st.pc += pre
        if not eng.feasible(st): raise Unsupported('vacuous precondition')
        n0 = eng.paths

        def ret(s, v):
            if want != 'fence': eng.oblige(s, 'the cache line of an arbitrary byte of the range has been flushed', s.g['fl'], {'D01'})
            if want == 'both': eng.oblige(s, 'a fence follows the flush of every line of the range', s.g['fe'], {'D01'})
            if want == 'fence': eng.oblige(s, 'the barrier fences', z3.BoolVal(bool(s.g['anyfence'])), {'D01'})
        eng.run(st, ret)
    return eng


# ---------------------------------------------------------------------------------------------------------------
class WordMemory(GhostMemory):
    """one shared word (heap kind 'word'); between any two accesses other threads may store anything.
       st.g['log']: read events [value, flushed, fenced]"""
    tracked = ('installed',)

    def env(self, eng): return eng.fresh('word')

    def isword(self, p):
        if p.kind != 'word' or p.off or p.idx: raise Unsupported('access outside of the word')

    def load(self, eng, st, p, ty, atomic):
        self.isword(p)
        eng.oblige(st, 'shared words are read atomically', z3.BoolVal(bool(atomic)), {'D02'})
        w = self.env(eng)
        st.g['log'] = st.g['log'] + [(w, False, False)]
        return [(st, w)]

    def store(self, eng, st, p, ty, v, atomic):
        self.isword(p)
        eng.oblige(st, 'shared words are only changed by compare-and-swap', z3.BoolVal(False), {'D02'})
        return [st]

    def cmpxchg(self, eng, st, p, ty, e, n, weak):
        self.isword(p)
        e, n = tobv(e), tobv(n)
        outs = []
        bad = st.copy()
        w = self.env(eng)
        if not weak: bad.pc.append(w != e)
        bad.g['log'] = bad.g['log'] + [(w, False, False)]
        ok = st
        seen = [z3.And(r == e, z3.BoolVal(fn)) for r, fl, fn in ok.g['log']]
        clean = z3.And(n == e & ~DIRTY, (e & DIRTY) == DIRTY)
        install = z3.And((n & DIRTY) == DIRTY, (e & DIRTY) == 0, n & ~DIRTY == ok.g['new'], e == ok.g['old'])
        eng.oblige(ok, 'a word changes only by cleaning the dirty flag or by placing the new value, flagged, over the expected clean value',
                   z3.Or(clean, z3.And(ok.g['mayinstall'], install)), {'D02'})
        eng.oblige(ok, 'the dirty flag is cleared only after that value was read, flushed and fenced',
                   z3.Implies(clean, z3.Or(seen + [z3.BoolVal(False)])), {'D02'})
        eng.oblige(ok, 'the new value is placed at most once', z3.Implies(z3.Not(clean), z3.Not(ok.g['installed'])), {'D02'})
        ok.g['installed'] = simp(z3.Or(ok.g['installed'], z3.Not(clean)))
        ok.g['log'] = ok.g['log'] + [(e, False, False)]
        outs.append((ok, [e, z3.BoolVal(True)]))
        if eng.feasible(bad): outs.append((bad, [w, z3.BoolVal(False)]))
        return outs

    def persist_op(self, eng, st, name, args):
        if 'fence' in name:
            st.g['log'] = [(w, fl, fe or fl) for w, fl, fe in st.g['log']]
        else:
            a = args[0]
            if isinstance(a, Ptr) and a.kind == 'word' and not a.off and not a.idx:
                st.g['log'] = [(w, True, fe) for w, fl, fe in st.g['log']]

    def ghost_diff(self, base, b):
        out = super().ghost_diff(base, b)
        return out

    def havoc(self, eng, st, ghosts, phi):
        super().havoc(eng, st, ghosts, phi)
        # values read before stay read; that they were flushed since stays true as well


def word_templates(eng, info):
    out = []
    phi = info['phi']
    for k in phi:
        if isinstance(k, tuple) and k[0] == 'ghost':
            e0 = info['estate'].g[k[1]]
            out.append(('ghost %s unchanged' % k[1], lambda s, p, it, k=k, e0=e0: p[k] == e0))
            continue
        if isinstance(k, tuple): e0 = info['estate'].mem[k[1]][k[2]][1]
        else: e0 = info['entry'][k]
        if z3.is_bool(phi[k]) or isinstance(e0, Ptr) or phi[k] is None:
            if z3.is_bool(phi[k]): out.append(('%s unchanged' % (k,), lambda s, p, it, k=k, e0=e0: p[k] == e0))
            continue
        out.append(('%s unchanged' % (k,), lambda s, p, it, k=k, e0=e0: tobv(p[k]) == tobv(e0)))
        out.append(('%s clean' % (k,), lambda s, p, it, k=k: tobv(p[k]) & 1 == bv(0, tobv(p[k]).size())))
    return out


def pers(g, v):
    """v is a value the word held during the call, without its flag, and persisted if it was dirty"""
    return z3.Or([z3.And(v == w & ~DIRTY, z3.Or(z3.BoolVal(fe), w & DIRTY == 0)) for w, fl, fe in g['log']] + [z3.BoolVal(False)])


def run_d02(mod, tier='quick'):
    eng = Engine(mod, WordMemory())
    eng.templates = [word_templates]
    rd, cas, per = find(mod, r'\bpcas_read<'), find(mod, r'\bpcas<'), find(mod, r'\bpersist<')
    if not rd or not cas: raise Unsupported('pcas/pcas_read not found')
    old, new, word = z3.BitVec('old', 64), z3.BitVec('new', 64), z3.BitVec('word_addr', 64)
    base = lambda may: dict(log=[], installed=z3.BoolVal(False), old=old, new=new, mayinstall=z3.BoolVal(may))
    for n in rd:
        st = start(eng, eng.memory, n, [Ptr('word', word)], base(False))

        def ret(s, v):
            eng.oblige(s, 'pcas_read returns a value the word held, unflagged, and persisted before the call returns', pers(s.g, tobv(v)), {'D02'})
        eng.run(st, ret)
    for n in cas:
        st = State()
        st.g.update(base(True))
        o = eng.new_obj(st, 8)
        st.mem[o.base][0] = (8, old)
        eng.cur = 'pcas'
        st.pc += [old & DIRTY == 0, new & DIRTY == 0]
        if not eng.feasible(st): raise Unsupported('vacuous precondition')
        eng.call_into(st, n, [Ptr('word', word), o, new], None)

        def ret(s, v):
            v = tobool(v)
            out = tobv(s.mem[o.base][0][1])
            eng.oblige(s, 'pcas reports success exactly when it placed the new value', v == s.g['installed'], {'D02'})
            eng.oblige(s, 'on success the expected value is left as it was', z3.Implies(v, out == old), {'D02'})
            eng.oblige(s, 'on failure pcas reports a value the word held, unflagged, persisted, and different from the expected one',
                       z3.Implies(z3.Not(v), z3.And(out != old, out & DIRTY == 0, pers(s.g, out))), {'D02'})
        eng.run(st, ret)
    # persist<> called on its own: value it is given was read from the word
    for n in per:
        if len(mod.fn(n).params) != 2: continue
        st = State()
        v = z3.BitVec('seen', 64)
        st.g.update(base(False)); st.g['log'] = [(v, False, False)]
        st.pc.append(v & DIRTY == DIRTY)
        eng.cur = 'persist'
        eng.call_into(st, n, [Ptr('word', word), v], None)

        def ret(s, r):
            eng.oblige(s, 'persist flushes and fences the word after the given value was read', z3.BoolVal(s.g['log'][0][2]), {'D02'})
        eng.run(st, ret)
    return eng
