"""H01: every hash entry point computes XXH64 / XXH32 of the given bytes, for every content, length and seed."""
from engine import *
from mem import *
import build

P64 = [0, 11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261]
P32 = [0, 2654435761, 2246822519, 3266489917, 668265263, 374761393]

MUL = {n: z3.Function('mul%d' % n, z3.BitVecSort(n), z3.BitVecSort(n), z3.BitVecSort(n)) for n in (32, 64)}
BIG = {64: set(P64[1:]), 32: set(P32[1:])}


def mul(a, b):
    """products with a prime of the algorithm are left uninterpreted (proofs then hold for any such function)"""
    n = a.size()
    a, b = z3.simplify(a), z3.simplify(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None: return bv(ca * cb % (1 << n), n)
    if ca in BIG.get(n, ()): a, b, ca, cb = b, a, cb, ca
    if cb in BIG.get(n, ()): return MUL[n](a, b)
    return a * b


def near(data):
    """pointers into the input compare as their offsets do (as long as these are small, which is part of the condition)"""
    def off(x):
        d = z3.simplify(x - data)
        return d
    def hook(pr, a, b):
        if pr not in ('ult', 'ule', 'ugt', 'uge') or a.size() != 64: return None
        x, y = off(a), off(b)
        vs = lambda t: data.decl().name() in {str(v) for v in z3util_vars(t)}
        if vs(x) or vs(y): return None
        plain = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pr](a, b)
        sg = {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pr]
        lim = bv(1 << 46)
        small = lambda t: z3.And(t < lim, t > -bv(4096))
        return z3.If(z3.And(small(x), small(y)), sg, plain)
    return hook


def z3util_vars(t, seen=None):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st += x.children()
    return out


def rotl(x, r): return z3.RotateLeft(x, r)


class HashMemory(ByteMemory):
    """spec of the two algorithms over the byte function, with recursion as defining equations instantiated at the loop counters"""

    def __init__(self, n, data, length, seed):
        super().__init__()
        self.n, self.data, self.len, self.seed = n, data, length, seed
        S, I = z3.BitVecSort(n), z3.BitVecSort(64)
        self.L = [z3.Function('lane%d' % i, I, S) for i in range(4)]
        self.TW = z3.Function('words', I, S)
        self.TB = z3.Function('bytes', I, S)
        P = self.P = [bv(p, n) for p in (P64 if n == 64 else P32)]
        w = n // 8
        self.stripe = 4 * w
        sh, wb = (5, 3) if n == 64 else (4, 2)
        ex = lambda hi, lo: z3.simplify(z3.Concat(bv(0, 64 - (hi - lo + 1)), z3.Extract(hi, lo, length)))
        lowz = lambda lo: z3.simplify(z3.Concat(z3.Extract(63, lo, length), bv(0, lo)))
        self.nS = ex(63, sh)
        self.o1 = lowz(sh)
        self.nW = ex(sh - 1, wb)
        self.o2 = lowz(wb)
        if n == 64:
            self.has4 = z3.simplify(z3.Extract(2, 2, length) == 1)
            self.o3 = lowz(2)
        else: self.o3 = self.o2
        self.nB = ex(1, 0)
        self.its0 = [bv(0)]

    def rd(self, a, k):
        bs = [self.B(z3.simplify(a + i)) for i in range(k)]
        return bs[0] if k == 1 else z3.Concat(*reversed(bs))

    def round(self, acc, x):
        P = self.P
        return mul(rotl(acc + mul(x, P[2]), 31 if self.n == 64 else 13), P[1])

    def axioms(self, it):
        n, P, w = self.n, self.P, self.n // 8
        a = []
        for i in range(4):
            a.append(self.L[i](it + 1) == self.round(self.L[i](it), self.rd(self.data + self.stripe * it + w * i, w)))
        p = self.data + self.o1 + w * it
        x = self.rd(p, w)
        if n == 64:
            nxt = mul(rotl(self.TW(it) ^ self.round(bv(0, n), x), 27), P[1]) + P[4]
        else:
            nxt = mul(rotl(self.TW(it) + mul(x, P[3]), 17), P[4])
        a.append(self.TW(it + 1) == nxt)
        b = z3.ZeroExt(n - 8, self.B(z3.simplify(self.data + self.o3 + it)))
        if n == 64: nxt = mul(rotl(self.TB(it) ^ mul(b, P[5]), 11), P[1])
        else: nxt = mul(rotl(self.TB(it) + mul(b, P[5]), 11), P[1])
        a.append(self.TB(it + 1) == nxt)
        return a

    def merge(self, ls):
        h = rotl(ls[0], 1) + rotl(ls[1], 7) + rotl(ls[2], 12) + rotl(ls[3], 18)
        if self.n == 64:
            for l in ls: h = mul(h ^ self.round(bv(0, 64), l), self.P[1]) + self.P[4]
        return h

    def step(self, i, it):
        w = self.n // 8
        return self.round(self.L[i](it), self.rd(self.data + self.stripe * it + w * i, w))

    def base(self):
        n, P, L = self.n, self.P, self.L
        a = [L[0](bv(0)) == self.seed + P[1] + P[2], L[1](bv(0)) == self.seed + P[2], L[2](bv(0)) == self.seed, L[3](bv(0)) == self.seed - P[1]]
        ls = [L[i](self.nS) for i in range(4)]
        l = self.len if n == 64 else z3.Extract(31, 0, self.len)
        a.append(self.TW(bv(0)) == z3.If(z3.UGE(self.len, self.stripe), self.merge(ls), self.seed + P[5]) + l)
        t = self.TW(self.nW)
        if n == 64:
            x = z3.ZeroExt(32, self.rd(self.data + self.o2, 4))
            t = z3.If(self.has4, mul(rotl(t ^ mul(x, P[1]), 23), P[2]) + P[3], t)
        a.append(self.TB(bv(0)) == t)
        return a

    def result(self):
        n, P = self.n, self.P
        h = self.TB(self.nB)
        if n == 64:
            h = mul(h ^ z3.LShR(h, 33), P[2]); h = mul(h ^ z3.LShR(h, 29), P[3]); h = h ^ z3.LShR(h, 32)
        else:
            h = mul(h ^ z3.LShR(h, 15), P[2]); h = mul(h ^ z3.LShR(h, 13), P[3]); h = h ^ z3.LShR(h, 16)
        return h

    def instances(self, st):
        out = self.base() + self.axioms(bv(0))
        for it in st.g.get('its', ()):
            out += self.axioms(it)
            l = self.len if self.n == 64 else z3.Extract(31, 0, self.len)
            out.append(z3.Implies(z3.And(it + 1 == self.nS, z3.UGE(self.len, self.stripe)), self.TW(bv(0)) == self.merge([self.step(i, it) for i in range(4)]) + l))
            for j in (it, it + 1):      # instances of congruence, to help the solver
                out.append(z3.Implies(j == self.nS, z3.And([l(j) == l(self.nS) for l in self.L])))
                out.append(z3.Implies(j == self.nW, self.TW(j) == self.TW(self.nW)))
                out.append(z3.Implies(j == self.nB, self.TB(j) == self.TB(self.nB)))
        return out

    def on_read(self, eng, st, a, n):
        eng.oblige(st, 'the hash reads only the bytes it was given', z3.And(z3.UGE(a, self.data), z3.ULE(a - self.data, self.len), z3.ULE(bv(n), self.len - (a - self.data))), {'H01'})


def templates(eng, info):
    m = eng.memory
    out = []

    def reg(s, p, it):
        s.g['its'] = s.g.get('its', []) + [it]
        return z3.BoolVal(True)
    out.append(('counter', lambda s, p, it: z3.BoolVal(True), reg))
    w = m.n // 8
    for nm, f in (('stripe', lambda it: z3.And(z3.ULE(it, m.nS))), ('word', lambda it: z3.ULE(it, m.nW)), ('byte', lambda it: z3.ULE(it, m.nB)),
                  ('stripe<', lambda it: z3.And(z3.ULT(it, m.nS))), ('word<', lambda it: z3.ULT(it, m.nW)), ('byte<', lambda it: z3.ULT(it, m.nB))):
        out.append(('counter within %s' % nm, lambda s, p, it, f=f: f(it)))
    for k, v in info['phi'].items():
        if isinstance(k, tuple) and k[0] != 'mem' or v is None or z3.is_bool(v) or isinstance(k, tuple) and isinstance(v, Ptr) and v.kind == 'local': continue
        val = tobv(v)
        n = val.size()
        e0 = info['entry'].get(k)
        if e0 is None and isinstance(k, tuple): e0 = info['estate'].mem[k[1]][k[2]][1]
        def eq(nm, tf, k=k):
            out.append(('%s %s' % (k, nm), lambda s, p, it, k=k: tobv(p[k]) == tf(it), None, (k, tf)))
        if n == m.n:
            for i in range(4): eq('is lane %d' % i, lambda it, i=i: m.L[i](it))
            eq('is the word tail', lambda it: m.TW(it))
            eq('is the byte tail', lambda it: m.TB(it))
        tr = lambda it, n=n: it if n == 64 else z3.Extract(n - 1, 0, it)
        if n == 64:
            for nm, o, st in (('s', bv(0), m.stripe), ('w', m.o1, w), ('b', m.o3, 1)):
                eq('at ' + nm, lambda it, o=o, st=st: m.data + o + st * it)
                eq('off ' + nm, lambda it, o=o, st=st: o + st * it)
                eq('left ' + nm, lambda it, o=o, st=st: m.len - o - st * it)
        eq('constant', lambda it, e0=e0: tobv(e0))
        eq('counts', lambda it, e0=e0, tr=tr: tobv(e0) + tr(it))
        eq('counts down', lambda it, e0=e0, tr=tr: tobv(e0) - tr(it))
    return out


JOBS = ('vh_key.0', 'vh_key.1', 'vh_xxh64', 'vh_word', 'vh_xxh32', 'vh_naive')


def run(mod, tier='quick', which=JOBS):
    engs = []
    fns = {w: [n for n in mod.src if mod.dem[n].startswith(w.split('.')[0] + '(')][0] for w in which}
    for w in which:
        data = z3.BitVec('data', 64)
        ln = z3.Concat(bv(0, 24), z3.BitVec('stripes', 35), z3.BitVec('rest', 5))
        n = 32 if w == 'vh_xxh32' else 64
        seed = z3.BitVec('seed', n)
        if w == 'vh_naive':
            e = Engine(mod, Memory()); st = State(); e.cur = w
            k = z3.BitVec('key', 64)
            e.call_into(st, fns[w], [k], None)
            e.run(st, lambda s, v: e.oblige(s, 'the naive hash is the key itself', tobv(v) == k, {'H01'}))
            engs.append(e); continue
        if w == 'vh_word':
            # a key is hashed as its eight bytes with seed 0: run the byte-wise spec over the key's own bytes
            m = HashMemory(64, bv(0), bv(8), bv(0))
            k = z3.BitVec('key', 64)

            def kb(a, k=k):
                c = conc(z3.simplify(a))
                return z3.Extract(8 * c + 7, 8 * c, k) if c < 8 else bv(0, 8)
            m.B = kb
            e = Engine(mod, m, tmo=60000); e.mul = mul; e.cur = w
            m.instances = lambda st: m.base()[4:] + word_axioms(m)
            st = State()
            e.call_into(st, fns[w], [k], None)
            e.run(st, lambda s, v: e.oblige(s, 'the hash of a key is XXH64 of its eight bytes', tobv(v) == m.result(), {'H01'}))
            engs.append(e); continue
        m = HashMemory(n, data, ln, seed)
        e = Engine(mod, m, tmo=60000); e.mul = mul; e.cmp_hook = near(data); e.ftmo = 30000; e.templates = [templates]; e.cur = w
        st = State()
        st.pc += [z3.ULT(data, bv(1 << 47)), z3.UGT(data, bv(4096))]
        if w[-2:] == '.0': st.pc.append(data & 7 == 0)
        if w[-2:] == '.1': st.pc.append(data & 7 != 0)
        e.call_into(st, fns[w], [Ptr('bytes', data), ln, seed], None)
        if not e.feasible_full(st): raise Unsupported('vacuous precondition')
        e.run(st, lambda s, v: e.oblige(s, 'the result is XXH%d of the bytes' % n, tobv(v) == m.result(), {'H01'}))
        engs.append(e)
    return engs


def word_axioms(m):
    P = m.P
    x = m.rd(bv(0), 8)
    return [m.TW(bv(1)) == mul(rotl(m.TW(bv(0)) ^ m.round(bv(0), x), 27), P[1]) + P[4]]


if __name__ == '__main__':
    import time
    mod = build.load(os.path.join(build.VERIF, 'harness', 'hash.cpp'), ['-DNDEBUG'])
    for w in __import__('sys').argv[1:] or JOBS:
        t = time.time()
        e, = run(mod, which=(w,))
        print(w, round(time.time() - t, 1), e.paths, len(e.obls))
        for o in e.obls:
            if o.status != 'proved' or 'result' in o.name or 'hash of' in o.name: print('  ', o.status, o.solver, round(o.secs, 2), o.name, o.where)
