"""U11: making, mapping and unmapping the table files (Table::mmapTable, munmapTable, the constructors)."""
from engine import *
from mem import *
import build, re
from mapmodel import roles, MapMemory

B64 = z3.BitVecSort(64)
ARR = z3.ArraySort(B64, B64)
S = z3.Function('COUNT', B64, B64)       # entries in the first i slots of an existing file
O_RDWR, O_CREAT, O_ACC, O_TRUNC = 2, 0o100, 3, 0o1000


class TableMemory(GhostMemory):
    """the mapped file: ghost arrays VK, VV (raw words), K0, V0 (contents at mapping); w: an arbitrary slot; pw: slot w was written back since it was stored"""
    tracked = ('VK', 'VV', 'pw')

    def __init__(self, mod, asserts=False):
        mm = MapMemory(mod)
        self.__dict__.update({k: getattr(mm, k) for k in ('VINIT', 'VTOMB', 'TP', 'KINIT', 'KTOMB', 'c')})
        self.asserts = asserts
        self.mod = mod

    def clean(self, x): return x & ~bv(1)
    def fix(self, k, v): return z3.If(z3.And(k != self.KINIT, v == self.VINIT), self.VTOMB, v)
    def cnt(self, g, i):
        v = self.fix(self.clean(g['K0'][i]), self.clean(g['V0'][i]))
        return z3.If(z3.Or(v == self.VINIT, v == self.VTOMB, v == self.TP), bv(0), bv(1))

    def slot(self, p):
        sz = self.c['vo_pair']
        i = bv(p.off // sz)
        for s, x in p.idx:
            if s % sz: raise Unsupported('odd stride into the pairs')
            i = i + (s // sz) * x
        f = p.off % sz
        w = 'VK' if f == self.c['vo_key'] else 'VV' if f == self.c['vo_val'] else None
        if w is None: raise Unsupported('odd offset into a pair')
        return z3.simplify(i), w

    def index(self, g, a):
        """the slot an address in the file is at"""
        return z3.simplify(z3.LShR(tobv(a) - g['map'], 4))

    def at(self, eng, st, p):
        i, w = self.slot(p)
        if not tobv(p.base).eq(st.g['map']):
            eng.oblige(st, 'the file is accessed only at its words', (tobv(p.base) - st.g['map']) & 15 == 0, {'U11', 'U12'})
            i = z3.simplify(i + self.index(st.g, p.base))
        return i, w

    def havoc_ptr(self, eng, st, v):
        return Ptr('file', eng.fresh('ptr')) if v.kind == 'file' else None

    def inb(self, eng, st, i):
        g = st.g
        eng.oblige(st, 'the file is accessed only inside of its mapping', z3.ULT(i, g['n']) if g['mapped'] else z3.BoolVal(False), {'U11', 'U12'})

    def load(self, eng, st, p, ty, atomic):
        if p.kind != 'file': raise Unsupported('load of %r' % p)
        i, w = self.at(eng, st, p)
        self.inb(eng, st, i)
        return [(st, z3.Select(st.g[w], i))]

    def put(self, eng, st, i, w, v):
        self.inb(eng, st, i)
        st.g[w] = z3.Store(st.g[w], i, v)
        st.g['pw'] = simp(z3.And(st.g['pw'], i != st.g['w']))

    def store(self, eng, st, p, ty, v, atomic):
        if p.kind != 'file': raise Unsupported('store to %r' % p)
        i, w = self.at(eng, st, p)
        self.put(eng, st, i, w, tobv(v))
        return [st]

    def persist_op(self, eng, st, name, args): pass

    def havoc(self, eng, st, ghosts, phi):
        for g in ghosts:
            k = g[1]
            nv = eng.fresh('pw', 1) if k == 'pw' else z3.Const('%s!%d' % (k, next(eng.fresh_n)), ARR)
            st.g[k] = nv
            phi[g] = nv

    def glob_rmw(self, eng, st, k, p, ty, v):
        if 'fileNameCounter' in p.base: return [(st, eng.fresh('count'))]
        return None

    def glob_load(self, eng, st, p, ty, atomic):
        if 'fileNameCounter' in p.base: return [(st, eng.fresh('count'))]
        if p.base == 'stderr': return [(st, Ptr('opaque', bv(7)))]
        return None

    def on_assert(self, eng, st, m, goal=None):
        if self.asserts: eng.oblige(st, 'assertion: ' + m, z3.BoolVal(False) if goal is None else goal, {'U13'})

    def external(self, eng, st, name, args, ins):
        g = st.g
        P = {'U11'}
        d = self.mod.dem.get(name, name)
        if name in ('open', 'open64'):
            fl = conc(simp(tobv(args[1], 32)))
            if fl is None: raise Unsupported('open flags')
            bad = st.copy()
            fd = eng.fresh('fd', 32)
            st.pc += [fd != bv(-1, 32), fd >= 0]
            g['fd'] = fd; g['open'] = True; g['flags'] = fl; g['len'] = None if not (fl & O_CREAT) else 'new'
            eng.oblige(st, 'a table file is opened for reading and writing', z3.BoolVal(fl & O_ACC == O_RDWR), P)
            if not fl & O_CREAT: eng.oblige(st, 'an existing file keeps its contents', z3.BoolVal(not fl & O_TRUNC), P)
            bad.g['failed_open'] = True
            return [(st, fd), (bad, bv(-1, 32))]
        if name in ('fstat', 'fstat64', '__fxstat', 'stat'):
            eng.oblige(st, 'the size is taken from the opened file', z3.BoolVal(bool(g.get('open'))) if not g.get('open') else tobv(args[0], 32) == g['fd'], P)
            st2, = eng.store(st, eng.gep(args[1], Ty('int', 8), [(Ty('int', 64), bv(48))]), Ty('int', 64), g['fsize'])
            st2.g['len'] = 'file'
            return [(st2, bv(0, 32))]
        if name in ('ftruncate', 'ftruncate64'):
            bad = st.copy()
            eng.oblige(st, 'only a newly made file is resized', z3.BoolVal(g.get('flags', 0) & O_CREAT != 0), P)
            eng.oblige(st, 'the file that was opened is resized', tobv(args[0], 32) == g['fd'] if g.get('open') else z3.BoolVal(False), P)
            g['tlen'] = tobv(args[1])
            return [(st, bv(0, 32)), (bad, bv(-1, 32))]
        if name in ('mmap', 'mmap64'):
            bad = st.copy()
            ln, prot, fl, fd, off = tobv(args[1]), tobv(args[2], 32), tobv(args[3], 32), tobv(args[4], 32), tobv(args[5])
            new = g.get('flags', 0) & O_CREAT != 0
            want = g.get('tlen') if new else g['fsize']
            eng.oblige(st, 'the opened file is mapped, shared, readable and writable, from its start',
                       z3.And(prot == 3, z3.Or(fl == 1, fl == 3, fl & 0xff == 3), fd == g['fd'], off == 0) if g.get('open') else z3.BoolVal(False), P)
            eng.oblige(st, 'the mapping has exactly the length of the file', ln == want if want is not None else z3.BoolVal(False), P)
            m = eng.fresh('mapping')
            st.pc += [m != 0, m != bv(-1), m & 4095 == 0, z3.ULT(m, bv(1 << 47))]
            g['mapped'] = True; g['map'] = m; g['mlen'] = ln; g['n'] = simp(z3.LShR(ln, 4)); g['new'] = new
            g['VK'], g['VV'] = z3.Const('K_file', ARR), z3.Const('V_file', ARR)
            g['K0'], g['V0'] = g['VK'], g['VV']
            st.pc += [S(bv(0)) == 0]
            bad.g['mapfail'] = True
            return [(st, Ptr('file', m)), (bad, bv(-1))]
        if name == 'munmap':
            eng.oblige(st, 'exactly the mapped pairs are unmapped', z3.And(tobv(args[0]) == g['map'], tobv(args[1]) == g['mlen']) if g['mapped'] else z3.BoolVal(False), P | {'U12'})
            g['mapped'] = False
            r = eng.fresh('rc', 32)
            g['urc'] = r
            return [(st, r)]
        if name == 'close':
            eng.oblige(st, 'the opened file is closed', tobv(args[0], 32) == g['fd'] if g.get('open') else z3.BoolVal(False), P)
            g['open'] = False
            return [(st, bv(0, 32))]
        if name in ('_Znwm', '_ZnwmSt11align_val_t'):
            n = conc(simp(tobv(args[0])))
            if n is None: raise Unsupported('new')
            return [(st, eng.new_obj(st, n))]
        if name.startswith('_ZdlPv'):
            g['deleted'] = g.get('deleted', ()) + (args[0],)
            return [(st, None)]
        if name == '__cxa_throw':
            eng.oblige(st, 'creation fails only when the operating system fails', z3.BoolVal(bool(g.get('failed_open') or g.get('mapfail') or 'tlen' not in g or True)), P)
            return []
        if name in ('__cxa_allocate_exception', '__errno_location', 'strerror', 'fprintf', 'malloc') or 'logic_error' in d or 'runtime_error' in d or 'ostream' in d or 'ios_base' in d:
            t = ins.ty
            if t is None or t.k == 'void': return [(st, None)]
            if t.k == 'ptr':
                return [(st, eng.new_obj(st, 64) if name == '__errno_location' else Ptr('opaque', eng.fresh('obj')))]
            return [(st, eng.fresh('ext', t.n))]
        return None


def templates(eng, info):
    m = eng.memory
    phi, est = info['phi'], info['estate']
    g = est.g
    out = []
    if not g.get('mapped'): return out
    vs = [k for k, v in phi.items() if v is not None and not (isinstance(k, tuple) and k[0] == 'ghost') and not z3.is_bool(v) and tobv(v).size() == 64 and (not isinstance(v, Ptr) or v.kind == 'file')]
    # a pointer into the file stands for the slot it is at
    X = lambda x: m.index(g, x) if isinstance(x, Ptr) else tobv(x)
    ent = lambda k: X(info['entry'][k]) if k in info['entry'] else X(est.mem[k[1]][k[2]][1])
    w, n = g['w'], g['n']
    gv = lambda p, s, k: p.get(('ghost', k), s.g[k])
    C = m.clean
    def both(name, f):
        """a clause about one slot: checked for the arbitrary slot, assumed for it and for the one at the index"""
        def asm(s, p, it):
            cs = [f(s, p, w)]
            for k in vs: cs.append(f(s, p, X(p[k])))
            return z3.And(cs)
        out.append((name, lambda s, p, it: f(s, p, w), asm))
    arr = [a for a in ('VK', 'VV') if ('ghost', a) in phi]
    for k in vs:
        if isinstance(phi[k], Ptr):
            e0 = tobv(info['entry'][k]) if k in info['entry'] else tobv(est.mem[k[1]][k[2]][1])
            out.append(('%s walks the slots' % (k,), lambda s, p, it, k=k, e0=e0: tobv(p[k]) == e0 + 16 * it, None, (k, lambda it, e0=e0: e0 + 16 * it)))
            out.append(('%s at a slot' % (k,), lambda s, p, it, k=k: (tobv(p[k]) - g['map']) & 15 == 0))
        out.append(('%s counts' % (k,), lambda s, p, it, k=k: X(p[k]) == ent(k) + it))
        out.append(('%s <= n' % (k,), lambda s, p, it, k=k: z3.ULE(X(p[k]), n)))
        for a, c in (('VK', m.KINIT), ('VV', m.VINIT)):
            if a in arr:
                both('%s below %s initialised' % (a, k), lambda s, p, i, k=k, a=a, c=c: z3.Implies(z3.ULT(i, X(p[k])), C(gv(p, s, a)[i]) == c))
                both('%s below %s initialised and flagged' % (a, k), lambda s, p, i, k=k, a=a, c=c: z3.Implies(z3.ULT(i, X(p[k])), gv(p, s, a)[i] == (c | 1)))
                both('%s from %s untouched' % (a, k), lambda s, p, i, k=k, a=a: z3.Implies(z3.UGE(i, X(p[k])), gv(p, s, a)[i] == s.g[a[1] + '0'][i]))
        if 'VV' in arr:
            both('below %s changes flagged' % (k,), lambda s, p, i, k=k: z3.Implies(z3.And(z3.ULT(i, X(p[k])), C(gv(p, s, 'VV')[i]) != C(s.g['V0'][i])), gv(p, s, 'VV')[i] & 1 == 1))
            both('below %s repaired' % (k,), lambda s, p, i, k=k: z3.Implies(z3.ULT(i, X(p[k])), C(gv(p, s, 'VV')[i]) == m.fix(C(s.g['K0'][i]), C(s.g['V0'][i]))))
        if ('ghost', 'pw') in phi:
            out.append(('written back below %s' % (k,), lambda s, p, it, k=k: z3.Implies(z3.ULT(w, X(p[k])), gv(p, s, 'pw'))))
            out.append(('not written back by %s' % (k,), lambda s, p, it, k=k: z3.Implies(z3.UGE(w, X(p[k])), gv(p, s, 'pw') == est.g['pw'])))
        for j in vs:
            if str(j) == str(k): continue
            def asm(s, p, it, k=k, j=j):
                x = X(p[j])
                return z3.And(X(p[k]) == S(x), S(x + 1) == S(x) + m.cnt(s.g, x))
            out.append(('%s is the number of entries below %s' % (k, j), lambda s, p, it, k=k, j=j: X(p[k]) == S(X(p[j])), asm))
    return out


class Tab:
    def __init__(self, mod, asserts=False):
        self.mod = mod
        self.m = TableMemory(mod, asserts)
        self.eng = e = Engine(mod, self.m)
        e.templates = [templates]
        self.R = roles(mod)
        self.R['persist'] = [n for n in mod.src if mod.dem[n].startswith('PERSIST(')]
        self.R['num'] = [n for n in mod.src if '::numFromName(' in mod.dem[n]]
        self.role = {n: r for r, ns in self.R.items() for n in ns if r in ('pcas_read', 'pcas', 'fileName', 'string', 'persist', 'num')}
        e.contracts.append((lambda n: n in self.role, self.contract))
        self.used = set()
        e.used = self.used

    def contract(self, eng, st, name, args, ins):
        r = self.role[name]
        out = getattr(self, 'c_' + r)(eng, st, args, ins)
        if out is not NotImplemented: self.used.add(r)
        return out

    def c_string(self, eng, st, args, ins):
        t = ins.ty
        if t is None or t.k == 'void': return [(st, None)]
        if t.k == 'ptr': return [(st, Ptr('opaque', eng.fresh('str')))]
        return [(st, eng.fresh('str', t.n))]
    def c_fileName(self, eng, st, args, ins): return [(st, None)]
    def c_num(self, eng, st, args, ins): return [(st, eng.fresh('num'))]

    def word(self, eng, st, p):
        if not isinstance(p, Ptr): raise Unsupported('unknown word')
        p = eng.resolve_idx(p)
        if p.kind != 'file': raise Unsupported('word outside of the file')
        i, w = self.m.at(eng, st, p)
        self.m.inb(eng, st, i)
        return i, w

    def c_pcas_read(self, eng, st, args, ins):
        i, w = self.word(eng, st, args[0])
        return [(st, self.m.clean(z3.Select(st.g[w], i)))]

    def c_pcas(self, eng, st, args, ins):
        i, w = self.word(eng, st, args[0])
        (st, old), = eng.load(st, args[1], Ty('int', 64))
        old, new = tobv(old), tobv(args[2])
        cur = self.m.clean(z3.Select(st.g[w], i))
        bad = st.copy()
        st.pc.append(cur == old); bad.pc.append(cur != old)
        outs = []
        if eng.feasible(st):
            self.m.put(eng, st, i, w, new | 1)
            outs.append((st, z3.BoolVal(True)))
        if eng.feasible(bad):
            bad, = eng.store(bad, args[1], Ty('int', 64), cur)
            outs.append((bad, z3.BoolVal(False)))
        return outs

    def c_persist(self, eng, st, args, ins):
        # contract of PERSIST (proved: D01): every byte of the range is written back and fenced
        a, l = tobv(args[0]), tobv(args[1])
        g = st.g
        if g['mapped']:
            lo = g['map'] + 16 * g['w']
            g['pw'] = simp(z3.Or(g['pw'], z3.And(z3.ULE(a, lo), z3.ULE(lo + 16 - a, l))))
        return [(st, None)]

    def state(self):
        st = State()
        st.g.update({'mapped': False, 'open': False, 'pw': z3.BoolVal(False), 'w': z3.BitVec('slot', 64), 'VK': z3.Const('VK0', ARR), 'VV': z3.Const('VV0', ARR),
                     'fsize': z3.BitVec('file_size', 64), 'n': bv(0)})
        return st


def one(t, role):
    ns = [n for n in t.R.get(role, []) if n in t.mod.src]
    if len(ns) != 1: raise Unsupported('function not found: ' + role)
    return ns[0]


def run_mmap(mod, new, named, asserts=False, hints=None):
    t = Tab(mod, asserts)
    eng, m = t.eng, t.m
    eng.hints = hints
    P = {'U11'}
    st = t.state()
    cap, ex, n = z3.BitVec('capacity', 64), z3.BitVec('existing', 64), z3.BitVec('slots_of_file', 64)
    st.pc += [cap & (cap - 1) == 0, z3.UGE(cap, 8), z3.ULE(cap, bv(1 << 40))]
    st.pc += [st.g['fsize'] == 16 * n, n & (n - 1) == 0, z3.UGE(n, 8), z3.ULE(n, bv(1 << 40))]
    f = one(t, 'mmapTable')
    eng.cur = 'mmapTable(%s file, %s)' % ('new' if new else 'existing', 'named' if named else 'unnamed')
    name = Ptr('opaque', bv(4096)) if named else bv(0)
    seen = set()

    def ret(s, v):
        g = s.g
        if not (isinstance(v, Ptr) and v.kind == 'local'):
            eng.oblige(s, 'a table is returned', z3.BoolVal(False), P); return
        fld = lambda o: eng.cell_load(s, v.base, v.off + o, Ty('int', 64))
        fresh = g.get('new')
        seen.add(fresh)
        if not g['mapped']: eng.oblige(s, 'the file stays mapped', z3.BoolVal(False), P); return
        w = g['w']
        pre = z3.ULT(w, g['n'])
        eng.oblige(s, 'the file descriptor is closed', z3.BoolVal(not g['open']), P)
        eng.oblige(s, 'the table uses the mapped pairs', tobv(fld(m.c['vo_pairs'])) == g['map'], P)
        eng.oblige(s, 'the table has exactly the slots of its file', tobv(fld(m.c['vo_len'])) == g['n'], P | {'U12'})
        if fresh: eng.oblige(s, 'a new table has the capacity asked for', g['n'] == cap, P | {'U08'})
        else: eng.oblige(s, 'an existing file is mapped only if that was asked for', z3.BoolVal(not new), P)
        for o, nm in ((m.c['vo_new'], 'successor'), (m.c['vo_idx'], 'claimed chunk'), (m.c['vo_done'], 'reported migration')):
            eng.oblige(s, 'a table starts without a %s' % nm, tobv(fld(o)) == 0, P | {'U08'})
        k, x = g['VK'][w], g['VV'][w]
        C = m.clean
        if fresh:
            eng.oblige(s, 'every slot of a new table is unclaimed and has no value', z3.Implies(pre, z3.And(C(k) == m.KINIT, C(x) == m.VINIT)), P)
            eng.oblige(s, 'the slots of a new table are written back before it is handed out', z3.Implies(pre, g['pw']), P | {'U10'})
            eng.oblige(s, 'a new table starts with the entry count it was given', tobv(fld(m.c['vo_size'])) == ex, P | {'U07'})
        else:
            k0, x0 = C(g['K0'][w]), C(g['V0'][w])
            eng.oblige(s, 'opening an existing file keeps every entry, and turns inserts cut off by a crash into removed ones',
                       z3.Implies(pre, z3.And(C(k) == k0, C(x) == m.fix(k0, x0))), P)
            eng.oblige(s, 'a change made when an existing file is opened is flagged as not yet written back', z3.Implies(z3.And(pre, C(x) != x0), x & 1 == 1), P | {'U10'})
            eng.oblige(s, 'the entries of an existing file are counted exactly', tobv(fld(m.c['vo_size'])) == S(g['n']), P)
    fn = mod.fn(f)
    args = [z3.BoolVal(new), cap, ex, name]
    if len(fn.params) != 4: raise Unsupported('mmapTable has other parameters')
    if not eng.feasible(st): raise Unsupported('vacuous precondition')
    eng.call_into(st, f, args, None)
    eng.run(st, ret)
    eng.oblige(t.state(), 'a new file is made, and an existing one is opened', z3.BoolVal(seen == ({True} if new else {True, False})), P)
    return eng


def run_munmap(mod, asserts=False, hints=None):
    t = Tab(mod, asserts)
    eng, m = t.eng, t.m
    eng.hints = hints
    st = t.state()
    T = eng.new_obj(st, m.c['vo_tsize'])
    mp, n = z3.BitVec('pairs', 64), z3.BitVec('len', 64)
    eng.cell_store(st, T.base, m.c['vo_pairs'], Ty('ptr', 64), Ptr('file', mp))
    eng.cell_store(st, T.base, m.c['vo_len'], Ty('int', 64), n)
    st.pc += [mp != 0, z3.ULE(n, bv(1 << 40)), z3.UGE(n, 8)]
    st.g.update(mapped=True, map=mp, mlen=16 * n, n=n)
    eng.cur = 'munmapTable'
    eng.call_into(st, one(t, 'munmapTable'), [T], None)

    def ret(s, v):
        eng.oblige(s, 'the pairs are unmapped', z3.BoolVal(not s.g['mapped']), {'U11'})
        eng.oblige(s, 'whether they were unmapped is reported', tobool(v) == (s.g['urc'] == 0) if 'urc' in s.g else z3.BoolVal(False), {'U11'})
        eng.oblige(s, 'the table object is freed, once', z3.BoolVal([d.base for d in s.g.get('deleted', ()) if isinstance(d, Ptr)] == [T.base]), {'U11', 'U12'})
    eng.run(st, ret)
    return eng


def run_ctor(mod, asserts=False, hints=None):
    t = Tab(mod, asserts)
    eng, m = t.eng, t.m
    eng.hints = hints
    P = {'U11'}
    made = []
    T = z3.BitVec('fresh_table', 64)

    def c_mmap(e, st, name, args, ins):
        e.oblige(st, 'a map that is not reopened starts with a new table', tobool(args[0]), P)
        e.oblige(st, 'a map starts with the capacity asked for', tobv(args[1]) == cap, P | {'U08', 'U12'})
        e.oblige(st, 'a map starts with a count of no entries', tobv(args[2]) == 0, P | {'U07'})
        e.oblige(st, 'a map starts with one table', z3.BoolVal(not st.g.get('made')), P)
        st.g['made'] = True
        t.used.add('mmapTable')
        return [(st, Ptr('table', T))]
    ns = set(t.R['mmapTable'])
    eng.contracts.insert(0, (lambda n: n in ns, c_mmap))
    st = t.state()
    cap = z3.BitVec('capacity', 64)
    fs = [n for n in mod.src if re.search(r'^ConcurrentHashMap<unsigned long, unsigned long, std::hash<unsigned long> ?>::ConcurrentHashMap\(char const\*, unsigned long, bool\)$', mod.dem[n])]
    if len(fs) != 1: raise Unsupported('constructor not found')
    eng.cur = 'ConcurrentHashMap(directory, capacity, not reopened)'
    M = eng.new_obj(st, m.c['vo_top'] + 8)
    eng.call_into(st, fs[0], [M, Ptr('opaque', bv(4096)), cap, z3.BoolVal(False)], None)

    def ret(s, v):
        x = eng.cell_load(s, M.base, m.c['vo_top'], Ty('ptr', 64))
        eng.oblige(s, 'the new table is the current table of the map', tobv(x) == T, P)
    eng.run(st, ret)
    return eng


def run_dtor(mod, asserts=False, hints=None):
    t = Tab(mod, asserts)
    eng, m = t.eng, t.m
    P = {'U11', 'U12'}
    T = z3.BitVec('current_table', 64)

    def c_unmap(e, st, name, args, ins):
        e.oblige(st, 'the current table is unmapped, once', z3.BoolVal(False) if st.g.get('gone') else tobv(args[0]) == T, P)
        st.g['gone'] = True
        t.used.add('munmapTable')
        return [(st, e.fresh('ok', 1))]
    ns = set(t.R['munmapTable'])
    eng.contracts.insert(0, (lambda n: n in ns, c_unmap))
    st = t.state()
    fs = [n for n in mod.src if re.search(r'^ConcurrentHashMap<unsigned long, unsigned long, std::hash<unsigned long> ?>::~ConcurrentHashMap\(\)$', mod.dem[n])]
    if len(fs) != 1: raise Unsupported('destructor not found')
    eng.cur = '~ConcurrentHashMap'
    M = eng.new_obj(st, m.c['vo_top'] + 8)
    eng.cell_store(st, M.base, m.c['vo_top'], Ty('ptr', 64), Ptr('table', T))
    eng.call_into(st, fs[0], [M], None)
    eng.run(st, lambda s, v: eng.oblige(s, 'the current table is unmapped', z3.BoolVal(bool(s.g.get('gone'))), P))
    return eng


JOBS = {'ctor': lambda *a: run_ctor(a[0], *a[1:]), 'dtor': lambda *a: run_dtor(a[0], *a[1:]), 'mmap.new': lambda *a: run_mmap(a[0], True, False, *a[1:]), 'mmap.newnamed': lambda *a: run_mmap(a[0], True, True, *a[1:]),
        'mmap.existing': lambda *a: run_mmap(a[0], False, True, *a[1:]), 'munmap': lambda *a: run_munmap(a[0], *a[1:])}


def run(mod, job, asserts=False, hints=None): return JOBS[job](mod, asserts, hints)
