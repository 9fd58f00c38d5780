"""The stl, pm and clevel adapters: what each operation asks of the container below it, and what it makes of the answer.

The container below is under contract: an abstract map (P: key -> present, V: key -> value, N: size).  Every call of it is
one atomic step; between steps (for stl: between critical sections) other threads may change the map arbitrarily, within
the adapters' common invariant (clevel, pm: a stored value equals its key, since only these adapters write).
"""
import z3, re
from engine import *
from mem import *

B64 = z3.BitVecSort(64)
PA = z3.ArraySort(B64, z3.BoolSort())
VA = z3.ArraySort(B64, B64)
NODE = z3.Function('node', B64, B64)
PROPS = {'A01'}
T = z3.BoolVal(True)
F = z3.BoolVal(False)


def plain(d):
    """a demangled name without its template arguments and parameters"""
    out, depth, i = '', 0, 0
    while i < len(d):
        for op in ('operator<<=', 'operator<<', 'operator<=>', 'operator<=', 'operator<', 'operator->', 'operator>>', 'operator>=', 'operator>'):
            if d.startswith(op, i) and depth == 0:
                out += op; i += len(op); break
        else:
            c = d[i]
            if c == '<': depth += 1
            elif c == '>': depth -= 1
            elif depth == 0: out += c
            i += 1
    k, depth = out.find('('), 0
    if out.startswith('(', k) and 'operator()' in out and k == out.find('operator()') + 8: k = out.find('(', k + 2)
    name, par = (out[:k], out[k:]) if k >= 0 else (out, '')
    return name.split(' ')[-1] if 'operator ' not in name else name, par


class Adapter(Memory):
    def __init__(self, mod, which):
        self.mod, self.which = mod, which
        self.eng = e = Engine(mod, self)
        self.used = set(); e.used = self.used
        self.pl = {n: plain(mod.dem.get(n, n)) for n in list(mod.src) + list(mod.decls)}
        self.handler = {}
        for n, (p, par) in self.pl.items():
            d = mod.dem.get(n, n)
            h = None
            if p.startswith('std::map::'): h = getattr(self, 'stl_' + p[10:].replace('operator[]', 'index'), self.unknown)
            elif p in ('std::mutex::lock', 'std::mutex::unlock', 'std::mutex::try_lock'): h = getattr(self, 'mutex_' + p[12:])
            elif p.startswith('pmem::obj::concurrent_hash_map::') and '::const_accessor::' not in p and '::accessor::' not in p: h = getattr(self, 'pm_' + p[32:], self.unknown)
            elif p.startswith('pmem::obj::concurrent_hash_map::'): h = getattr(self, 'acc_' + p.split('::')[-1].replace('operator*', 'deref').replace('operator->', 'arrow').replace('~', 'end_'), self.unknown)
            elif p.startswith('pmem::obj::experimental::clevel_hash::') and '::ret::' not in p: h = getattr(self, 'cl_' + p[38:], self.unknown)
            elif p == 'pmem::obj::pool::root': h = self.noop
            elif re.match(r'pmem::obj::persistent_ptr(_base)?::(operator->|operator\*|get|operator bool)$', p) or re.match(r'pmem::detail::persistent_ptr_base::(get|operator->)$', p):
                h = self.ptr_map if 'hash' in d.split('::operator->')[0].split('::get')[0] else self.ptr_root
            if h: self.handler[n] = h
        e.contracts.append((lambda n: n in self.handler, self.contract))

    def contract(self, eng, st, name, args, ins):
        r = self.handler[name](st, args, ins, name)
        if r is not NotImplemented and self.handler[name].__name__ not in ('noop', 'unknown', 'ptr_root', 'ptr_map'): self.used.add(self.pl[name][0])
        return r

    def unknown(self, st, args, ins, name): raise Unsupported('no contract for ' + self.pl[name][0])
    def noop(self, st, args, ins, name): return [(st, None)]
    def ptr_root(self, st, args, ins, name):
        if ins.ty.k != 'ptr': return [(st, z3.BoolVal(True))]
        return [(st, Ptr('root', bv(1 << 20)))]
    def ptr_map(self, st, args, ins, name):
        if ins.ty.k != 'ptr': return [(st, z3.BoolVal(True))]
        return [(st, Ptr('cont', bv(1 << 21)))]

    # -- the abstract map ------------------------------------------------------
    def fresh_map(self, st):
        g = st.g
        k = next(self.eng.fresh_n)
        g['P'], g['V'], g['N'] = z3.Const('P!%d' % k, PA), z3.Const('V!%d' % k, VA), z3.BitVec('N!%d' % k, 64)
        if self.which != 'stl':
            g['maps'] = g.get('maps', ()) + (k,)
            st.pc.append(z3.Implies(g['P'][g['el']], g['V'][g['el']] == g['el']))

    def begin(self, st):
        self.fresh_map(st)
        st.g['at'] = (st.g['P'], st.g['V'], st.g['N'])

    def end(self, st):
        st.g['sec'] = st.g['sec'] + ((st.g['at'], (st.g['P'], st.g['V'], st.g['N'])),)
        st.g['at'] = None

    def step(self, st):
        """a call of the container begins"""
        if self.which == 'stl':
            self.eng.oblige(st, 'the map is touched only inside a critical section', z3.BoolVal(st.g['locked'] > 0), PROPS)
            if st.g['locked'] <= 0: raise Unsupported('map access without the lock')
        else: self.begin(st)

    def done(self, st, r):
        if self.which != 'stl': self.end(st)
        return (st, r)

    def put(self, st, k, v, over):
        g = st.g
        was = z3.Select(g['P'], k)
        g['N'] = z3.If(was, g['N'], g['N'] + 1)
        if over: g['V'] = z3.Store(g['V'], k, v)
        else: g['V'] = z3.If(was, g['V'], z3.Store(g['V'], k, v))
        g['P'] = z3.Store(g['P'], k, T)
        if self.which != 'stl': self.eng.oblige(st, 'an element is stored under itself', z3.Implies(z3.Or(over, z3.Not(was)), v == k), PROPS)
        return was

    def remove(self, st, k):
        g = st.g
        was = z3.Select(g['P'], k)
        g['N'] = z3.If(was, g['N'] - 1, g['N'])
        g['P'] = z3.Store(g['P'], k, F)
        return was

    def word(self, st, p, off=0):
        (s, v), = self.eng.load(st, self.eng.gep(p, Ty('int', 8), [(Ty('int', 64), bv(off))]), Ty('int', 64))
        return tobv(v)

    def node(self, st, k):
        n = NODE(k)
        st.pc += [n != 0, n != bv(1)]
        st.g['nodes'] = st.g['nodes'] + ((n, k),)
        return n

    # -- std::map ---------------------------------------------------------------
    END = bv(1)
    def it(self, st, k): return Ptr('node', self.node(st, k))
    def fork(self, st, c):
        out = []
        for s, x in ((st, c), (st.copy(), z3.Not(c))):
            s.pc.append(x)
            if self.eng.feasible(s): out.append((s, x is c))
        return out
    def stl_insert(self, st, args, ins, name):
        if not (ins.ty.k != 'void' and len(args) == 2): raise Unsupported('this overload of insert')
        self.step(st)
        k, v = self.word(st, args[1]), self.word(st, args[1], 8)
        was = self.put(st, k, v, False)
        return [self.done(st, [self.it(st, k), z3.If(was, bv(0, 8), bv(1, 8))])]
    def kv(self, st, args, ins, over):
        self.step(st)
        k, v = self.word(st, args[1]), self.word(st, args[2])
        was = self.put(st, k, v, over)
        return [self.done(st, [self.it(st, k), z3.If(was, bv(0, 8), bv(1, 8))])]
    def stl_emplace(self, st, args, ins, name): return self.stl_insert(st, args, ins, name) if len(args) == 2 else self.kv(st, args, ins, False)
    def stl_try_emplace(self, st, args, ins, name): return self.kv(st, args, ins, False)
    def stl_insert_or_assign(self, st, args, ins, name): return self.kv(st, args, ins, True)
    def stl_erase(self, st, args, ins, name):
        self.step(st)
        if 'iterator' in self.pl[name][1]:
            p = args[1]
            ks = [k for n, k in st.g['nodes'] if tobv(p).eq(n)]
            if not ks: raise Unsupported('erase of an unknown position')
            self.eng.oblige(st, 'only an existing position is erased', z3.Select(st.g['P'], ks[0]), PROPS)
            self.remove(st, ks[0])
            return [self.done(st, Ptr('node', self.eng.fresh('next')))]
        was = self.remove(st, self.word(st, args[1]))
        return [self.done(st, z3.If(was, bv(1), bv(0)))]
    def stl_count(self, st, args, ins, name):
        self.step(st)
        return [self.done(st, z3.If(z3.Select(st.g['P'], self.word(st, args[1])), bv(1), bv(0)))]
    def stl_contains(self, st, args, ins, name):
        self.step(st)
        return [self.done(st, z3.Select(st.g['P'], self.word(st, args[1])))]
    def stl_find(self, st, args, ins, name):
        self.step(st)
        k = self.word(st, args[1])
        return [(s, self.it(s, k) if yes else Ptr('node', self.END)) for s, yes in self.fork(st, z3.Select(st.g['P'], k))]
    def stl_end(self, st, args, ins, name): return [(st, Ptr('node', self.END))]
    stl_cend = stl_end
    def stl_at(self, st, args, ins, name):
        self.step(st)
        k = self.word(st, args[1])
        return [(s, self.eng.gep(self.it(s, k), Ty('int', 8), [(Ty('int', 64), bv(40))]) if yes else Throw('_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception'))
                for s, yes in self.fork(st, z3.Select(st.g['P'], k))]
    def stl_index(self, st, args, ins, name):
        self.step(st)
        k = self.word(st, args[1])
        self.put(st, k, bv(0), False)
        return [(st, self.eng.gep(self.it(st, k), Ty('int', 8), [(Ty('int', 64), bv(40))]))]
    def stl_size(self, st, args, ins, name):
        self.step(st)
        return [self.done(st, st.g['N'])]
    def stl_empty(self, st, args, ins, name):
        self.step(st)
        return [self.done(st, st.g['N'] == 0)]

    def mutex_lock(self, st, args, ins, name):
        self.eng.oblige(st, 'the lock is taken once at a time', z3.BoolVal(st.g['locked'] == 0), PROPS)
        self.eng.oblige(st, "the lock is the container's own", self.ismutex(args[0]), PROPS)
        st.g['locked'] += 1
        self.begin(st)
        return [(st, None)]
    def mutex_unlock(self, st, args, ins, name):
        self.eng.oblige(st, 'only a held lock is released', z3.BoolVal(st.g['locked'] == 1), PROPS)
        st.g['locked'] -= 1
        if st.g['at']: self.end(st)
        return [(st, None)]
    def mutex_try_lock(self, st, args, ins, name):
        s2 = st.copy()
        self.mutex_lock(st, args, ins, name)
        return [(st, T), (s2, F)]
    def ismutex(self, p): return z3.BoolVal(isinstance(p, Ptr) and p.kind == 'this' and not p.idx)

    # -- pmem concurrent_hash_map -----------------------------------------------
    def hold(self, st, a, k):
        self.eng.oblige(st, 'an accessor holds one element at a time', z3.BoolVal(all(x is not a.base and x != a.base for x, _ in st.g['acc'])), PROPS)
        st.g['acc'] = st.g['acc'] + ((a.base, k),)
    def isacc(self, p): return isinstance(p, Ptr) and p.kind == 'local'
    def pm_insert(self, st, args, ins, name):
        par = self.pl[name][1]
        acc = 'accessor' in par.split(',')[0]
        src = args[2] if acc else args[1]
        self.begin(st)
        if acc and 'pair' not in par and 'value_type' not in par:
            k = self.word(st, src); was = self.put(st, k, k, False); raise Unsupported('insert by key')
        k, v = self.word(st, src), self.word(st, src, 8)
        was = self.put(st, k, v, False)
        if acc: self.hold(st, args[1], k)
        self.end(st)
        return [(st, z3.Not(was))]
    def pm_insert_or_assign(self, st, args, ins, name):
        self.begin(st)
        was = self.put(st, self.word(st, args[1]), self.word(st, args[2]), True)
        self.end(st)
        return [(st, z3.Not(was))]
    def pm_erase(self, st, args, ins, name):
        self.begin(st)
        was = self.remove(st, self.word(st, args[1]))
        self.end(st)
        return [(st, was)]
    def pm_find(self, st, args, ins, name):
        self.begin(st)
        k = self.word(st, args[2])
        out = []
        for s, yes in self.fork(st, z3.Select(st.g['P'], k)):
            if yes: self.hold(s, args[1], k)
            self.end(s)
            out.append((s, z3.BoolVal(yes)))
        return out
    def pm_count(self, st, args, ins, name):
        self.begin(st)
        r = z3.If(z3.Select(st.g['P'], self.word(st, args[1])), bv(1), bv(0))
        self.end(st)
        return [(st, r)]
    def pm_size(self, st, args, ins, name):
        self.begin(st); self.end(st)
        return [(st, st.g['N'])]
    def pm_empty(self, st, args, ins, name):
        self.begin(st); self.end(st)
        return [(st, st.g['N'] == 0)]
    def acc_accessor(self, st, args, ins, name): return [(st, None)]
    acc_const_accessor = acc_accessor
    def held(self, st, p):
        ks = [k for b, k in st.g['acc'] if isinstance(p, Ptr) and b == p.base]
        return ks[-1] if ks else None
    def acc_deref(self, st, args, ins, name):
        k = self.held(st, args[0])
        self.eng.oblige(st, 'an element is read only through an accessor that holds it', z3.BoolVal(k is not None), PROPS)
        if k is None: raise Unsupported('empty accessor')
        return [(st, Ptr('item', self.node(st, k)))]
    acc_arrow = acc_deref
    def acc_empty(self, st, args, ins, name): return [(st, z3.BoolVal(self.held(st, args[0]) is None))]
    def acc_release(self, st, args, ins, name):
        st.g['acc'] = tuple((b, k) for b, k in st.g['acc'] if b != args[0].base)
        return [(st, None)]
    acc_end_accessor = acc_release
    acc_end_const_accessor = acc_release

    # -- clevel_hash --------------------------------------------------------------
    def cret(self, st, p, found):
        for off, n in ((1, 8), (8, 64), (16, 8), (17, 8), (24, 64)):
            v = self.eng.fresh('ret', n)
            if off == 17: v = v & 1
            st, = self.eng.store(st, self.eng.gep(p, Ty('int', 8), [(Ty('int', 64), bv(off))]), Ty('int', n), v)
        st, = self.eng.store(st, p, Ty('int', 8), z3.If(found, bv(1, 8), bv(0, 8)))
        return st
    def own(self, st, t):
        self.eng.oblige(st, "a thread allocates in its own slot of the container", tobv(t) == z3.ZeroExt(64 - self.tls.size(), self.tls) if self.tls.size() < 64 else tobv(t) == self.tls, PROPS)
    def cl_insert(self, st, args, ins, name):
        self.own(st, args[3])
        self.begin(st)
        was = self.put(st, self.word(st, args[2]), self.word(st, args[2], 8), False)
        self.end(st)
        return [(self.cret(st, args[0], was), None)]
    def cl_update(self, st, args, ins, name):
        self.own(st, args[3])
        self.begin(st)
        k, v = self.word(st, args[2]), self.word(st, args[2], 8)
        was = z3.Select(st.g['P'], k)
        self.eng.oblige(st, 'an element is stored under itself', v == k, PROPS)
        st.g['V'] = z3.If(was, z3.Store(st.g['V'], k, v), st.g['V'])
        self.end(st)
        return [(self.cret(st, args[0], was), None)]
    def cl_erase(self, st, args, ins, name):
        self.begin(st)
        was = self.remove(st, self.word(st, args[2]))
        self.end(st)
        return [(self.cret(st, args[0], was), None)]
    def cl_search(self, st, args, ins, name):
        self.begin(st)
        was = z3.Select(st.g['P'], self.word(st, args[2]))
        self.end(st)
        return [(self.cret(st, args[0], was), None)]

    # -- memory ---------------------------------------------------------------------
    def keyof(self, st, p):
        for n, k in st.g['nodes']:
            if tobv(p.base).eq(n): return k
        raise Unsupported('unknown element')
    def load(self, eng, st, p, ty, atomic):
        p = eng.resolve_idx(p)
        if p.idx: raise Unsupported('load of %r' % p)
        if p.kind == 'this':
            if self.which == 'stl' and p.off == 8: return [(st, Ptr('cont', bv(1 << 21)))]
            return [(st, Ptr('vt', bv(1 << 22)) if ty.k == 'ptr' else eng.fresh('f', ty.n))]
        if p.kind == 'root': return [(st, Ptr('x', eng.fresh('x')) if ty.k == 'ptr' else eng.fresh('x', ty.n))]
        if p.kind in ('node', 'item') and ty.k == 'int' and ty.n == 64:
            o = p.off - (32 if p.kind == 'node' else 0)
            k = self.keyof(st, p)
            if p.kind == 'item':
                if not any(x.eq(k) for _, x in st.g['acc']): eng.oblige(st, 'an element is read only through an accessor that holds it', F, PROPS)
            elif st.g['locked'] != 1: eng.oblige(st, 'the map is touched only inside a critical section', F, PROPS)
            if o == 0: return [(st, k)]
            if o == 8: return [(st, z3.Select(st.g['V'], k) if p.kind == 'node' else self.item(st, k))]
        raise Unsupported('load of %r' % p)
    def item(self, st, k):
        """the value an accessor sees: the one of the step that found it"""
        return z3.Select(st.g['V'], k)
    def store(self, eng, st, p, ty, v, atomic):
        p = eng.resolve_idx(p)
        if p.kind in ('node', 'item') and not p.idx and p.off == (40 if p.kind == 'node' else 8):
            k = self.keyof(st, p)
            if p.kind == 'node' and st.g['locked'] != 1: eng.oblige(st, 'the map is touched only inside a critical section', F, PROPS)
            if p.kind == 'item': raise Unsupported('store through an accessor')
            st.g['V'] = z3.Store(st.g['V'], k, tobv(v))
            return [st]
        raise Unsupported('store to %r' % p)
    def glob_load(self, eng, st, p, ty, atomic):
        if 'localThreadNum' in p.base: return [(st, self.tls)]
        return None
    def external(self, eng, st, name, args, ins):
        if name == '__cxa_begin_catch':
            st.g['exc'] = None
            return [(st, Ptr('opaque', bv(64)))]
        if name == '__cxa_end_catch': return [(st, None)]
        return None
    def on_uncaught(self, eng, st): eng.oblige(st, 'an operation returns', F, PROPS)
    def on_assert(self, eng, st, m, goal=None): pass


def pos(s, w):
    """the section seen at key w"""
    (P0, V0, N0), (P1, V1, N1) = s
    return z3.And(P0[w] == P1[w], z3.Implies(P0[w], V0[w] == V1[w]))


def job(mod, which, op):
    a = Adapter(mod, which)
    eng = a.eng
    fs = [n for n in mod.src if a.pl[n][0] == '%s::container_type::%s' % (which, op)]
    if len(fs) != 1: raise Unsupported('the function %s::%s' % (which, op))
    a.tls = z3.BitVec('localThreadNum', 64)
    for n, r in mod.globals.items():
        if 'localThreadNum' in n and 'i32' in r: a.tls = z3.BitVec('localThreadNum', 32)
    el, w = z3.BitVec('el', 64), z3.BitVec('w', 64)
    st = State()
    st.g.update(el=el, sec=(), at=None, locked=0, acc=(), nodes=())
    a.fresh_map(st)

    def ret(s, r):
        eng.oblige(s, 'no lock is left held', z3.BoolVal(s.g['locked'] == 0), PROPS)
        eng.oblige(s, 'no accessor is left holding an element', z3.BoolVal(not s.g['acc']), PROPS)
        secs = s.g['sec']
        alts = []
        for i, sec in enumerate(secs):
            (P0, V0, N0), (P1, V1, N1) = sec
            was, at = P0[el], w == el
            other = z3.Implies(w != el, pos(sec, w))
            rest = z3.And([pos(x, w) for j, x in enumerate(secs) if j != i] + [T])
            if op == 'insert':
                here = z3.And(P1[el], z3.Implies(was, z3.Or(V1[el] == V0[el], V1[el] == el)), z3.Implies(z3.Not(was), V1[el] == el), tobool(r) == z3.Not(was))
            elif op == 'erase': here = z3.And(z3.Not(P1[el]), tobool(r) == was)
            elif op == 'contains': here = z3.And(pos(sec, el), tobool(r) == was)
            elif op == 'get': here = z3.And(pos(sec, el), tobv(r) == z3.If(was, V0[el], bv(0)))
            elif op == 'count': here = z3.And(pos(sec, el), tobv(r) == N0)
            elif op == 'increment': here = z3.And(P1[el], V1[el] == z3.If(was, V0[el], bv(0)) + 1, tobv(r) == V1[el])
            alts.append(z3.And(other, rest, here))
        text = {'insert': 'insert stores exactly its element and reports whether it was new', 'erase': 'erase removes exactly its element and reports whether it was there',
                'contains': 'contains changes nothing and reports whether its element is there', 'get': 'get changes nothing and returns the stored value, or 0 when there is none',
                'count': 'count returns the number of elements', 'increment': 'increment adds one to the value of its element and returns the result'}[op]
        eng.oblige(s, '%s: %s' % (which, text), z3.Or(alts + [F]), PROPS)

    args = [Ptr('this', bv(1 << 19))] + ([el] if op != 'count' else [])
    eng.call_into(st, fs[0], args, None)
    eng.run(st, ret)
    return eng


JOBS = {'stl': 'insert erase contains get count increment'.split(), 'pm': 'insert erase contains get count'.split(), 'clevel': 'insert erase contains get'.split()}


def run(mod, which, op): return job(mod, which, op)
