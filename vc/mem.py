"""Default memory handler: every access must be claimed by a subclass."""
from engine import *


class Memory:
    kinds_off = {}

    def load(self, eng, st, p, ty, atomic): raise Unsupported('load of %r' % p)
    def store(self, eng, st, p, ty, v, atomic): raise Unsupported('store to %r' % p)
    def cmpxchg(self, eng, st, p, ty, e, n, weak): raise Unsupported('cmpxchg on %r' % p)
    def rmw(self, eng, st, k, p, ty, v): raise Unsupported('rmw on %r' % p)
    def glob_load(self, eng, st, p, ty, atomic): return None
    def glob_store(self, eng, st, p, ty, v, atomic): return None
    def glob_cmpxchg(self, eng, st, p, ty, e, n, weak): return None
    def glob_rmw(self, eng, st, k, p, ty, v): return None
    def resolve_raw(self, eng, st, p): return p
    def instances(self, st): return []
    def havoc(self, eng, st, ghosts, phi): pass
    def ghost_diff(self, base, b): return []
    def ghost_value(self, st, key): return st.g[key[1]]
    def at_backedge(self, eng, st): pass
    def fence(self, eng, st): pass
    def asm(self, eng, st, ins): return False
    def persist_op(self, eng, st, name, args): pass
    def external(self, eng, st, name, args, ins): return None
    def on_assert(self, eng, st, m): pass
    def on_uncaught(self, eng, st): pass


class GhostMemory(Memory):
    """ghost scalars live in st.g under names listed in `tracked`; loops havoc the ones their body changes"""
    tracked = ()

    def ghost_diff(self, base, b):
        out = []
        for k in self.tracked:
            x, y = base.g.get(k), b.g.get(k)
            if x is y: continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y): continue
            out.append(('ghost', k))
        return out

    def havoc(self, eng, st, ghosts, phi):
        for g in ghosts:
            v = st.g[g[1]]
            nv = eng.fresh('gh_' + g[1], 1 if z3.is_bool(v) else v.size())
            st.g[g[1]] = nv
            phi[g] = nv


class ByteMemory(GhostMemory):
    """read-only input bytes: heap kind 'bytes'; byte at address a is B(a)"""

    def __init__(self):
        self.B = z3.Function('byte', z3.BitVecSort(64), z3.BitVecSort(8))

    def load(self, eng, st, p, ty, atomic):
        if p.kind != 'bytes' or atomic: raise Unsupported('load of %r' % p)
        n = eng.mod.size(ty)
        a = z3.simplify(tobv(p))
        self.on_read(eng, st, a, n)
        bs = [self.B(z3.simplify(a + i)) for i in range(n)]
        return [(st, bs[0] if n == 1 else z3.Concat(*reversed(bs)))]

    def on_read(self, eng, st, a, n): pass

    def havoc_ptr(self, eng, st, v):
        return Ptr('bytes', eng.fresh('ptr')) if v.kind == 'bytes' else None
