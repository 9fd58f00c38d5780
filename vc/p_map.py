"""U01..U13: the functions of the cliff map (and of its ucf adapter), each against its contract."""
from mapmodel import *

W = lambda n: z3.BitVec(n, 64)
TBL = lambda t: Ptr('table', t)
CHM = lambda m, t: Ptr('table', t, m.c['vo_chm'])
MAPP = Ptr('map', z3.BitVec('hashmap', 64))


def one(mp, role, f=None):
    ns = [n for n in mp.R.get(role, []) if n in mp.mod.src and (f is None or f(n))]
    if not ns: raise Unsupported('function not found: ' + role)
    if len(ns) > 1: raise Unsupported('several functions: ' + role)
    return ns[0]


def params(mp, fname): return mp.mod.fn(fname).params


def launch(mp, st, fname, args, ret, pre=True):
    eng = mp.eng
    eng.cur = mp.mod.dem.get(fname, fname)[:120]
    if pre and not eng.feasible(st): raise Unsupported('vacuous precondition')
    np = len(params(mp, fname))
    if len(args) != np: raise Unsupported('%s takes %d arguments, not %d' % (eng.cur, np, len(args)))
    n = [0]
    def r(s, v):
        n[0] += 1
        ret(s, v)
    eng.call_into(st, fname, args, None)
    eng.run(st, r)
    if not n[0]: eng.oblige(mp.state(), 'the function returns for some input', z3.BoolVal(False), set(ALLP))


def fptr(mp, role):
    ns = mp.R.get(role, [])
    return Ptr('func', ns[0]) if ns else None


def valid_user(m, key, new, old, F):
    pre = [m.realk(key), z3.BoolVal(True) if F == 'inc' else z3.Or(m.realv(new), new == m.VTOMB), z3.Or(m.realv(old), old == m.NMO, old == m.MANY, old == m.VTOMB)]
    if F == 'inc': pre += [new == m.MANY, old == m.NMO]
    return pre


def exit_user(mp, s, r, op):
    eng, m = mp.eng, mp.m
    r = tobv(r)
    props = {'U04', 'U05'} | ({'U06'} if op['F'] == 'inc' else set())
    eng.oblige(s, 'an update returns the value it replaced, or a value it observed that made it do nothing',
               post_user(m, op, r, s.g['gh:inst'], s.g['gh:iprev'], OBS, OBSABS), props)
    eng.oblige(s, 'the returned value was persisted when it was observed', post_user(m, op, r, s.g['gh:inst'], s.g['gh:iprev'], POBS, POBSABS), {'U10'})
    exit_accounts(mp, s)


def exit_accounts(mp, s):
    eng = mp.eng
    mp.accounts_zero(eng, s, 'dsize', 'the entry count of each table was adjusted by exactly the net change of the operation', {'U07'})
    mp.accounts_zero(eng, s, 'dslots', 'the count of claimed slots was adjusted by exactly the slots claimed', {'U07'})
    mp.accounts_zero(eng, s, 'credit', 'every slot whose migration was completed is reported', {'U08', 'U09'})


# ---------------------------------------------------------------------------------------------------------------
def user_op(mp, st, F, key, new, old):
    op = {'mode': 'user', 'key': key, 'new': new, 'old': old, 'F': F}
    st.g.update(op=op, opkey=key, trackadm=True)
    st.pc += valid_user(mp.m, key, new, old, F)
    return op


def job_put(mp, F, what=None, over=None):
    m = mp.m
    T, key, new, old = W('T'), W('k'), W('new'), W('old')
    st = mp.state(key)
    op = user_op(mp, st, F, key, new, old)
    T = m.table(mp.eng, st, T)
    st.pc += [T != 0, ADM(T)]
    if what: st.pc.append(new == m.VTOMB if what == 'remove' else m.realv(new))
    if over: st.pc.append(old == m.NMO if over == 'any' else old != m.NMO)
    f = fptr(mp, 'casvalue' if F == 'cas' else 'increment')
    launch(mp, st, one(mp, 'pim'), [MAPP, TBL(T), key, new, old, f], lambda s, r: exit_user(mp, s, r, op))


def job_copyput(mp):
    m = mp.m
    X, key, new, ST, SI = W('X'), W('k'), W('new'), W('srcT'), W('srcI')
    st = mp.state(key)
    SV = new | TWO
    st.g.update(op={'mode': 'copy', 'key': key, 'new': new, 'old': m.VINIT, 'F': 'cas'}, opkey=key, src=(ST, SI, SV))
    X = m.table(mp.eng, st, X)
    ST = m.table(mp.eng, st, ST)
    st.g['src'] = (ST, SI, SV)
    st.pc += [X != 0, ST != 0, X != ST, CT(X), m.realk(key), m.realv(new), z3.ULT(SI, LEN(ST)), KEY(ST, SI) == key, SV == FZ(ST, SI)]

    def ret(s, r):
        r = tobv(r)
        mp.eng.oblige(s, 'a copy that gives up found its table closed for the key; otherwise a value is in place',
                      z3.And(z3.Implies(r == m.TP, z3.And(CLOSED(X), m.nset_now(s, X))), z3.Implies(r != m.TP, PRES(X))), {'U09', 'U04'})
        exit_accounts(mp, s)
    launch(mp, st, one(mp, 'pim'), [MAPP, TBL(X), key, new, m.VINIT * 1 if False else bv(m.VINIT) if isinstance(m.VINIT, int) else m.VINIT, fptr(mp, 'casvalue')], ret)


def job_copyslot(mp):
    m = mp.m
    T, i = W('T'), W('i')
    st = mp.state(None)
    T = m.table(mp.eng, st, T)
    X = m.table(mp.eng, st, NEXT(T))
    st.g['key'] = KEY(T, i)
    st.g['src'] = (T, i, None)
    st.pc += [T != 0, X != 0, z3.ULT(i, LEN(T)), CT(X)]
    m.nset(st, T, z3.BoolVal(True))

    def ret(s, r):
        seen = z3.Or([z3.And(m.same(T, i, e[1], e[2]), e[3] == m.TP) for e in s.g['ev'] if e[0] == 'V'] + [z3.BoolVal(False)])
        mp.eng.oblige(s, 'after a slot was migrated it holds the migrated marker', seen, {'U09', 'U08', 'U04'})
        cr = m.acc(s, 'credit', T)
        mp.eng.oblige(s, 'the caller is told to report the slot exactly if this thread completed its migration', z3.If(tobool(r), ONE, ZERO) == cr, {'U08', 'U09'})
        for k in list(s.g):
            if isinstance(k, str) and k.startswith('gh:credit:') and not s.g['tabof'][k].eq(T): mp.eng.oblige(s, 'no other table gets the credit', s.g[k] == 0, {'U08'})
        mp.accounts_zero(mp.eng, s, 'dsize', 'a migrated entry is no longer counted by the table it left', {'U07'})
        mp.accounts_zero(mp.eng, s, 'dslots', 'a migration does not change the claimed slots', {'U07'})
    launch(mp, st, one(mp, 'copySlot'), [CHM(m, T), MAPP, i, TBL(T), TBL(X)], ret)


def job_copycheck(mp):
    m = mp.m
    T, n = W('T'), W('n')
    st = mp.state(None)
    T = m.table(mp.eng, st, T)
    m.nset(st, T, z3.BoolVal(True))
    m.acc_add(st, 'credit', T, n)
    st.pc += [T != 0, z3.ULE(n, LEN(T))]
    launch(mp, st, one(mp, 'copyCheck'), [CHM(m, T), MAPP, TBL(T), n], lambda s, r: exit_accounts(mp, s))


def job_copyslotandcheck(mp):
    m = mp.m
    T, i, h = W('T'), W('i'), z3.BitVec('help', 1)
    st = mp.state(None)
    T = m.table(mp.eng, st, T)
    m.nset(st, T, z3.BoolVal(True))
    st.pc += [T != 0, z3.ULT(i, LEN(T))]

    def ret(s, r):
        seen = z3.Or([z3.And(m.same(T, i, e[1], e[2]), e[3] == m.TP) for e in s.g['ev'] if e[0] == 'V'] + [z3.BoolVal(False)])
        mp.eng.oblige(s, 'after a slot was migrated it holds the migrated marker', seen, {'U09', 'U08', 'U04'})
        mp.eng.oblige(s, 'the operation goes on in the successor', tobv(mp.tab(r)) == NEXT(T), {'U02', 'U04', 'U05', 'U09', 'U12'})
        exit_accounts(mp, s)
    launch(mp, st, one(mp, 'copySlotAndCheck'), [CHM(m, T), MAPP, TBL(T), i, h == 1], ret)


def job_resize(mp):
    m = mp.m
    T = W('T')
    st = mp.state(None)
    T = m.table(mp.eng, st, T)
    st.pc += [T != 0, z3.ULT(LEN(T), bv(1 << 39))]

    def ret(s, r):
        r = tobv(mp.tab(r))
        mp.eng.oblige(s, 'growing a table yields its one successor', z3.And(r == NEXT(T), r != 0, m.nset_now(s, T)), {'U08', 'U12'})
        mp.eng.oblige(s, 'a table that lost the race is not left mapped', z3.BoolVal(not s.g['fresh']), {'U08'})
        exit_accounts(mp, s)
    launch(mp, st, one(mp, 'resize'), [CHM(m, T), MAPP, TBL(T)], ret)


def job_helpcopyimpl(mp):
    m = mp.m
    T, all_ = W('T'), z3.BitVec('all', 1)
    st = mp.state(None)
    T = m.table(mp.eng, st, T)
    m.nset(st, T, z3.BoolVal(True))
    st.pc += [T != 0]
    launch(mp, st, one(mp, 'helpCopyImpl'), [CHM(m, T), MAPP, TBL(T), all_ == 1], lambda s, r: exit_accounts(mp, s))


def job_helpcopy(mp):
    m = mp.m
    H = W('H')
    st = mp.state(None)
    H = m.table(mp.eng, st, H)
    st.pc += [H != 0]

    def ret(s, r):
        mp.eng.oblige(s, 'helping returns the table it was given', tobv(mp.tab(r)) == H, {'U02', 'U05', 'U09', 'U12'})
        exit_accounts(mp, s)
    launch(mp, st, one(mp, 'helpCopy'), [MAPP, TBL(H)], ret)


def exit_get(mp, s, r):
    m = mp.m
    r = tobv(r)
    mp.eng.oblige(s, 'a lookup returns a value that was current during it, or finds the key absent at some moment of it', post_get(m, r, OBS, OBSABS), {'U05', 'U02', 'U09'})
    mp.eng.oblige(s, 'the returned value was persisted when it was read', post_get(m, r, POBS, POBSABS), {'U10'})
    exit_accounts(mp, s)


def job_getimpl(mp):
    m = mp.m
    T, key = W('T'), W('k')
    st = mp.state(key)
    st.g['trackadm'] = True
    T = m.table(mp.eng, st, T)
    st.pc += [T != 0, ADM(T), m.realk(key)]
    launch(mp, st, one(mp, 'getImpl'), [MAPP, TBL(T), key, HASH(key)], lambda s, r: exit_get(mp, s, r))


def job_api(mp, name, nargs=None, F='cas'):
    """the public functions: what they ask of the map, and what they make of the answer"""
    m = mp.m
    key, a, b = W('k'), W('a'), W('b')
    fname = one(mp, 'api:' + name, lambda n: nargs is None or len(mp.mod.fn(n).params) == nargs + 1)
    st = mp.state(key)
    st.g['trackadm'] = True
    st.pc += [m.realk(key)]
    real = lambda x: st.pc.append(m.realv(x))
    g = st.g
    eng = mp.eng

    def ob(s, msg, f, props):
        for nm, O, OA, pr in (('', OBS, OBSABS, props), (' (persisted)', POBS, POBSABS, {'U10'})):
            eng.oblige(s, msg + nm, f(s, O, OA), pr)
        exit_accounts(mp, s)
    if name in ('get', 'containsKey'):
        if name == 'get': ret = lambda s, r: exit_get(mp, s, r)
        else:
            v = W('some')
            ret = lambda s, r: ob(s, 'a membership test answers what held at some moment of it', lambda s, O, OA:
                                  z3.If(tobool(r), has_real(m, s, O), z3.Or(OA, O(m.VTOMB), O(m.VINIT))), {'U05', 'U02'})
        launch(mp, st, fname, [MAPP, key], ret)
        return
    def upd(new, old):
        op = {'mode': 'user', 'key': key, 'new': new, 'old': old, 'F': F}
        g.update(op=op, opkey=key)
        return op
    inst, prev = (lambda s: s.g['gh:inst']), (lambda s: s.g['gh:iprev'])
    pv = lambda p: z3.If(p == m.VTOMB, m.VINIT, p)
    if name == 'put':
        real(a); upd(a, m.NMO); args = [MAPP, key, a]
        f = lambda r: lambda s, O, OA: z3.If(inst(s), tobv(r) == pv(prev(s)), z3.And(tobv(r) == a, O(a)))
        msg = 'put replaces the value and returns the one before it'
    elif name == 'update':
        upd(m.MANY if F == 'inc' else a, m.NMO); args = [MAPP, key, m.MANY if F == 'inc' else a, fptr(mp, 'increment' if F == 'inc' else 'casvalue')]
        if F == 'cas': real(a)
        f = lambda r: lambda s, O, OA: z3.If(inst(s), tobv(r) == pv(prev(s)), z3.And(tobv(r) == a, O(a)) if F == 'cas' else z3.BoolVal(False))
        msg = 'update applies its function and returns the value before'
    elif name == 'putIfAbsent':
        real(a); upd(a, m.VTOMB); args = [MAPP, key, a]
        f = lambda r: lambda s, O, OA: z3.If(inst(s), z3.And(tobv(r) == m.VINIT, m.absent(prev(s))), z3.And(m.realv(tobv(r)), O(tobv(r))))
        msg = 'putIfAbsent places the value only where there is none, and else returns the present one'
    elif name == 'remove' and nargs == 1:
        upd(m.VTOMB, m.NMO); args = [MAPP, key]
        f = lambda r: lambda s, O, OA: z3.If(inst(s), tobool(r) == z3.Not(m.absent(prev(s))), z3.And(z3.Not(tobool(r)), z3.Or(OA, O(m.VTOMB))))
        msg = 'remove removes, and tells whether there was something'
    elif name == 'remove':
        real(a); upd(m.VTOMB, a); args = [MAPP, key, a]
        f = lambda r: lambda s, O, OA: z3.If(tobool(r), z3.And(inst(s), prev(s) == a), z3.And(z3.Not(inst(s)), z3.Or(OA, not_val(m, s, O, a))))
        msg = 'remove of a value removes exactly that value'
    elif name == 'replace':
        real(a); real(b); upd(b, a); st.pc.append(a != b); args = [MAPP, key, a, b]
        f = lambda r: lambda s, O, OA: z3.If(tobool(r), z3.And(inst(s), prev(s) == a), z3.And(z3.Not(inst(s)), z3.Or(OA, not_val(m, s, O, a))))
        msg = 'replace replaces exactly the expected value'
    else: raise Unsupported(name)
    launch(mp, st, fname, args, lambda s, r: ob(s, msg, f(r), {'U04', 'U05', 'U06'} if F == 'inc' else {'U04', 'U05'}))


def vals(m, s):
    """the values the operation knows about"""
    return s.g['rets'] + [e[3] for e in s.g['ev'] if e[0] == 'V'] + [m.VTOMB, m.VINIT]


def has_real(m, s, O): return z3.Or([z3.And(m.realv(v), O(v)) for v in vals(m, s)])
def not_val(m, s, O, a): return z3.Or([z3.And(v != a, O(v)) for v in vals(m, s)])


def exit_size(mp, s, r):
    g = s.g
    mp.eng.oblige(s, 'the size is the sum of the entry counts of the current table and of every table that is to replace it',
                  z3.And(g['gh:szany'], g['gh:szend'], tobv(r) == g['gh:szsum']), {'U07'})
    exit_accounts(mp, s)


def size_state(mp, key=None):
    st = mp.state(key)
    st.g.update({'gh:szsum': ZERO, 'gh:szlast': ZERO, 'gh:szany': z3.BoolVal(False), 'gh:szend': z3.BoolVal(False)})
    return st


def job_size(mp):
    launch(mp, size_state(mp), one(mp, 'api:size'), [MAPP], lambda s, r: exit_size(mp, s, r))
    def ret(s, r):
        g = s.g
        mp.eng.oblige(s, 'the map is empty exactly if its entry count is zero', z3.And(g['gh:szany'], g['gh:szend'], tobool(r) == (g['gh:szsum'] == 0)), {'U07'})
    launch(mp, size_state(mp), one(mp, 'api:isEmpty'), [MAPP], ret)


def job_adapter(mp, name):
    """the ucf adapter: elements shifted past the marking bits, over the map"""
    m, eng = mp.m, mp.eng
    el = W('el')
    bits = m.c['vo_bits']
    key = el << bits
    st = size_state(mp, key) if name == 'count' else mp.state(key)
    st.g['trackadm'] = True
    st.pc += [m.realk(key), m.realv(key), z3.LShR(key, bits) == el]
    ns = [n for n in mp.R.get('ucf:' + name, []) if n in mp.mod.src]
    if len(ns) != 1: raise Unsupported('adapter function ' + name)
    this = Ptr('cont', W('container'))

    def ob(s, msg, f, props):
        for nm, O, OA, pr in (('', OBS, OBSABS, props), (' (persisted)', POBS, POBSABS, {'U10'})): eng.oblige(s, msg + nm, f(O, OA), pr)
        exit_accounts(mp, s)
    def upd(new, old, F='cas'): st.g.update(op={'mode': 'user', 'key': key, 'new': new, 'old': old, 'F': F}, opkey=key)
    inst, prev = (lambda s: s.g['gh:inst']), (lambda s: s.g['gh:iprev'])
    gone = lambda O, OA: z3.Or(OA, O(m.VTOMB), O(m.VINIT))
    if name == 'insert':
        upd(key, m.NMO)
        ret = lambda s, r: ob(s, 'insert reports a new element exactly if there was none', lambda O, OA: z3.If(inst(s), tobool(r) == m.absent(prev(s)), z3.And(z3.Not(tobool(r)), O(key))), {'A01', 'U04'})
    elif name == 'erase':
        upd(m.VTOMB, m.NMO)
        ret = lambda s, r: ob(s, 'erase reports exactly whether it removed an element', lambda O, OA: z3.If(inst(s), tobool(r) == z3.Not(m.absent(prev(s))), z3.And(z3.Not(tobool(r)), gone(O, OA))), {'A01', 'U04'})
    elif name == 'contains':
        ret = lambda s, r: ob(s, 'contains answers what held at some moment of it', lambda O, OA: z3.If(tobool(r), has_real(m, s, O), gone(O, OA)), {'A01', 'U05'})
    elif name == 'get':
        ret = lambda s, r: ob(s, 'get returns the element current at some moment of it, or the mark of an absent one',
                              lambda O, OA: z3.Or(z3.And(tobv(r) == z3.LShR(m.VINIT, bits), gone(O, OA)), *[z3.And(tobv(r) == z3.LShR(v, bits), m.realv(v), O(v)) for v in vals(m, s)]), {'A01', 'U05'})
    elif name == 'increment':
        upd(m.MANY, m.NMO, 'inc')
        ret = lambda s, r: ob(s, 'increment takes effect once and returns the value before', lambda O, OA: z3.And(inst(s), tobv(r) == z3.If(m.absent(prev(s)), m.VINIT, prev(s))), {'A01', 'U06'})
    elif name == 'count':
        ret = lambda s, r: exit_size(mp, s, r)
    launch(mp, st, ns[0], [this] + ([el] if name != 'count' else []), ret)


JOBS = {'increment': lambda mp: job_put(mp, 'inc'), 'copyput': job_copyput, 'copyslot': job_copyslot, 'copycheck': job_copycheck, 'copyslotandcheck': job_copyslotandcheck, 'put.any': lambda mp: job_put(mp, 'cas', None, 'any'), 'put.place': lambda mp: job_put(mp, 'cas', 'place', 'other'), 'put.remove': lambda mp: job_put(mp, 'cas', 'remove', 'other'), 'resize': job_resize,
        'helpcopyimpl': job_helpcopyimpl, 'helpcopy': job_helpcopy, 'getimpl': job_getimpl}
JOBS.update({'api.put': lambda mp: job_api(mp, 'put'), 'api.putIfAbsent': lambda mp: job_api(mp, 'putIfAbsent'), 'api.remove': lambda mp: job_api(mp, 'remove', 1),
             'api.remove2': lambda mp: job_api(mp, 'remove', 2), 'api.replace': lambda mp: job_api(mp, 'replace'), 'api.update': lambda mp: job_api(mp, 'update', F='inc'),
             'api.updatecas': lambda mp: job_api(mp, 'update'), 'api.get': lambda mp: job_api(mp, 'get'), 'api.contains': lambda mp: job_api(mp, 'containsKey')})

for _n in ('insert', 'erase', 'contains', 'get', 'count', 'increment'): JOBS['ucf.' + _n] = (lambda n: lambda mp: job_adapter(mp, n))(_n)
JOBS['api.size'] = job_size


# what the work of a job is, longest first (the driver starts them in this order)
ORDER = ['put.any', 'put.place', 'copyput', 'increment', 'put.remove', 'getimpl', 'helpcopyimpl', 'copyslot', 'resize']
ALL = ORDER + [j for j in JOBS if j not in ORDER]


def run(mod, job, asserts=False, hints=None):
    mp = Map(mod, asserts)
    mp.eng.hints = hints
    JOBS[job](mp)
    mp.eng.used = mp.used
    return mp.eng
