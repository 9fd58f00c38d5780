"""Which jobs, which obligations and which concrete runs decide each property."""
import os, subprocess
import build, p_map, p_hash, p_table, p_adapter, p_clevel

HARN = os.path.join(build.VERIF, 'harness')
INC = ['-I' + os.path.join(build.REPO, i) for i in ('', 'include', 'containers', 'hashing', 'tests')]


def sh(*cmd):
    p = subprocess.run(list(cmd), capture_output=True, text=True, cwd=HARN)
    if p.returncode: raise RuntimeError(p.stderr[-2000:])


def build_sched(out, defs=('-DNDEBUG',)):
    common = ['-std=c++2a', '-w', '-O1']
    ps = [subprocess.Popen([build.CLANG] + common + ['-fno-access-control', '-DPMAP_VERIF', '-DDEFAULT_CACHELINE_SIZE=64'] + list(defs) +
                           ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'] + INC + ['-c', 'sched_map.cpp', '-o', out + '.a.o'], cwd=HARN, stderr=subprocess.PIPE, text=True),
          subprocess.Popen([build.CLANG] + common + ['-c', 'sched.cpp', '-o', out + '.b.o'], cwd=HARN, stderr=subprocess.PIPE, text=True)]
    for p in ps:
        e = p.communicate()[1]
        if p.returncode: raise RuntimeError(e[-2000:])
    sh(build.CLANG, out + '.a.o', out + '.b.o', '-o', out, '-Wl,' + ','.join('--wrap=' + w for w in ('open', 'close', 'ftruncate', 'mmap', 'munmap', 'fstat', '__assert_fail')))


def build_direct(what):
    def f(out): sh(build.CLANG, '-std=c++2a', '-w', '-O1', '-fno-access-control', '-DPMAP_VERIF', '-DDEFAULT_CACHELINE_SIZE=64', '-DT_' + what, '-mclflushopt', '-mclwb', *INC, 'direct.cpp', '-o', out, '-lpthread')
    return f


def build_clexplore(out):
    common = ['-std=c++2a', '-w', '-O1']
    ps = [subprocess.Popen([build.CLANG] + common + ['-fno-access-control', '-DPMAP_VERIF', '-DDEFAULT_CACHELINE_SIZE=64', '-DNDEBUG', '-mclflushopt', '-mclwb',
                           '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'] + INC + ['-c', 'cl_run.cpp', '-o', out + '.a.o'], cwd=HARN, stderr=subprocess.PIPE, text=True),
          subprocess.Popen([build.CLANG] + common + ['-c', 'cl_hooks.cpp', '-o', out + '.b.o'], cwd=HARN, stderr=subprocess.PIPE, text=True)]
    for p in ps:
        e = p.communicate()[1]
        if p.returncode: raise RuntimeError(e[-2000:])
    sh(build.CLANG, out + '.a.o', out + '.b.o', '-o', out, '-lpthread', '-lpmemobj', '-Wl,' + ','.join('--wrap=' + w for w in ('pmemobj_persist', 'pmemobj_free', 'pmemobj_alloc', 'pmemobj_xalloc', 'pmemobj_tx_xalloc', 'usleep')))


def build_clevel(out): build_adapter(out, ('clevel',))


def build_adapter(out, which=('stl', 'pm', 'clevel', 'ucf')):
    common = [build.CLANG, '-std=c++2a', '-w', '-O1', '-fno-access-control', '-DPMAP_VERIF', '-DDEFAULT_CACHELINE_SIZE=64', '-mclflushopt', '-mclwb', *INC, 'adapter_run.cpp', '-Wl,--wrap=open', '-lpthread', '-lpmemobj']
    ps = [(k, subprocess.Popen(common + ['-DA_' + k, '-o', out + '.' + k], cwd=HARN, stderr=subprocess.PIPE, text=True)) for k in which]
    bad = [k for k, p in ps if p.communicate() and p.returncode]
    if len(bad) == len(ps): raise RuntimeError('no adapter compiles')
    good = [k for k, _ in ps if k not in bad]
    # one process per adapter, each for its share of the time
    open(out, 'w').write('#!/bin/bash\n' + ''.join('"$0.%s" "$1" $(( ($2 + %d) / %d )) || exit $?\n' % (k, len(good) - 1, len(good)) for k in good))
    os.chmod(out, 0o755)


TESTERS = {
    'clexplore': {'build': build_clexplore, 'cmd': lambda b, s, t, tags: [b, str(s), str(t), tags]},
    'clevel': {'build': build_clevel, 'cmd': lambda b, s, t, tags: [b, str(s), str(t)]},
    'adapter': {'build': build_adapter, 'cmd': lambda b, s, t, tags: [b, str(s), str(t)]},
    'sched': {'build': build_sched, 'cmd': lambda b, s, t, tags: [b, 'explore', str(s), str(t), tags]},
    'schedassert': {'build': lambda o: build_sched(o, ()), 'cmd': lambda b, s, t, tags: [b, 'explore', str(s), str(t), tags]},
    'hash': {'build': build_direct('HASH'), 'cmd': lambda b, s, t, tags: [b, str(s), str(t)]},
    'flush': {'build': build_direct('FLUSH'), 'cmd': lambda b, s, t, tags: [b, str(s), str(t)]},
}
CONF = {'quick': 8, 'thorough': 240}       # seconds of the real code under the monitors when everything is proved

MAP = [('map', j) for j in p_map.ALL]
MAPA = [('mapassert', j) for j in p_map.ALL]
PD = [('persist', 'D02')]
TAB = [('table', j) for j in p_table.JOBS]
TABA = [('tableassert', j) for j in p_table.JOBS]
ADAPT = [(k, j) for k, js in p_adapter.JOBS.items() for j in js] + [('map', j) for j in p_map.ALL if j.startswith('ucf.')]
HASH = [('hash', j) for j in p_hash.JOBS]

TRUSTED = ['clang 18 (front end and sroa/simplifycfg; the verified text is the LLVM IR it makes from /repo on every run)', 'vc/engine.py (symbolic execution, weakest preconditions of the IR)', 'z3 (python3-vt)']
ASSUMPTIONS = [
    'std::atomic compiles to the atomic accesses in the IR; each is one indivisible step of a sequentially consistent history (weaker orderings used by the code are not modelled)',
    'the pointer fields of a table (pairs, len) are written only before the table is published',
]
MAPASS = [
    'rely-guarantee: every thread obeys the same guarantee conditions that are discharged here for each write (meta-argument in DESIGN.md)',
    'keys and values of users are multiples of 8 and differ from the sentinels (documented precondition)',
    'fewer than 2^39 slots per table; one file-mapped process',
    'terminating executions only (no liveness)',
    "a table's entry counter stays between -2^59 and 2^59",
]


def m(dep, tags, wide='', jobs=MAP, kind='sched', **kw):
    d = dict(jobs=jobs, dep=set(dep.split()), tester=(kind, tags, wide or tags), assumptions=MAPASS)
    d.update(kw)
    return d


def cl(p, jobs):
    return dict(jobs=[('cl', j) for j in jobs.split()], dep={p}, tester=('clexplore', '', ''), monitor='clevel', assumptions=CLASS)


CLASS = [
    'every slot word other threads store obeys the invariant that is discharged here for each store (tag and bucket of the key of the entry); the meta word only ever changes as discharged in C03 (rely-guarantee)',
    'objects of the pool are told apart by their offsets; an entry is not changed after it was stored, a meta object not after it was published, neither is reused while a thread may hold it (the source frees entries without waiting for readers: see DESIGN.md)',
    'libpmemobj: make_persistent_atomic, make_persistent_object, delete_persistent_atomic and pmemobj_free obey their documented contracts; pmemobj_persist writes back the range it is given',
    'one resize thread; at most 25 levels over the life of the map, at most 16 in use',
    'terminating executions only (no liveness)',
]
PROPS = {
    'U01': m('U01', 'U01'),
    'U02': m('U01 U02', 'U02,LIN', 'U01,U02,LIN'),
    'U03': m('U03', 'U03'),
    'U04': m('U01 U02 U03 U04 U09', 'LIN', 'LIN,LININC,U01,U02,U03,U09'),
    'U05': m('U01 U02 U03 U04 U05 U09', 'LIN', 'LIN,LININC,U01,U02,U03,U09'),
    'U06': m('U01 U02 U03 U04 U06 U09', 'LININC', 'LIN,LININC,U01,U02,U03,U09'),
    'U07': m('U07', 'U07', jobs=MAP + TAB),
    'U08': m('U08 U03', 'U08', 'U08,U03', jobs=MAP + TAB),
    'U09': m('U09 U03 U01 U02', 'U09,LIN', 'U09,U03,U01,U02,LIN'),
    'U10': m('U10 D02', 'U10', 'U10,D02', jobs=MAP + TAB + PD),
    'U11': m('U11', 'U11', jobs=TAB + [('map', 'resize')]),
    'U12': m('U12', 'U12', jobs=MAP + TAB),
    'U13': m('U13', 'U13', jobs=MAPA + TABA, kind='schedassert'),
    'A01': dict(jobs=ADAPT, dep={'A01'}, tester=('adapter', '', ''), assumptions=[
        'std::map, std::mutex, pmem::obj::concurrent_hash_map and clevel_hash obey their documented contracts (each call is one atomic step on an abstract map); the ucf adapter rests on the contracts proved for U04-U07',
        'pm and clevel hold only entries stored by their adapter (value == key); their increment() and clevel count() are documented in the source as unsupported and are left out',
        'pool::root() and persistent_ptr dereferencing yield the one root object and the one container']),
    'C01': cl('C01', 'search find find.dup find_empty_slot insert update erase'),
    'C02': cl('C02', 'find find.dup find_empty_slot insert update erase del_dup resize'),
    'C03': cl('C03', 'expand resize'),
    'C04': cl('C04', 'insert update erase del_dup expand resize'),
    'D01': dict(jobs=[('persist', 'D01')], dep={'D01'}, tester=('flush', '', '')),
    'D02': dict(jobs=PD, dep={'D02'}, tester=('sched', 'D02', 'D02'), assumptions=MAPASS),
    'H01': dict(jobs=HASH, dep={'H01'}, tester=('hash', '', '')),
}
NOTE = ('Every obligation is discharged for all inputs, iterations and interleavings, function by function, on the LLVM IR of the current source. Assumes sequential consistency, the IR semantics '
        'implemented in vc/engine.py, and the contracts of the operating system and library calls listed in the evidence; these are monitored by bounded concrete runs that are not counted as proof.')
NOT_APPLICABLE = {}
