"""Compile a harness translation unit of /repo's current headers to LLVM IR and read it."""
import os, subprocess, tempfile, shutil
import ir, engine
from engine import *

REPO = os.environ.get('PMAP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG, OPT, FILT = '/usr/bin/clang++', '/usr/bin/opt', '/usr/bin/llvm-cxxfilt'
for _n in ('CLANG', 'OPT', 'FILT'):
    if not os.path.exists(globals()[_n]):
        _b = {'CLANG': 'clang++', 'OPT': 'opt', 'FILT': 'llvm-cxxfilt'}[_n]
        globals()[_n] = shutil.which(_b) or shutil.which(_b + '-18') or globals()[_n]

BASE = ['-std=c++2a', '-w', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-fno-access-control',
        '-fno-discard-value-names', '-DPMAP_VERIF', '-DDEFAULT_CACHELINE_SIZE=64']


class BuildError(Exception):
    pass


def compile_ir(src, defs=(), incs=('', 'include', 'containers', 'hashing', 'tests'), passes='function(sroa<modify-cfg>,simplifycfg)', text=None):
    d = tempfile.mkdtemp(prefix='vc_')
    try:
        f = os.path.join(d, 'o.ll')
        g = os.path.join(d, 'p.ll')
        if text is not None:
            src = os.path.join(d, 'h.cpp')
            open(src, 'w').write(text)
        cmd = [CLANG] + BASE + list(defs) + ['-I' + os.path.join(REPO, i) for i in incs] + ['-S', '-emit-llvm', src, '-o', f]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-3000:])
        p = subprocess.run([OPT, '-S', '-passes=' + passes, f, '-o', g], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-3000:])
        return open(g).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def demangle(names):
    p = subprocess.run([FILT], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


def load(src=None, defs=(), **kw):
    m = ir.Module(compile_ir(src, defs, **kw))
    names = list(m.src) + list(m.decls)
    m.dem = demangle(names)
    m.global_init = run_inits(m)
    return m


def run_inits(m):
    out = {}
    for n in m.src:
        if not n.startswith('__cxx_global_var_init'): continue
        e = Engine(m)
        try:
            st = State()
            e.call_into(st, n, [], None)
            fin = []
            e.run(st, lambda s, v: fin.append(s))
            if len(fin) == 1:
                for k, c in fin[0].mem.items():
                    if k.startswith('g:') and 0 in c and z3.is_bv_value(z3.simplify(tobv(c[0][1], 8))):
                        out[k[2:]] = z3.simplify(c[0][1])
        except Exception:
            pass       # an initialiser the verifier does not need
    return out


def constants(m):
    """the vo_* layout constants"""
    import re
    return {n: int(re.search(r'constant i64 (-?\d+)', r).group(1)) for n, r in m.globals.items()
            if n.startswith('vo_') and 'constant i64' in r}
