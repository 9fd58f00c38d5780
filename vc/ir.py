"""Reader for textual LLVM IR (the subset clang -O0 + sroa emits for the code under contract)."""
import re

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # string constant
 | "(?:[^"\\]|\\.)*"                          # quoted
 | [%@$]"(?:[^"\\]|\\.)*"
 | [%@$][-A-Za-z0-9_.$]+
 | \#\d+
 | ![-A-Za-z0-9_.]*
 | -?\d+\.\d+(?:e[-+]?\d+)?
 | 0x[0-9A-Fa-f]+
 | -?\d+
 | [A-Za-z_][-A-Za-z0-9_.]*:?
 | \.\.\.
 | [][(){}<>,=*|:]
''', re.X)


class IRError(Exception):
    pass


class Ty:
    __slots__ = ('k', 'n', 'elems', 'name', 'packed')

    def __init__(self, k, n=0, elems=None, name=None, packed=False):
        self.k, self.n, self.elems, self.name, self.packed = k, n, elems, name, packed

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'named': return self.name
        if self.k == 'array': return '[%d x %r]' % (self.n, self.elems)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.elems))
        return self.k


PTR, VOID = Ty('ptr'), Ty('void')
ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned immarg
 inreg nest swiftself noreturn nounwind tail musttail notail fastcc ccc coldcc dso_local dso_preemptable
 inbounds nuw nsw exact disjoint volatile weak syncscope seq_cst acquire release acq_rel monotonic unordered
 nneg nofree nosync noinline mustprogress optnone noprofile fast nnan ninf nsz arcp contract afn reassoc
 local_unnamed_addr unnamed_addr hidden protected default allocptr allocalign writable dead_on_unwind nofpclass
 internal external private linkonce linkonce_odr weak_odr appending common available_externally thread_local'''.split())


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'text')

    def __init__(self, op, res=None, ty=None, a=None, x=None):
        self.op, self.res, self.ty, self.a, self.x, self.line = op, res, ty, a or [], x, None

    def __repr__(self):
        return '%s=%s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


class Fn:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order, self.ret = name, [], {}, [], None
        self._loops = None

    def loops(self):
        """header -> set of blocks of the natural loop (merged over its back edges)"""
        if self._loops is not None: return self._loops
        succ = {b: self.succs(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in succ:
            for s in succ[b]: pred[s].append(b)
        entry = self.order[0]
        # reverse postorder
        seen, post = set(), []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]
        dom = {b: set(rpo) for b in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in dom)
        self._loops = loops
        return loops

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return list(t.x)
        if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke': return [t.x['normal']]      # exceptional edges are not followed
        return []


class P:
    """Token cursor."""

    def __init__(self, mod, text):
        self.m = mod
        self.t = TOK.findall(text)
        self.i = 0
        self.text = text

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1; return v

    def acc(self, s):
        if self.peek() == s: self.i += 1; return True
        return False

    def exp(self, s):
        if not self.acc(s): raise IRError('expected %r at %r in %s' % (s, self.t[self.i:self.i + 5], self.text[:300]))

    def attrs(self):
        while True:
            t = self.peek()
            if t is None: return
            if t in ATTRS: self.i += 1; continue
            if t in ('align', 'addrspace'):
                self.i += 1
                if self.acc('('): self.next(); self.exp(')')
                else: self.next()
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'vscale_range'):
                self.i += 1; self.paren(); continue
            if t in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated', 'range'):
                self.i += 1; self.paren(); continue
            if t.startswith('#') or (t.startswith('"')):
                self.i += 1
                if self.acc('='): self.next()
                continue
            return

    def paren(self):
        self.exp('(')
        d = 1
        while d:
            t = self.next()
            d += (t == '(') - (t == ')')

    def type(self):
        t = self.next()
        if t == 'void': r = VOID
        elif t == 'ptr': r = PTR
        elif re.fullmatch(r'i\d+', t): r = Ty('int', int(t[1:]))
        elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'): r = Ty('fp', {'float': 32, 'double': 64, 'half': 16}.get(t, 128))
        elif t in ('label', 'metadata', 'token', 'opaque'): r = Ty(t)
        elif t[0] == '%': r = Ty('named', name=t)
        elif t == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']'); r = Ty('array', n, e)
        elif t == '<' and self.peek() == '{':
            self.next(); es = self.typelist('}'); self.exp('>'); r = Ty('struct', elems=es, packed=True)
        elif t == '<':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>'); r = Ty('vector', n, e)
        elif t == '{':
            r = Ty('struct', elems=self.typelist('}'))
        else: raise IRError('type? %r in %s' % (t, self.text[:200]))
        while True:
            if self.peek() == '(' and self.m.sigok:
                self.paren(); r = Ty('fn', elems=r); continue
            if self.peek() == 'addrspace': self.attrs(); continue
            if self.peek() == '*': self.next(); r = PTR; continue
            return r

    def typelist(self, end):
        es = []
        if self.acc(end): return es
        while True:
            es.append(self.type())
            if self.acc(end): return es
            self.exp(',')

    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('l', t)
        if t[0] == '@': return ('g', t[1:].strip('"'))
        if t == 'true': return ('c', 1)
        if t == 'false': return ('c', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t in ('getelementptr',):
            self.attrs(); self.exp('('); bt = self.type(); self.exp(',')
            self.type(); b = self.value(PTR); idx = []
            while self.acc(','):
                self.attrs(); it = self.type(); idx.append((it, self.value(it)))
            self.exp(')')
            return ('gep', bt, b, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext'):
            self.exp('('); ft = self.type(); v = self.value(ft); self.exp('to'); tt = self.type(); self.exp(')')
            return ('cast', t, ft, v, tt)
        if t in ('{', '<', '['):
            end = {'{': '}', '<': '>', '[': ']'}[t]
            if t == '<' and self.acc('{'): end = '}'
            vs = []
            if not self.acc(end):
                while True:
                    et = self.type(); vs.append((et, self.value(et)))
                    if self.acc(end): break
                    self.exp(',')
            if t == '<' and end == '}': self.exp('>')
            return ('agg', vs)
        if t.startswith('c"'):
            return ('str', t[2:-1])
        if re.fullmatch(r'-?\d+', t): return ('c', int(t))
        if re.fullmatch(r'-?\d+\.\d+(e[-+]?\d+)?|0x[0-9A-Fa-f]+', t): return ('fp', t)
        if t in ('asm',): return ('asm',)
        if t in ('blockaddress', 'sub', 'add', 'dso_local_equivalent', 'no_cfi', 'none', 'icmp', 'select'):
            if self.peek() == '(': self.paren()
            return ('undef',)
        if t.startswith('!'): return ('undef',)
        raise IRError('value? %r in %s' % (t, self.text[:300]))

    def tv(self):
        self.attrs(); ty = self.type(); self.attrs(); return ty, self.value(ty)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast addrspacecast fptoui fptosi uitofp sitofp fpext fptrunc'.split())


class Module:
    def __init__(self, text):
        self.sigok = False
        self.types, self.globals, self.fns, self.src, self.decls = {}, {}, {}, {}, set()
        self.lines = {}
        self.aliases = {}
        self._sz = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
            self.lines[m.group(1)] = int(m.group(2))
        self._parse(text)

    def _parse(self, text):
        ls = text.split('\n')
        i = 0
        while i < len(ls):
            l = ls[i]
            if l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                self.types[n] = Ty('opaque') if r.strip() == 'opaque' else P(self, r).type()
            elif l.startswith('@'):
                n, r = l.split(' = ', 1)
                self.globals[n[1:].strip('"')] = r
                m = re.match(r'[a-z_ ]*\balias .*, ptr @("[^"]*"|[-\w.$]+)$', r)
                if m: self.aliases[n[1:].strip('"')] = m.group(1).strip('"')
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                if m: self.decls.add(m.group(1).strip('"'))
            elif l.startswith('define'):
                j = i + 1
                while ls[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.src[m.group(1).strip('"')] = (l, ls[i + 1:j])
                i = j
            i += 1

    def has(self, name): return self.aliases.get(name, name) in self.src

    def fn(self, name):
        name = self.aliases.get(name, name)
        if name not in self.fns: self.fns[name] = self._fn(name)
        return self.fns[name]

    def _fn(self, name):
        head, body = self.src[name]
        f = Fn(name)
        k = head.index('@')
        pre = P(self, head[6:k]); pre.attrs()
        while pre.peek() in ('comdat',) or (pre.peek() and pre.peek().startswith('#')): pre.next()
        f.ret = pre.type()
        p = P(self, head[k:]); p.next(); p.exp('(')
        n = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'): p.exp(')'); break
                p.attrs(); ty = p.type(); p.attrs()
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                else: nm = '%' + str(n)
                n += 1
                f.params.append((ty, nm))
                if p.acc(')'): break
                p.exp(',')
        cur = None
        i = 0
        nump = sum(1 for _, nm in f.params if re.fullmatch(r'%\d+', nm))
        while i < len(body):
            l = body[i]; i += 1
            s = l.split(' ; preds')[0] if ' ; preds' in l else l
            if ';' in s and not '"' in s: s = s.split(';')[0]
            if not s.strip(): continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
            if m:
                cur = '%' + m.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = '%' + str(nump); f.blocks[cur] = []; f.order.append(cur)
            st = s.strip()
            if st.startswith('switch') and not st.endswith(']') and '!dbg' not in st.split(']')[-1]:
                while ']' not in body[i]: st += ' ' + body[i].strip(); i += 1
                st += ' ' + body[i].strip(); i += 1
            while i < len(body) and (re.match(r'^\s+(to label|catch |filter |cleanup)', body[i])):
                st += ' ' + body[i].strip(); i += 1
            if re.search(r'@llvm\.(dbg|lifetime|experimental\.noalias|assume)', st) : continue
            if st.startswith('#dbg'): continue
            ins = self._instr(st)
            if ins is not None:
                ins.text = st
                f.blocks[cur].append(ins)
        return f

    def _instr(self, st):
        dbg = re.search(r', !dbg !(\d+)', st)
        st2 = re.sub(r',\s*![\w.]+ ![\w]+', '', st)
        p = P(self, st2)
        res = None
        if p.peek()[0] == '%' and p.t[1] == '=':
            res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        r = self._i2(p, op, res)
        if r is not None and dbg: r.line = self.lines.get(dbg.group(1))
        return r

    def _i2(self, p, op, res):
        if op == 'alloca':
            p.attrs(); ty = p.type(); n = ('c', 1)
            if p.acc(','):
                if p.peek() != 'align': it = p.type(); n = p.value(it)
            return Instr('alloca', res, ty, [n])
        if op == 'load':
            at = p.acc('atomic'); p.attrs(); ty = p.type(); p.exp(','); _, v = p.tv()
            return Instr('load', res, ty, [v], at)
        if op == 'store':
            at = p.acc('atomic'); p.attrs(); ty, v = p.tv(); p.exp(','); _, q = p.tv()
            return Instr('store', None, ty, [v, q], at)
        if op == 'getelementptr':
            p.attrs(); bt = p.type(); p.exp(','); _, b = p.tv(); idx = []
            while p.acc(','):
                p.attrs(); it = p.type(); idx.append((it, p.value(it)))
            return Instr('gep', res, bt, [b], idx)
        if op == 'icmp':
            pr = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Instr('icmp', res, ty, [a, b], pr)
        if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            return Instr('unsupported', res, None, [], p.text)
        if op in BIN:
            p.attrs(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Instr(op, res, ty, [a, b])
        if op == 'select':
            p.attrs(); ct, c = p.tv(); p.exp(','); ty, a = p.tv(); p.exp(','); _, b = p.tv()
            return Instr('select', res, ty, [c, a, b])
        if op == 'freeze':
            ty, v = p.tv(); return Instr('freeze', res, ty, [v])
        if op == 'phi':
            p.attrs(); ty = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(ty); p.exp(','); l = p.next(); p.exp(']')
                inc.append((v, '%' + l[1:].strip('"')))
                if not p.acc(','): break
            return Instr('phi', res, ty, [], inc)
        if op == 'br':
            if p.acc('label'): return Instr('br', None, None, [], [self._lab(p)])
            p.type(); c = p.value(None); p.exp(','); p.exp('label'); a = self._lab(p); p.exp(','); p.exp('label'); b = self._lab(p)
            return Instr('br', None, None, [c], [a, b])
        if op == 'switch':
            ty, v = p.tv(); p.exp(','); p.exp('label'); d = self._lab(p); p.exp('['); cs = []
            while not p.acc(']'):
                t2 = p.type(); c = p.value(t2); p.exp(','); p.exp('label'); cs.append((c[1], self._lab(p)))
            return Instr('switch', None, ty, [v], (d, cs))
        if op in ('call', 'invoke'):
            p.attrs(); ty = p.type(); p.attrs()
            if p.peek() == '(':        # signature of a varargs call
                p.paren()
            if p.peek() == 'asm':
                return Instr('asm', res, ty, [], p.text)
            callee = p.value(PTR); p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    p.attrs(); at = p.type(); p.attrs()
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            t = p.next(); d += (t == '(') - (t == ')')
                        args.append((at, ('undef',)))
                    else: args.append((at, p.value(at)))
                    if p.acc(')'): break
                    p.exp(',')
            x = {'callee': callee, 'args': args}
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.exp('label'); x['normal'] = self._lab(p)
                p.exp('unwind'); p.exp('label'); x['unwind'] = self._lab(p)
            return Instr(op, res, ty, [], x)
        if op == 'ret':
            ty = p.type()
            if ty.k == 'void': return Instr('ret', None, ty, [])
            return Instr('ret', None, ty, [p.value(ty)])
        if op == 'landingpad':
            return Instr(op, res, None, [], re.findall(r'catch ptr (null|@[\w.$]+)', p.text))
        if op in ('unreachable', 'resume', 'cleanupret'):
            return Instr(op, res, None, [])
        if op == 'atomicrmw':
            p.attrs(); k = p.next(); _, q = p.tv(); p.exp(','); ty, v = p.tv()
            return Instr('atomicrmw', res, ty, [q, v], k)
        if op == 'cmpxchg':
            wk = 'weak' in p.t[p.i:p.i + 2]
            p.attrs(); _, q = p.tv(); p.exp(','); ty, e = p.tv(); p.exp(','); _, n = p.tv()
            return Instr('cmpxchg', res, ty, [q, e, n], wk)
        if op == 'extractvalue':
            ty, v = p.tv(); idx = []
            while p.acc(','): idx.append(int(p.next()))
            return Instr('extractvalue', res, ty, [v], idx)
        if op == 'insertvalue':
            ty, v = p.tv(); p.exp(','); t2, w = p.tv(); idx = []
            while p.acc(','): idx.append(int(p.next()))
            return Instr('insertvalue', res, ty, [v, (t2, w)], idx)
        if op in CAST:
            p.attrs(); ty = p.type(); v = p.value(ty); p.exp('to'); t2 = p.type()
            return Instr('cast', res, t2, [v], (op, ty))
        if op == 'fence': return Instr('fence')
        return Instr('unsupported', res, None, [], p.text)

    def _lab(self, p):
        return '%' + p.next()[1:].strip('"')

    # -- layout ------------------------------------------------------------
    def res(self, ty):
        while ty.k == 'named': ty = self.types[ty.name]
        return ty

    def sizealign(self, ty):
        if ty.k == 'named':
            if ty.name not in self._sz: self._sz[ty.name] = self.sizealign(self.types[ty.name])
            return self._sz[ty.name]
        if ty.k == 'int':
            b = (ty.n + 7) // 8
            s = 1
            while s < b: s *= 2
            return s, min(s, 16)
        if ty.k == 'ptr': return 8, 8
        if ty.k == 'fp': return max(ty.n // 8, 1), max(ty.n // 8, 1)
        if ty.k in ('array', 'vector'):
            s, a = self.sizealign(ty.elems)
            return s * ty.n, a if ty.k == 'array' else s * ty.n
        if ty.k == 'struct':
            o, al = 0, 1
            for e in ty.elems:
                s, a = self.sizealign(e)
                if ty.packed: a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        if ty.k in ('opaque', 'fn', 'void'): return 0, 1
        raise IRError('size of %r' % ty)

    def size(self, ty): return self.sizealign(ty)[0]

    def fieldoff(self, ty, n):
        o = 0
        for i, e in enumerate(ty.elems):
            s, a = self.sizealign(e)
            if ty.packed: a = 1
            o = (o + a - 1) // a * a
            if i == n: return o
            o += s
        raise IRError('field')


def is_lambda(d):
    """the body of a lambda (it is part of the function that it is written in, not that function)"""
    return re.search(r"(?:\{lambda\(.*?\)#\d+\}|'lambda\d*'\(.*?\))(?: const)?::operator\(\)", d) is not None
