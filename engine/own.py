"""Ownership typestate of heap memory: every path of a function, with what each pointer cell holds and whether it has been freed.

Tokens name heap blocks:  ('n', inst)        allocated by that instruction
                          ('f', path)        what the cell `path` held when the function was entered
                          ('c', inst, path)  what a callee left in cell `path`
                          ('r', inst)        the owned block a callee returned
                          ('0',)             null
Cells are pointer-sized memory reached directly: an argument or local object plus constant offset."""
from ap import *
from lockutil import params

MALLOC = {'__cxa_demangle', 'malloc', 'calloc', 'strdup', 'strndup', '_Znwm', '_Znam', 'realloc', 'aligned_alloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
OUTSLOT = {'asprintf': 0, 'vasprintf': 0}
FREE = {'free': 'm', '_ZdlPv': 'n', '_ZdlPvm': 'n', '_ZdaPv': 'a', '_ZdaPvm': 'a'}
FAMILY = {'_Znwm': 'n', '_ZnwmRKSt9nothrow_t': 'n', '_Znam': 'a', '_ZnamRKSt9nothrow_t': 'a'}
CALLNAME = {'m': 'free', 'n': 'delete', 'a': 'delete[]'}


class Summary:
    """outs: set of (ret, cells, freed) over normal returns. ret: 'own' | 'null' | ('f', path) | None;
    cells: tuple of (path, content) with content 'own'|'null'|'unk'|('f', path); freed: frozenset of entry cells whose block was freed;
    argfreed: frozenset of argument indexes whose pointee itself was freed."""
    __slots__ = ('outs', 'known')

    def __init__(self, outs=frozenset(), known=True):
        self.outs = outs; self.known = known


class Own:
    def __init__(self, m, libfn, report=None, limit=6000):
        self.m = m; self.lib = libfn; self.sum = {}; self.busy = set(); self.report = report; self.limit = limit
        self.gave_up = []; self.fns = {f.n: f for f in m.defined(thunks=True)}
        self.stats = dict(functions=0, allocations=0, releases=0, paths=0)
        self._rel = {}; self._flds = {}; self._ac = {}; self._keep = {}; self.mayraise = None

    # ---- does the function touch ownership at all (itself or through library callees)?
    def relevant(self, n):
        if n in self._rel: return self._rel[n]
        f = self.fns.get(n)
        if f is None: return n in MALLOC or n in FREE or n in OUTSLOT
        self._rel[n] = False
        r = False
        for i in f.inst.values():
            if i['o'] == 'store' and (isinstance(i['val'], int) and (i['val'] not in f.inst or f.inst[i['val']]['t'] == 'ptr') or isinstance(i['val'], list) and i['val'][0] in 'ng'):
                v = i['val']
                if isinstance(v, list) and (v[0] != 'g' or not v[1].startswith('_ZT')): r = True; break
                if isinstance(v, int) and (v in f.inst or any(a[1] == 'ptr' for k, a in enumerate(f.args) if k == v)):
                    d = f.inst.get(v)
                    if not (d and d['o'] == 'getelementptr' and d.get('gt')): r = True; break
            if i['o'] in ('call', 'invoke'):
                k = self.m.alias.get(callee(i), callee(i))
                if k and k != n and (k in MALLOC or k in FREE or k in OUTSLOT or (k in self.fns and self.relevant(k))): r = True; break
        self._rel[n] = r
        return r

    def summary(self, n):
        n = self.m.alias.get(n, n)
        if n in self.sum: return self.sum[n]
        f = self.fns.get(n)
        if f is None or n in self.busy: return Summary(known=False)
        if not self.relevant(n):
            self.sum[n] = Summary(frozenset([(self.retplain(f), (), frozenset(), frozenset(), frozenset())])); return self.sum[n]
        self.busy.add(n)
        try:
            s = Run(self, f).go()
        except Broken as e:
            self.gave_up.append(f.d); s = Summary(known=False)
        self.busy.discard(n)
        self.sum[n] = s
        return s

    def retplain(self, f):
        """what a function without ownership business returns: ('f', path) for a pointer member handed out as it is."""
        if f.ret != 'ptr': return None
        P = Paths(f); out = set()
        for b in f.bbs:
            if b[-1]['o'] == 'ret' and b[-1].get('a'): out |= set(P.of(b[-1]['a'][0]))
        if len(out) != 1: return None
        p = out.pop()
        if p[0] != '*': return None
        b, off = base_off(p[1])
        return ('f', p[1]) if b[0] == 'A' and off is not None else None

    def keeps(self, n):
        """arguments the function puts away somewhere that is not followed (a container, memory behind another pointer)."""
        if n not in self._keep:
            f = self.fns[n]; self._keep[n] = out = set(); P = Paths(f)
            for i in f.inst.values():
                if i['o'] == 'store' and isinstance(i['val'], int) and i['val'] not in f.inst:
                    ps = P.of(i['p']); p = next(iter(ps)) if len(ps) == 1 else None
                    if p is None or base_off(p)[1] is None or base_off(p)[0][0] != 'A': out.add(i['val'])
        return self._keep[n]

    def flds(self, cls):
        if cls not in self._flds: self._flds[cls] = [x for x in self.m.fields(cls, virt=True) if not x[2].startswith('_vptr')] if cls in self.m.types else []
        return self._flds[cls]

    def argclass(self, f):
        """argument index -> class it points to (the object itself included)."""
        if f.n not in self._ac:
            ps = [p for p in params(f.d) if p != 'void']; off = len(f.args) - len(ps); a0 = 1 if f.args and f.args[0][2] else 0; r = {}
            cls, nm = classof(f.d)
            if off - a0 >= 1 and cls: r[a0] = cls
            for k, p in enumerate(ps):
                t = re.sub(r'( const)?[&*]+$', '', p)
                if p.endswith(('&', '*')) and t in self.m.types and off + k < len(f.args): r[off + k] = t
            self._ac[f.n] = r
        return self._ac[f.n]


def classof(d):
    """(class, member name) of a demangled library member function."""
    d = re.sub(r'\) const$', ')', d); depth = 0; k = len(d) - 1; op = None
    if not d.endswith(')'): return ('', '')
    while k >= 0:           # the '(' opening the parameter list
        depth += (d[k] == ')') - (d[k] == '(')
        if depth == 0: break
        k -= 1
    q = d[:k]
    r = re.search(r'::(operator *(?:[^\w\s:]+|new|delete|[\w:<>&* ]+)|~?\w+)$', q)
    if not r: return ('', '')
    c = q[:r.start()]; depth = 0; cut = 0
    for j, ch in enumerate(c):           # drop a return type: up to the last space outside template arguments
        depth += (ch in '<(') - (ch in '>)')
        if ch == ' ' and depth == 0: cut = j + 1
    c = c[cut:]
    return (c, r.group(1)) if re.match(r'(Java|Javax)::|Array<', c) else ('', '')


def simple(cls):
    return re.sub(r'<.*', '', cls).split('::')[-1]


def inlib(i):
    """the instruction was written in library code, not inlined out of the standard library."""
    st = i.get('st')
    if not st: return True
    return st[0][2].startswith(LIB)


class Run:
    def __init__(self, O, f, alias=None, judge=None):
        self.O = O; self.f = f; self.P = Paths(f); self.alias = alias or {}; self.judge = judge
        self.ce = ConstEnv(f)
        self.outs = set(); self.exits = []
        self.ptrs = set(k for k, i in f.inst.items() if i['t'] == 'ptr')
        self.live = self.liveness()

    def liveness(self):
        f = self.f; n = len(f.bbs); use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; edge = {}
        for b in range(n):
            for i in f.bbs[b]:
                if i['o'] == 'phi':
                    de[b].add(i['i'])
                    for v, p in i['in']:
                        if isinstance(v, int) and v in self.ptrs: edge.setdefault((p, b), set()).add(v)
                    continue
                for v in operands(i):
                    if isinstance(v, int) and v in self.ptrs and v not in de[b]: use[b].add(v)
                de[b].add(i['i'])
        L = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                s = set(use[b])
                for x in f.succ[b]: s |= (L[x] | edge.get((b, x), set())) - de[b]
                if s != L[b]: L[b] = s; ch = True
        return L

    # ---- addresses
    def addr(self, v):
        """('cell', path) of a constant-offset address into an argument / local / global, else None."""
        ps = self.P.of(v)
        if len(ps) != 1: return None
        p = next(iter(ps)); b, off = base_off(p)
        if off is None: return None
        if b[0] == 'A': b = ('A', self.alias.get(b[1], b[1]))
        if b[0] in ('A', 'L'): return add(b, off)
        return None

    def tok(self, v, env):
        if isinstance(v, list):
            if v[0] == 'n': return ('0',)
            if v[0] == 'g': return ('s', v[1])
            return None
        if v in env: return env[v]
        i = self.f.inst.get(v)
        if i is None: return ('a', self.alias.get(v, v))
        if i['o'] == 'getelementptr':
            t = self.tok(i['p'], env)
            if t is None or t == ('0',): return None
            if i['var'] or i['off']: return ('i', t) if t[0] != 'i' else t
            return t
        if i['o'] == 'select':
            a, b = self.tok(i['a'][1], env), self.tok(i['a'][2], env)
            return a if a == b else None
        if i['o'] == 'freeze': return self.tok(i['a'][0], env)
        if i['o'] == 'alloca': return ('l', v)
        return None

    def go(self):
        f = self.f
        # state: (cells, status, env) as sorted tuples/dicts
        init = ((), (), ())
        work = [(0, init, ())]; seen = {work[0]}
        while work:
            b, st, cenv = work.pop()
            if len(seen) > self.O.limit: raise Broken('state limit in ' + f.d)
            self.block(b, st, cenv, work, seen)
        return Summary(frozenset(self.outs))

    def block(self, b, st, cenv, work, seen):
        f = self.f
        cells, status, env = dict(st[0]), dict(st[1]), dict(st[2])
        states = [(cells, status, env)]
        term = f.bbs[b][-1]
        for i in f.bbs[b]:
            if i['o'] == 'phi': continue
            if i['o'] == 'invoke' and (self.O.mayraise is None or self.O.mayraise(f, i)):         # it may throw: the callee then has had no effect on ownership (E04, and its own obligations)
                for x in states:
                    st2 = self.edge(b, i['u'], i, *x)
                    for s, ne in self.ce.succs(b, cenv):
                        if s == i['u'] and (s, st2, ne) not in seen: seen.add((s, st2, ne)); work.append((s, st2, ne))
            elif i['o'] == 'call' and callee(i) in ('__cxa_throw', '__cxa_rethrow'):
                for x in states: self.unwind(i, *x)
            nxt = []
            for s in states: nxt += self.step(i, *s)
            states = nxt
            if len(states) > 40: raise Broken('states')
        if term['o'] == 'resume':
            for x in states: self.unwind(term, *x)
        if term['o'] in ('ret', 'resume', 'unreachable'):
            return
        for cells, status, env in states:
            for s, ne in self.ce.succs(b, cenv):
                if term['o'] == 'invoke' and term['u'] != term['n'] and s == term['u']: continue
                st2 = self.edge(b, s, term, cells, status, env)
                if st2 is None: continue
                k = (s, st2, ne)
                if k not in seen: seen.add(k); work.append(k)

    def edge(self, b, s, term, cells, status, env):
        env = dict(env); status = dict(status)
        if term['o'] == 'br' and 'cond' in term and isinstance(term['cond'], int) and term['s'][0] != term['s'][1]:
            c = self.f.inst.get(term['cond']); truth = s == term['s'][0]
            if c and c['o'] == 'icmp' and c.get('ot') == 'ptr' and c['pr'] in ('eq', 'ne'):
                x, y = self.tok(c['a'][0], env), self.tok(c['a'][1], env)
                eq = (c['pr'] == 'eq') == truth
                if x is not None and y is not None:
                    for p, q in ((x, y), (y, x)):
                        if q == ('0',):
                            if p == ('0',) or status.get(p) == 'null':
                                if not eq: return None
                            elif p[0] in ('n', 'l', 'a') or p[0] == 's' or status.get(p) in ('live!', 'freed'):
                                if eq and p[0] in ('l', 'a', 's'): return None
                                if eq: status[p] = 'null'
                            elif eq: status[p] = 'null'
                            elif status.get(p) is None: status[p] = 'live!'
                    # identity of arguments (self-assignment tests)
                    if x[0] in ('a', 'l') and y[0] in ('a', 'l') and (x[0] != 'a' or y[0] != 'a' or x == y or self.alias is not None):
                        same = x == y
                        if x[0] == 'a' and y[0] == 'a':
                            if same != eq: return None
                        elif same != eq and x[0] == y[0]: return None
        new = {}
        for ph in self.f.bbs[s]:
            if ph['o'] != 'phi': break
            if ph['t'] != 'ptr': continue
            v = next((x for x, p in ph['in'] if p == b), None)
            new[ph['i']] = self.tok(v, env) if v is not None else None
        env.update(new)
        lv = self.live[s] | set(new)
        env = {k: t for k, t in env.items() if k in lv and t is not None}
        used = set(self.base(t) for t in env.values()) | set(self.base(t) for t in cells.values())
        status = {k: v for k, v in status.items() if k in used or v in ('freed', 'live') or k[0] == 'f'}
        return (tuple(sorted(cells.items(), key=repr)), tuple(sorted(status.items(), key=repr)), tuple(sorted(env.items(), key=repr)))

    def base(self, t):
        while t and t[0] == 'i': t = t[1]
        return t

    # ---- instructions
    def step(self, i, cells, status, env):
        o = i['o']
        one = [(cells, status, env)]
        if o == 'load':
            self.use(i, i['p'], cells, status, env)
            if i['t'] == 'ptr':
                a = self.addr(i['p'])
                if a is not None:
                    t = cells.get(a, ('f', a) if root(a)[0] == 'A' else None)
                    env = dict(env); env[i['i']] = t
                    if t is None: env.pop(i['i'], None)
                    return [(cells, status, env)]
                t = ('m', i['i'])              # some pointer out of memory that is not followed: known by the value itself
                env = dict(env); env[i['i']] = t
                if t in status: status = {k: v for k, v in status.items() if k != t}
                return [(cells, status, env)]
            return one
        if o == 'store':
            self.use(i, i['p'], cells, status, env)
            a = self.addr(i['p'])
            if i.get('vt') == 'ptr' or self.isptr(i['val']):
                t = self.tok(i['val'], env)
                if a is not None:
                    cells = dict(cells); status = dict(status)
                    old = cells.get(a, ('f', a) if root(a)[0] == 'A' else None)
                    cells[a] = t if t is not None else ('?', i['i'])
                    self.lost(i, old, cells, status, env, a)
                else:
                    bt = self.base(t)
                    if bt and bt[0] in ('n', 'r', 'c'):
                        status = dict(status); status[bt] = 'gone'
                return [(cells, status, env)]
            return one
        if o in ('call', 'invoke'): return self.call(i, cells, status, env)
        if o == 'ret': self.exit(i, cells, status, env); return one
        if o in ('getelementptr', 'select', 'freeze') and i['t'] == 'ptr' and i['i'] in self.ptrs:
            t = self.tok(i['i'], env)
            if t is not None:
                env = dict(env); env[i['i']] = t
                return [(cells, status, env)]
        return one

    def isptr(self, v):
        if isinstance(v, list): return v[0] in ('n', 'g')
        i = self.f.inst.get(v)
        return i['t'] == 'ptr' if i else any(a[0] == 'ptr' or a[1] == 'ptr' for k, a in enumerate(self.f.args) if k == v)

    def use(self, i, v, cells, status, env, what='used'):
        t = self.base(self.tok(v, env))
        if t is None:
            # given its own object: what it has just emptied is not there to be read
            while isinstance(v, int) and v in self.f.inst and self.f.inst[v]['o'] == 'getelementptr': v = self.f.inst[v]['p']
            if self.alias and isinstance(v, int) and env.get(v) == ('0',) and self.f.inst[v]['o'] == 'load' and inlib(i): self.bad('null', i, 'goes through a pointer it has set to null', None)
            return
        if status.get(t) == 'freed':
            self.bad('use', i, 'uses memory it has already freed', t)

    def lost(self, i, old, cells, status, env, a):
        """cell content overwritten: a block nobody else holds and that was not freed is lost."""
        t = self.base(old)
        if t is None: return
        if t[0] in ('n', 'r') and status.get(t) == 'live':
            if not any(self.base(x) == t for x in cells.values()) and not any(self.base(x) == t for x in env.values()):
                self.bad('leak', i, 'overwrites the only pointer to memory it has not freed', t); status[t] = 'gone'

    def bad(self, kind, i, text, t=None):
        if self.judge: self.judge(kind, self.f, i, text, t)

    def alloc(self, i, cells, status, env, tok):
        status = dict(status)
        if status.get(tok) == 'live':
            held = any(self.base(x) == tok for x in cells.values())
            if not held: self.bad('leak', i, 'allocates again without having freed the block of the previous round', tok)
        status[tok] = 'live'
        return status

    def call(self, i, cells, status, env):
        n = callee(i); n = self.O.m.alias.get(n, n)
        lib = inlib(i)
        if n in MALLOC:
            if n == 'realloc':
                out = self.release(i, 0, 'm', cells, status, env, soft=True)
                cells, status, env = out
            if not lib: return [(cells, status, env)]
            tok = ('n', i['i'])
            for a in i['a'][1 if n == 'realloc' else 0:]: self.useval(i, a, status, env)
            status = self.alloc(i, cells, status, env, tok)
            env = dict(env); env[i['i']] = tok
            self.O.stats['allocations'] += 1
            return [(cells, status, env)]
        if n in OUTSLOT:
            for a in i['a'][1:]: self.useval(i, a, status, env)
            a = self.addr(i['a'][0])
            if a is None: return [(cells, status, env)]
            tok = ('n', i['i'])
            cells = dict(cells); old = cells.get(a, ('f', a) if root(a)[0] == 'A' else None)
            status = self.alloc(i, cells, status, env, tok)
            cells[a] = tok
            self.lost(i, old, cells, status, env, a)
            self.O.stats['allocations'] += 1
            return [(cells, status, env)]
        if n in FREE:
            if not lib:                     # a smart pointer giving up a block of the library's
                t = self.base(self.tok(i['a'][0], env))
                if t is None or t[0] not in ('n', 'r') or t not in status: return [(cells, status, env)]
            self.O.stats['releases'] += 1
            return [self.release(i, 0, FREE[n], cells, status, env)]
        if n is None and self.deleting(i, env):
            self.O.stats['releases'] += 1
            return [self.release(i, 0, 'n', cells, status, env)]
        for a in i['a']: self.useval(i, a, status, env)
        if n in self.O.fns and self.O.relevant(n):
            return self.libcall(i, n, cells, status, env)
        w = n if n is not None else self.override(i)
        if w in self.O.fns and not self.O.relevant(w) and i['t'] == 'ptr' and i['a']:
            n = w; rp = next(iter(self.O.summary(w).outs), (None,))[0]
            if isinstance(rp, tuple) and rp[0] == 'f' and root(rp[1])[1] < len(i['a']):
                q = self.addr(i['a'][root(rp[1])[1]]); b, off = base_off(rp[1])
                if q is not None:
                    q = add(q, off); t = cells.get(q, ('f', q) if root(q)[0] == 'A' else None)
                    if t is not None: env = dict(env); env[i['i']] = t
        # unknown code: objects handed to it by address may change; a block handed to a constructor of a smart pointer is its business
        escaped = None
        if n and not n.startswith('llvm.') and n not in EXT and n not in self.O.fns:
            for k, a in enumerate(i['a']):
                if i['pt'][k] != 'ptr': continue
                t = self.base(self.tok(a, env))
                if t and t[0] in ('n', 'r', 'c') and self.cpp(n, k): status = dict(status); status[t] = 'gone'
                if t and t[0] == 'f' and status.get(t) is None: status = dict(status); status[t] = 'esc'
                p = self.addr(a)
                if p is not None:
                    for c in [x for x in cells if base_off(x)[0] == base_off(p)[0]] + [p]:
                        if root(c)[0] == 'A' and status.get(('f', c)) is None: status = dict(status); status[('f', c)] = 'esc'
        elif n is None:
            for k, a in enumerate(i['a']):
                if i['pt'][k] != 'ptr': continue
                p = self.addr(a)
                if p is not None and root(p)[0] == 'L':
                    bb, off = base_off(p)
                    for c in list(cells):
                        if base_off(c)[0] == bb: cells = dict(cells); cells[c] = ('?', i['i'])
                t = self.base(self.tok(a, env))
                if t and t[0] in ('n', 'r'): status = dict(status); status[t] = 'gone'
                if t and t[0] == 'f' and status.get(t) is None: status = dict(status); status[t] = 'esc'
        return [(cells, status, env)]

    def override(self, i):
        """what a virtual call on an argument of a known class calls."""
        d = self.f.inst.get(i['f']) if isinstance(i.get('f'), int) else None
        if not d or d['o'] != 'load': return None
        ps = self.P.of(d['p'])
        if len(ps) != 1: return None
        b, off = base_off(next(iter(ps)))
        if b[0] != '*' or b[1][0] != 'A' or off is None: return None
        cls = self.O.argclass(self.f).get(b[1][1])
        if not cls or '<' in cls: return None
        vt = self.O.m.vtable('N' + ''.join('%d%s' % (len(x), x) for x in cls.split('::')) + 'E')
        ti = [k for k, x in enumerate(vt) if x and x.startswith('_ZTI')]
        k = (ti[0] + 1 if ti else 2) + off // 8
        return self.O.m.alias.get(vt[k], vt[k]) if 0 <= k < len(vt) else None

    def deleting(self, i, env):
        """a virtual call of the deleting destructor of the class a field points to."""
        v = self.f.inst.get(i['f']) if isinstance(i.get('f'), int) else None
        if not v or v['o'] != 'load' or len(i['a']) != 1: return False
        g = self.f.inst.get(v['p']) if isinstance(v['p'], int) else None
        off = 0
        if g and g['o'] == 'getelementptr' and not g['var']: off = g['off']; g = self.f.inst.get(g['p'])
        if not g or g['o'] != 'load': return False
        t = self.tok(i['a'][0], env)
        if not t or t[0] != 'f': return False
        b, o = base_off(t[1])
        cls = self.O.argclass(self.f).get(b[1]) if b[0] == 'A' else None
        if cls is None: return False
        for fo, sz, nm, ty, own in self.O.flds(cls):
            if fo == o and ty.endswith('*'):
                c = re.sub(r'^const | const|[* ]+$', '', ty)
                vt = self.O.m.vtable('N' + ''.join('%d%s' % (len(x), x) for x in c.split('::')) + 'E')
                ti = [k for k, x in enumerate(vt) if x and x.startswith('_ZTI')]
                k = (ti[0] + 1 if ti else 2) + off // 8
                return 0 <= k < len(vt) and bool(vt[k]) and vt[k].endswith('D0Ev')
        return False

    def cpp(self, n, k):
        d = self.O.m.dem.get(n, n)
        return '_ptr' in d or 'thread' in d or 'function' in d or n.startswith('_ZNSt') and 'basic_string' not in d and 'char_traits' not in d

    def useval(self, i, a, status, env):
        if isinstance(a, int) and a in self.ptrs or isinstance(a, int) and a not in self.f.inst:
            t = self.base(self.tok(a, env))
            if t is not None and status.get(t) == 'freed':
                self.bad('use', i, 'passes on memory it has already freed', t)

    def release(self, i, k, fam, cells, status, env, soft=False):
        t = self.tok(i['a'][k], env)
        if t is None or t == ('0',): return cells, status, env
        if t[0] == 'i':
            self.bad('interior', i, 'frees a pointer into the middle of a block', self.base(t)); return cells, status, env
        if status.get(t) == 'null': return cells, status, env
        status = dict(status)
        if t[0] in ('s', 'l'):
            self.bad('nonheap', i, 'frees memory that was never allocated', t); return cells, status, env
        if status.get(t) == 'freed':
            self.bad('double', i, 'frees memory it has already freed', t); return cells, status, env
        if t[0] == 'n':
            al = self.f.inst[t[1]]; af = FAMILY.get(callee(al), 'm')
            if af != fam: self.bad('family', i, 'releases with %s memory obtained by %s' % (CALLNAME[fam], callee(al)), t)
        status[t] = 'freed'
        return cells, status, env

    def libcall(self, i, n, cells, status, env):
        s = self.O.summary(n)
        if not s.known or not s.outs:
            if s.known: return []          # never returns
            # recursion or given up: anything reachable may have changed
            cells = dict(cells)
            for a, t in zip(i['a'], i['pt']):
                if t != 'ptr': continue
                p = self.addr(a)
                if p is None: continue
                for c in list(cells):
                    if base_off(c)[0] == base_off(p)[0]:
                        cells[c] = ('?', i['i'])
                        if root(c)[0] == 'A' and status.get(('f', c)) is None: status = dict(status); status[('f', c)] = 'esc'
            return [(cells, status, env)]
        out = []; multi = len(s.outs) > 1
        outs = s.outs
        if len(outs) > 12:
            return [(cells, status, env)]
        for ret, cc, freed, argf, nulls in outs:
            c2, s2, e2 = dict(cells), dict(status), dict(env)

            def there(p):
                r = root(p)
                if r[0] != 'A' or r[1] >= len(i['a']): return None
                q = self.addr(i['a'][r[1]])
                if q is None: return None
                b, off = base_off(p)
                return add(q, off) if b == r else None
            dead = False
            for p in nulls:
                q = there(p)
                if q is None: continue
                bt = self.base(c2.get(q, ('f', q) if root(q)[0] == 'A' else None))
                if bt is None or bt == ('0',) or bt[0] == '?': continue
                if bt[0] in ('n', 's', 'l') or s2.get(bt) in ('live!', 'live', 'freed'): dead = True
                else: s2[bt] = 'null'
            if dead: continue
            for p in freed:
                q = there(p)
                if q is None: continue
                t = c2.get(q, ('f', q) if root(q)[0] == 'A' else None)
                bt = self.base(t)
                if bt is None or bt == ('0',) or bt[0] == '?': continue
                if s2.get(bt) == 'null': continue
                if s2.get(bt) == 'freed': self.bad('double', i, 'releases memory that was already freed (in %s)' % self.O.m.dem.get(n, n), bt); continue
                if bt[0] in ('s', 'l'): self.bad('nonheap', i, 'has %s free memory that was never allocated' % self.O.m.dem.get(n, n), bt); continue
                if bt[0] == 'n' or bt[0] == 'f' or bt[0] in 'rc': s2[bt] = 'freed'
            for k in self.O.keeps(n):
                bt = self.base(self.tok(i['a'][k], env)) if k < len(i['a']) else None
                if bt and bt[0] in 'nr' and s2.get(bt) == 'live': s2[bt] = 'gone'
            for k in argf:
                if k < len(i['a']):
                    bt = self.base(self.tok(i['a'][k], env))
                    if bt and bt[0] in ('n', 'r', 'c', 'f'):
                        if s2.get(bt) == 'freed': self.bad('double', i, 'passes memory it has freed to be freed again', bt)
                        s2[bt] = 'freed'
            old = {p: (c2.get(there(p), ('f', there(p)))) for p, _ in cc if there(p) is not None}
            for p, x in cc:
                q = there(p)
                if q is None: continue
                if x == 'own': c2[q] = ('c', i['i'], q); s2[('c', i['i'], q)] = 'live!'
                elif x == 'null': c2[q] = ('0',)
                elif isinstance(x, tuple) and x[0] == 'f':
                    r = there(x[1])
                    if r is None: c2[q] = ('?', i['i'])
                    else: c2[q] = old.get(x[1], c2.get(r, ('f', r) if root(r)[0] == 'A' else ('?', i['i'])))
                elif isinstance(x, tuple) and x[0] == 's': c2[q] = x
                elif isinstance(x, tuple) and x[0] == 'a' and x[1] < len(i['a']):
                    t = self.tok(i['a'][x[1]], env)
                    c2[q] = t if t is not None else ('?', i['i'])
                else: c2[q] = ('?', i['i'])
                self.lost(i, old.get(p), c2, s2, e2, q)
            if i['t'] == 'ptr':
                if ret == 'own':
                    t = ('r', i['i']); s2 = self.alloc(i, c2, s2, e2, t); e2[i['i']] = t
                elif ret == 'null': e2[i['i']] = ('0',)
                elif isinstance(ret, tuple) and ret[0] == 'f':
                    q = there(ret[1])
                    if q is not None:
                        t = c2.get(q, ('f', q) if root(q)[0] == 'A' else None)
                        if t is not None: e2[i['i']] = t
                elif isinstance(ret, tuple) and ret[0] == 'a' and ret[1] < len(i['a']):
                    t = self.tok(i['a'][ret[1]], env)
                    if t is not None: e2[i['i']] = t
            out.append((c2, s2, e2))
        ded = {}
        for s in out: ded[repr((sorted(s[0].items(), key=repr), sorted(s[1].items(), key=repr), sorted(s[2].items(), key=repr)))] = s
        return list(ded.values())

    def exit(self, i, cells, status, env):
        f = self.f; a0 = 1 if f.args and f.args[0][2] else 0
        ret = None
        if f.ret == 'ptr' and i.get('a'):
            t = self.tok(i['a'][0], env); bt = self.base(t)
            if bt is not None and bt != ('0',):
                if status.get(bt) == 'freed': self.bad('use', i, 'returns memory it has already freed', bt)
                if bt[0] == 'l': self.bad('local', i, 'returns the address of a local variable', bt)
                if t[0] == 'n' or t[0] == 'r': ret = 'own' if status.get(t) == 'live' and not any(self.base(x) == t and root(k)[0] == 'A' for k, x in cells.items()) else None
                elif t[0] in ('f', 'a'): ret = t
                if bt[0] in ('n', 'r'): status = dict(status); status[bt] = 'gone' if not any(self.base(x) == bt and root(k)[0] == 'A' for k, x in cells.items()) else status[bt]
            elif t == ('0',): ret = 'null'
        cc = []
        for p, t in cells.items():
            if root(p)[0] != 'A': continue
            bt = self.base(t)
            if t == ('f', p): continue
            if t == ('0',) or status.get(bt) == 'null': cc.append((p, 'null'))
            elif t[0] in ('n', 'r', 'c') and status.get(t) != 'freed': cc.append((p, 'own'))
            elif t[0] == 'f' or t[0] in ('s', 'a'): cc.append((p, t))
            else: cc.append((p, 'unk'))
        freed = frozenset(t[1] for t, s in status.items() if t[0] == 'f' and s == 'freed')
        argf = frozenset(t[1] for t, s in status.items() if t[0] == 'a' and s == 'freed')
        nulls = frozenset(t[1] for t, s in status.items() if t[0] == 'f' and s == 'null')
        self.outs.add((ret, tuple(sorted(cc, key=repr)), freed, argf, nulls))
        self.exits.append((i, dict(cells), dict(status)))
        # leaks at return
        for t, s in status.items():
            if s == 'live' and t[0] in ('n', 'r') and not any(self.base(x) == t and root(k)[0] == 'A' for k, x in cells.items()):
                self.bad('leak', i, 'returns without freeing memory only it can reach', t)
        self.O.stats['paths'] += 1

    def unwind(self, i, cells, status, env):
        """leaving by an exception."""
        self.exits.append((i, dict(cells), dict(status)))
        for t, s in status.items():
            if s == 'live' and t[0] in ('n', 'r') and not any(self.base(x) == t and root(k)[0] == 'A' for k, x in cells.items()):
                self.bad('leakthrow', i, 'is left by an exception without freeing memory only it can reach', t)
