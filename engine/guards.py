"""Which argument values get past a function's guards: facts along every acyclic path, in terms of the entry values of integer
parameters and of the lengths of the objects involved.  Three-valued: a path one of whose conditions on the quantities in question is
not understood decides nothing."""
from facts import *
from lockutil import params

LEN = ('size', 'length', 'getSize')
RE_SSIZE = re.compile(r'^std::__cxx11::basic_string<.*>::(size|length)\(\) const$')
RE_SEMPTY = re.compile(r'^std::__cxx11::basic_string<.*>::empty\(\) const$')


def mparams(f): return [p for p in params(f.d) if p != 'void']


def this_index(f):
    ps = mparams(f); off = len(f.args) - len(ps); a0 = 1 if f.args and f.args[0][2] else 0
    return (a0 if off - a0 >= 1 else None), off


def norm_root(p, a0, off):
    """argument roots by meaning: ('T',) the object, ('P', k) the k-th parameter."""
    if not isinstance(p, tuple): return p
    if p[0] == 'A':
        if p[1] == a0: return ('T',)
        return ('P', p[1] - off + 1) if p[1] >= off else ('R',)
    if p[0] == '+': return ('+', norm_root(p[1], a0, off)) + p[2:]
    if p[0] in ('*', '?'): return (p[0], norm_root(p[1], a0, off)) + p[2:]
    return p


def proot(p):
    while isinstance(p, tuple) and p[0] in ('+', '*', '?'): p = p[1]
    return p


def rebase_key(k, q):
    """key over ('T',) rewritten over path q."""
    if k == ('T',): return q
    if isinstance(k, tuple):
        if k and k[0] == '+' and len(k) == 3 and isinstance(k[2], int): return add(rebase_key(k[1], q), k[2])
        return tuple(rebase_key(x, q) for x in k)
    return k


def rebase_lin(l, q): return Lin({rebase_key(a, q): x for a, x in l.t.items()}, l.c)


class Guard:
    """one function's guards."""

    def __init__(self, G, f):
        self.G = G; self.f = f; self.P = G.paths(f)
        self.a0, self.off = this_index(f)
        self.heads = set(s for b in range(len(f.bbs)) for s in f.succ[b] if f.dominates(s, b))
        self._w = None; self._inv = {}

    # ---- values
    def path(self, v):
        ps = self.P.of(v)
        return norm_root(next(iter(ps)), self.a0, self.off) if len(ps) == 1 else None

    def writers(self):
        if self._w is None:
            E = self.G.effects(); EP = E.P(self.f); self._w = []
            for b, bb in enumerate(self.f.bbs):
                for k, j in enumerate(bb):
                    if j['o'] not in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg'): continue
                    for kind, q, via in E.inst(self.f, EP, j):
                        q = norm_root(q, self.a0, self.off)
                        wide = kind == 'o' and 32 or via is not None and via.startswith('llvm.') and 1 << 30 or 0
                        self._w.append((b, k, q, wide))
        return self._w

    def tag(self, p, i):
        """() if nothing may have been written to the place before instruction i; else what tells its value then from others."""
        b0 = self.f.blk[i['i']]; k0 = self.f.pos[i['i']]; hit = set()
        for b, k, q, wide in self.writers():
            if (b == b0 and k < k0 or self.G.reaches(self.f, b, b0)) and hits(q, wide, p): hit.add((b, k))
        if not hit: return ()
        if any(self.G.reaches(self.f, b, b) for b, k in hit): return (('at', i['i']),)
        return (tuple(sorted(hit)),)

    def retag(self, a, i):
        """an atom over this function's places, as of instruction i."""
        if isinstance(a, tuple) and a[:1] in (('ld',), ('ssize',)) and len(a) == 2: return a + self.tag(a[1], i)
        if isinstance(a, tuple) and a[:1] == ('quot',): return tuple(self.retag_all(x, i) for x in a)
        return a

    def retag_all(self, x, i):
        if isinstance(x, tuple):
            y = self.retag(x, i)
            return y if y is not x else tuple(self.retag_all(z, i) for z in x)
        return x

    def key(self, v, env, d=0):
        """atom for an integer or pointer value."""
        f = self.f
        if v not in f.inst:
            return ('a', v - self.off + 1) if v >= self.off else ('this',) if v == self.a0 else ('ret',)
        i = f.inst[v]
        if v in env and env[v] != v and d < 60:
            x = env[v]
            return self.key(x, env, d + 1) if isinstance(x, int) else ('k', repr(x))
        if i['o'] == 'load':
            p = self.path(i['p'])
            if p is not None and proot(p)[0] in ('T', 'P', 'L'): return ('ld', p) + self.tag(p, i)
        if i['o'] in ('ptrtoint', 'bitcast', 'freeze', 'inttoptr') and isinstance(i['a'][0], int): return self.key(i['a'][0], env, d + 1)
        if i['o'] in ('ashr', 'lshr', 'sdiv', 'udiv') and isinstance(i['a'][1], list) and i['a'][1][0] == 'i':
            return ('quot', self.lin(i['a'][0], env, d + 1).key(), i['a'][1][1] if 'div' in i['o'] else 1 << i['a'][1][1])
        return ('v', v)

    def lin(self, v, env, d=0):
        if isinstance(v, list):
            if v[0] == 'i': return Lin({}, v[1])
            if v[0] == 'n': return Lin({}, 0)
            return Lin.atom(('k', repr(v)))
        f = self.f
        if v in env and d < 60:
            return self.lin(env[v], env, d + 1) if env[v] != v else Lin.atom(('v', v))
        i = f.inst.get(v)
        if i is not None and d < 60:
            o = i['o']; a = i.get('a') or []
            if o == 'add': return self.lin(a[0], env, d + 1).add(self.lin(a[1], env, d + 1))
            if o == 'sub': return self.lin(a[0], env, d + 1).add(self.lin(a[1], env, d + 1), -1)
            if o == 'mul' and isinstance(a[1], list) and a[1][0] == 'i': return self.lin(a[0], env, d + 1).scale(a[1][1])
            if o == 'shl' and isinstance(a[1], list) and a[1][0] == 'i' and a[1][1] < 31: return self.lin(a[0], env, d + 1).scale(1 << a[1][1])
            if o in ('sext', 'freeze') or o == 'zext' and i.get('ot') != 'i1' or o == 'trunc' and i['t'] in ('i32', 'i64'): return self.lin(a[0], env, d + 1)
            if o == 'xor' and a[1] == ['i', -1]: return self.lin(a[0], env, d + 1).scale(-1).plus(-1)
            if o in ('call', 'invoke'):
                r = self.call_lin(i, env)
                if r is not None: return r
        return Lin.atom(self.key(v, env, d))

    def call_lin(self, i, env):
        n = callee(i); 
        d = self.G.m.dem.get(n or '', '') or ''
        if RE_SSIZE.match(d):
            p = self.path(i['a'][0]) if isinstance(i['a'][0], int) else None
            if p is not None and proot(p)[0] in ('T', 'P', 'L'): return Lin.atom(('ssize', p) + self.tag(p, i))
            return None
        g = None
        if n:
            n = self.G.m.alias.get(n, n); g = self.G.m.fn(n)
        else:
            t = self.G.vcall(self.f, i); g = self.G.m.fn(t) if t else None
            if g is None: return self.slot_len(i)
        if g is None or not g.has: return None
        k = self.G.getter(g)
        if k is None: return None
        ka0, _ = this_index(g)
        if ka0 is None: 
            if k.t and all(a[0] == 'a' for a in k.t):         # static helper over its integer parameters
                r = Lin({}, k.c)
                go = this_index(g)[1]
                for a, x in k.t.items(): r = r.add(self.lin(i['a'][go + a[1] - 1], env), x)
                return r
            return None
        p = self.path(i['a'][ka0]) if isinstance(i['a'][ka0], int) else None
        if p is None: return None
        r = Lin({}, k.c); go = this_index(g)[1]
        for a, x in k.t.items():
            if a[0] == 'a': r = r.add(self.lin(i['a'][go + a[1] - 1], env), x)
            else: r = r.add(Lin.atom(self.retag(rebase_key(a, p), i)), x)
        return r

    def slot_len(self, i):
        return None

    # ---- conditions -> alternatives (list of fact lists); None = not understood
    def cond(self, v, truth, env, d=0):
        if isinstance(v, list):
            return [[]] if v[0] == 'i' and bool(v[1] & 1) == truth else [] if v[0] == 'i' else None
        if v in env and env[v] != v and d < 30: return self.cond(env[v], truth, env, d + 1)
        i = self.f.inst.get(v)
        if i is None or d > 30: return None
        o = i['o']
        if o == 'icmp':
            pr = i['pr'] if truth else NEG[i['pr']]
            if i.get('ot') == 'ptr':
                if pr not in ('eq', 'ne'): return None
                x, y = i['a']
                for u, w in ((x, y), (y, x)):
                    # a list whose sentinel comes next is empty
                    u, w = self.res(u, env), self.res(w, env)
                    j = self.f.inst.get(u) if isinstance(u, int) else None
                    if j is not None and j['o'] == 'load' and isinstance(w, int):
                        p, q = self.path(j['p']), self.path(w)
                        if p is not None and p == q and proot(p)[0] in ('T', 'P', 'L'):
                            return cmp_cases(pr, Lin.atom(('ld', add(p, 16)) + self.tag(p, j)), Lin({}, 0))
                return cmp_cases(pr, self.lin(x, env), self.lin(y, env))
            if i.get('ot') in ('i1', 'i8') and isinstance(i['a'][1], list) and i['a'][1][0] == 'i' and i['a'][1][1] == 0 and pr in ('eq', 'ne') and isinstance(i['a'][0], int) and self.boolish(i['a'][0]):
                return self.cond(i['a'][0], pr == 'ne', env, d + 1)
            a, b = self.lin(i['a'][0], env), self.lin(i['a'][1], env)
            return cmp_cases(pr, a, b)
        if o == 'xor' and i['a'][1] in (['i', -1], ['i', 1]): return self.cond(i['a'][0], not truth, env, d + 1)
        if o in ('and', 'or') and i['t'] in ('i1', 'i8'):
            x, y = self.cond(i['a'][0], truth, env, d + 1), self.cond(i['a'][1], truth, env, d + 1)
            if o == 'and' and i['t'] == 'i8' and i['a'][1] == ['i', 1]: return x
            if x is None or y is None: return None
            if (o == 'and') == truth: return [p + q for p in x for q in y]
            return x + y
        if o == 'select':
            c, x, y = i['a']
            ct, cf = self.cond(c, True, env, d + 1), self.cond(c, False, env, d + 1)
            xt, yt = self.cond(x, truth, env, d + 1), self.cond(y, truth, env, d + 1)
            if None in (ct, cf, xt, yt): return None
            return [p + q for p in ct for q in xt] + [p + q for p in cf for q in yt]
        if o in ('freeze', 'zext', 'trunc'): return self.cond(i['a'][0], truth, env, d + 1)
        if o in ('call', 'invoke'):
            n = callee(i); dd = self.G.m.dem.get(n or '', '') or ''
            if RE_SEMPTY.match(dd) and isinstance(i['a'][0], int):
                p = self.path(i['a'][0])
                if p is not None and proot(p)[0] in ('T', 'P', 'L'): return cmp_cases('eq' if truth else 'ne', Lin.atom(('ssize', p) + self.tag(p, i)), Lin({}, 0))
            g = self.G.m.fn(self.G.m.alias.get(n, n)) if n else None
            if g is not None and g.has:
                s = self.G.summary(g, truth)
                if s is not None: return [[self.import_fact(x, g, i, env) for x in alt] for alt in s]
        return None

    def res(self, v, env):
        n = 0
        while isinstance(v, int) and v in env and env[v] != v and n < 60: v = env[v]; n += 1
        return v

    def boolish(self, v):
        i = self.f.inst.get(v)
        return i is not None and (i['o'] in ('icmp', 'zext', 'xor', 'select', 'call', 'invoke', 'trunc', 'phi', 'freeze') or i['o'] in ('and', 'or')) and (i['t'] == 'i1' or i.get('ot') == 'i1' or i['t'] == 'i8')

    def import_fact(self, l, g, i, env):
        """a fact of callee g in terms of this function."""
        ga0, go = this_index(g)
        r = Lin({}, l.c)
        for a, x in l.t.items():
            if a[0] == 'a': r = r.add(self.lin(i['a'][go + a[1] - 1], env), x)
            else: r = r.add(Lin.atom(self.retag(self.import_key(a, g, i, ga0, go), i)), x)
        return r

    def import_key(self, a, g, i, ga0, go):
        if a == ('T',): 
            p = self.path(i['a'][ga0]) if isinstance(i['a'][ga0], int) else None
            return p if p is not None else ('o', i['i'])
        if isinstance(a, tuple) and a and a[0] == 'P':
            x = i['a'][go + a[1] - 1]; p = self.path(x) if isinstance(x, int) else None
            return p if p is not None else ('o', i['i'], a[1])
        if isinstance(a, tuple) and a and a[0] == '+': return add(self.import_key(a[1], g, i, ga0, go), a[2])
        if isinstance(a, tuple): return tuple(self.import_key(x, g, i, ga0, go) for x in a)
        return a

    # ---- paths
    def split(self, i, p):
        """a value chosen between others equals one of them."""
        if i['o'] == 'select':
            c, x, y = i['a']; ct, cf = self.cond(c, True, p.env), self.cond(c, False, p.env)
            if ct is None or cf is None: return p
            cs = [(a, self.lin(x, p.env)) for a in ct] + [(a, self.lin(y, p.env)) for a in cf]
        elif i.get('intr') in ('llvm.smax', 'llvm.smin'):
            x, y = self.lin(i['a'][0], p.env), self.lin(i['a'][1], p.env); d = x.add(y, -1)
            if i['intr'] == 'llvm.smin': d = d.scale(-1)
            cs = [([d], x), ([d.scale(-1)], y)]
        else:
            n = callee(i); g = self.G.m.fn(self.G.m.alias.get(n, n)) if n else None
            if g is None or not g.has or self.call_lin(i, p.env) is not None: return p
            r = self.G.values(g)
            if r is None: return p
            cs = [([self.import_fact(x, g, i, p.env) for x in alt], self.import_fact(l, g, i, p.env)) for alt, l in r]
        me = Lin.atom(('v', i['i'])); out = []
        for a in p.alts:
            for facts, l in cs:
                x = a + facts + [me.add(l, -1), l.add(me, -1)]
                if not infeasible(self.G.base(x) + x): out.append(x)
        if len(out) > 48: return Path(p.alts, p.env, p.seen, p.unk | frozenset(['*', 'cut']))
        return Path(out, p.env, p.seen, p.unk)

    def walk(self, visit, limit=3000, first=False, start=0):
        """visit(inst, Path) for each instruction on every acyclic path; Path.alts = alternatives.  Values that change in a loop are
        left open, or (first) have the value of the first pass."""
        f = self.f; n = 0
        work = [(start, Path([[]], {i['i']: i['i'] for i in f.bbs[start] if i['o'] == 'phi'} if start else {}, frozenset([start]), frozenset() if start else False))]
        while work:
            b, p = work.pop(); n += 1
            if n > limit: return False
            dead = False
            for i in f.bbs[b]:
                r = visit(i, p)
                if r == 'stop': dead = True; break
                if i['o'] in ('call', 'invoke') and 'intr' not in i:
                    q = self.after(i, p)
                    if q is None: dead = True; break
                    p = q
                if i['t'] in ('i32', 'i64') and (i['o'] in ('select', 'call', 'invoke')):
                    p = self.split(i, p)
                    if not p.alts: dead = True; break
            if dead: continue
            t = f.bbs[b][-1]
            for s in dict.fromkeys(f.succ[b]):
                if s in p.seen: continue
                if t['o'] == 'invoke' and s == t['u'] and t['u'] != t['n']: continue
                alts = p.alts; unk = p.unk
                if t['o'] == 'br' and 'cond' in t and t['s'][0] != t['s'][1]:
                    c = self.cond(t['cond'], t['s'][0] == s, p.env)
                    if c is None: unk = unk | self.mentions(t['cond'], p.env)
                    else:
                        alts = [x + y for x in alts for y in c]
                        alts = [x for x in alts if not infeasible(self.G.base(x) + x)]
                        if not alts: continue
                elif t['o'] == 'switch': unk = unk | self.mentions(t['cond'], p.env)
                if len(alts) > 48: unk = unk | frozenset(['*', 'cut']); alts = alts[:48]
                env = p.env
                ph = [i for i in f.bbs[s] if i['o'] == 'phi']
                if ph and s in self.heads and not first:
                    inv = self.invariants(ph, s, b, env)
                    alts = [x + inv for x in alts]
                if ph:
                    env = dict(env)
                    for i in ph:
                        if s in self.heads and not first: env[i['i']] = i['i']
                        else:
                            v = next((x for x, q in i['in'] if q == b), None)
                            if v is not None: env[i['i']] = env.get(v, v) if isinstance(v, int) else v
                work.append((s, Path(alts, env, p.seen | {s}, unk)))
        return True

    def steps(self, v, phi, d=0):
        """the constants c such that v may be phi + c; None = others too."""
        if v == phi: return {0}
        i = self.f.inst.get(v) if isinstance(v, int) else None
        if i is None or d > 12: return None
        if i['o'] == 'add' and isinstance(i['a'][1], list) and i['a'][1][0] == 'i': r = self.steps(i['a'][0], phi, d + 1); return None if r is None else {x + i['a'][1][1] for x in r}
        if i['o'] == 'sub' and isinstance(i['a'][1], list) and i['a'][1][0] == 'i': r = self.steps(i['a'][0], phi, d + 1); return None if r is None else {x - i['a'][1][1] for x in r}
        if i['o'] == 'select': vs = i['a'][1:]
        elif i['o'] == 'phi' and self.f.blk[v] not in self.heads: vs = [x for x, _ in i['in']]
        else: return None
        out = set()
        for x in vs:
            r = self.steps(x, phi, d + 1)
            if r is None: return None
            out |= r
        return out

    def invariants(self, ph, s, b, env):
        """what holds of the values a loop changes by constants."""
        out = []; ex = []
        for i in ph:
            if i['t'] not in ('i32', 'i64'): continue
            k = (i['i'], 'steps')
            if k not in self._inv:
                st = set()
                for x, q in i['in']:
                    if self.f.dominates(s, q):
                        r = self.steps(x, i['i'])
                        st = None if r is None or st is None else st | r
                self._inv[k] = st
            st = self._inv[k]
            if not st: continue
            init = next((x for x, q in i['in'] if q == b), None)
            if init is None: continue
            d = Lin.atom(('v', i['i'])).add(self.lin(init, env), -1)
            if min(st) >= 0: out.append(d)
            if max(st) <= 0: out.append(d.scale(-1))
            if len(st) == 1: ex.append((d, next(iter(st))))
        for j in range(1, len(ex)):
            (d, x), (e, y) = ex[0], ex[j]
            if x and y: l = d.scale(y).add(e, -x); out += [l, l.scale(-1)]
        return out

    def after(self, i, p):
        """the state after call i returned normally; None if it cannot."""
        n = callee(i)
        if n in ('__cxa_throw', 'exit', 'abort', '_exit', '__cxa_rethrow', '_Unwind_Resume'): return None
        g = self.G.m.fn(self.G.m.alias.get(n, n)) if n else None
        if g is None or not g.has: return p
        s = self.G.guarantee(g); unk = p.unk
        if s is None or n in self.G.vague or g.n in self.G.vague:
            unk = unk | frozenset(y for x in i['a'] if isinstance(x, int) for y in self.mentions(x, p.env))
        if s is None: return Path(p.alts, p.env, p.seen, unk)
        if s == [[]]: return Path(p.alts, p.env, p.seen, unk)
        imp = [[self.import_fact(x, g, i, p.env) for x in alt] for alt in s]
        alts = [x + y for x in p.alts for y in imp]
        alts = [x for x in alts if not infeasible(self.G.base(x) + x)]
        if not alts: return None
        if len(alts) > 48: unk = unk | frozenset(['cut'])
        return Path(alts[:48], p.env, p.seen, unk)

    def mentions(self, v, env, out=None, d=0):
        """quantities a value depends on."""
        out = set() if out is None else out
        if isinstance(v, int) and d < 60:
            if v in env and env[v] != v: self.mentions(env[v], env, out, d + 1); return frozenset(out)
            i = self.f.inst.get(v)
            if i is None: out.add(('a', v - self.off + 1) if v >= self.off else 'T'); return frozenset(out)
            if ('seen', v) in out: return frozenset(out)
            out.add(('seen', v))
            if i['o'] == 'load':
                p = self.path(i['p'])
                out.add(('ld', p) if p is not None else '*')
            elif i['o'] == 'alloca': out.add('*')
            for x in operands(i):
                if isinstance(x, int): self.mentions(x, env, out, d + 1)
            if i['o'] == 'phi':
                for x, _ in i['in']:
                    if isinstance(x, int): self.mentions(x, env, out, d + 1)
        return frozenset(out)


def cmp_cases(pr, a, b):
    d = b.add(a, -1)
    if pr == 'slt': return [[d.plus(-1)]]
    if pr == 'sle': return [[d]]
    if pr == 'sgt': return [[d.scale(-1).plus(-1)]]
    if pr == 'sge': return [[d.scale(-1)]]
    if pr == 'eq': return [[d, d.scale(-1)]]
    if pr == 'ne': return [[d.plus(-1)], [d.scale(-1).plus(-1)]]
    if pr in ('ugt', 'uge'): return cmp_cases({'ugt': 'ult', 'uge': 'ule'}[pr], b, a)
    lt = d.plus(-1) if pr == 'ult' else d
    na, nb = a.scale(-1).plus(-1), b.scale(-1).plus(-1)
    out = []
    for alt in ([a, b, lt], [a, nb], [na, nb, lt]):
        if any(not x.t and x.c < 0 for x in alt): continue
        out.append([x for x in alt if x.t])
    return out


class Path:
    __slots__ = ('alts', 'env', 'seen', 'unk')

    def __init__(self, alts, env, seen, unk):
        self.alts = alts; self.env = env; self.seen = seen; self.unk = unk or frozenset()


class Guards:
    def __init__(self, m, R=None, E=None):
        self.E = E; self.T = None
        self.m = m; self._p = {}; self._g = {}; self._s = {}; self._gd = {}; self._pure = {}; self._get = {}; self._rc = {}
        self.R = R; self.canon = {}; self.vague = set()

    def effects(self):
        if self.E is None:
            from effects import Effects
            self.E = Effects(self.m)
        return self.E

    def paths(self, f):
        if f.n not in self._p: self._p[f.n] = Paths(f)
        return self._p[f.n]

    def of(self, f):
        if f.n not in self._g: self._g[f.n] = Guard(self, f)
        return self._g[f.n]

    def vcall(self, f, i): return self.R.vcall(f, i) if self.R else None

    def reaches(self, f, a, b):
        k = (f.n, a)
        if k not in self._rc:
            seen = set(); st = list(f.succ[a])
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += f.succ[x]
            self._rc[k] = seen
        return b in self._rc[k]

    def pure(self, g):
        """writes nothing but its own locals (and exception objects)."""
        if g.n in self._pure: return self._pure[g.n]
        self._pure[g.n] = True
        P = self.paths(g); r = True
        for i in g.inst.values():
            if i['o'] == 'store' and not all(base_off(p)[0][0] == 'L' for p in P.of(i['p'])): r = False
            elif i['o'] in ('call', 'invoke') and 'intr' not in i:
                n = callee(i); d = self.m.dem.get(n or '', '') or ''
                if d.endswith(' const') or n and n.startswith('__cxa_'): continue
                h = self.m.fn(self.m.alias.get(n, n)) if n else None
                if not (h and h.has and self.pure(h)):
                    if not all(base_off(p)[0][0] in ('L', 'V') for x in i['a'] if isinstance(x, int) for p in P.of(x)): r = False
            if not r: break
        self._pure[g.n] = r
        return r

    def getter(self, g):
        """Lin a function without branches returns, over its object and integer parameters."""
        if g.n in self._get: return self._get[g.n]
        self._get[g.n] = None
        if len(g.bbs) == 1 and not any(i['o'] == 'store' for i in g.bbs[0]) and g.ret.startswith('i'):
            t = g.bbs[0][-1]
            if t['o'] == 'ret' and t.get('a') and not any(i['o'] == 'call' and not (self.m.dem.get(callee(i) or '', '') or '').endswith(' const') and 'intr' not in i and not self.static_ok(i) for i in g.bbs[0]):
                G = self.of(g); l = G.lin(t['a'][0], {})
                if all(a[0] in ('ld', 'ssize', 'a', 'quot') and 'v' not in a[:1] and not has_v(a) for a in l.t): self._get[g.n] = l
        return self._get[g.n]

    def static_ok(self, i):
        n = callee(i); h = self.m.fn(self.m.alias.get(n, n)) if n else None
        return bool(h and h.has and self.pure(h))

    def base(self, alt):
        """lengths are not negative."""
        out = []; seen = set()
        for l in alt:
            for a in l.t:
                if a not in seen and self.is_len(a): seen.add(a); out.append(Lin.atom(a))
                if a[0] == 'quot' and (a, 'eq') not in seen:
                    d = Lin(dict(a[1][0]), a[1][1])
                    if any(d.key() == e.key() for e in spans(d)):
                        seen.add((a, 'eq')); e = d.add(Lin.atom(a), -a[2]); out += [e, e.scale(-1)]
            for d in spans(l):
                if d.key() not in seen: seen.add(d.key()); out.append(d)
        return out

    def is_len(self, a):
        return a[0] == 'ssize' or a in self.canon or a[0] == 'quot' and len(a[1][0]) == 2 or a[0] == 'ld' and len(a) == 3 and a[:2] in self.canon

    def returns(self, g, want=None):
        """[(alts, unk, returned bool cases)] of the paths that return."""
        out = []; G = self.of(g)

        def visit(i, p):
            if i['o'] == 'ret':
                if want is None or not i.get('a'): out.append((p.alts, p.unk))
                else:
                    c = G.cond(i['a'][0], want, p.env)
                    if c is None: out.append((p.alts, p.unk | frozenset(['*'])))
                    else:
                        alts = [x + y for x in p.alts for y in c]
                        alts = [x for x in alts if not infeasible(self.base(x) + x)]
                        if alts: out.append((alts, p.unk))
        return out if G.walk(visit, 400) else None

    def guarantee(self, g):
        """alternatives one of which holds whenever g returned; [[]] = nothing known to be promised; None = not understood."""
        if g.n in self._gd: return self._gd[g.n]
        self._gd[g.n] = [[]]
        if not any(callee(i) == '__cxa_throw' for i in g.inst.values()) and not self.calls_thrower(g): return self._gd[g.n]
        if mparams(g) and not any(p in ('int', 'long', 'unsigned int', 'unsigned long', 'short') for p in mparams(g)): return self._gd[g.n]
        r = self.returns(g)
        if r is not None and any(u == '*' or isinstance(u, tuple) and u[0] == 'a' for _, unk in r for u in unk):
            # what holds on its paths still holds; which of them is taken is not understood
            self.vague.add(g.n); r = [(a, frozenset()) for a, _ in r]
        self._gd[g.n] = self.merge(r)
        return self._gd[g.n]

    def refusals(self, g, depth=0):
        """alternatives under which g certainly throws (on understood paths), in terms of its interface."""
        k = (g.n, 'refuse')
        if k in self._s: return self._s[k]
        self._s[k] = []
        if len(g.inst) > 600 or depth > 3: return []
        G = self.of(g); out = []

        def visit(i, p):
            if i['o'] in ('call', 'invoke') and not open_path(p):
                n = callee(i)
                if n == '__cxa_throw': out.extend(p.alts); return 'stop'
                h = self.m.fn(self.m.alias.get(n, n)) if n else None
                if h is not None and h.has and i['o'] == 'call':
                    for r in self.refusals(h, depth + 1):
                        q = [G.import_fact(x, h, i, p.env) for x in r]
                        out.extend(a + q for a in p.alts)
        G.walk(visit, 300)
        self._s[k] = [a for a in out if a and all(x[0] in ('a', 'ld', 'ssize', 'quot') and not has_v(x) for l in a for x in l.t)][:12]
        return self._s[k]

    def may_refuse(self, g, depth=0):
        """alternatives one of which holds whenever g throws, in terms of its interface; None = not understood."""
        k = (g.n, 'may')
        if k in self._s: return self._s[k]
        self._s[k] = None
        if len(g.inst) > 600 or depth > 3: return None
        G = self.of(g); out = []; T = self.throws()

        def visit(i, p):
            if i['o'] not in ('call', 'invoke') or out and out[-1] is None: return
            n = callee(i)
            if n == '__cxa_throw':
                out.extend(None if 'cut' in p.unk else a for a in p.alts); return 'stop'
            if not T.raised(g, i): return
            h = self.m.fn(self.m.alias.get(n, n)) if n else None
            r = self.may_refuse(h, depth + 1) if h is not None and h.has else None
            if r is None or 'cut' in p.unk: out.append(None); return
            for x in r:
                q = [G.import_fact(y, h, i, p.env) for y in x]
                out.extend(a + q for a in p.alts if not infeasible(self.base(a + q) + a + q))
        ok = G.walk(visit, 300)
        if not ok or None in out: return None
        self._s[k] = [[l for l in a if l.t and all(x[0] in ('a', 'ld', 'ssize', 'quot') and not has_v(x) for x in l.t)] for a in out]
        if len(self._s[k]) > 40: self._s[k] = None
        return self._s[k]

    def throws(self):
        if self.T is None:
            from throws import Throws
            self.T = Throws(self.m)
        return self.T

    def never_refused(self, f, calls):
        """the calls (instructions of f) whose callee certainly does not throw, given the conditions under which they are made."""
        ok = set(i['i'] for i in calls); want = {i['i']: i for i in calls}; G = self.of(f)

        def visit(i, p):
            if i.get('i') not in want or i['i'] not in ok: return
            n = callee(i); h = self.m.fn(self.m.alias.get(n, n)) if n else None
            r = self.may_refuse(h) if h is not None and h.has else None
            if r is None or 'cut' in p.unk: ok.discard(i['i']); return
            for x in r:
                q = [G.import_fact(y, h, i, p.env) for y in x]
                if any(not infeasible(self.base(a + q) + a + q) for a in p.alts): ok.discard(i['i']); return
        return ok if G.walk(visit) else set()

    def calls_thrower(self, g, depth=0):
        if depth > 3: return False
        for i in g.inst.values():
            if i['o'] in ('call', 'invoke'):
                n = callee(i); h = self.m.fn(self.m.alias.get(n, n)) if n else None
                if h and h.has and (not mparams(h) or any(p in ('int', 'long') for p in mparams(h))) and (any(callee(j) == '__cxa_throw' for j in h.inst.values()) or self.calls_thrower(h, depth + 1)): return True
        return False

    def merge(self, r):
        if r is None: return None
        alts = []
        for a, unk in r:
            if unk and '*' in unk: return None
            if any(isinstance(u, tuple) and u[0] == 'a' for u in unk): return None
            alts += a
        # keep what speaks of the interface
        out = []
        for a in alts:
            k = [l for l in a if l.t and all(x[0] in ('a', 'ld', 'ssize', 'quot') and not has_v(x) for x in l.t)]
            out.append(k)
        keys = {frozenset(l.key() for l in a): a for a in out}
        # drop alternatives implied by a weaker one
        ks = sorted(keys, key=len); kept = []
        for k in ks:
            if not any(q <= k for q in kept): kept.append(k)
        return [keys[k] for k in kept] if len(kept) <= 12 else [[]] if frozenset() in kept else None

    def values(self, g):
        """[(facts, value)] a small pure function of integers may return; None = not understood."""
        k = (g.n, 'values')
        if k in self._s: return self._s[k]
        self._s[k] = None
        if len(g.inst) > 120 or not g.ret.startswith('i') or not self.pure(g): return None
        out = []; G = self.of(g)

        def visit(i, p):
            if i['o'] == 'ret':
                l = G.lin(i['a'][0], p.env)
                for a in p.alts:
                    x = a; 
                    # a value split on the way: use what it equals
                    for at in list(l.t):
                        if at[0] == 'v':
                            e = next((y for y in x if y.t.get(at) == 1 and len(y.t) <= 3 and any(z.key() == y.scale(-1).key() for z in x)), None)
                            if e is not None: l2 = l.add(e, -l.t[at]); l_ = l2; break
                    else: l_ = l
                    out.append((x, l_, p.unk))
        if not G.walk(visit, 60) or not out or len(out) > 6: return None
        if any(u for _, _, u in out) or any(has_v(at) for _, l, _ in out for at in l.t): return None
        self._s[k] = [([y for y in x if not any(has_v(at) for at in y.t)], l) for x, l, _ in out]
        return self._s[k]

    def summary(self, g, truth):
        """alternatives one of which holds when bool function g returned truth; None = not understood."""
        k = (g.n, truth)
        if k in self._s: return self._s[k]
        self._s[k] = None
        if len(g.inst) > 400 or not self.pure(g): return None
        r = self.returns(g, truth)
        if r is None or any(unk for _, unk in r): return None
        self._s[k] = self.merge(r)
        return self._s[k]


def open_path(p): return any(u == '*' or u == 'T' or isinstance(u, tuple) and u[0] == 'a' for u in p.unk)


def has_v(a):
    return isinstance(a, tuple) and (a[:1] in (('v',), ('o',), ('k',), ('L',)) or any(has_v(x) for x in a)) or isinstance(a, tuple) and a[:1] in (('ld',), ('ssize',)) and len(a) == 3


def hits(q, wide, p):
    """a write at q (wide: of so many bytes) changes the value at p, or which place p is."""
    qb, qo = base_off(q)
    while True:
        pb, po = base_off(p)
        if pb == qb and (qo is None or po is None or po == qo or wide and qo <= po < qo + wide): return True
        if not isinstance(pb, tuple) or pb[0] != '*': return False
        p = pb[1]


def spans(l):
    """end - begin of the vectors a sum mentions."""
    ps = {a[1:]: x for a, x in l.t.items() if a[0] == 'ld' and isinstance(a[1], tuple)}
    if len(ps) < 2: return []
    return [Lin({('ld',) + q: 1, ('ld',) + p: -1}, 0) for p in ps for q in ps if ps[p] == -ps[q] and q[1:] == p[1:] and q[0] == add(p[0], 8)]
