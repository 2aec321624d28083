"""Can an instruction be reached when given inputs have given values?  Constant-conditioned reachability over the CFG, through
helpers and getters: branches whose condition the assumed values decide are pruned, conditions that mention an assumed value in a way
not understood make the answer 'maybe'."""
from effects import *


class Reach:
    def __init__(self, m, E=None):
        self.m = m; self.E = E; self._g = {}; self._p = {}

    def P(self, f):
        if f.n not in self._p: self._p[f.n] = Paths(f)
        return self._p[f.n]

    def vcall(self, f, i):
        """target of a call; virtual ones resolved by the declared class of the receiver (argument of f)."""
        n = callee(i)
        if n: return self.m.alias.get(n, n)
        v = i.get('f')
        d = f.inst.get(v) if isinstance(v, int) else None
        if not d or d['o'] != 'load': return None
        ps = self.P(f).of(d['p'])
        if len(ps) != 1: return None
        b, off = base_off(next(iter(ps)))
        if b[0] != '*' or off is None: return None
        o = b[1]
        if o[0] != 'A': return None
        pl = [p for p in params(f.d) if p != 'void']; k0 = len(f.args) - len(pl)
        if o[1] >= k0: c = re.sub(r'( const)?\s*[&*]+$', '', pl[o[1] - k0])
        else:
            c = f.d[:f.d.rfind('(')] if '(' in f.d else f.d
            c = re.sub(r'::[^:]*$', '', re.sub(r'\(.*', '', f.d))
        mg = 'N' + ''.join('%d%s' % (len(x), x) for x in c.split('::')) + 'E'
        vt = self.m.vtable(mg)
        ti = [x for x, n in enumerate(vt) if n and n.startswith('_ZTI')]
        k = (ti[0] + 1 if ti else 2) + off // 8
        t = vt[k] if 0 <= k < len(vt) else None
        return self.m.alias.get(t, t) if t else None

    def getter(self, n):
        """path (over argument 0) a trivial getter returns, or None."""
        if n in self._g: return self._g[n]
        self._g[n] = None
        f = self.m.fn(n)
        if f and f.has and len(f.bbs) == 1 and not any(i['o'] in ('store', 'call', 'invoke') and not (callee(i) or '').startswith('llvm.') for i in f.bbs[0]):
            t = f.bbs[0][-1]
            if t['o'] == 'ret' and t.get('a'):
                k = self.key(f, t['a'][0])
                if k is not None and root(k) == ('A', 0): self._g[n] = k
        return self._g[n]

    def passthru(self, n):
        """'id' / 'sext' / 'zext' when a function returns its (scalar) argument 0, widened."""
        if ('pt', n) in self._g: return self._g[('pt', n)]
        self._g[('pt', n)] = None
        f = self.m.fn(n)
        if f and f.has and len(f.bbs) == 1 and len(f.args) == 1 and f.args[0][1] != 'ptr':
            t = f.bbs[0][-1]; v = t['a'][0] if t['o'] == 'ret' and t.get('a') else None; kind = 'id'
            while isinstance(v, int) and v in f.inst and f.inst[v]['o'] in ('sext', 'zext'): kind = f.inst[v]['o'] if kind != 'zext' else kind; v = f.inst[v]['a'][0]
            if v == 0: self._g[('pt', n)] = kind
            elif isinstance(v, int) and v in f.inst and f.inst[v]['o'] == 'and':      # sext then mask = zext
                x, mk = f.inst[v]['a']
                if isinstance(mk, list) and mk[0] == 'i' and f.args[0][1][1:].isdigit() and mk[1] == (1 << int(f.args[0][1][1:])) - 1:
                    if isinstance(x, int) and x in f.inst and f.inst[x]['o'] in ('sext', 'zext') and f.inst[x]['a'][0] == 0: self._g[('pt', n)] = 'zext'
        return self._g[('pt', n)]

    def key(self, f, v):
        """canonical name of an input value: an argument, a load from an argument, or a getter's result."""
        while isinstance(v, int) and v in f.inst and f.inst[v]['o'] in ('sext', 'zext', 'trunc', 'freeze'): v = f.inst[v]['a'][0]
        if not isinstance(v, int): return None
        i = f.inst.get(v)
        if i is None: return ('A', v)
        if i['o'] == 'load':
            ps = self.P(f).of(v)
            if len(ps) == 1:
                p = next(iter(ps))
                return p if root(p)[0] in ('A', 'G') else ('L', v) if False else p
            return None
        if i['o'] in ('call', 'invoke'):
            n = self.vcall(f, i)
            if n and self.passthru(n): return self.key(f, i['a'][0])
            g = self.getter(n) if n else None
            if g is not None and i['a']:
                ps = self.P(f).of(i['a'][0])
                if len(ps) == 1: return subst(g, 0, next(iter(ps)))
            return ('V', v)
        return None

    # ---- evaluation under an assumption {key: int}
    def ev(self, f, v, env, phis=None, depth=0, busy=()):
        """-> (value or None, mentions)"""
        if isinstance(v, list): return (v[1] if v[0] == 'i' else None), False
        k = self.key(f, v)
        if k in env:
            x = env[k]
            if x is None: return None, True
            w = f.inst[v]['t'] if v in f.inst else f.args[v][1]
            if w and w[0] == 'i' and w[1:].isdigit() and int(w[1:]) > 1:
                if v in f.inst and f.inst[v]['o'] == 'zext': x &= (1 << int(f.inst[v]['ot'][1:])) - 1
                if v in f.inst and f.inst[v]['o'] in ('call', 'invoke'):
                    q = self.vcall(f, f.inst[v])
                    if q and self.passthru(q) == 'zext': x &= (1 << int(self.m.fn(q).args[0][1][1:])) - 1
                n = int(w[1:]); x &= (1 << n) - 1
                if x >> (n - 1): x -= 1 << n
            return x, True
        i = f.inst.get(v)
        if i is None or depth > 30: return None, False
        o = i['o']; a = i.get('a') or []
        if o == 'phi':
            if v in busy: return None, False
            r = [self.ev(f, x, env, phis, depth + 1, busy + (v,)) for x, p in i['in'] if phis is None or (p, f.blk[v]) in phis]
            vs = set(x for x, _ in r); me = any(y for _, y in r)
            return (vs.pop(), me) if len(vs) == 1 else (None, me)
        if o == 'select':
            c, cm = self.ev(f, a[0], env, phis, depth + 1, busy)
            if c is not None:
                x, xm = self.ev(f, a[1] if c & 1 else a[2], env, phis, depth + 1, busy); return x, xm or cm
            x, xm = self.ev(f, a[1], env, phis, depth + 1, busy); y, ym = self.ev(f, a[2], env, phis, depth + 1, busy)
            return (x if x is not None and x == y else None), cm or xm or ym
        if o in ('load', 'alloca', 'getelementptr', 'landingpad'): return None, False
        if o in ('call', 'invoke'):
            me = any(self.touches(f, x, env) for x in a)
            if me and o == 'call' and i['t'].startswith('i'):
                n = self.vcall(f, i); g = self.m.fn(n) if n else None
                if g and g.has and g.src.startswith(LIB) and depth < 4:
                    vals = self.returns(g, self.down(f, i, env), depth + 1)
                    if vals is not None and len(vals) == 1: return vals.pop(), True
            return None, me
        r = [self.ev(f, x, env, phis, depth + 1, busy) for x in a]
        me = any(y for _, y in r); xs = [x for x, _ in r]
        t = i['t']; ot = i.get('ot') or t
        if o in ('and', 'or', 'mul') and any(x is not None for x in xs) and None in xs:
            k = next(x for x in xs if x is not None)
            if o == 'and' and k == 0 or o == 'mul' and k == 0: return 0, me
            if o == 'or' and t == 'i1' and k & 1: return 1, me
            return None, me
        if None in xs or not xs: return None, me
        w = int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else 0
        def wrap(x, n):
            if n == 1: return x & 1
            x &= (1 << n) - 1
            return x - (1 << n) if x >> (n - 1) else x
        if o == 'icmp':
            n = int(ot[1:]) if ot[0] == 'i' else 64
            x, y = xs; p = i['pr']
            if p[0] == 'u': x &= (1 << n) - 1; y &= (1 << n) - 1
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]]), me
        if not w: return None, me
        if o == 'sext': return (-(xs[0] & 1) if ot == 'i1' else xs[0]), me
        if o == 'zext': return xs[0] & ((1 << int(ot[1:])) - 1), me
        if o in ('trunc', 'freeze'): return wrap(xs[0], w), me
        if o == 'add': return wrap(xs[0] + xs[1], w), me
        if o == 'sub': return wrap(xs[0] - xs[1], w), me
        if o == 'mul': return wrap(xs[0] * xs[1], w), me
        if o == 'and': return xs[0] & xs[1], me
        if o == 'or': return xs[0] | xs[1], me
        if o == 'xor': return wrap(xs[0] ^ xs[1], w), me
        return None, me

    def touches(self, f, v, env):
        """an operand that is, points at, or is computed from an assumed input."""
        if not isinstance(v, int): return False
        k = self.key(f, v)
        if k in env: return True
        for p in self.P(f).of(v):
            for e in env:
                if root(e) == ('A', root(p)[1]) if root(p)[0] == 'A' else False:
                    if e[0] != 'A' and base_in(e, p): return True
        i = f.inst.get(v)
        if i is not None and i['o'] not in ('load', 'phi', 'call', 'invoke', 'alloca', 'getelementptr'):
            return any(self.touches(f, x, env) for x in operands(i))
        return False

    def down(self, f, i, env):
        """the assumption in terms of a callee's arguments."""
        out = {}
        for j, x in enumerate(i['a']):
            val, _ = self.ev(f, x, env) if i['pt'][j] != 'ptr' else (None, 0)
            if val is not None: out[('A', j)] = val
            if i['pt'][j] == 'ptr':
                for p in self.P(f).of(x):
                    for e, c in env.items():
                        s = rebase(e, p, ('A', j))
                        if s is not None: out[s] = c
        return out

    def edges(self, f, env):
        """feasible edges and the subset needing a guess about an assumed value: {(b, s): certain}"""
        return None

    def explore(self, f, env, depth=0):
        """-> {block: certain?} reachable under env; certain = without passing an undecided condition or helper that mentions env."""
        st = {0: True}; work = [0]; feas = set()
        for _ in range(2):          # second round: phi values with the feasible edges of the first
            cur = {0: True}; work = [0]; nf = set()
            while work:
                b = work.pop(); c = cur[b]
                t = f.bbs[b][-1]; stop = False
                for i in f.bbs[b]:
                    if i['o'] in ('call', 'invoke') and not (callee(i) or '').startswith('llvm.'):
                        r = self.callret(f, i, env, depth)
                        if r == 'never' : stop = i; break
                        if r == 'maybe': c = False
                succ = []
                if stop is not False:
                    if stop['o'] == 'invoke': succ = [(stop['u'], c)]
                elif t['o'] == 'br' and 'cond' in t:
                    v, me = self.ev(f, t['cond'], env, feas or None)
                    if v is not None: succ = [(t['s'][0 if v & 1 else 1], c)]
                    else: succ = [(s, c and not me) for s in t['s']]
                elif t['o'] == 'switch':
                    v, me = self.ev(f, t['cond'], env, feas or None)
                    if v is not None: succ = [(dict(zip(t['cases'], t['s'][1:])).get(v, t['s'][0]), c)]
                    else: succ = [(s, c and not me) for s in t['s']]
                else: succ = [(s, c) for s in f.succ[b]]
                for s, k in succ:
                    nf.add((b, s))
                    if s not in cur or k and not cur[s]: cur[s] = k; work.append(s)
            feas = nf; st = cur
        return st, feas

    def callret(self, f, i, env, depth):
        """does the call come back normally under env: 'yes' | 'maybe' | 'never'"""
        n = self.vcall(f, i)
        if n in ('__cxa_throw', '__cxa_rethrow', 'abort', 'exit', '_ZSt9terminatev', '__cxa_bad_cast'): return 'never'
        g = self.m.fn(n) if n else None
        if g is None or not g.has: return 'yes'
        if n and (self.getter(n) is not None or self.passthru(n)): return 'yes'
        if not any(self.touches(f, x, env) for x in i['a']): return 'yes'
        e = self.down(f, i, env)
        if not e: return 'yes'
        if depth > 4: return 'maybe'
        st, _ = self.explore(g, e, depth + 1)
        rets = [b for b in st if g.bbs[b][-1]['o'] == 'ret']
        if not rets: return 'never'
        return 'yes' if any(st[b] for b in rets) else 'maybe'

    def returns(self, g, env, depth):
        if depth > 4: return None
        st, feas = self.explore(g, env, depth + 1)
        out = set()
        for b in st:
            t = g.bbs[b][-1]
            if t['o'] == 'ret' and t.get('a'):
                v, _ = self.ev(g, t['a'][0], env, feas)
                if v is None: return None
                out.add(v)
        return out


def base_in(e, p):
    """e (a path) goes through p."""
    while True:
        if e == p: return True
        if e[0] in ('+', '?', '*'):
            if e[0] == '+' and p[0] == '+' and e[1] == p[1]: return True
            e = e[1]
        else: return False


def rebase(e, p, q):
    """e with its prefix p replaced by q, or None."""
    if e == p: return q
    if e[0] == '*':
        r = rebase(e[1], p, q); return None if r is None else ('*', r)
    if e[0] == '+':
        r = rebase(e[1], p, q)
        if r is not None: return add(r, e[2])
        if p[0] == '+' and p[1] == e[1]: return add(q, e[2] - p[2])
        return None
    if e[0] == '?':
        r = rebase(e[1], p, q); return None if r is None else anyoff(r)
    return None
