"""Bit-level abstract interpretation: which input bit (or constant) each bit of a result is.

Domain of an integer: a vector of bits, each 0, 1, an input bit (name, k, negated) or unknown; or a sum of input bits with coefficients
(for population counts). Control flow is followed where the domain decides a branch; a branch on the emptiness of a vector of input bits is
split (its empty side fixes those bits), the number of splits being bounded. Nothing is executed on concrete inputs, and no solver is used:
two results are equal when their vectors are."""
from sa import *
from lockutil import params

T = 'T'


class Undecided(Exception): pass


def bconst(w, v): return tuple((v >> k) & 1 for k in range(w))
def binput(name, w): return tuple((name, k, 0) for k in range(w))
def cval(v):
    if isinstance(v, tuple) and all(b in (0, 1) and not isinstance(b, tuple) for b in v): return sum(b << k for k, b in enumerate(v))
    return None


def neg(b): return 1 - b if b in (0, 1) else T if b == T else (b[0], b[1], 1 - b[2])


def b_and(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == T or b == T: return T
    if a == b: return a
    if a == neg(b): return 0
    return T


def b_or(a, b): return neg(b_and(neg(a), neg(b)))


def b_xor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1: return neg(b)
    if b == 1: return neg(a)
    if a == T or b == T: return T
    if a == b: return 0
    if a == neg(b): return 1
    x = parity(a) ^ parity(b); n = a[2] ^ b[2]
    if not x: return n
    return next(iter(x)) + (n,) if len(x) == 1 else ('^', x, n)


def parity(b): return b[1] if b[0] == '^' else frozenset([b[:2]])


def subbit(b, ref):
    if not isinstance(b, tuple): return b
    if b[0] != '^': return ref[b[:2]] ^ b[2] if b[:2] in ref else b
    r = b[2]
    for q in b[1]: r = b_xor(r, ref[q] if q in ref else q + (0,))
    if ('^', b[1]) in ref: return ref[('^', b[1])] ^ b[2]
    return r


class Lin:
    """sum of coefficient * input bit + constant, modulo 2^w"""
    unk = 0     # bits that are not those of the sum (after an arithmetic shift of a sum whose sign is unknown)
    def __init__(self, w, c, t):
        self.w = w; self.c = c % (1 << w); self.t = {k: v % (1 << w) for k, v in t.items() if v % (1 << w)}
    def key(self): return (self.w, self.c, tuple(sorted(self.t.items(), key=repr)))
    def __eq__(self, o): return isinstance(o, Lin) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'sum(%d + %s)' % (self.c, ' + '.join('%d*%s' % (v, '%s[%d]' % k if k[0] != '^' else '(%s)' % ' ^ '.join('%s[%d]' % q for q in sorted(k[1]))) for k, v in sorted(self.t.items(), key=repr)[:4]) + (' ..' if len(self.t) > 4 else ''))


def lin(v):
    if isinstance(v, Lin): return None if v.unk else v
    if v is None: return None
    w = len(v); c = 0; t = {}
    for k, b in enumerate(v):
        if b == T: return None
        if b in (0, 1): c += b << k
        elif b[2]: c += 1 << k; t[b[:2]] = t.get(b[:2], 0) - (1 << k)
        else: t[b[:2]] = t.get(b[:2], 0) + (1 << k)
    return Lin(w, c, t)


def norm(L):
    """back to a vector when the sum has one term per bit position."""
    if L is None or L.unk: return L
    out = [0] * L.w; seen = 0
    for k in range(L.w):
        if L.c >> k & 1: out[k] = 1; seen |= 1 << k
    for b, c in L.t.items():
        if c & (c - 1) or seen & c: return L
        seen |= c; out[c.bit_length() - 1] = (b[0], b[1], 0)
    return tuple(out)


def fields(L, w):
    """the sum as w-bit fields that do not carry into one another: [(low bit, constant, terms)] or None. Negative terms are not fields."""
    n = L.w // w; fs = [[0, {}] for _ in range(n)]
    for b, c in L.t.items():
        for f in range(n):
            x = (c >> (f * w)) & ((1 << w) - 1)
            if x: fs[f][1][b] = x
    for k in range(n): fs[k][0] = (L.c >> (k * w)) & ((1 << w) - 1)
    for c, t in fs:
        if c + sum(t.values()) >= 1 << w: return None
    return fs


def add(a, b, sub=False):
    if a is None or b is None: return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        c = 1 if sub else 0; out = []
        for x, y in zip(a, b):
            if sub: y = neg(y)
            out.append(b_xor(b_xor(x, y), c))
            p, q, r = b_and(x, y), b_and(x, c), b_and(y, c)
            c = maj(x, y, c)
        if T not in out: return tuple(out)
        r = tuple(out)
    else: r = None
    x, y = lin(a), lin(b)
    if x is None or y is None: return r
    t = dict(x.t)
    for k, v in y.t.items(): t[k] = t.get(k, 0) + (-v if sub else v)
    return norm(Lin(x.w, x.c + (-y.c if sub else y.c), t))


def maj(x, y, c):
    if x == y: return x
    if x == c: return x
    if y == c: return y
    if x != T and y != T and x == neg(y): return c
    if x != T and c != T and x == neg(c): return y
    if y != T and c != T and y == neg(c): return x
    return T


def mask(L, m):
    """L & m for a sum: m has to take whole fields, or the low bits."""
    if L.unk & m: return None
    if m & (m + 1) == 0 and m.bit_length() <= L.w and not L.unk:
        k = m.bit_length(); r = norm(Lin(k, L.c, L.t)) if k else ()
        if isinstance(r, tuple): return r + (0,) * (L.w - k)
    for w in (1, 2, 4, 8, 16, 32):
        if w > L.w: break
        fs = fields(L, w)
        if fs is None: continue
        full = (1 << w) - 1; c = 0; t = {}; ok = True
        for k, (fc, ft) in enumerate(fs):
            mk = m >> (k * w) & full
            if mk == 0: continue
            top = fc + sum(ft.values())
            if mk & ((1 << top.bit_length()) - 1) != (1 << top.bit_length()) - 1: ok = False; break
            c |= fc << (k * w)
            for b, v in ft.items(): t[b] = t.get(b, 0) + (v << (k * w))
        if ok: return norm(Lin(L.w, c, t))
    return None


def shr(L, s):
    for w in (1, 2, 4, 8, 16, 32):
        if w > L.w or s % w: continue
        fs = fields(L, w)
        if fs is None: continue
        c = 0; t = {}
        for k, (fc, ft) in enumerate(fs):
            if k * w < s: continue
            c |= fc << (k * w - s)
            for b, v in ft.items(): t[b] = t.get(b, 0) + (v << (k * w - s))
        return norm(Lin(L.w, c, t))
    return None


class Bits:
    def __init__(self, m, budget=4000):
        self.m = m; self.budget = budget; self.fns = {f.n: f for f in m.defined(thunks=True)}

    # every path: (returned value, refinement {bit: value}, exact?) ; kind 'ret' or 'throw'
    def run(self, f, args, ref=None, depth=0, mem=None):
        if depth > 6: raise Undecided('too deep')
        out = []; work = [(0, None, {}, dict(ref or {}), True, dict(mem or {}))]
        while work:
            b, pred, env, ref, exact, mem = work.pop()
            res = self.block(f, b, pred, dict(env), dict(ref), exact, dict(mem), args, depth)
            for r in res:
                if r[0] == 'go': work.append(r[1:])
                else: out.append(r)
            if len(work) + len(out) > 400: raise Undecided('too many paths in ' + f.d)
        return out

    def sub(self, v, ref):
        """apply what a path learned about input bits."""
        if not ref or v is None: return v
        if isinstance(v, tuple) and v and v[0] == 'ptr': return v
        if isinstance(v, tuple): return tuple(subbit(b, ref) for b in v)
        if isinstance(v, Lin):
            c = v.c; t = {}
            if any(k[0] == '^' for k in v.t): return v
            for k, x in v.t.items():
                if k in ref: c += x * ref[k]
                else: t[k] = x
            return norm(Lin(v.w, c, t))
        return v

    def block(self, f, b, pred, env, ref, exact, mem, args, depth):
        start = 0
        if isinstance(b, tuple): b, start = b
        bb = f.bbs[b]
        phis = {i['i']: next((self.get(f, v, env, args, i['t']) for v, p in i['in'] if p == pred), None) for i in bb if i['o'] == 'phi'} if not start else {}
        env.update(phis)
        for idx in range(start, len(bb)):
            i = bb[idx]; o = i['o']
            self.budget -= 1
            if self.budget < 0: raise Undecided('budget')
            g = lambda v, t=None: self.sub(self.get(f, v, env, args, t), ref)
            if o == 'phi': continue
            if o == 'ret': return [('ret', g(i['a'][0], f.ret) if i['a'] else None, ref, exact, mem)]
            if o in ('unreachable', 'resume'): return []
            if o == 'br':
                if 'cond' not in i or i['s'][0] == i['s'][1]: return [('go', i['s'][0], b, env, ref, exact, mem)]
                c = g(i['cond'], 'i1')
                if c is None or c[0] == T:
                    if isinstance(i['cond'], int) and i['cond'] in env and isinstance(env.get(('z', i['cond'])), tuple):
                        lits, pos = env[('z', i['cond'])]       # the branch asks whether all of lits are 0
                        e = dict(ref)
                        for l in lits:
                            if l[:2] in e and e[l[:2]] != l[2]: e = None; break
                            e[l[:2]] = l[2]
                        r = [('go', i['s'][1 if pos else 0], b, env, ref, exact and False, mem)]
                        if e is not None: r.append(('go', i['s'][0 if pos else 1], b, env, e, exact, mem))
                        return r
                    raise Undecided('branch in ' + f.d)
                if c[0] in (0, 1): return [('go', i['s'][0 if c[0] else 1], b, env, ref, exact, mem)]
                l = c[0]
                return [('go', i['s'][0], b, env, dict(ref, **{}) | {l[:2]: 1 - l[2]}, exact, mem), ('go', i['s'][1], b, env, dict(ref) | {l[:2]: l[2]}, exact, mem)]
            if o == 'switch':
                c = g(i['cond'], i.get('ot') or i.get('ct')); k = cval(c) if c is not None else None
                if k is None: raise Undecided('switch in ' + f.d)
                w = len(c); k = k - (1 << w) if k >> (w - 1) else k
                return [('go', dict(zip(i['cases'], i['s'][1:])).get(k, i['s'][0]), b, env, ref, exact, mem)]
            if o in ('call', 'invoke'):
                r = self.call(f, i, [g(a, t) for a, t in zip(i['a'], i['pt'])], ref, depth, mem)
                if isinstance(r, list):
                    out = []
                    for k, v, e, ex, mm in r:
                        if k == 'throw': out.append((k, v, e, exact and ex, mm)); continue
                        ne = dict(env); ne[i['i']] = v
                        if o == 'invoke': out.append(('go', i['n'], b, ne, e, exact and ex, mm))
                        else: out.append(('go', (b, idx + 1), pred, ne, e, exact and ex, mm))
                    return out
                env[i['i']] = r
                if o == 'invoke': return [('go', i['n'], b, env, ref, exact, mem)]
                continue
            env[i['i']] = self.inst(f, i, g, env, mem)
        raise Undecided('no terminator')

    def get(self, f, v, env, args, t=None):
        if isinstance(v, int):
            if v < len(f.args): return args[v]
            return env.get(v)
        if v[0] == 'i' and t and t[0] == 'i': return bconst(int(t[1:]), v[1] & ((1 << int(t[1:])) - 1))
        if v[0] == 'g': return ('ptr', ('G', v[1]), v[2])
        if v[0] == 'u' and t and t[0] == 'i': return None
        return None

    def width(self, t): return int(t[1:]) if re.match(r'i\d+$', t) else None

    def inst(self, f, i, g, env, mem):
        o = i['o']; t = i['t']; w = self.width(t)
        if o == 'alloca': return ('ptr', ('L', f.n, i['i']), 0)
        if o == 'getelementptr':
            p = g(i['p'])
            if p is None or p[0] != 'ptr' or p[2] is None: return None
            off = p[2] + (i['off'] or 0)
            for v, s in i['var']:
                d = f.inst.get(v)
                x = g(v, d['t'] if d else next((a[1] for a in [f.args[v]] if isinstance(v, int) and v < len(f.args)), 'i64')); k = cval(x) if x is not None and not isinstance(x, Lin) else None
                if k is None: return None
                k = k - (1 << len(x)) if k >> (len(x) - 1) else k
                off += k * s
            return ('ptr', p[1], off)
        if o == 'load':
            p = g(i['p'])
            if p is None or p[0] != 'ptr' or w is None: return None if w is None else (T,) * w
            k = (p[1], p[2], i.get('sz'))
            if k in mem: return mem[k]
            if any(q[0] == p[1] and q[1] < p[2] + i['sz'] and q[1] + q[2] > p[2] for q in mem): return (T,) * w
            if p[1][0] == 'G':
                x = self.table(p[1][1], p[2], i['sz'])
                return bconst(w, x) if x is not None else (T,) * w
            if p[1][0] == 'A': return tuple(('%s+%d' % (p[1][1], p[2]), k, 0) for k in range(w))
            return (T,) * w
        if o == 'store':
            p = g(i['p'])
            if p is None or p[0] != 'ptr' or p[2] is None:
                mem.clear(); mem[('lost', 0, 0)] = None; raise Undecided('store in ' + f.d)
            for q in [q for q in mem if q[0] == p[1] and q[1] < p[2] + i['sz'] and q[1] + q[2] > p[2]]: del mem[q]
            mem[(p[1], p[2], i['sz'])] = g(i['val'], i['vt'])
            return None
        if w is None:
            return None
        ot = i.get('ot') or t
        if o in ('and', 'or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr', 'mul'):
            a, b = g(i['a'][0], t), g(i['a'][1], t)
            if a is None or b is None: return (T,) * w if o not in ('and', 'mul') else (T,) * w
            return self.arith(o, a, b, w)
        if o in ('zext', 'sext', 'trunc'):
            a = g(i['a'][0], ot)
            if a is None: return (T,) * w
            if isinstance(a, Lin) and a.unk: return (T,) * w
            if isinstance(a, Lin):
                if o == 'trunc': return norm(Lin(w, a.c, a.t))
                if o == 'zext' and a.c + sum(a.t.values()) < 1 << a.w: return Lin(w, a.c, a.t)
                if o == 'sext' and a.c + sum(a.t.values()) < 1 << (a.w - 1): return Lin(w, a.c, a.t)
                return (T,) * w
            if o == 'trunc': return a[:w]
            return a + ((0 if o == 'zext' else a[-1]),) * (w - len(a))
        if o == 'freeze': return g(i['a'][0], t)
        if o == 'select':
            c = g(i['a'][0], 'i1'); x, y = g(i['a'][1], t), g(i['a'][2], t)
            if c is None: return (T,) * w
            if c[0] in (0, 1): return x if c[0] else y
            if x == y: return x
            if isinstance(c[0], tuple) and isinstance(x, tuple) and isinstance(y, tuple):
                return tuple(p if p == q else c[0] if (p, q) == (1, 0) else neg(c[0]) if (p, q) == (0, 1) else b_and(c[0], p) if q == 0 else b_and(neg(c[0]), q) if p == 0 else T for p, q in zip(x, y))
            return (T,) * w
        if o == 'icmp': return self.icmp(i, g, env)
        if o in ('udiv', 'urem'):
            a, b = g(i['a'][0], t), g(i['a'][1], t); k = cval(b) if isinstance(b, tuple) else None
            if k and k & (k - 1) == 0 and a is not None:
                s = k.bit_length() - 1
                return self.arith('lshr', a, bconst(w, s), w) if o == 'udiv' else self.arith('and', a, bconst(w, k - 1), w)
            if k and isinstance(a, tuple) and cval(a) is not None: return bconst(w, cval(a) // k if o == 'udiv' else cval(a) % k)
            return (T,) * w
        if o in ('sdiv', 'srem'):
            a, b = g(i['a'][0], t), g(i['a'][1], t); k = cval(b) if isinstance(b, tuple) else None
            if k and isinstance(a, tuple) and a[-1] == 0 and k >> (w - 1) == 0:
                if k & (k - 1) == 0: return self.arith('lshr', a, bconst(w, k.bit_length() - 1), w) if o == 'sdiv' else self.arith('and', a, bconst(w, k - 1), w)
                if cval(a) is not None: return bconst(w, cval(a) // k if o == 'sdiv' else cval(a) % k)
            return (T,) * w
        return (T,) * w

    def arith(self, o, a, b, w):
        if o in ('and', 'or', 'xor') and isinstance(a, tuple) and isinstance(b, tuple):
            return tuple({'and': b_and, 'or': b_or, 'xor': b_xor}[o](x, y) for x, y in zip(a, b))
        if o == 'add': return add(a, b) or (T,) * w
        if o == 'sub': return add(a, b, True) or (T,) * w
        if o == 'and':
            if isinstance(b, tuple) and isinstance(a, Lin): a, b = b, a
            k = cval(a) if isinstance(a, tuple) else None
            return (mask(b, k) if k is not None and isinstance(b, Lin) else None) or (T,) * w
        if o == 'mul':
            if isinstance(a, tuple) and cval(a) is not None: a, b = b, a
            k = cval(b) if isinstance(b, tuple) else None; x = lin(a)
            if k is None or x is None: return (T,) * w
            return norm(Lin(w, x.c * k, {q: v * k for q, v in x.t.items()}))
        if o in ('shl', 'lshr', 'ashr'):
            k = cval(b) if isinstance(b, tuple) else None
            if k is None: return (T,) * w
            if k >= w: raise Undecided('shift')
            if isinstance(a, Lin) and a.unk: return (T,) * w
            if isinstance(a, Lin):
                if o == 'shl': return norm(Lin(w, a.c << k, {q: v << k for q, v in a.t.items()}))
                r = shr(a, k)
                if o == 'ashr' and a.c + sum(a.t.values()) >= 1 << (w - 1) and r is not None:
                    if isinstance(r, tuple): return r[:w - k] + (T,) * k
                    r.unk = ((1 << k) - 1) << (w - k)
                return r or (T,) * w
            if o == 'shl': return (0,) * k + a[:w - k]
            return a[k:] + ((0 if o == 'lshr' else a[-1]),) * k
        return (T,) * w

    def icmp(self, i, g, env):
        a, b = g(i['a'][0], i['ot']), g(i['a'][1], i['ot']); pr = i['pr']
        if a is None or b is None or not isinstance(a, tuple) or not isinstance(b, tuple) or (a and a[0] == 'ptr') or (b and b[0] == 'ptr'): return (T,)
        if pr in ('eq', 'ne'):
            r = None
            d = [b_xor(x, y) for x, y in zip(a, b)]
            if 1 in d: r = 0
            elif all(x == 0 for x in d): r = 1
            else:
                un = [x for x in d if x != 0]
                if len(un) == 1 and isinstance(un[0], tuple): return (neg(un[0]) if pr == 'eq' else un[0],)
                if T not in un: env[('z', i['i'])] = (tuple(un), pr == 'eq')
                return (T,)
            return (r if pr == 'eq' else 1 - r,)
        s = pr[0] == 's'; x, y = list(a), list(b)
        if s: x[-1], y[-1] = neg(x[-1]), neg(y[-1])
        if pr[1:] in ('gt', 'le'): x, y, inv = y, x, pr[1:] == 'le'
        else: inv = pr[1:] == 'ge'
        r = 0       # x < y ?
        for p, q in zip(reversed(x), reversed(y)):
            if p == q and p != T: continue
            if p == 0 and q == 1: r = 1; break
            if p == 1 and q == 0: r = 0; break
            if isinstance(p, tuple) or isinstance(q, tuple):
                # decided by one bit when everything below is settled: the sign test
                if p in (0, 1) or q in (0, 1):
                    lo = self.below(x, y, p, q)
                    if lo is not None: r = lo; break
            return (T,)
        if isinstance(r, tuple): return (neg(r) if inv else r,)
        return (1 - r if inv else r,)

    def below(self, x, y, p, q):
        """x < y where the highest differing bits are p, q (one of them constant): a literal when the lower bits cannot matter."""
        k = max(j for j, (a, b) in enumerate(zip(x, y)) if not (a == b and a != T))
        lowx, lowy = x[:k], y[:k]
        # p literal, q constant 1: if p is 0 then x<y; if p is 1 the lower bits decide: never less when y's lower bits are all 0
        if q == 1 and isinstance(p, tuple) and all(b == 0 for b in lowy): return neg(p)
        # p literal, q constant 0: p=1 -> not less; p=0 -> lower bits decide: never less when y's lower bits are 0
        if q == 0 and isinstance(p, tuple) and all(b == 0 for b in lowy): return 0
        # p constant 1: q=1 -> lower decide, q=0 -> no ; never less when x's lower bits are all 1
        if p == 1 and isinstance(q, tuple) and all(b == 1 for b in lowx): return 0
        if p == 0 and isinstance(q, tuple) and all(b == 1 for b in lowx): return q
        return None

    def table(self, g, off, sz):
        init = (self.m.globals.get(g) or {}).get('init')
        if not (self.m.globals.get(g) or {}).get('const'): return None
        if isinstance(init, list) and init and init[0] == 's' and sz == 1 and 0 <= off < len(init[1]): return ord(init[1][off]) & 255
        if isinstance(init, list) and init and init[0] == 'i' and off == 0: return init[1]
        return None

    def call(self, f, i, a, ref, depth, mem):
        n = callee(i); t = i['t']; w = self.width(t)
        if not n: raise Undecided('indirect call')
        if n.startswith('llvm.'):
            if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')): return None
            if n.startswith('llvm.bswap') and isinstance(a[0], tuple): return sum((tuple(a[0][k:k + 8]) for k in range(w - 8, -1, -8)), ())
            if n.startswith('llvm.bitreverse') and isinstance(a[0], tuple): return tuple(reversed(a[0]))
            if n.startswith(('llvm.fshl', 'llvm.fshr')) and isinstance(a[0], tuple) and isinstance(a[1], tuple):
                k = cval(a[2])
                if k is None: return (T,) * w
                k %= w; cat = a[1] + a[0]
                return cat[w - k:2 * w - k] if 'fshl' in n else cat[k:k + w]
            if n.startswith('llvm.ctpop') and isinstance(a[0], tuple):
                t_ = {}; c = 0
                for b in a[0]:
                    if b == T: return (T,) * w
                    if b in (0, 1): c += b
                    elif b[2]: c += 1; t_[b[:2]] = t_.get(b[:2], 0) - 1
                    else: t_[b[:2]] = t_.get(b[:2], 0) + 1
                return norm(Lin(w, c, t_))
            if n.startswith(('llvm.ctlz', 'llvm.cttz')) and isinstance(a[0], tuple):
                bits = list(reversed(a[0])) if 'ctlz' in n else list(a[0])
                for k, b in enumerate(bits):
                    if b == 1: return bconst(w, k)
                    if b != 0: return (T,) * w
                return bconst(w, len(bits))
            if n.startswith('llvm.abs') and isinstance(a[0], tuple):
                if a[0][-1] == 0: return a[0]
                if a[0][-1] == 1: return add(bconst(w, 0), a[0], True) or (T,) * w
                return (T,) * w
            if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')): return (T,) * w
            raise Undecided(n)
        if n == '__cxa_throw': return [('throw', None, ref, True, mem)]
        if n == '__cxa_allocate_exception': return ('ptr', ('X', i['i']), 0)
        k = self.m.alias.get(n, n)
        if k in self.fns:
            return [(x[0], x[1], x[2], x[3], x[4]) for x in self.run(self.fns[k], a, ref, depth + 1, mem)]
        raise Undecided('calls ' + (self.m.dem.get(n, n) or n))
