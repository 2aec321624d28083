"""Access paths over SSA values: what memory an instruction touches, named by how it is reached.

path :=  ('A',k)            k-th argument            ('L',id)   local object (alloca)
      |  ('G',name)         global                   ('V',id)   opaque value (call result, phi that is no pointer walk ...)
      |  ('K',n)            constant                 ('N',)     null
      |  ('+',path,off)     constant byte offset     ('?',path) unknown offset inside what path points to
      |  ('*',path)         the value loaded from path
A value has a small set of paths (phi / select alternatives); loop-carried pointers widen to ('?',base)."""
from sa import *

LIMIT = 12


def add(p, off):
    if off == 0: return p
    if p[0] == '+': return add(p[1], p[2] + off) if p[2] + off else p[1]
    if p[0] == '?': return p
    return ('+', p, off)


def anyoff(p):
    if p[0] == '+': return ('?', p[1])
    if p[0] == '?': return p
    return ('?', p)


def root(p):
    while p[0] in ('+', '?', '*'): p = p[1]
    return p


def base_off(p):
    """(pointer base, byte offset or None) of an address."""
    if p[0] == '+': return p[1], p[2]
    if p[0] == '?': return p[1], None
    return p, 0


class Paths:
    def __init__(self, fn, opaque_loads=False):
        self.fn = fn; self.memo = {}; self.busy = set()

    def of(self, v):
        if isinstance(v, list):
            t = v[0]
            if t == 'g': return frozenset([add(('G', v[1]), v[2])])
            if t == 'n': return frozenset([('N',)])
            if t == 'i': return frozenset([('K', v[1])])
            return frozenset([('U',)])
        if v in self.memo: return self.memo[v]
        if v in self.busy: return frozenset()
        i = self.fn.inst.get(v)
        if i is None: return frozenset([('A', v)])
        self.busy.add(v)
        r = self._of(v, i)
        self.busy.discard(v)
        if len(r) > LIMIT: r = frozenset([('V', v)])
        if not r: r = frozenset([('V', v)])
        if not self.busy: self.memo[v] = r
        return r

    def _of(self, v, i):
        o = i['o']
        if o == 'alloca': return frozenset([('L', v)])
        if o == 'getelementptr':
            if i['var']: return frozenset(anyoff(p) for p in self.of(i['p']))
            return frozenset(add(p, i['off']) for p in self.of(i['p']))
        if o == 'load': return frozenset(('*', p) for p in self.of(i['p']))
        if o == 'phi':
            r = set()
            for x, _ in i['in']:
                if x == v: continue
                r |= self.of(x)
            # pointer walks: p = phi(base, p+1): the recursive operand contributes base? -> widen
            if self._cyc(v, i):
                r = {anyoff(p) if p[0] not in ('K', 'N', 'U') else p for p in r if p != ('V', v)}
            return frozenset(r)
        if o == 'select':
            return self.of(i['a'][1]) | self.of(i['a'][2])
        if o in ('bitcast', 'freeze', 'addrspacecast'): return self.of(i['a'][0])
        return frozenset([('V', v)])

    def _cyc(self, v, i):
        seen = set(); st = [x for x, _ in i['in'] if isinstance(x, int)]
        while st:
            x = st.pop()
            if x == v: return True
            if x in seen: continue
            seen.add(x)
            d = self.fn.inst.get(x)
            if not d: continue
            if d['o'] == 'getelementptr': st.append(d['p'])
            elif d['o'] == 'phi': st += [y for y, _ in d['in']]
            elif d['o'] == 'select': st += d['a'][1:]
            st = [y for y in st if isinstance(y, int)]
        return False


# effect of well-known external functions on pointer arguments: (reads, writes) argument indexes
EXT = {
    'memcpy': ([1], [0]), 'memmove': ([1], [0]), 'llvm.memcpy': ([1], [0]), 'llvm.memmove': ([1], [0]), 'llvm.memset': ([], [0]),
    'memset': ([], [0]), 'strcpy': ([1], [0]), 'strncpy': ([1], [0]), 'strcat': ([0, 1], [0]), 'strlen': ([0], []), 'strcmp': ([0, 1], []),
    'strncmp': ([0, 1], []), 'strcasecmp': ([0, 1], []), 'memcmp': ([0, 1], []), 'bcmp': ([0, 1], []), 'strchr': ([0], []), 'strrchr': ([0], []), 'strstr': ([0, 1], []), 'strdup': ([0], []),
    'free': ([], [0]), 'realloc': ([0], [0]), 'atoi': ([0], []), 'atol': ([0], []), 'strtol': ([0], [1]), 'strtod': ([0], [1]), 'strtof': ([0], [1]),
    '_ZdlPv': ([], [0]), '_ZdlPvm': ([], [0]), '_ZdaPv': ([], [0]), '_ZdaPvm': ([], [0]),
}


def ext_name(n):
    if n is None: return None
    if n.startswith('llvm.'):
        return '.'.join(n.split('.')[:2])
    return n


def accesses(fn, P):
    """(inst, kind r/w/x, address path) for every memory access; 'x' = pointer handed to a call whose effect is unknown."""
    for b in fn.bbs:
        for i in b:
            yield from inst_accesses(i, P)


def inst_accesses(i, P):
    o = i['o']
    if o == 'load':
        for p in P.of(i['p']): yield i, 'r', p
    elif o == 'store':
        for p in P.of(i['p']): yield i, 'w', p
    elif o in ('atomicrmw', 'cmpxchg'):
        for p in P.of(i['p']): yield i, 'w', p
    elif o in ('call', 'invoke'):
        n = ext_name(callee(i))
        if n and n.startswith('llvm.') and n not in EXT: return
        if n in EXT:
            rd, wr = EXT[n]
            for k in rd:
                if k < len(i['a']):
                    for p in P.of(i['a'][k]): yield i, 'r', p
            for k in wr:
                if k < len(i['a']):
                    for p in P.of(i['a'][k]): yield i, 'w', p
            return
        for k, a in enumerate(i['a']):
            if i['pt'][k] == 'ptr':
                for p in P.of(a): yield i, 'x', p


def fmt(p):
    t = p[0]
    if t == 'A': return 'arg%d' % p[1]
    if t == 'L': return 'local%d' % p[1]
    if t == 'G': return p[1]
    if t == 'V': return 'v%d' % p[1]
    if t == 'K': return str(p[1])
    if t == 'N': return 'null'
    if t == '+': return '%s+%d' % (fmt(p[1]), p[2])
    if t == '?': return '%s[?]' % fmt(p[1])
    if t == '*': return '*(%s)' % fmt(p[1])
    return '?'


class ConstEnv:
    """Path sensitivity for the flags compilers and programmers leave behind: constants flowing through phis into branches,
    switches and returned values are tracked along each explored path."""

    def __init__(self, fn, extra=(), track=()):
        self.fn = fn
        # values that feed a terminator condition or a return through phi/select/icmp/xor/and/or/zext/trunc
        want = set(); st = []
        for b in fn.bbs:
            t = b[-1]
            if 'cond' in t and isinstance(t['cond'], int): st.append(t['cond'])
            if t['o'] == 'ret' and t.get('a') and isinstance(t['a'][0], int): st.append(t['a'][0])
        self.track = track
        for t in track: st += [o for o in operands(t) if isinstance(o, int)]
        while st:
            v = st.pop()
            if v in want: continue
            i = fn.inst.get(v)
            if i is None: continue
            if i['o'] in ('phi', 'select', 'icmp', 'xor', 'and', 'or', 'zext', 'trunc', 'freeze', 'sext'):
                want.add(v)
                st += [o for o in operands(i) if isinstance(o, int)]
        want |= set(extra)
        self.want = want
        self.phis = {}
        for v in want:
            i = fn.inst[v]
            if i['o'] == 'phi' and i['t'] in ('i1', 'i8', 'i32', 'i64', 'ptr') : self.phis.setdefault(fn.blk[v], []).append(i)
        # blocks from which a phi's value can still matter: cheap liveness = reachability of a use
        self.live = {}

    def val(self, v, env, depth=0):
        if isinstance(v, list): return v[1] if v[0] == 'i' else (0 if v[0] == 'n' else None)
        if v in env: return env[v]
        if v not in self.want or depth > 12: return None
        i = self.fn.inst[v]; o = i['o']
        if o in ('phi', 'call', 'invoke'): return None
        a = i.get('a') or []
        if o == 'select':
            c = self.val(a[0], env, depth + 1)
            if c is None:
                x, y = self.val(a[1], env, depth + 1), self.val(a[2], env, depth + 1)
                return x if x is not None and x == y else None
            return self.val(a[1] if c & 1 else a[2], env, depth + 1)
        xs = [self.val(x, env, depth + 1) for x in a]
        if o in ('and',):
            if i['t'] == 'i1' and (xs[0] == 0 or xs[1] == 0): return 0
        if o == 'or' and i['t'] == 'i1' and any(x is not None and x & 1 for x in xs): return 1
        if any(x is None for x in xs): return None
        if o == 'icmp':
            x, y = xs; p = i['pr']
            if p[0] == 'u' and (x < 0 or y < 0): return None
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])
        if o == 'xor': return (xs[0] ^ xs[1]) & 1 if i['t'] == 'i1' else xs[0] ^ xs[1]
        if o == 'and': return xs[0] & xs[1]
        if o == 'or': return xs[0] | xs[1]
        if o == 'zext': return xs[0] & 1 if i.get('ot') == 'i1' else xs[0]
        if o in ('trunc',): return xs[0] & 1 if i['t'] == 'i1' else xs[0]
        if o == 'sext': return -(xs[0] & 1) if i.get('ot') == 'i1' else xs[0]
        return xs[0]

    def succs(self, b, env):
        """feasible (successor, env) pairs; env is a tuple of (phi id, const or assumed condition)."""
        e = dict(env); t = self.fn.bbs[b][-1]
        tg = list(dict.fromkeys(self.fn.succ[b])); out = []
        assume = None
        if t['o'] == 'br' and 'cond' in t and t['s'][0] != t['s'][1]:
            c = self.val(t['cond'], e)
            if c is not None: tg = [t['s'][0] if c & 1 else t['s'][1]]
        elif t['o'] == 'switch':
            c = self.val(t['cond'], e)
            if c is not None: tg = [dict(zip(t['cases'], t['s'][1:])).get(c, t['s'][0])]
        for s in tg:
            ne = dict(e)
            new = {}
            for ph in self.phis.get(s, ()):
                v = next((x for x, p in ph['in'] if p == b), None)
                new[ph['i']] = self.val(v, e) if v is not None else None
            # a branch on a tracked phi itself fixes its value
            if t['o'] == 'br' and 'cond' in t and isinstance(t['cond'], int) and t['s'][0] != t['s'][1]:
                self.learn(t['cond'], s == t['s'][0], ne)
            for k in [k for k in ne if self.fn.blk.get(k) == s]: del ne[k]      # computed anew
            for k, x in new.items():
                if x is not None: ne[k] = x
            lv = self.livein(s)
            out.append((s, tuple(sorted((k, x) for k, x in ne.items() if k in lv))))
        return out

    def learn(self, v, truth, ne):
        i = self.fn.inst.get(v)
        if i is None: return
        if i['t'] == 'i1': ne[v] = 1 if truth else 0
        if i['o'] == 'icmp' and i['pr'] in ('eq', 'ne') and isinstance(i['a'][1], list) and i['a'][1][0] == 'i' and isinstance(i['a'][0], int):
            if (i['pr'] == 'eq') == truth and i['a'][0] in self.want: ne[i['a'][0]] = i['a'][1][1]
        if i['o'] == 'xor' and i['a'][1] in (['i', -1], ['i', 1]) and isinstance(i['a'][0], int): self.learn(i['a'][0], not truth, ne)

    def livein(self, b):
        """tracked values whose use is reachable from block b without recomputing them."""
        if not self.live:
            uses = {}
            n = len(self.fn.bbs); L = [set() for _ in range(n)]
            # closure: value -> values it is computed from on demand
            def expand(v, acc):
                i = self.fn.inst.get(v)
                if v in acc or i is None or v not in self.want: return
                acc.add(v)
                if i['o'] != 'phi':
                    for o in operands(i):
                        if isinstance(o, int): expand(o, acc)
            use = [set() for _ in range(n)]
            for t in self.track:
                for o in operands(t):
                    if isinstance(o, int): expand(o, use[self.fn.blk[t['i']]])
            for k, bb in enumerate(self.fn.bbs):
                t = bb[-1]
                for o in operands(t):
                    if isinstance(o, int): expand(o, use[k])
                for ph in self.phis.get(k, ()):
                    for x, p in ph['in']:
                        if isinstance(x, int): expand(x, use[p])
            ch = True
            while ch:
                ch = False
                for k in range(n - 1, -1, -1):
                    s = set(use[k])
                    for x in self.fn.succ[k]:
                        s |= L[x] - set(ph['i'] for ph in self.phis.get(x, ()) if False)
                    if s != L[k]: L[k] = s; ch = True
            self.live = dict(enumerate(L))
        return self.live[b]


def explore(fn, init, step, splits=None, limit=20000, track=()):
    """Path-sensitive exploration of (block, user state, constants). step(inst, state, env, ce) -> list of successor states, or for
    an invoke a pair (normal, unwind). splits: {inst id: constants}: the result of that call is enumerated, step being called once
    per constant with env[id] fixed."""
    splits = splits or {}
    ce = ConstEnv(fn, splits, track)
    seen = set(); work = [(0, init, ())]; seen.add(work[0])
    while work:
        b, st, env0 = work.pop()
        if len(seen) > limit: raise Broken('state limit in ' + fn.d)
        states = [(st, env0)]; unw = []
        for i in fn.bbs[b]:
            nxt = []
            for s, env in states:
                envs = [env]
                if i['i'] in splits: envs = [env + ((i['i'], c),) for c in splits[i['i']]]
                for e in envs:
                    r = step(i, s, e, ce)
                    if i['o'] == 'invoke':
                        r, u = r if isinstance(r, tuple) else (r, [s])
                        unw += [(x, env) for x in u]
                    nxt += [(x, e) for x in r]
            states = list(dict.fromkeys(nxt))
            if not states and not unw: break
        t = fn.bbs[b][-1]
        for grp, isunw in ((states, False), (unw, True)):
            for x, env in grp:
                for s, ne in ce.succs(b, env):
                    if t['o'] == 'invoke' and t['u'] != t['n'] and (s == t['u']) != isunw: continue
                    k = (s, x, ne)
                    if k not in seen: seen.add(k); work.append(k)
