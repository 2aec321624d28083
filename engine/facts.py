"""Linear facts that hold at a program point (dominating branch conditions, simple induction), and a small entailment test
(Fourier-Motzkin elimination over the integers' rational relaxation)."""
from fractions import Fraction
from ap import *


class Lin:
    """sum(coef*atom) + c"""
    __slots__ = ('t', 'c')

    def __init__(self, t=None, c=0):
        self.t = t or {}; self.c = c

    @staticmethod
    def atom(a): return Lin({a: 1}, 0)

    def add(self, o, k=1):
        t = dict(self.t)
        for a, x in o.t.items():
            y = t.get(a, 0) + k * x
            if y: t[a] = y
            else: t.pop(a, None)
        return Lin(t, self.c + k * o.c)

    def scale(self, k):
        return Lin({a: x * k for a, x in self.t.items()} if k else {}, self.c * k)

    def plus(self, c): return Lin(dict(self.t), self.c + c)

    def key(self): return (tuple(sorted(self.t.items(), key=repr)), self.c)

    def __repr__(self):
        return ' + '.join('%s*%s' % (x, a) for a, x in self.t.items()) + ' + %s' % self.c


def entails(facts, goal, limit=400):
    """facts: list of Lin (each >= 0). goal: Lin; is goal >= 0 implied? Refute facts & goal <= -1."""
    if not goal.t: return goal.c >= 0 or inconsistent(facts, limit)
    neg = goal.scale(-1).plus(-1)
    return infeasible(relevant(facts, goal) + [neg], limit)


def inconsistent(facts, limit=400):
    return False


def relevant(facts, goal):
    """facts connected to the goal through shared atoms."""
    want = set(goal.t); out = []; rest = [f for f in facts if f.t]
    ch = True
    while ch:
        ch = False; nr = []
        for f in rest:
            if any(a in want for a in f.t):
                out.append(f); want |= set(f.t); ch = True
            else: nr.append(f)
        rest = nr
    return out


def norm(l):
    from math import gcd
    g = 0
    for x in l.t.values(): g = gcd(g, abs(x))
    if g > 1:
        c = l.c // g        # integer tightening (floor)
        return Lin({a: x // g for a, x in l.t.items()}, c)
    return l


def infeasible(cs, limit=400):
    cs = {norm(c).key(): norm(c) for c in cs}
    cs = list(cs.values())
    while True:
        for c in cs:
            if not c.t and c.c < 0: return True
        cs = [c for c in cs if c.t]
        if not cs: return False
        cnt = {}
        for c in cs:
            for a, x in c.t.items():
                p = cnt.setdefault(a, [0, 0]); p[0 if x > 0 else 1] += 1
        a = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - sum(cnt[k]))
        pos = [c for c in cs if c.t.get(a, 0) > 0]; neg = [c for c in cs if c.t.get(a, 0) < 0]
        rest = [c for c in cs if not c.t.get(a, 0)]
        new = {c.key(): c for c in rest}
        for p in pos:
            for n in neg:
                r = norm(p.scale(-n.t[a]).add(n, p.t[a]))
                if not r.t:
                    if r.c < 0: return True
                    continue
                new[r.key()] = r
        if len(new) > limit: return False
        cs = list(new.values())


CMP = {'slt': 'lt', 'ult': 'lt', 'sle': 'le', 'ule': 'le', 'sgt': 'gt', 'ugt': 'gt', 'sge': 'ge', 'uge': 'ge', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'eq': 'ne', 'ne': 'eq'}


class Facts:
    def __init__(self, fn, atom=None):
        self.fn = fn; self.memo = {}; self.P = None
        self.atomkey = atom or (lambda v: v)
        self.blockfacts = {}

    def lin(self, v, depth=0):
        """linear form of an integer SSA value; machine wrap-around is not modelled (see assumptions)."""
        if isinstance(v, list):
            if v[0] == 'i': return Lin({}, v[1])
            if v[0] == 'n': return Lin({}, 0)
            return Lin.atom(('k', repr(v)))
        if v in self.memo: return self.memo[v]
        r = None
        i = self.fn.inst.get(v)
        if i is not None and depth < 40:
            o = i['o']; a = i.get('a') or []
            if o == 'add': r = self.lin(a[0], depth + 1).add(self.lin(a[1], depth + 1))
            elif o == 'sub': r = self.lin(a[0], depth + 1).add(self.lin(a[1], depth + 1), -1)
            elif o == 'mul' and isinstance(a[1], list) and a[1][0] == 'i': r = self.lin(a[0], depth + 1).scale(a[1][1])
            elif o == 'shl' and isinstance(a[1], list) and a[1][0] == 'i' and a[1][1] < 31: r = self.lin(a[0], depth + 1).scale(1 << a[1][1])
            elif o in ('sext', 'freeze'): r = self.lin(a[0], depth + 1)
            elif o == 'zext' and i.get('ot') != 'i1': r = self.lin(a[0], depth + 1)
            elif o == 'trunc' and i['t'] in ('i32', 'i64'): r = self.lin(a[0], depth + 1)
            elif o == 'or' and self._disjoint(a): r = self.lin(a[0], depth + 1).add(self.lin(a[1], depth + 1))
            elif o == 'xor' and isinstance(a[1], list) and a[1] == ['i', -1]: r = self.lin(a[0], depth + 1).scale(-1).plus(-1)
        if r is None: r = Lin.atom(self.atomkey(v))
        self.memo[v] = r
        return r

    def _disjoint(self, a):
        """x | c where x is a multiple of a power of two above c"""
        if not (isinstance(a[1], list) and a[1][0] == 'i' and isinstance(a[0], int)): return False
        d = self.fn.inst.get(a[0]); c = a[1][1]
        if d and d['o'] == 'shl' and isinstance(d['a'][1], list) and 0 <= c < (1 << d['a'][1][1]): return True
        if d and d['o'] == 'and' and isinstance(d['a'][1], list) and d['a'][1][0] == 'i' and c >= 0 and (d['a'][1][1] & c) == 0: return True
        return False

    def cond(self, v, truth, depth=0):
        """facts implied by boolean SSA value v being truth."""
        if not isinstance(v, int): return []
        i = self.fn.inst.get(v)
        if i is None or depth > 8: return []
        o = i['o']
        if o == 'icmp':
            pr = i['pr'] if truth else NEG[i['pr']]
            if i.get('ot') == 'ptr' : return []
            a, b = self.lin(i['a'][0]), self.lin(i['a'][1])
            d = b.add(a, -1)            # b - a
            out = []
            k = CMP[pr]
            if pr in ('ult', 'ule'):
                # x <u n with n >= 0 (constants, or n known non-negative elsewhere): 0 <= x too
                if isinstance(i['a'][1], list) and i['a'][1][0] == 'i' and i['a'][1][1] >= 0:
                    out += [a, d.plus(-1) if k == 'lt' else d]
                else: out += [('if>=0', b, [a, d.plus(-1) if k == 'lt' else d])]
                return out
            if pr in ('ugt', 'uge'):
                # x >u n  is  n <u x
                out += [('if>=0', a, [b, a.add(b, -1).plus(-1 if k == 'gt' else 0)])]
                return out
            if k == 'lt': return [d.plus(-1)]
            if k == 'le': return [d]
            if k == 'gt': return [d.scale(-1).plus(-1)]
            if k == 'ge': return [d.scale(-1)]
            if k == 'eq': return [d, d.scale(-1)]
            return [('ne', d)]
        if o == 'xor' and i['a'][1] in (['i', -1], ['i', 1]): return self.cond(i['a'][0], not truth, depth + 1)
        if (o == 'and' and truth) or (o == 'or' and not truth):
            return self.cond(i['a'][0], truth, depth + 1) + self.cond(i['a'][1], truth, depth + 1)
        if o == 'select':
            c, x, y = i['a']
            if truth and y == ['i', 0]: return self.cond(c, True, depth + 1) + self.cond(x, True, depth + 1)
            if not truth and x in (['i', -1], ['i', 1]): return self.cond(c, False, depth + 1) + self.cond(y, False, depth + 1)
        if o in ('freeze',): return self.cond(i['a'][0], truth, depth + 1)
        return []

    def edge(self, b, s):
        """facts implied by control flowing along edge b -> s."""
        t = self.fn.bbs[b][-1]
        if t['o'] == 'br' and 'cond' in t and t['s'][0] != t['s'][1]:
            return self.cond(t['cond'], t['s'][0] == s)
        if t['o'] == 'switch':
            v = self.lin(t['cond']); hit = [c for c, x in zip(t['cases'], t['s'][1:]) if x == s]
            if s != t['s'][0] and hit:
                if len(hit) == 1: return [v.plus(-hit[0]), v.scale(-1).plus(hit[0])]
                return [v.plus(-min(hit)), v.scale(-1).plus(max(hit))]
            if s == t['s'][0] and not hit: return [('ne', v.plus(-c)) for c in t['cases']]
        return []

    def at(self, b):
        """raw facts at entry of block b: conditions of dominating edges."""
        if b in self.blockfacts: return self.blockfacts[b]
        out = []; dom = self.fn.idom(); x = b
        while x in dom:
            ps = [p for p in self.fn.pred[x] if p in dom]
            if len(ps) == 1: out += self.edge(ps[0], x)
            elif ps:
                # loop header or join whose non-back predecessors is one: the entering edge's facts on loop-invariant values hold
                fw = [p for p in ps if not self.fn.dominates(x, p)]
                if len(fw) == 1 and x != 0:
                    out += [f for f in self.edge(fw[0], x)]
            if x == 0: break
            x = dom[x]
        self.blockfacts[b] = out
        return out

    def resolve(self, raw, extra=()):
        """plain Lin facts, with disequalities and unsigned facts sharpened as far as the others allow."""
        lin = [f for f in raw if isinstance(f, Lin)] + list(extra)
        pend = [f for f in raw if not isinstance(f, Lin)]
        for _ in range(3):
            ch = False
            for f in list(pend):
                if f[0] == 'ne':
                    if entails(lin, f[1]): lin.append(f[1].plus(-1)); pend.remove(f); ch = True
                    elif entails(lin, f[1].scale(-1)): lin.append(f[1].scale(-1).plus(-1)); pend.remove(f); ch = True
                elif f[0] == 'if>=0':
                    if entails(lin, f[1]): lin += f[2]; pend.remove(f); ch = True
            if not ch: break
        return lin

    def holds(self, b, goal, extra=()):
        """goal (Lin) >= 0 at block b?"""
        return entails(self.resolve(self.at(b), extra), goal)
