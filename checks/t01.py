"""T01: every loop makes progress on every pass and has a way out; no function only calls itself."""
from guards import *
from effects import Effects
from reach import Reach
import itertools, sa

TITLE = 'Every operation comes to an end'
RULE = ('for every loop of the library: it has an exit; on every path around it the state its conditions depend on (loop-carried values, memory it reads, answers of the outside) changes; '
        'a value moved by an amount that is not a constant is moved by an amount guards keep from being zero; a counter compared with a fixed bound moves towards it; '
        'a value halved until zero is not an arithmetic shift of a possibly negative one, a floating-point value scaled until small enough is guarded against infinity and zero; '
        'no function or group of functions calls itself on every path to its return')
VENDOR = re.compile(r'cuckoo|moodycamel|concurrentqueue')
FIND = re.compile(r'^std::__cxx11::basic_string<.*>::find\(')
DET = set('strlen strcmp strncmp memcmp bcmp strchr memchr strstr isdigit isalnum isalpha isspace isupper islower toupper tolower __ctype_b_loc __dynamic_cast _Znwm _Znam malloc calloc realloc free _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm memcpy memmove memset fabs floor ceil pow sqrt log exp frexp ldexp modf snprintf sprintf vsnprintf atoi strtol strtoul towupper towlower wmemchr strncpy strcpy strcat'.split())


class Loop:
    def __init__(self, f, h):
        self.f = f; self.h = h; self.latches = [b for b in range(len(f.bbs)) if h in f.succ[b] and f.dominates(h, b)]
        self.B = {h}; st = list(self.latches)
        while st:
            b = st.pop()
            if b in self.B: continue
            self.B.add(b); st += f.pred[b]
        self.phis = [i for i in f.bbs[h] if i['o'] == 'phi']

    def own(self):
        """written in the library, not in a template of the standard library"""
        ts = [self.f.bbs[b][-1] for b in {b for b, s in self.exits()}]
        ts = [t for t in ts if t['o'] in ('br', 'switch') and t.get('l')] or [i for b in self.B for i in self.f.bbs[b] if i.get('l')]
        return any(not any(re.match(r'_ZNK?St|_ZSt|_ZNK?9__gnu', x[0]) for x in t.get('st') or []) for t in ts)

    def exits(self): return [(b, s) for b in self.B for s in self.f.succ[b] if s not in self.B]


class T01:
    def __init__(self, m, c):
        self.m = m; self.c = c; self.E = Effects(m); self.R = Reach(m); self.G = Guards(m, self.R, self.E); self._det = {}

    def det(self, n, d=0):
        """calling n again with the same state gives the same answer"""
        n = self.m.alias.get(n, n)
        if n in self._det: return self._det[n]
        self._det[n] = True; g = self.m.fn(n); dd = self.m.dem.get(n, n) or n
        if g is None or not g.has: r = n in DET or n.startswith(('llvm.', '__cxa_', '_ZSt')) or dd.startswith(('std::', 'operator new', 'operator delete', 'bool std::', 'auto std::')) and not re.search(r'chrono|random|condition|thread|mutex|this_thread|future|istream|atomic', dd)
        else:
            r = True
            for i in g.inst.values():
                if i['o'] in ('cmpxchg', 'atomicrmw') or i['o'] == 'load' and i.get('at'): r = False
                elif i['o'] in ('call', 'invoke') and 'intr' not in i:
                    k = callee(i) or self.R.vcall(g, i)
                    if k is None or not self.det(k, d + 1): r = False
                if not r: break
        self._det[n] = r
        return r

    def state(self, L):
        """what the branch conditions inside the loop depend on: (phis of the header, load pointers, calls)"""
        f = L.f; phis = set(); loads = []; calls = []; seen = set(); st = []
        for b in L.B:
            t = f.bbs[b][-1]
            if t['o'] in ('br', 'switch') and t.get('cond') is not None and isinstance(t['cond'], int): st.append(t['cond'])
        while st:
            v = st.pop()
            if v in seen or v not in f.inst or f.blk[v] not in L.B: continue
            seen.add(v); i = f.inst[v]
            if i['o'] == 'phi' and f.blk[v] == L.h: phis.add(v); continue
            if i['o'] == 'phi': st += [x for x, _ in i['in'] if isinstance(x, int)]; continue
            if i['o'] == 'load': loads.append(i)
            elif i['o'] in ('call', 'invoke') and 'intr' not in i: calls.append(i)
            elif i['o'] in ('cmpxchg', 'atomicrmw'): calls.append(i)
            st += [x for x in operands(i) if isinstance(x, int)]
        return phis, loads, calls

    def plain(self, f, p):
        """('+', ('T',), n) as a path of the function"""
        if not (isinstance(p, tuple) and len(p) == 3 and p[0] == '+' and isinstance(p[2], int)): return None
        k = 1 if f.args and f.args[0][2] else 0
        return ('+', ('A', k), p[2]) if p[1] == ('T',) else None

    def exitstate(self, L):
        """(phis, loads, calls) the conditions that leave the loop depend on, closed under next values;
        None when a join or a second way back makes it depend on the conditions inside"""
        f = L.f
        if len(L.latches) != 1: return None
        phis = set(); loads = []; calls = []; seen = set(); st = []
        for b, s in L.exits():
            t = f.bbs[b][-1]
            if isinstance(t.get('cond'), int): st.append(t['cond'])
            elif t['o'] == 'invoke': pass
        while st:
            v = st.pop()
            if v in seen or v not in f.inst or f.blk[v] not in L.B: continue
            seen.add(v); i = f.inst[v]
            if i['o'] == 'phi':
                if f.blk[v] != L.h: return None
                phis.add(v); st += [x for x, q in i['in'] if q in L.B and isinstance(x, int)]; continue
            if i['o'] == 'load': loads.append(i)
            elif i['o'] in ('call', 'invoke') and 'intr' not in i: calls.append(i)
            elif i['o'] in ('cmpxchg', 'atomicrmw'): calls.append(i)
            st += [x for x in operands(i) if isinstance(x, int)]
        return phis, loads, calls

    def reads(self, L, loads, calls):
        P = self.G.paths(L.f); out = []
        for i in loads: out += list(P.of(i['p']))
        for i in calls:
            try: l = self.G.of(L.f).lin(i['i'], {}) if i.get('t') in ('i32', 'i64') else None
            except (KeyError, TypeError, IndexError): l = None
            if l is not None and l.t and all(a[0] == 'ld' and self.plain(L.f, a[1]) for a in l.t): out += [self.plain(L.f, a[1]) for a in l.t]; continue
            for x in i.get('a') or []:
                if isinstance(x, int) and (x not in L.f.inst or L.f.inst[x].get('t') == 'ptr') and (x in L.f.inst or L.f.args[x][1] == 'ptr'): out += list(P.of(x))
        return out

    def loop(self, L, short):
        f = L.f; G = self.G.of(f); c = self.c
        where = f.where(next((i for i in f.bbs[L.h] if i['o'] != 'phi'), f.bbs[L.h][0]))
        line = where.split(':')[-1]
        if line == '0':
            w2 = next((f.where(i) for b in sorted(L.B) for i in f.bbs[b] if f.where(i).split(':')[-1] != '0'), where); where = w2
        key = '%s:%%s' % short
        ex = L.exits()
        if not ex and not any(f.bbs[b][-1]['o'] in ('ret', 'unreachable', 'resume') for b in L.B):
            if not any(not self.det(callee(i) or self.R.vcall(f, i) or '?') for b in L.B for i in f.bbs[b] if i['o'] in ('call', 'invoke') and 'intr' not in i):
                c.bad(key % 'exit', '%s: the loop at %s has no way out' % (short, where)); return
        phis, loads, calls = self.exitstate(L) or self.state(L)
        opaque = [i for i in calls if i['o'] in ('cmpxchg', 'atomicrmw') or not self.det(callee(i) or self.R.vcall(f, i) or '?')] + [i for i in loads if i.get('at')]
        P = self.G.paths(f)
        wr = {}
        for b in L.B:
            w = []
            for i in f.bbs[b]:
                for k, p, via in self.E.inst(f, P, i): w.append(p)
            wr[b] = w
        self.bad_step = None; verdicts = []
        ph = {i['i']: i for i in L.phis}
        st_insts = {id(i) for i in loads + calls}

        def path_reads(blocks):
            return self.reads(L, [i for b in blocks for i in f.bbs[b] if i['o'] == 'load' and id(i) in st_insts], [i for b in blocks for i in f.bbs[b] if i['o'] != 'load' and id(i) in st_insts])

        def touched(blocks, but=()):
            rd = path_reads(blocks)
            for b in blocks:
                for w in wr[b]:
                    if w in but: continue
                    if w is None: return True
                    for r in rd:
                        if r is None or self.alias(w, r, f): return True
            return False

        def edge(i, p):
            b = f.blk[i['i']] if i['i'] in f.blk else None
            if b is None or b not in L.B or L.h not in f.succ[b] or i is not f.bbs[b][-1]: return
            if L.h not in p.seen: return
            alts = p.alts; unk = p.unk
            if i['o'] == 'br' and 'cond' in i and i['cond'] is not None and i['s'][0] != i['s'][1]:
                cs = G.cond(i['cond'], i['s'][0] == L.h, p.env)
                if cs is None: unk = unk | G.mentions(i['cond'], p.env)
                else: alts = [x + y for x in alts for y in cs]
            elif i['o'] == 'invoke' and i['n'] != L.h: return
            alts = [x for x in alts if not infeasible(self.G.base(x) + x)]
            if not alts: return
            blocks = [x for x in p.seen if x in L.B]
            nvs = {v: next((x for x, q in ph[v]['in'] if q == b), None) for v in phis}
            for env, alts, unk in self.choices(L, G, nvs, p.env, alts, unk):
                D = {}
                for v in phis:
                    nv = env.get(nvs[v], nvs[v]) if isinstance(nvs[v], int) else nvs[v]
                    if nv == v: D[v] = Lin({}, 0)
                    elif ph[v]['t'] in ('i8', 'i16', 'i32', 'i64'): D[v] = self.found(L, v, G.lin(nv, env).add(Lin.atom(('v', v)), -1))
                    else: D[v] = None
                verdicts.append((i, blocks, alts, unk, D, env, b))
        need = set(); st = [L.h]
        while st:
            b = st.pop()
            if b in need: continue
            need.add(b); st += f.pred[b]
        need |= L.B; first = {f.bbs[b][0]['i'] if 'i' in f.bbs[b][0] else id(f.bbs[b][0]): b for b in range(len(f.bbs))}

        def prune(i, p):
            b = first.get(i['i'] if 'i' in i else id(i))
            if b is not None and (b not in need or L.h in p.seen and b not in L.B): return 'stop'
            return edge(i, p)
        lim = 500 if len(f.bbs) < 70 else 60
        try: whole = G.walk(prune, limit=lim)
        except RecursionError: whole = False
        good = self.floats(L, G, key, short, where); n0 = len(self.und); weak = False
        if not good: return
        if not verdicts and whole: self.und.append('%s %s: paths' % (short, where)); return
        def again():
            """too many ways into the loop: one pass with nothing known at its start, which can only show progress"""
            nonlocal weak
            if whole or not good: return
            verdicts.clear(); weak = True
            if G.walk(prune, limit=lim, start=L.h) and verdicts: yield from list(verdicts)
            else: self.und.append('%s %s: paths' % (short, where)); verdicts.clear()
        for i, blocks, alts, unk, D, env, back in itertools.chain(list(verdicts), again()):
            if any(o in [x for b in blocks for x in f.bbs[b]] for o in opaque): continue
            if touched(blocks):
                z = None if weak else self.cell(L, G, blocks, path_reads(blocks), touched, alts, unk, D)
                if z:
                    good = False
                    c.bad(key % 'step', '%s: the loop at %s scales a value that can be zero (%s), and then never ends' % (short, where, z)); break
                continue
            if any(d is None for d in D.values()): continue                 # pointers, floating point: below
            if any(not d.t and d.c for d in D.values()): continue
            if all(not d.t and not d.c for d in D.values()):
                if weak and (D or loads or calls): self.und.append('%s %s: paths' % (short, where)); continue
                if unk and any(u == 'cut' for u in unk): continue
                good = False
                c.bad(key % 'stuck', '%s: the loop at %s can go round without changing anything its conditions depend on, so it never ends (back edge at %s)' % (short, where, f.where(i))); break
            # moved to a value that depends only on what stays: from then on nothing changes
            if self.settles(L, G, D, alts, unk, env, back, ph):
                if weak: self.und.append('%s %s: paths' % (short, where)); continue
                good = False
                c.bad(key % 'stuck', '%s: from some pass on the loop at %s changes nothing its conditions depend on, so it never ends (back edge at %s)' % (short, where, f.where(i))); break
            if not weak and self.halves(L, G, D, alts, unk):
                good = False
                c.bad(key % 'step', '%s: the loop at %s halves an interval without excluding its middle: with two neighbours left it changes nothing and never ends' % (short, where)); break
            z = None if weak else self.settled_at(L, G, D, alts, unk, env, back, ph)
            if z is not None:
                good = False
                c.bad(key % 'stuck', '%s: the value the loop at %s computes from itself stays %d once it is %d, and the loop then never ends' % (short, where, z, z)); break
            # moved by amounts that are not constants
            ok = False
            for a in alts:
                fa = a + self.G.base(a)
                zero = [Lin.atom(x) for d in D.values() for x in d.t if x[0] == 'past']
                for d in D.values(): zero += [d, d.scale(-1)]
                if infeasible(fa + self.G.base([x for x in zero]) + zero): continue
                if weak: ok = None; break
                if len(D) == 1 and self.copied(f, next(iter(D.values())), a, unk): ok = next(iter(D.values())); break
                if not all(self.outside(x) for d in D.values() for x in d.t): ok = None; break
                if any(self.hit(u, D) for u in unk): ok = None; break
                ok = (d for d in D.values() if d.t); ok = next(ok); break
            if ok is None: self.und.append('%s %s: step' % (short, where)); continue
            if ok is not False:
                good = False
                c.bad(key % 'step', '%s: the loop at %s moves on by an amount that can be zero (%s), and then never ends' % (short, where, self.fmt(ok))); break
        if good and (not verdicts or len(self.und) > n0 and not whole): return
        if good: good = self.direction(L, G, verdicts, key, short, where)
        if good: good = self.shifts(L, G, key, short, where)
        if good: c.ok()

    def settled_at(self, L, G, D, alts, unk, env, back, ph):
        """v' = f(v), nothing else moves: a start the outside can choose from which the passes reach a value that stays"""
        f = L.f; moved = [v for v, d in D.items() if d.t or d.c]
        if len(moved) != 1 or D[moved[0]] is None: return None
        v = moved[0]; nv = self.nv(ph, v, back, env); w = int(ph[v]['t'][1:])
        if isinstance(nv, list) or self.value(f, nv, v, 5, w, env) is None: return None
        if any(u in ('*', 'cut') or self.hit(u, {0: Lin.atom(('v', v))}) for u in unk): return None
        ins = [x for x, q in ph[v]['in'] if q not in L.B]
        if len(ins) != 1 or isinstance(ins[0], list): return None
        init = G.lin(env.get(ins[0], ins[0]), env); a = Lin.atom(('v', v))
        if not init.t or not all(self.outside(x) for x in init.t): return None

        def may(l, k):
            e = l.plus(-k); e = [e, e.scale(-1)]
            return any(not infeasible(self.G.base(x + e) + x + e) for x in alts)
        for x in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, -1, -2, -3, -8):
            if not may(init, x): continue
            seen = set()
            while x is not None and x not in seen and may(a, x):
                seen.add(x); y = self.value(f, nv, v, x, w, env)
                if y == x: return x
                x = y
        return None

    def value(self, f, n, v, k, w, env, d=0):
        """n for v = k, when it depends on nothing else"""
        if isinstance(n, list): return n[1] if n[0] == 'i' else None
        n = env.get(n, n)
        if isinstance(n, list): return n[1] if n[0] == 'i' else None
        if n == v: return k
        i = f.inst.get(n)
        if i is None or d > 10 or i['o'] not in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'ashr', 'lshr', 'shl', 'and', 'or', 'xor', 'sext', 'zext', 'trunc') or not i['t'].startswith('i') or i['t'] == 'i1': return None
        xs = [self.value(f, y, v, k, w, env, d + 1) for y in i['a']]
        if None in xs: return None
        b = int(i['t'][1:]); m = (1 << b) - 1; x = xs[0]; y = xs[1] if len(xs) > 1 else None; o = i['o']
        if o in ('sdiv', 'srem', 'udiv', 'urem') and y == 0 or o in ('ashr', 'lshr', 'shl') and not 0 <= y < b: return None
        if o in ('sext', 'zext') and x < 0 and o == 'zext': return None
        q = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'sdiv': lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
             'srem': lambda: x - y * int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), 'udiv': lambda: (x & m) // (y & m), 'urem': lambda: (x & m) % (y & m),
             'ashr': lambda: x >> y, 'lshr': lambda: (x & m) >> y, 'shl': lambda: x << y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'sext': lambda: x, 'zext': lambda: x, 'trunc': lambda: x}[o]() & m
        return q - (1 << b) if q >> (b - 1) & 1 else q

    def choices(self, L, G, nvs, env, alts, unk):
        """the next values with their selects decided one way or the other"""
        f = L.f; out = [(env, alts, unk, {})]; done = set(); n = 0
        while n < 4:
            sel = None
            for v in nvs.values():
                st = [v]; k = 0
                while st and sel is None and k < 40:
                    k += 1; x = st.pop(); i = f.inst.get(x) if isinstance(x, int) else None
                    if i is None or f.blk[x] not in L.B or i['o'] == 'phi' and f.blk[x] == L.h: continue
                    if i['o'] == 'select' and x not in done: sel = x; break
                    if i['o'] in ('add', 'sub', 'select', 'trunc', 'sext', 'zext'): st += [y for y in operands(i) if isinstance(y, int)]
                    elif i['o'] == 'phi': st += [e[x] for e, *_ in out if isinstance(e.get(x), int) and e[x] != x]
            if sel is None: break
            done.add(sel); n += 1; nxt = []
            for e, al, un, ch in out:
                for side in (1, 2):
                    i = f.inst[sel]; q = self.bare(f, i['a'][0]); want = (side == 1) != q[1]
                    if ch.get(q[0], want) != want: continue
                    cs = G.cond(i['a'][0], side == 1, e); u2 = un; a2 = al
                    if cs is None: u2 = un | G.mentions(i['a'][0], e)
                    else: a2 = [x + y for x in al for y in cs]
                    val = i['a'][side]; val = e.get(val, val) if isinstance(val, int) else val
                    d = G.lin(val, e).add(Lin.atom(('v', sel)), -1); a2 = [x + [d, d.scale(-1)] for x in a2]
                    a2 = [x for x in a2 if not infeasible(self.G.base(x) + x)]
                    if a2: nxt.append(({**e, sel: val, **{x: val for x, y in e.items() if y == sel}}, a2, u2, {**ch, q[0]: want}))
            out = nxt
        return [x[:3] for x in out]

    def bare(self, f, v):
        """(value, negated) without the negations around it"""
        n = False
        while isinstance(v, int) and f.inst.get(v, {}).get('o') == 'xor' and isinstance(f.inst[v]['a'][1], list): v = f.inst[v]['a'][0]; n = not n
        return (v if isinstance(v, int) else str(v)), n

    def settles(self, L, G, D, alts, unk, env, back, ph):
        """the values that change get values determined by those that do not, and the way round stays possible with these"""
        f = L.f; U = {v for v, d in D.items() if not d.t and not d.c}; W = set(D) - U
        if not W: return False
        nv = {v: self.nv(ph, v, back, env) for v in W}
        allowed = set(U); left = set(W)
        while left:
            ok = {v for v in left if self.from_only(L, nv[v], allowed, env)}
            if not ok: return False
            allowed |= ok; left -= ok
        eqs = []
        for v in W:
            l = G.lin(nv[v], env); a = ('v', v)
            if l.t:
                if len(l.t) != 1: return False
                x, k = next(iter(l.t.items()))
                if k != 1 or l.c or x[0] == 'v' and f.inst.get(x[1], {}).get('o') not in ('load', 'call', 'invoke', 'xor') or x[0] not in ('v', 'ld'): return False
            e = l.add(Lin.atom(a), -1); eqs += [e, e.scale(-1)]
            if any(self.hit(u, {0: Lin.atom(a)}) or u == '*' for u in unk): return False
        return any(not infeasible(self.G.base(x + eqs) + x + eqs) for x in alts)

    def nv(self, ph, v, back, env):
        x = next((x for x, q in ph[v]['in'] if q == back), None)
        return env.get(x, x) if isinstance(x, int) else x

    def from_only(self, L, v, allowed, env, d=0):
        f = L.f
        if not isinstance(v, int): return True
        v = env.get(v, v)
        if not isinstance(v, int) or v not in f.inst or f.blk[v] not in L.B: return True
        i = f.inst[v]
        if i['o'] == 'phi' and f.blk[v] == L.h: return v in allowed
        if i['o'] == 'phi' or d > 14: return False
        return all(self.from_only(L, x, allowed, env, d + 1) for x in operands(i) if isinstance(x, int))

    def halves(self, L, G, D, alts, unk):
        """lo' = (lo + hi) / 2 with hi unchanged, and lo + 1 = hi is not excluded"""
        moved = [(v, d) for v, d in D.items() if d.t or d.c]
        if len(moved) != 1: return False
        v, d = moved[0]
        q = [a for a in d.t if a[0] == 'quot' and len(a) == 3 and a[2] == 2]
        if len(q) != 1 or d.c or d.t != {q[0]: 1, ('v', v): -1}: return False
        k = dict(q[0][1][0])
        others = [a for a in k if a != ('v', v)]
        if k.get(('v', v)) != 1 or len(others) != 1 or k[others[0]] != 1 or others[0][0] != 'v' or D.get(others[0][1]) is None or q[0][1][1]: return False
        o = others[0]
        if any(u in ('*', 'cut') or u in (o, ('v', v)) for u in unk): return False
        one = Lin.atom(o).add(Lin.atom(('v', v)), -1).plus(-1); mid = Lin.atom(q[0]).add(Lin.atom(('v', v)), -1)
        eq = [one, one.scale(-1), mid, mid.scale(-1)]
        return any(not infeasible(self.G.base(x + eq) + x + eq) for x in alts)

    def cell(self, L, G, blocks, rd, touched, alts, unk, D):
        """the loop only depends on one memory cell, which a pass multiplies: zero stays zero.  Says what the cell is."""
        f = L.f; P = self.G.paths(f)
        if unk or any(d is None or d.t or d.c for d in D.values()): return None
        stores = [i for b in blocks for i in f.bbs[b] if i['o'] == 'store']
        ps = {}
        for i in stores:
            w = list(P.of(i['p']))
            if len(w) == 1 and w[0] in rd: ps.setdefault(w[0], []).append(i)
        if len(ps) != 1: return None
        p, ss = next(iter(ps.items()))
        if len(ss) != 1 or p[0] != '+' or touched(blocks, (p,)) or any(r != p and (r is None or self.alias(p, r, f)) for r in rd): return None
        l = G.lin(ss[0]['val'], {})
        if l.c or len(l.t) != 1: return None
        a, k = next(iter(l.t.items()))
        if a[0] != 'ld' or k < 2: return None
        z = Lin.atom(a)
        if not any(not infeasible(self.G.base(x + [z, z.scale(-1)]) + x + [z, z.scale(-1)]) for x in alts): return None
        return self.fmt(Lin.atom(a))

    def roots(self, f, v, d=0):
        """the arguments a local object is made from"""
        out = set(); P = self.G.paths(f)
        for i in f.inst.values():
            if i['o'] in ('call', 'invoke') and 'intr' not in i and (i.get('a') or []) and ('L', v) in P.of(i['a'][0]) if isinstance((i.get('a') or [None])[0], int) else False:
                for x in i['a'][1:]:
                    if not isinstance(x, int): continue
                    for p in P.of(x):
                        r = self.rootof(p)
                        if r is None: out.add('?')
                        elif r[0] == 'L' and r[1] != v and d < 4: out |= self.roots(f, r[1], d + 1)
                        else: out.add(r)
        return out

    def found(self, L, v, d):
        """the place where a search that starts at v finds something is at or behind v"""
        for a, k in list(d.t.items()):
            if a[0] == 'v' and a[1] != v and k == 1 and d.t.get(('v', v)) == -1:
                i = L.f.inst.get(a[1])
                if i is not None and i['o'] in ('call', 'invoke') and FIND.search(self.m.dem.get(callee(i) or '', '')) and v in i['a'][1:]:
                    return d.add(Lin.atom(a), -1).add(Lin.atom(('v', v))).add(Lin.atom(('past', a[1], i['a'][1])))
        return d

    def copied(self, f, d, alts, unk):
        """d adds what a search skipped and the length of a local copy of the needle, of which nothing is known on the path"""
        if unk: return False
        loc = [a for a in d.t if a[0] == 'ssize' and a[1][0] == 'L']; past = [a for a in d.t if a[0] == 'past']
        if not loc or len(loc) + len(past) != len(d.t) or any(k < 0 for k in d.t.values()) or d.c: return False
        for x in alts:
            for a in x.t:
                if a in d.t or a[0] == 'v' and a[1] in [y[1] for y in past]: continue
                if a[0] == 'ssize' and a[1][0] == 'L':
                    r1 = self.roots(f, a[1][1]); r2 = set().union(*(self.roots(f, y[1][1]) for y in loc))
                    if r1 and r2 and '?' not in r1 | r2 and not r1 & r2: continue
                i = f.inst.get(a[1]) if a[0] == 'v' else None
                if i is None or i['o'] != 'phi' and i['t'] != 'ptr': return False
        return True

    def outside(self, a): return a[0] in ('a', 'ssize', 'ld') and not has_v(a)

    def hit(self, u, D): return u in ('*', 'T', 'cut') or any(u == a or isinstance(u, tuple) and u[:2] == a[:2] for d in D.values() for a in d.t)

    def fmt(self, d):
        out = []
        for a, k in d.t.items():
            if a[0] == 'past': continue
            out.append('argument %s' % (a[1],) if a[0] == 'a' else 'the length of %s' % self.who(a[1]) if a[0] == 'ssize' else 'a member of %s' % self.who(a[1]) if a[0] == 'ld' else 'a value')
        return ', '.join(out)

    def who(self, p):
        r = proot(p)
        return 'argument %d' % r[1] if r[0] == 'P' else 'what it searches for' if r[0] == 'L' else 'this object' if r[0] == 'T' else 'a value'

    def alias(self, w, r, f=None):
        """a write to w may change what is read at r (or behind it)"""
        a, b = self.rootof(w, f), self.rootof(r, f)
        if a is None or b is None: return True
        if 'H' in (a[0], b[0]): return a == b
        if a[0] == 'L' and b[0] == 'L' or a[0] == 'A' and b[0] == 'A' or a[0] == 'G' and b[0] == 'G':
            if a != b: return False
            if w[0] == '+' and r[0] == '+' and w[1] == a and r[1] == b and len(w) == 3 == len(r) and isinstance(w[2], int) and isinstance(r[2], int): return w[2] == r[2] or True
            return True
        if {a[0], b[0]} == {'L', 'A'}: return False
        return True

    def rootof(self, p, f=None, d=0):
        while isinstance(p, tuple) and p[0] in ('+', '*', '?'): p = p[1]
        if isinstance(p, tuple) and p[0] == 'V' and f is not None and d < 4:
            i = f.inst.get(p[1])
            if i is not None and i['o'] in ('call', 'invoke') and callee(i) in ('malloc', 'calloc', '_Znwm', '_Znam'): return ('H', p[1])
            if i is None or i['o'] not in ('call', 'invoke') or not self.det(callee(i) or self.R.vcall(f, i) or '?'): return None
            P = self.G.paths(f)
            rs = {self.rootof(q, f, d + 1) for x in i['a'] if isinstance(x, int) and (x in f.inst and f.inst[x].get('t') == 'ptr' or x not in f.inst and f.args[x][1] == 'ptr') for q in P.of(x)}
            return next(iter(rs)) if len(rs) == 1 else None
        return p if isinstance(p, tuple) and p and p[0] in ('L', 'A', 'G', 'H') else None

    def direction(self, L, G, verdicts, key, short, where):
        """the only exits compare a counter with a bound that stays, and the counter moves the other way on every pass."""
        f = L.f; ex = L.exits(); wrong = []; real = [(b, s) for b, s in ex if not self.dead_end(f, s)]
        if not real: return True
        for b, s in real:
            t = f.bbs[b][-1]
            if t['o'] != 'br' or not isinstance(t.get('cond'), int): return True
            i = f.inst.get(t['cond'])
            if i is None or i['o'] != 'icmp' or i['t'] == 'ptr' or i.get('ot') == 'ptr': return True
            x, y = i['a'][0], i['a'][1]; pr = i['pr']; stay = t['s'][0] != s        # loop continues when the comparison holds
            if not stay: pr = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pr]
            inv = lambda v: not isinstance(v, int) or v not in f.inst or f.blk[v] not in L.B
            base = lambda v: self.counter(L, v)
            if inv(y) and base(x) is not None: v, cont = base(x), pr
            elif inv(x) and base(y) is not None: v, cont = base(y), {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pr, pr)
            else: return True
            ds = set()
            for _, _, _, _, D, *_ in verdicts:
                d = D.get(v)
                if d is None or d.t: return True
                ds.add(d.c)
            up = all(k > 0 for k in ds); down = all(k < 0 for k in ds)
            if cont in ('slt', 'sle', 'ult', 'ule') and down or cont in ('sgt', 'sge', 'ugt', 'uge') and up: wrong.append((f.where(t), 'down' if down else 'up')); continue
            return True
        if wrong:
            self.c.bad(key % 'direction', '%s: the counter of the loop at %s moves %s, away from the bound its exit waits for' % (short, where, wrong[0][1])); return False
        return True

    def counter(self, L, v):
        f = L.f
        for _ in range(6):
            i = f.inst.get(v) if isinstance(v, int) else None
            if i is None: return None
            if i['o'] == 'phi' and f.blk[v] == L.h: return v
            if i['o'] in ('sext', 'zext', 'trunc', 'freeze'): v = i['a'][0]
            elif i['o'] in ('add', 'sub') and isinstance(i['a'][1], list) and i['a'][1][0] == 'i': v = i['a'][0]
            else: return None
        return None

    def dead_end(self, f, s):
        """the exit only leads to an exception"""
        seen = set(); st = [s]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if f.bbs[b][-1]['o'] == 'ret': return False
            st += f.succ[b]
        return True

    def shifts(self, L, G, key, short, where):
        """v >>= c (arithmetic) until v is zero: never for a negative v."""
        f = L.f
        for ph in L.phis:
            ins = [(x, q) for x, q in ph['in']]
            back = [x for x, q in ins if q in L.latches]; start = [(x, q) for x, q in ins if q not in L.latches]
            if not back or not all(isinstance(x, int) and f.inst.get(x, {}).get('o') == 'ashr' and f.inst[x]['a'][0] == ph['i'] and self.stays(L, f.inst[x]['a'][1]) for x in back): continue
            conds = [f.inst.get(f.bbs[b][-1].get('cond')) if isinstance(f.bbs[b][-1].get('cond'), int) else None for b, s in L.exits() if not self.dead_end(f, s)]
            vals = {ph['i']} | set(back)
            if not conds or not all(i is not None and i['o'] == 'icmp' and i['a'][0] in vals and i['a'][1] == ['i', 0] and i['pr'] in ('eq', 'ne') for i in conds): continue
            for x, q in start:
                if isinstance(x, list): continue
                neg = []
                def at(i, p):
                    if i is not f.bbs[q][-1]: return
                    l = G.lin(p.env.get(x, x) if isinstance(x, int) else x, p.env)
                    if not all(self.outside(a) for a in l.t): neg.append(None); return
                    if any(self.hit(u, {0: l}) for u in p.unk): neg.append(None); return
                    alts = p.alts
                    if i['o'] == 'br' and isinstance(i.get('cond'), int) and i['s'][0] != i['s'][1]:
                        cs = G.cond(i['cond'], i['s'][0] == L.h, p.env)
                        if cs is None: neg.append(None); return
                        alts = [y + z for y in alts for z in cs]
                    for a in alts:
                        if not infeasible(a + self.G.base(a) + [l.scale(-1).plus(-1)]): neg.append(l)
                G.walk(at)
                bad = [l for l in neg if l is not None]
                if bad and None not in neg:
                    self.c.bad(key % 'shift', '%s: the loop at %s shifts %s right until it is zero, which a negative value never becomes' % (short, where, self.fmt(bad[0]))); return False
        return True

    def stays(self, L, v):
        f = L.f
        if isinstance(v, int) and v in f.inst and f.blk[v] in L.B and f.inst[v]['o'] in ('zext', 'sext', 'trunc', 'freeze', 'and'): return all(self.stays(L, x) for x in f.inst[v]['a'])
        return not isinstance(v, int) or v not in f.inst or f.blk[v] not in L.B

    # ---- floating point: scaled until it passes a constant
    def floats(self, L, G, key, short, where):
        f = L.f
        for ph in L.phis:
            if ph['t'] not in ('double', 'float'): continue
            back = [x for x, q in ph['in'] if q in L.latches]; start = [(x, q) for x, q in ph['in'] if q not in L.latches]
            if not back or not all(isinstance(x, int) and f.inst.get(x, {}).get('o') in ('fmul', 'fdiv') and f.inst[x]['a'][0] == ph['i'] and isinstance(f.inst[x]['a'][1], list) for x in back): continue
            real = [(b, s) for b, s in L.exits() if not self.dead_end(f, s)]
            vals = {ph['i']} | set(back); conts = []
            for b, s in real:
                t = f.bbs[b][-1]; i = f.inst.get(t.get('cond')) if isinstance(t.get('cond'), int) else None
                if i is None or i['o'] != 'fcmp' or i['a'][0] not in vals or not isinstance(i['a'][1], list): conts = None; break
                conts.append((i['pr'], t['s'][0] in L.B, float(i['a'][1][1])))
            if not conts: continue
            stays = [x for x in (float('inf'), float('-inf'), 0.0, float('nan')) if all(fcmp(pr, x, k) == w for pr, w, k in conts)]
            for x, q in start:
                if isinstance(x, list): continue
                root = self.froot(f, x)
                for cand in stays:
                    if self.admits(f, L, q, x, root, cand):
                        self.c.bad(key % 'float', '%s: the loop at %s scales a value that can be %s, which stays what it is, and never ends' % (short, where, {0.0: 'zero', float('inf'): 'infinite', float('-inf'): 'minus infinity'}.get(cand, 'not a number'))); return False
        return True

    def froot(self, f, x):
        return x

    def admits(self, f, L, q, x, root, cand):
        """may x be cand at the loop's entry?  Only branch conditions on x itself (or its class) are looked at; a condition of x that is not understood says no."""
        if isinstance(x, int) and x in f.inst and f.inst[x]['o'] not in ('load', 'fpext'): 
            return False
        env = {x: cand}
        same = {x}
        if x in f.inst and f.inst[x]['o'] == 'load':
            same |= {i['i'] for i in f.inst.values() if i['o'] == 'load' and i['p'] == f.inst[x]['p']}
        for v in same: env[v] = cand

        def ev(v, d=0):
            if isinstance(v, list): return float(v[1]) if v[0] == 'f' else v[1] if v[0] == 'i' else None
            if v in env: return env[v]
            i = f.inst.get(v)
            if i is None or d > 12: return None
            a = i.get('a') or []
            if i['o'] == 'fcmp':
                p, r = ev(a[0], d + 1), ev(a[1], d + 1)
                return None if p is None or r is None else fcmp(i['pr'], p, r)
            if i['o'] in ('fpext', 'fptrunc'): return ev(a[0], d + 1)
            if i['o'] == 'fneg': r = ev(a[0], d + 1); return None if r is None else -r
            if i['o'] == 'call' and (callee(i) or '').startswith('llvm.fabs'): r = ev(a[0], d + 1); return None if r is None else abs(r)
            if i['o'] == 'call' and (callee(i) or '').startswith('llvm.is.fpclass'):
                r = ev(a[0], d + 1)
                if r is None or not isinstance(a[1], list): return None
                k = (3 if r != r else 0x200 if r == float('inf') else 4 if r == float('-inf') else 0x60 if r == 0 else 0x198); return bool(a[1][1] & k)
            if i['o'] in ('xor', 'and', 'or') and i['t'] == 'i1':
                p, r = ev(a[0], d + 1), ev(a[1], d + 1)
                if i['o'] == 'xor': return None if p is None or r is None else bool(p) != bool(r)
                if i['o'] == 'and': return False if p is False or r is False else None if p is None or r is None else True
                return True if p is True or r is True else None if p is None or r is None else False
            if i['o'] == 'select': cnd = ev(a[0], d + 1); return None if cnd is None else ev(a[1] if cnd else a[2], d + 1)
            return None

        def uses(v, d=0):
            if v in env: return True
            i = f.inst.get(v) if isinstance(v, int) else None
            return bool(i) and d < 12 and any(uses(y, d + 1) for y in operands(i) if isinstance(y, int))
        seen = set(); st = [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b == L.h: return True
            t = f.bbs[b][-1]
            if t['o'] == 'br' and isinstance(t.get('cond'), int) and t['s'][0] != t['s'][1] and (f.dominates(b, L.h) or uses(t['cond'])):
                r = ev(t['cond'])
                if r is None:
                    if uses(t['cond']): return False
                    st += f.succ[b]
                else: st.append(t['s'][0 if r else 1])
            else: st += f.succ[b]
        return False


def fcmp(pr, a, b):
    nan = a != a or b != b
    o = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
    if pr in ('ord', 'uno'): return nan == (pr == 'uno')
    if pr == 'false': return False
    if pr == 'true': return True
    return nan if pr[0] == 'u' and nan else (False if nan else o[pr[1:]])


def run():
    c = Check('T01', TITLE, RULE); m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    T = T01(m, c); T.und = []; fns = 0; c.stats.update(functions=0, loops=0, undecided=0)
    mine = [f for f in m.defined() if f.src.startswith(LIB) and not VENDOR.search(f.d + f.rel) and 'Test.hpp' not in f.src]
    for f in mine:
        c.stats['functions'] += 1
        heads = sorted(set(s for b in range(len(f.bbs)) for s in f.succ[b] if f.dominates(s, b)))
        short = re.sub(r'\bJava::(Lang|Util|Net|Security|Text|IO)::', '', f.d)
        for h in heads:
            L = Loop(f, h)
            if not L.own(): continue
            c.stats['loops'] += 1
            try: T.loop(L, short)
            except (KeyError, TypeError, IndexError, AttributeError, RecursionError, ValueError) as e: T.und.append('%s: %r' % (short, e))
    recursion(m, mine, T, c)
    c.stats['undecided'] = len(T.und); c.samples = T.und[:25]
    c.require(c.stats['loops'] > 250, 'loops of the library')
    c.assume += ['containers are finite and iterators reach their end', 'a failed compare-and-set or lock attempt eventually succeeds']
    return c.finish()


def recursion(m, mine, T, c):
    """functions that return only through a call of their own group"""
    by = {f.n: f for f in mine}; cg = {}
    for f in mine:
        out = {}
        for i in f.inst.values():
            if i['o'] in ('call', 'invoke') and 'intr' not in i:
                k = callee(i) or T.R.vcall(f, i); k = m.alias.get(k, k) if k else None
                if k in by: out.setdefault(k, []).append(i)
        cg[f.n] = out
    # greatest set of functions all of whose returns lie behind a call into the set
    S = {n for n in cg if cg[n]}
    while True:
        drop = set()
        for n in S:
            f = by[n]; stop = {f.blk[i['i']] for k, l in cg[n].items() if k in S for i in l}
            seen = set(); st = [0]
            while st:
                b = st.pop()
                if b in seen or b in stop: continue
                seen.add(b)
                if f.bbs[b][-1]['o'] == 'ret': drop.add(n); break
                st += f.succ[b]
            if not any(f.bbs[b][-1]['o'] == 'ret' for b in range(len(f.bbs))): drop.add(n)
        if not drop: break
        S -= drop
    cyc = lambda n: reach_self(n, cg, S)
    for n in sorted(S):
        if cyc(n): c.bad('%s:recursion' % by[n].d, '%s calls itself on every path to its return (%s:%d): the call never comes back' % (by[n].d, by[n].rel, by[n].line))
    c.stats['recursion'] = len(cg); c.ok()


def reach_self(n, cg, S):
    seen = set(); st = [k for k in cg[n] if k in S]
    while st:
        k = st.pop()
        if k == n: return True
        if k in seen: continue
        seen.add(k); st += [x for x in cg.get(k, {}) if x in S]
    return False
