"""V01: remembered texts and hashes always describe the current value."""
from own import classof, simple
from effects import *
import v05, m02

TITLE = 'Remembered text always describes the current value'
RULE = ('transfer summaries over {coherent, stale} for every member of a class with a remembered text: a member that changes the value leaves the text '
        'remade from the new value (same formats in every member), or the text is remade wherever it is read; fixpoint over all public members')
WRAP = ['Java::Lang::' + x for x in ('Bytes', 'Short', 'Integer', 'Long', 'Float', 'Double')]
C, S = 'coherent', 'stale'
FMT = re.compile(r'^(asprintf|sprintf|snprintf|vasprintf|vsprintf|vsnprintf)$')


def caches_of(m, cls):
    base = re.sub(r'<.*', '', cls)
    names = set(sum((v05.CACHES.get(k, []) for k in [base] + v05.bases(m, cls)), []))
    if base in WRAP: names.add('originalString')
    return [x for x in m.fields(cls, virt=True) if x[2] in names]


def static_slice(f, P, v, memo):
    """ids of the instructions value v may depend on (through locals too), constants as ('c', x)."""
    if not isinstance(v, int): return frozenset([('c', str(v))])
    if v in memo: return memo[v]
    out = set(); st = [v]; writers = memo.get('writers')
    if writers is None:
        writers = memo['writers'] = {}
        for i in f.inst.values():
            if i['o'] == 'store': tgt = [i['p']]
            elif i['o'] in ('call', 'invoke'): tgt = [a for j, a in enumerate(i['a']) if i['pt'][j] == 'ptr']
            else: continue
            for t in tgt:
                for p in P.of(t):
                    r = root(p)
                    if r[0] not in ('A', 'G'): writers.setdefault(r, set()).add(i['i'])
    while st:
        x = st.pop()
        if not isinstance(x, int):
            out.add(('c', str(x))); continue
        if x in out: continue
        out.add(x)
        d = f.inst.get(x)
        if not d: continue
        ops = list(operands(d))
        if d['o'] == 'store': ops.append(d['val'])
        st += [o for o in ops if isinstance(o, int) or d['o'] in ('store', 'call', 'invoke')]
        if d['o'] in ('call', 'invoke', 'load', 'getelementptr', 'alloca'):
            for a in ([d['p']] if 'p' in d else []) + ([x] if d['t'] == 'ptr' else []) + (d['a'] if d['o'] in ('call', 'invoke') else []):
                if isinstance(a, int):
                    for p in P.of(a): st += list(writers.get(root(p), ()))
    memo[v] = frozenset(out)
    return memo[v]


class Coh:
    def __init__(self, m, fns, cls, cache, fl):
        self.m, self.fns, self.cls, self.cache, self.fl = m, fns, cls, cache, fl
        self.content = [x for x in fl if x is not cache]
        self.memo = {}; self.wmemo = {}; self.P = {}
        self.strong = cache[3].rstrip().endswith('*')
        self.formats = {}

    def paths(self, f):
        if f.n not in self.P: self.P[f.n] = Paths(f)
        return self.P[f.n]

    def summary(self, n, k):
        """{entry: frozenset(exits)}, set of (site) reading the stale text per entry; of argument k's object."""
        n = self.m.alias.get(n, n); key = (n, k)
        if key in self.memo: return self.memo[key]
        self.memo[key] = ({C: frozenset([C]), S: frozenset([S])}, {C: None, S: None}, {C: None, S: None})
        f = self.fns[n]; out = {}; rd = {}; why = {}
        for _ in range(3):
            for e in (C, S): out[e], rd[e], why[e] = self.run(f, k, e)
            new = (dict(out), dict(rd), dict(why))
            if new[0] == self.memo[key][0]: self.memo[key] = new; break
            self.memo[key] = new
        return self.memo[key]

    def touches(self, f, k):
        key = ('t', f.n, k)
        if key not in self.memo: self.memo[key] = bool(m02.writes(self.m, self.fns, f.n, k, self.wmemo)) or self.reader(f, k)
        return self.memo[key]

    def reader(self, f, k, depth=0):
        P = self.paths(f); lo, hi = self.cache[0], self.cache[0] + self.cache[1]
        for i in f.inst.values():
            vs = [i['p']] if i['o'] == 'load' else [a for j, a in enumerate(i['a']) if i['pt'][j] == 'ptr'] if i['o'] in ('call', 'invoke') else []
            for v in vs:
                for p in P.of(v):
                    x = m02.member(p, k)
                    if x is not None and x != 'all' and lo <= x < hi: return True
                    if x is not None and base_off(p) == (('A', k), 0) and i['o'] in ('call', 'invoke'):
                        n = self.m.alias.get(callee(i), callee(i))
                        if n in self.fns and depth < 4 and n != f.n and any(self.reader(self.fns[n], j, depth + 1) for j, a in enumerate(i['a']) if i['pt'][j] == 'ptr' and a == v): return True
        return False

    def run(self, f, k, entry):
        P = self.paths(f); lo, hi = self.cache[0], self.cache[0] + self.cache[1]; m = self.m
        sl = {}; res = set(); stale_read = []; lastw = []
        content = [(x[0], x[0] + x[1]) for x in self.content]
        blocks = set()      # blocks the text pointer is set to
        for i in f.inst.values():
            if self.strong and i['o'] == 'store' and any(base_off(p) == (('A', k), lo) for p in P.of(i['p'])):
                blocks |= {p for p in P.of(i['val']) if root(p)[0] not in ('A', 'G')}
        own = f.d and classof(f.d)[0] == self.cls and classof(f.d)[1] in (simple(self.cls), 'operator=')
        copied = own and not (k == (1 if f.args and f.args[0][2] else 0))       # the object copied from

        def fresh_of(i):
            """is this instruction a reading of the content?"""
            if i['o'] == 'load': vs = [i['p']]
            elif i['o'] in ('call', 'invoke'): vs = [a for j, a in enumerate(i['a']) if i['pt'][j] == 'ptr']
            else: return False
            for v in vs:
                for p in P.of(v):
                    x = m02.member(p, k)
                    if x == 'all': return True
                    if x is not None and not lo <= x < hi: return True
                    if root(p)[0] == 'A' and root(p)[1] != k and m02.member(p, root(p)[1]) == lo: return True      # the text of the object copied from
            return False
        fr = {i['i']: fresh_of(i) for i in f.inst.values()}
        plan = {}
        for i in f.inst.values():
            o = i['o']; acts = []
            if o in ('call', 'invoke'):
                n = callee(i); a = m.alias.get(n, n) if n else None
                d = (m.dem.get(n, n) or '') if n else ''
                en = ext_name(n) if n else ''
                subs = []
                if a in self.fns:
                    for j, x in enumerate(i['a']):
                        if i['pt'][j] == 'ptr' and any(base_off(p) == (('A', k), 0) for p in P.of(x)) and self.touches(self.fns[a], j): subs.append(j)
                if subs: acts.append(('sub', a, subs[0]))
                elif en in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm') or '::~' in d: pass
                else:
                    w = m02.iwrites(m, self.fns, f, P, i, k, self.wmemo)
                    wc = any(l < hi and h > lo for l, h in w) or self.into(f, P, i, blocks); wv = any(l < b and h > a_ for l, h in w for a_, b in content)
                    if wv: acts.append(('value', None))
                    if wc:
                        if self.strong: acts.append(('fill', [x for j, x in enumerate(i['a'])]))
                        elif re.search(r'::(operator\+=|append|push_back)', d): acts.append(('grow',))
                        else: acts.append(('fill', None))
                    if not wc:
                        for j, x in enumerate(i['a']):
                            if i['pt'][j] == 'ptr' and not (j and i['pt'][0] == 'ptr' and re.search(r'::(\w+)(<.*>)?::\1\(|operator=\(', d) and any(base_off(p)[1] == lo and root(p) != ('A', k) for p in P.of(i['a'][0]))) and any(m02.member(p, k) is not None and m02.member(p, k) != 'all' and lo <= m02.member(p, k) < hi for p in P.of(x)): acts.append(('read',)); break
                    f_ = self.fmts(f, i)
                    if wc and f_ and entry == C: self.formats.setdefault(f.d, set()).update(f_)
            elif o in ('store', 'atomicrmw', 'cmpxchg'):
                w = m02.iwrites(m, self.fns, f, P, i, k, self.wmemo)
                direct = any(base_off(p)[0] == ('A', k) for p in P.of(i['p']))
                if any(l < hi and h > lo for l, h in w):
                    acts.append(('point' if self.strong and direct else 'fill', [i.get('val')]))
                if any(l < b and h > a_ for l, h in w for a_, b in content): acts.append(('value', i.get('val')))
            elif o == 'load' and not self.strong:
                for p in P.of(i['p']):
                    x = m02.member(p, k)
                    if x is not None and x != 'all' and lo <= x < hi: acts.append(('read',)); break
            elif o == 'ret': acts.append(('ret',))
            if self.strong and o in ('ret',) and i['a'] and isinstance(i['a'][0], int):
                if any(m02.member(p, k) == lo for p in P.of(i['a'][0])): acts.insert(0, ('read',))
            if acts: plan[i['i']] = acts

        def depends(vals, fresh):
            cs = [x[1] for x in fresh if isinstance(x, tuple)]
            if cs and any(isinstance(t, tuple) and self.text(t[1]) == self.num(cs[0]) for v in vals or () if v is not None for t in static_slice(f, P, v, sl)): return True
            for v in vals or ():
                if v is None: continue
                s = static_slice(f, P, v, sl)
                if s & fresh: return True
            return False

        def step(i, st, env, ce):
            s, fresh = st; after = [st]
            acts = plan.get(i['i'])
            if fr.get(i['i']): fresh = fresh | {i['i']}
            cur = {s}
            for a in acts or ():
                if a[0] == 'sub':
                    out, rd, why = self.summary(a[1], a[2])
                    nc = set()
                    for x in cur:
                        if rd[x] and not copied and not stale_read: stale_read.append((i, rd[x]))
                        nc |= out[x]
                        if x == C and S in out[x]: lastw.append((i, why[C]))
                    cur = nc; fresh = fresh | {i['i']}
                elif a[0] == 'value':
                    cur = {S}; lastw.append((i, None))
                    fresh = frozenset(self.origins(f, P, a[1], sl)) | frozenset([i['i']] + ([a[1]] if isinstance(a[1], int) else [('c', str(a[1]))] if a[1] is not None else []))
                elif a[0] == 'fill':
                    if not self.strong or depends(a[1], fresh): cur = {C}
                elif a[0] == 'point':
                    if depends(a[1], fresh): cur = {C}
                elif a[0] == 'read' and not copied and S in cur and not stale_read: stale_read.append((i, None))
                elif a[0] == 'ret': res.update((x, i['i']) for x in cur)
            r = [(x, fresh) for x in cur]
            if i['o'] == 'invoke': return r, []
            return r
        init = frozenset()
        explore(f, (entry, init), step)
        ex = frozenset(x for x, _ in res) or frozenset([entry])
        why = None
        if S in ex and lastw:
            i, w = lastw[-1]; why = w or f.where(i)
        rd = None
        if stale_read:
            i, w = stale_read[0]; rd = w or f.where(i)
        return ex, rd, why

    def origins(self, f, P, v, memo):
        """what made the local object a value is taken from (its text is taken from there too)."""
        d = f.inst.get(v) if isinstance(v, int) else None
        if not d or d['o'] != 'load': return ()
        static_slice(f, P, v, memo)
        return [w for p in P.of(d['p']) for w in memo['writers'].get(root(p), ()) if f.inst[w]['o'] in ('call', 'invoke')]

    def into(self, f, P, i, blocks):
        if not blocks: return False
        n = callee(i)
        for j, a in enumerate(i['a']):
            if i['pt'][j] != 'ptr' or not any(p in blocks or base_off(p)[0] in blocks for p in P.of(a)): continue
            a_ = self.m.alias.get(n, n) if n else None
            if n and (ext_name(n) in ('llvm.memcpy', 'llvm.memmove', 'memcpy', 'strcpy', 'strncpy') and j == 0 or FMT.match(ext_name(n)) and j == 0 or a_ in self.fns): return True
        return False

    def text(self, s):
        try: v = json.loads(s.replace("'", '"'))
        except ValueError: return None
        t = gtext(self.m, v[1]) if isinstance(v, list) and v and v[0] == 'g' else None
        return t

    def num(self, s):
        r = re.match(r"\['[if]', '?(-?[\d.]+)'?\]", s)
        return r.group(1) if r else None

    def fmts(self, f, i):
        if not FMT.match(callee(i) or ''): return []
        out = []
        for a in i['a']:
            if isinstance(a, list) and a[0] == 'g':
                t = gtext(self.m, a[1])
                if t and '%' in t: out.append(t)
        return out


def gtext(m, n):
    init = (m.globals.get(n) or {}).get('init')
    if isinstance(init, list) and init and init[0] == 's': return str(init[1]).rstrip('\0')
    return json.dumps(init) if init else None


def run():
    c = Check('V01', TITLE, RULE)
    m = module(harness=['instances.cpp', 'copies.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    fns = {f.n: f for f in m.defined(thunks=True)}
    c.stats.update(remembered=0, members=0, formats=0, undecided=0)
    members = {}
    for f in m.defined():
        if f.src.startswith((LIB, VERIF)) and 'Test.hpp' not in f.src and 'cuckoo' not in f.d and 'moodycamel' not in f.d:
            cls, nm = classof(f.d)
            if cls: members.setdefault(cls, []).append((f, nm))
    for cls in sorted(members):
        if cls not in m.types: continue
        for cache in caches_of(m, cls):
            fl = [x for x in m.fields(cls, virt=True) if not x[2].startswith('_vptr') and x[1] > 0 and not v05.SYNC.search(x[3])]
            cache = next((x for x in fl if x[0] == cache[0]), None)
            if not cache or len(fl) < 2: continue
            c.stats['remembered'] += 1
            K = Coh(m, fns, cls, cache, fl)
            pub = {x['n'] if isinstance(x.get('n'), str) else None for x in m.types[cls]['methods']}
            acc = {x['link']: x['acc'] for x in m.types[cls]['methods']}
            reach = {C: 'construction'}; leave = None; reader = None; sums = []
            for f, nm in sorted(members[cls], key=lambda x: x[0].d):
                if f.n.startswith('_ZTv') or f.n.startswith('_ZTh'): continue
                ps = [p for p in params(f.d) if p != 'void']; off = len(f.args) - len(ps); a0 = 1 if f.args and f.args[0][2] else 0
                if off - a0 < 1: continue
                try: s = K.summary(f.n, a0)
                except Broken: c.stats['undecided'] += 1; continue
                c.stats['members'] += 1
                a = acc.get(f.n) or acc.get(f.n.replace('C2E', 'C1E'))
                sums.append((f, nm, s, a))
            name = '%s::%s' % (cls, cache[2])
            bad = []
            for f, nm, (out, rd, why), a in sums:
                if nm.startswith('~') or a in ('private', 'protected'): continue
                e = S if nm == simple(cls) else C
                if S in out[e] and not (nm == simple(cls) and not K.strong): bad.append((f, why[e] if e == C or why[S] else None))
            readers = [(f, rd[S]) for f, nm, (out, rd, why), a in sums if rd[S] and not nm.startswith('~') and nm not in (simple(cls), 'operator=')]
            inner = [(f, rd[C]) for f, nm, (out, rd, why), a in sums if rd[C] and not nm.startswith('~')]
            stale = any(S in out[S if nm == simple(cls) else C] for f, nm, (out, rd, why), a in sums if not nm.startswith('~') and a not in ('private', 'protected'))
            c.samples.append('%s: %s' % (name, 'kept up by %d members' % (len(sums) - len(bad)) if readers else 'remade at every reading'))
            if readers:
                for f, w in bad:
                    c.bad('%s:%s' % (f.d, cache[2]), '%s can return with %s still describing an earlier value (value changed at %s); %s hands it out at %s'
                          % (f.d, cache[2], w or f.rel, readers[0][0].d, readers[0][1]))
                for _ in range(len(sums) - len(bad)): c.ok()
            else:
                for f, w in inner:
                    c.bad('%s:%s:read' % (f.d, cache[2]), '%s hands out %s at %s before remaking it' % (f.d, cache[2], w))
                c.ok()
            if re.sub(r'<.*', '', cls) in WRAP:
                fm = {k: frozenset(v) for k, v in K.formats.items() if v}
                c.stats['formats'] += len(fm)
                own = [v for k, v in sorted(fm.items()) if classof(k)[1] == simple(cls)]
                ref = max(set(own), key=own.count) if own else None
                for k, v in sorted(fm.items()):
                    if ref and v != ref: c.bad('%s:format' % k, '%s writes the text with %s, the constructors with %s' % (k, sorted(v), sorted(ref)))
                    else: c.ok()
    c.require(c.stats['remembered'] >= 8, 'remembered texts')
    c.assume += ['the C library formats the value it is given', 'no member is left by an exception half-way (another property)']
    return c.finish()
