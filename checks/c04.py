"""C04: the concurrent containers' operations are single steps."""
from sa import *

TITLE = 'Operations of the concurrent containers are single atomic steps'
RULE = ('every operation of ConcurrentHashMap and ConcurrentLinkedQueue is evaluated symbolically over all its paths, each call into the underlying container being one step with its own '
        'outcome (element present or not, its value), closures handed to a step evaluated inside it; on every path the result and the change made must be those of the documented operation '
        'applied at one single step, with at most one changing step; whole-map walks touch elements only while the table is locked')
MAP = 'Java::Util::Concurrent::ConcurrentHashMap<'
QUE = 'Java::Util::Concurrent::ConcurrentLinkedQueue<'


class Undecided(Exception): pass


class Path:
    def __init__(self): self.mem = {}; self.env = {}; self.steps = []; self.known = {}; self.eff = []; self.tables = {}; self.faults = []

    def copy(self):
        q = Path(); q.mem = dict(self.mem); q.env = dict(self.env); q.steps = list(self.steps); q.known = dict(self.known); q.eff = list(self.eff); q.tables = dict(self.tables); q.faults = list(self.faults)
        return q


def opname(d):
    """member of the container a demangled name calls, or None."""
    m = re.search(r'(?:cuckoohash_map|ConcurrentQueue)<', d)
    if not m or 'locked_table::' in d and 'lock_table' not in d: pass
    if not m: return None
    k = m.end(); depth = 1
    while k < len(d) and depth:
        c = d[k]
        if c == '<': depth += 1
        elif c == '>' and d[k - 1] != '-': depth -= 1
        k += 1
    r = d[k:]
    if not r.startswith('::'): return None
    return r[2:]


def neg(b): return not b if isinstance(b, bool) else b[1] if b[0] == 'not' else ('not', b)


class Eval:
    def __init__(self, m, limit=400):
        self.m = m; self.limit = limit; self.count = 0; self.fresh = 0

    # ---- values: ('ptr', root, off), ('obj value') in mem, bools as True/False/('eq',a,b)/('present',n)/('not',b), ints
    def val(self, p, v):
        if isinstance(v, int): return p.env.get(v, ('?', v))
        if v[0] == 'i': return v[1]
        if v[0] == 'n': return ('null',)
        if v[0] == 'g': return ('ptr', ('g', v[1]), v[2] if len(v) > 2 and isinstance(v[2], int) else 0)
        return ('?',)

    def run(self, f, args, p, depth=0):
        """-> [(path, kind, value)]"""
        if depth > 8 or not f.has: raise Undecided('call of ' + f.d[-120:])
        q = p.copy(); q.env = {k: a for k, a in enumerate(args)}
        out = []; self.block(f, 0, None, q, out, depth, {})
        for z, _, _ in out: z.env = p.env
        return out

    def block(self, f, b, prev, p, out, depth, visits):
        while True:
            self.count += 1
            if self.count > 4000: raise Undecided('too many paths')
            visits = dict(visits); visits[b] = visits.get(b, 0) + 1
            if visits[b] > 3: return                      # further passes behave as the ones seen
            new = {}
            for i in f.bbs[b]:
                if i['o'] == 'phi':
                    for v, pb in i['in']:
                        if pb == prev: new[i['i']] = self.boolish(i, self.val(p, v))
            p.env.update(new)
            r = self.insts(f, b, 0, p, out, depth, visits)
            if r is None: return
            prev, b, p = r

    def boolish(self, i, v): return bool(v) if i['t'] == 'i1' and isinstance(v, int) else v

    def truth(self, p, c):
        """-> known truth of condition c on path p, or None"""
        if isinstance(c, bool): return c
        if isinstance(c, int): return bool(c)
        if isinstance(c, tuple) and c[0] == 'not':
            t = self.truth(p, c[1]); return None if t is None else not t
        return p.known.get(c)

    def split(self, p, c):
        t = self.truth(p, c)
        if t is not None: return [(p, t)]
        while isinstance(c, tuple) and c[0] == 'not': return [(q, not t) for q, t in self.split(p, c[1])]
        a, b = p.copy(), p.copy(); a.known[c] = True; b.known[c] = False
        return [(a, True), (b, False)]

    def insts(self, f, b, k, p, out, depth, visits):
        bb = f.bbs[b]
        while k < len(bb):
            i = bb[k]; o = i['o']
            if o == 'phi': k += 1; continue
            if o == 'alloca': p.env[i['i']] = ('ptr', ('al', f.n, i['i'], depth), 0)
            elif o == 'getelementptr':
                v = self.val(p, i['p'])
                if i.get('var') and any(not isinstance(x, int) or x for x in i['var']) : v = ('?',)
                p.env[i['i']] = ('ptr', v[1], v[2] + (i['off'] or 0)) if v[0] == 'ptr' else ('?',)
            elif o == 'load':
                v = self.val(p, i['p'])
                r = p.mem.get(v[1:]) if v[0] == 'ptr' else None
                if r is None and v == ('ptr', ('this',), 0) and i['t'] == 'ptr': r = ('ptr', ('vt',), 0)
                elif r is None and v[0] == 'ptr' and v[1] == ('vt',): r = ('vfn', v[2])
                p.env[i['i']] = ('?', f.n, i['i']) if r is None else r
            elif o == 'store':
                v = self.val(p, i['p'])
                if v[0] == 'ptr': p.mem[v[1:]] = self.val(p, i['val'])
            elif o in ('trunc', 'zext', 'sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                v = self.val(p, i['a'][0])
                if o == 'trunc' and i['t'] == 'i1' and isinstance(v, int): v = bool(v & 1)
                p.env[i['i']] = v
            elif o == 'xor' and any(x == ['i', -1] or x == ['i', 1] for x in i['a'] if isinstance(x, list)) and i['t'] in ('i1', 'i8'):
                v = next(self.val(p, x) for x in i['a'] if not isinstance(x, list)); p.env[i['i']] = neg(v) if isinstance(v, bool) or v[0] in ('eq', 'present', 'not') else ('?',)
            elif o in ('and', 'or') and i['t'] in ('i1', 'i8'):
                x, y = self.val(p, i['a'][0]), self.val(p, i['a'][1])
                if isinstance(y, int) and not isinstance(y, bool) and o == 'and': p.env[i['i']] = x
                else:
                    # decide the first operand now
                    for q, t in self.split(p, x):
                        q.env[i['i']] = (y if t else False) if o == 'and' else (True if t else y)
                        r = self.insts(f, b, k + 1, q, out, depth, visits)
                        if r is not None: self.block(f, r[1], r[0], r[2], out, depth, visits)
                    return None
            elif o == 'icmp':
                x, y = self.val(p, i['a'][0]), self.val(p, i['a'][1])
                if isinstance(y, int) and isinstance(x, tuple) and x[0] in ('eq', 'present', 'not') and y == 0 and i['pr'] in ('eq', 'ne'): p.env[i['i']] = neg(x) if i['pr'] == 'eq' else x
                elif isinstance(x, int) and isinstance(y, int) and i['pr'] in ('eq', 'ne'): p.env[i['i']] = (x == y) == (i['pr'] == 'eq')
                elif x and y and isinstance(x, tuple) and x[:1] == ('typeid',) and y == ('selector',) or isinstance(y, tuple) and y[:1] == ('typeid',) and x == ('selector',):
                    t = x if x[0] == 'typeid' else y; p.env[i['i']] = t[1] in ('_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception')
                elif isinstance(x, tuple) and x[0] == 'size' and y == 0 and i['pr'] in ('eq', 'ne', 'sgt', 'ugt', 'sle', 'ule'): p.env[i['i']] = ('empty', x[1]) if i['pr'] in ('eq', 'sle', 'ule') else ('not', ('empty', x[1]))
                elif isinstance(x, tuple) and x[0] == 'size' and y == 1 and i['pr'] in ('slt', 'ult', 'sge', 'uge'): p.env[i['i']] = ('empty', x[1]) if i['pr'] in ('slt', 'ult') else ('not', ('empty', x[1]))
                else: p.env[i['i']] = ('cmp', i['pr'], x, y)
            elif o == 'select':
                c = self.val(p, i['a'][0])
                for q, t in self.split(p, c):
                    q.env[i['i']] = self.boolish(i, self.val(q, i['a'][1 if t else 2]))
                    r = self.insts(f, b, k + 1, q, out, depth, visits)
                    if r is not None: self.block(f, r[1], r[0], r[2], out, depth, visits)
                return None
            elif o == 'landingpad': p.env[i['i']] = ('exc',)
            elif o == 'extractvalue': p.env[i['i']] = ('selector',) if i.get('ix') == [1] and self.val(p, i['a'][0]) == ('exc',) else ('excptr',)
            elif o in ('insertvalue', 'fence'): p.env[i['i']] = ('exc',)
            elif o in ('call', 'invoke'):
                res = self.call(f, i, p, depth)
                for q, kind, v in res:
                    if kind == 'throw':
                        if o == 'invoke': self.block(f, i['u'], b, q, out, depth, visits)
                        else: out.append((q, 'throw', v))
                        continue
                    q.env[i['i']] = self.boolish(i, v)
                    if o == 'invoke': self.block(f, i['n'], b, q, out, depth, visits); continue
                    r = self.insts(f, b, k + 1, q, out, depth, visits)
                    if r is not None: self.block(f, r[1], r[0], r[2], out, depth, visits)
                return None
            elif o == 'br':
                if 'cond' not in i or i['cond'] is None: return (b, i['s'][0], p)
                c = self.val(p, i['cond'])
                for q, t in self.split(p, c): self.block(f, i['s'][0 if t else 1], b, q, out, depth, visits)
                return None
            elif o == 'ret':
                v = self.val(p, i['a'][0]) if i['a'] else None
                out.append((p, 'ret', v)); return None
            elif o == 'resume': out.append((p, 'throw', None)); return None
            elif o == 'unreachable': return None
            elif o == 'switch': raise Undecided('switch')
            else: p.env[i['i']] = ('?', f.n, i['i'])
            k += 1
        return None

    def call(self, f, i, p, depth):
        n = callee(i); a = [self.val(p, x) for x in i['a']]
        if n is None and isinstance(i.get('f'), int) and self.val(p, i['f'])[0] == 'vfn': n = self.virtual(f, self.val(p, i['f'])[1])
        if n is None:
            if ('ptr', ('this',), 0) in a: raise Undecided('virtual call')
            return [(p, 'ret', ('?', f.n, i['i']))]
        d = self.m.dem.get(n, n) or n
        if n.startswith('llvm.eh.typeid') : return [(p, 'ret', ('typeid', i['a'][0][1]))]
        if n.startswith('llvm.mem') and a and a[0][0] == 'ptr':
            if n.startswith('llvm.memset') : p.mem[a[0][1:]] = 0
            elif len(a) > 1 and a[1][0] == 'ptr':
                for (r, o), v in list(p.mem.items()):
                    if r == a[1][1] and o >= a[1][2]: p.mem[(a[0][1], o - a[1][2] + a[0][2])] = v
            return [(p, 'ret', None)]
        if n.startswith(('llvm.', '__cxa_begin', '__cxa_end')): return [(p, 'ret', None)]
        op = opname(d.split('(')[0] if '::lambda' not in d else d)
        base = re.match(r'[^(]*', opname(d) or '').group(0) if opname(d) else None
        if base is not None:
            base = re.match(r'(?:locked_table::)?[\w~]+|operator', base)
            base = base.group(0) if base else ''
            return self.step(f, i, d, base, a, p, depth)
        g = self.m.fn(n)
        if d == '__cxa_throw': return [(p, 'throw', None)]
        if d.startswith(MAP) or d.startswith(QUE):
            if g is None or not g.has: raise Undecided(d[-100:])
            return self.run(g, a, p, depth + 1)
        # element operations
        m = re.match(r'(?:.*::)?(\w+)::(~?\w+|operator\s?[=!]=?|operator=)\((.*)\)', d)
        if m:
            cls, name, ps = m.groups()
            if name.startswith('~'): return [(p, 'ret', None)]
            if name == cls and a and a[0][0] == 'ptr':
                if not ps: p.mem[a[0][1:]] = ('def',)
                elif len(a) == 2 and a[1][0] == 'ptr' and re.match(r'(.*::)?%s(?: const)?&+$' % cls, ps): p.mem[a[0][1:]] = self.obj(p, a[1])
                else: p.mem[a[0][1:]] = ('?', f.n, i['i'])
                return [(p, 'ret', a[0])]
            if name == 'operator=' and len(a) == 2 and a[0][0] == 'ptr':
                v = self.obj(p, a[1]); self.assign(p, a[0], v)
                return [(p, 'ret', a[0])]
            if name in ('operator==', 'operator!=') and len(a) == 2:
                e = ('eq',) + tuple(sorted((self.obj(p, a[0]), self.obj(p, a[1])), key=repr))
                if e[1] == e[2]: e = True
                return [(p, 'ret', e if name == 'operator==' else neg(e))]
        if g is not None and g.has and g.src.startswith(LIB) and 'lambda' in d: return self.run(g, a, p, depth + 1)
        return [(p, 'ret', ('?', f.n, i['i']))]

    def virtual(self, f, off):
        """the member of f's own class in slot off of its virtual table"""
        g = max((x for x in self.m.globals if x.startswith('_ZTVN') and re.match(r'_ZNK?' + re.escape(x[5:-1]), f.n)), key=len, default=None)
        if g is None: return None
        vt = self.m.vtable(g[4:]); ti = [x for x, n in enumerate(vt) if n and n.startswith('_ZTI')]
        k = (ti[0] + 1 if ti else 2) + off // 8; t = vt[k] if 0 <= k < len(vt) else None
        return self.m.alias.get(t, t) if t else None

    def obj(self, p, v):
        if v[0] != 'ptr': return v
        return p.mem.get(v[1:], ('at',) + v[1:])

    def assign(self, p, dst, v):
        if isinstance(dst[1], tuple) and dst[1][0] == 'cur': p.eff.append((dst[1][1], 'assign', v))
        p.mem[dst[1:]] = v

    def closure(self, d, a, key, tail):
        """the library lambda handed to a step and the pointer to its captures -> (fn, list of stores)"""
        t = d
        cand = [g for g in self.m.defined(thunks=True) if "'lambda" in g.d and (g.d.startswith(MAP) or g.d.startswith(QUE)) and g.d.split("::operator()")[0].rsplit("'lambda", 1)[0] in t]
        cand = [g for g in cand if g.d.split('::operator()')[0] in t]
        if len(cand) != 1: raise Undecided('closure of ' + d[:80])
        return cand[0], a[key + 1:len(a) - tail]

    def call_closure(self, d, a, key, tail, p, n, depth):
        g, parts = self.closure(d, a, key, tail)
        offs = [i['off'] for i in g.inst.values() if i['o'] == 'getelementptr' and i['p'] == 0] + [0]
        k = max(offs) // 8 + 1
        self.fresh += 1; root = ('clo', self.fresh)
        q = p.copy()
        if len(parts) == 1 and k > 2: cl = parts[0]
        elif len(parts) >= k or len(parts) == 1 and k == 1:
            for j, x in enumerate(parts): q.mem[(root, 8 * j)] = x
            cl = ('ptr', root, 0)
        elif len(parts) == 1: cl = parts[0]
        else: raise Undecided('captures')
        cur = ('ptr', ('cur', n), 0); q.mem[cur[1:]] = ('old', n)
        return self.run(g, [cl, cur], q, depth + 1)

    def step(self, f, i, d, op, a, p, depth):
        """one call into the container."""
        p = p.copy(); sret = 1 if i['t'] == 'void' and i.get('pt') and self.sret(i) else 0
        n = len(p.steps); par = a[sret:]
        pres = ('present', n)
        if op in ('capacity', 'bucket_count', 'hashpower', 'load_factor', 'max_num_worker_threads', 'slot_per_bucket'): return [(p, 'ret', ('other', op))]
        if op in ('size', 'size_approx'): p.steps.append(op); return [(p, 'ret', ('size', n))]
        if op == 'empty': p.steps.append(op); return [(p, 'ret', ('empty', n))]
        if op == 'clear': p.steps.append(op); p.eff.append((n, 'clear')); return [(p, 'ret', None)]
        if op == 'lock_table' and a[0][0] == 'ptr': p.steps.append(op); p.tables[a[0][1:]] = n; return [(p, 'ret', a[0])]
        if op == 'locked_table::clear': p.eff.append((p.tables.get(par[0][1:], n), 'clear')); return [(p, 'ret', None)]
        if op == 'locked_table::size': return [(p, 'ret', ('size', p.tables.get(par[0][1:], n)))]
        if op == 'locked_table::empty': return [(p, 'ret', ('empty', p.tables.get(par[0][1:], n)))]
        if op.startswith('locked_table') or op.startswith('~') or op.startswith('cuckoohash_map') or op == 'ConcurrentQueue': return [(p, 'ret', ('?', f.n, i['i']))]
        K = lambda x: self.obj(p, x)
        tq = []
        if op in ('find', 'contains', 'find_fn', 'insert', 'insert_or_assign', 'upsert', 'uprase_fn', 'erase', 'erase_fn', 'update', 'update_fn', 'enqueue', 'try_dequeue', 'try_enqueue'):
            p.steps.append(op)
        else: raise Undecided('container operation ' + op)
        if op == 'try_enqueue':
            for q, t in self.split(p, ('room', n)):
                if t: q.eff.append((n, 'enqueue', K(par[1])))
                tq.append((q, 'ret', t))
            return tq
        if op == 'enqueue': p.eff.append((n, 'enqueue', K(par[1]))); return [(p, 'ret', True)]
        out = []
        if op == 'try_dequeue':
            for q, t in self.split(p, pres):
                if t: q.mem[par[1][1:]] = ('old', n); q.eff.append((n, 'dequeue'))
                out.append((q, 'ret', t))
            return out
        key = K(par[1]); p.steps[-1] = (op, key)
        for q, t in self.split(p, pres):
            if op == 'contains': out.append((q, 'ret', t))
            elif op == 'find' and len(par) == 2:
                if not t: out.append((q, 'throw', 'absent')); continue
                if sret: q.mem[a[0][1:]] = ('old', n)
                out.append((q, 'ret', None if sret else ('old', n)))
            elif op == 'find':
                if t: self.assign(q, par[2], ('old', n))
                out.append((q, 'ret', t))
            elif op == 'find_fn':
                if t: out += [(z, k, True if k == 'ret' else v) for z, k, v in self.call_closure(d, par, 1, 0, q, n, depth)]
                else: out.append((q, 'ret', False))
            elif op in ('insert', 'insert_or_assign'):
                v = self.obj(q, par[2])
                if not t: q.eff.append((n, 'insert', key, v))
                elif op == 'insert_or_assign': q.eff.append((n, 'assign', v))
                out.append((q, 'ret', not t))
            elif op in ('upsert', 'uprase_fn'):
                if not t: q.eff.append((n, 'insert', key, self.obj(q, par[-1]))); out.append((q, 'ret', True)); continue
                for z, k, v in self.call_closure(d, par, 1, 1, q, n, depth):
                    if k == 'throw': out.append((z, k, v)); continue
                    if op == 'upsert': out.append((z, 'ret', False)); continue
                    for y, tt in self.split(z, v):
                        if tt: y.eff.append((n, 'erase'))
                        out.append((y, 'ret', False))
            elif op == 'erase':
                if t: q.eff.append((n, 'erase'))
                out.append((q, 'ret', t))
            elif op == 'erase_fn':
                if not t: out.append((q, 'ret', False)); continue
                for z, k, v in self.call_closure(d, par, 1, 0, q, n, depth):
                    if k == 'throw': out.append((z, k, v)); continue
                    for y, tt in self.split(z, v):
                        if tt: y.eff.append((n, 'erase'))
                        out.append((y, 'ret', True))
            elif op == 'update':
                if t: q.eff.append((n, 'assign', self.obj(q, par[2])))
                out.append((q, 'ret', t))
            elif op == 'update_fn':
                if not t: out.append((q, 'ret', False)); continue
                out += [(z, k, True if k == 'ret' else v) for z, k, v in self.call_closure(d, par, 1, 0, q, n, depth)]
        return out

    def sret(self, i):
        g = self.m.fn(callee(i))
        return bool(g and g.args and g.args[0][2])


KEY, V1, V2, OLD, DEF = ('P', 1), ('P', 2), ('P', 3), 'old', ('def',)


def spec(name, np, res):
    """documented operation -> function(present, eq(x)) -> (result or None, effect or None); values: OLD = the value found."""
    put = lambda pr, eq: (None, ('assign', V1) if pr else ('insert', KEY, V1))
    T = {
        ('put', 2): put,
        ('get', 1): lambda pr, eq: (OLD if pr else DEF, None),
        ('getOrDefault', 2): lambda pr, eq: (OLD if pr else V1, None),
        ('containsKey', 1): lambda pr, eq: (pr, None),
        ('find', 1): lambda pr, eq: (pr, None),
        ('putIfAbsent', 2): lambda pr, eq: (OLD, None) if pr else (DEF, ('insert', KEY, V1)),
        ('remove', 1): lambda pr, eq: (OLD, ('erase',)) if pr else (DEF, None),
        ('remove', 2): lambda pr, eq: (True, ('erase',)) if pr and eq(V1) else (False, None),
        ('replace', 2): lambda pr, eq: (OLD, ('assign', V1)) if pr else (DEF, None),
        ('replace', 3): lambda pr, eq: (True, ('assign', V2)) if pr and eq(V1) else (False, None),
    }
    return T.get((name, np))


def num(v, s):
    """value of v when the container has s elements, or None"""
    if isinstance(v, (bool, int)): return v
    if not isinstance(v, tuple): return None
    if v[0] == 'size': return s
    if v[0] == 'empty': return s == 0
    if v[0] == 'not': x = num(v[1], s); return None if x is None else not x
    if v[0] == 'cmp':
        x, y = num(v[2], s), num(v[3], s)
        if x is None or y is None: return None
        pr = v[1].lstrip('us') if v[1] not in ('ule', 'ult', 'uge', 'ugt', 'sle', 'slt', 'sge', 'sgt') else v[1][1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(pr)
    return None


def params(d):
    s = d[d.index('(') + 1:d.rindex(')')]; out = []; depth = 0; cur = ''
    for ch in s:
        if ch in '<(': depth += 1
        elif ch in '>)': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()] if cur.strip() else out


def run():
    c = Check('C04', TITLE, RULE); m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    c.stats.update(operations=0, paths=0, undecided=0, walks=0); und = []; seen = set()

    def short(f): return re.sub(r'<.*?>+::', '::', f.d.split('(')[0].replace('Java::Util::Concurrent::', '')) + '/%d' % len(params(f.d))

    def bad(f, tag, text): c.bad('%s:%s' % (short(f), tag), '%s %s (%s:%d)' % (short(f).split('/')[0], text, f.rel, f.line))

    def show(v): return {'def': 'the default value', 'old': 'the value found'}.get(v[0], 'the %s argument' % {1: 'first', 2: 'second', 3: 'third'}.get(v[1], '?') if v[0] == 'P' else str(v)) if isinstance(v, tuple) else str(v)

    def what(e): return 'changes nothing' if e is None else {'assign': 'stores a value in the element found', 'insert': 'adds an element', 'erase': 'removes the element', 'clear': 'empties it', 'enqueue': 'adds an element', 'dequeue': 'takes an element'}[e[0]]

    def single(f, name, sp, sret, rt):
        ev = Eval(m); p = Path(); np = len(params(f.d)); args = [('ptr', ('this',), 0)]
        for k in range(np): args.append(('ptr', ('arg', k + 1), 0)); p.mem[(('arg', k + 1), 0)] = ('P', k + 1)
        if sret: args = [('ptr', ('sret',), 0)] + args
        for q, kind, v in ev.run(f, args, p):
            c.stats['paths'] += 1
            if kind == 'throw': bad(f, 'throws', 'lets an exception of the underlying map out'); continue
            if sret: v = q.mem.get((('sret',), 0), ('?',))
            effs = q.eff
            if len({e[0] for e in effs}) > 1: bad(f, 'steps', 'changes the map in %d separate steps; other threads can act in between' % len({e[0] for e in effs})); continue
            if any(isinstance(s, tuple) and s[1] != KEY for s in q.steps):
                if any(isinstance(s, tuple) and s[1][0] != 'P' for s in q.steps): raise Undecided('key')
                bad(f, 'key', 'looks up something other than the key'); continue
            flat = [tuple(e[1:]) for e in effs]
            cands = [effs[0][0]] if effs else [k for k, s in enumerate(q.steps) if isinstance(s, tuple)]
            if not cands: bad(f, 'none', 'returns on a path that never looks at the map'); continue
            ok = False; vague = False; why = ''
            for n in cands:
                for prv in ([q.known[('present', n)]] if ('present', n) in q.known else [True, False]):
                    need = []

                    def eq(x):
                        e = ('eq',) + tuple(sorted((('old', n), x), key=repr)); t = q.known.get(e)
                        need.append(e)
                        return asg.get(e, False) if t is None else t
                    good = True
                    for guess in (True, False):
                        asg = {('eq',) + tuple(sorted((('old', n), x), key=repr)): guess for x in (V1, V2, KEY)}
                        r, e = sp(prv, eq)
                        got = v
                        if isinstance(got, tuple) and got[0] in ('eq', 'not', 'present'):
                            t = got; ng = False
                            while isinstance(t, tuple) and t[0] == 'not': t = t[1]; ng = not ng
                            tv = q.known.get(t, asg.get(t))
                            got = None if tv is None else tv != ng
                        elif isinstance(got, int) and not isinstance(got, bool): got = bool(got)
                        want = ('old', n) if r is OLD else r
                        if isinstance(got, tuple) and got[0] in ('?', 'at') and r is not None: vague = True
                        if r is not None and got != want: good = False; why = 'returns %s where %s is documented%s' % (show(got) if got is not None else 'something else', show(want) if not isinstance(want, bool) else want, ' (the value found at another step)' if isinstance(got, tuple) and got[0] == 'old' and isinstance(want, tuple) and want[0] == 'old' else '')
                        fe = flat[-1] if flat else None
                        if fe != e:
                            if any(isinstance(x, tuple) and x[0] in ('?', 'at') for x in (fe or ())[1:]): vague = True
                            good = False
                            if (fe is None) != (e is None) or fe[0] != e[0]: why = '%s where the operation %s' % (what(fe), what(e))
                            else: why = 'stores %s where the operation stores %s' % (show(fe[-1]), show(e[-1]))
                    ok = ok or good
            if not ok:
                if vague: raise Undecided('value')
                st = ', then '.join('%s (%s)' % (s[0], 'found' if q.known.get(('present', k)) else 'absent' if ('present', k) in q.known else '?') for k, s in enumerate(q.steps) if isinstance(s, tuple))
                if len(q.steps) > 1: why = 'is not one atomic step: ' + why
                bad(f, 'step', '%s, after %s' % (why, st))
                return
        c.ok()

    def count(f, name, q, v):
        """size() and isEmpty() for some numbers of elements"""
        for s in (0, 1, 2, 7):
            ks = [(num(k, s), t) for k, t in q.known.items()]
            if any(a is not None and bool(a) != t for a, t in ks): continue
            got = num(v, s)
            if isinstance(v, tuple) and v[0] == 'other': bad(f, 'value', 'reports the %s of the container' % v[1]); return
            if got is None: continue
            want = s if name == 'size' else s == 0
            if (got != want if name == 'size' else bool(got) != want): bad(f, 'value', 'answers %s for a container of %d element%s' % (got if name == 'size' else bool(got), s, '' if s == 1 else 's')); return

    for f in m.defined():
        if not f.d.startswith((MAP, QUE)) or 'lambda' in f.d or "'" in f.d.split('(')[0]: continue
        full = f.d.split('(')[0]; name = full.rsplit('::', 1)[-1]; np = len(params(f.d)); key = (short(f), f.line)
        sret = bool(f.args and f.args[0][2]); que = f.d.startswith(QUE)
        try:
            if not que and spec(name, np, None):
                seen.add((name, np)); c.stats['operations'] += 1; single(f, name, spec(name, np, None), sret, f.ret)
            elif not que and name in ('size', 'isEmpty', 'clear', 'reinitialize') and np == 0:
                seen.add((name, np)); c.stats['operations'] += 1
                n0 = len(c.viol)
                for q, kind, v in Eval(m).run(f, ([('ptr', ('sret',), 0)] if sret else []) + [('ptr', ('this',), 0)], Path()):
                    c.stats['paths'] += 1
                    if name in ('clear', 'reinitialize'):
                        if q.eff and any(e[1] != 'clear' for e in q.eff): bad(f, 'pieces', 'removes the elements one by one; other threads see it half done')
                        elif len(q.eff) == 0: bad(f, 'none', 'returns without having emptied the map')
                    elif q.eff: bad(f, 'changes', 'changes the map')
                    else: count(f, name, q, v)
                if len(c.viol) == n0: c.ok()
            elif que and name in ('add', 'offer', 'poll', 'clear', 'size', 'isEmpty') and np == (1 if name in ('add', 'offer') else 0):
                seen.add(('queue ' + name, np)); c.stats['operations'] += 1; n0 = len(c.viol)
                p = Path(); args = [('ptr', ('this',), 0)] + [('ptr', ('arg', k + 1), 0) for k in range(np)]
                for k in range(np): p.mem[(('arg', k + 1), 0)] = ('P', k + 1)
                if sret: args = [('ptr', ('sret',), 0)] + args
                for q, kind, v in Eval(m).run(f, args, p):
                    c.stats['paths'] += 1
                    if kind == 'throw': bad(f, 'throws', 'throws'); continue
                    if sret: v = q.mem.get((('sret',), 0), ('?',))
                    enq = [e for e in q.eff if e[1] == 'enqueue']; deq = [e for e in q.eff if e[1] == 'dequeue']; tries = [k for k, s in enumerate(q.steps) if s == 'try_dequeue']
                    if name in ('add', 'offer'):
                        if len(enq) != 1 or deq: bad(f, 'effect', 'puts %d elements into the queue and takes %d out' % (len(enq), len(deq)))
                        elif enq[0][2] != ('P', 1):
                            if enq[0][2][0] in ('?', 'at'): raise Undecided('element')
                            bad(f, 'element', 'puts in something other than its argument')
                        elif f.ret in ('i1', 'i8') and isinstance(v, (bool, int)) and not v: bad(f, 'result', 'reports that the element was not added')
                    elif name == 'poll':
                        if enq: bad(f, 'effect', 'puts an element into the queue')
                        elif len(deq) > 1: bad(f, 'lost', 'takes %d elements out of the queue and returns one' % len(deq))
                        elif deq and v != ('old', deq[0][0]):
                            if v[0] in ('?', 'at'): raise Undecided('result')
                            bad(f, 'lost', 'takes an element out of the queue and returns %s' % show(v))
                        elif not deq and not tries: bad(f, 'never', 'returns without having tried to take an element')
                        elif not deq and v != DEF:
                            if v[0] in ('?', 'at'): raise Undecided('result')
                            bad(f, 'empty', 'returns %s for an empty queue' % show(v))
                    elif name == 'clear':
                        if enq: bad(f, 'effect', 'puts an element into the queue')
                        elif not tries or q.known.get(('present', tries[-1])): bad(f, 'rest', 'can return while elements it could see are left')
                    elif enq or deq: bad(f, 'changes', 'changes the queue')
                    else: count(f, name, q, v)
                if len(c.viol) == n0: c.ok()
        except (Undecided, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
            c.stats['undecided'] += 1; und.append('%s: %r' % (short(f), e))

    # whole-map walks: elements only while the table is locked; another map is copied only under its lock
    for f in m.defined():
        if not f.d.startswith(MAP) or "'lambda" in f.d: continue
        tabs = {}
        for i in f.inst.values():
            if i['o'] not in ('call', 'invoke'): continue
            d = m.dem.get(callee(i) or '', '') or ''
            op = opname(d)
            if op is None: continue
            if op.startswith('lock_table'): tabs[i['a'][0] if isinstance(i['a'][0], int) else None] = i
            if op.startswith(('operator=(', 'cuckoohash_map(')) and 'const&' in op and op.count('cuckoohash_map<'):
                c.stats['walks'] += 1
                bad(f, 'copy', 'copies the whole map of another object without locking it, at %s: a concurrent change of that map is a data race' % f.where(i))
        for t, li in tabs.items():
            if t is None: continue
            c.stats['walks'] += 1
            kills = [i for i in f.inst.values() if i['o'] in ('call', 'invoke') and re.match(r'locked_table::(~locked_table|unlock)\(', opname(m.dem.get(callee(i) or '', '') or '') or '') and i['a'][0] == t]
            its = set()          # iterators obtained from the table
            for i in f.inst.values():
                if i['o'] in ('call', 'invoke') and re.match(r'locked_table::(begin|end|cbegin|cend|find)\(', opname(m.dem.get(callee(i) or '', '') or '') or '') and t in i['a']:
                    its.add(i['a'][0]); its.add(i['i'])
            sr = {0} if f.args and f.args[0][2] else set()
            after = lambda a, b: b['i'] != a['i'] and reaches(f, a, b)
            for i in f.inst.values():
                used = set(x for x in i.get('a') or [] if isinstance(x, int)) | ({i['p']} if isinstance(i.get('p'), int) else set())
                if i in kills or not (used & its or t in used): continue
                n = opname(m.dem.get(callee(i) or '', '') or '') if i['o'] in ('call', 'invoke') else None
                if n and n.startswith(('locked_table::~', 'locked_table::unlock')): continue
                for kx in kills:
                    if f.dominates(kx['i'], i['i']) if hasattr(f, 'dominates') and False else f_dom(f, kx, i):
                        bad(f, 'unlocked-walk', 'uses the map\'s elements after releasing the table, at %s' % f.where(i)); break
            for kx in kills:
                if its & sr and rets_after(f, kx): bad(f, 'escape', 'returns an iterator of a table it has already unlocked, at %s' % f.where(kx)); break
        if tabs: c.ok()
    c.samples = und[:20]
    c.require(len(seen) >= 14, 'operations of the concurrent containers (%d)' % len(seen))
    c.assume += ['each call into libcuckoo or moodycamel is one atomic step', 'elements other threads add while clear() empties a queue may stay']
    return c.finish()


def reaches(f, a, b):
    A, B = f.blk[a['i']], f.blk[b['i']]
    if A == B and f.pos[a['i']] < f.pos[b['i']]: return True
    seen = set(); st = list(f.succ[A])
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += f.succ[x]
    return B in seen


def f_dom(f, a, b):
    """a on every path to b"""
    A, B = f.blk[a['i']], f.blk[b['i']]
    if A == B: return f.pos[a['i']] < f.pos[b['i']]
    seen = {0} if A != 0 else set(); st = [0] if A != 0 else []
    while st:
        for s in f.succ[st.pop()]:
            if s != A and s not in seen: seen.add(s); st.append(s)
    return B not in seen


def rets_after(f, k): return any(i['o'] == 'ret' and reaches(f, k, i) for i in f.inst.values())
