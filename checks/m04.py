"""M04: everything starts with a value."""
from effects import *
from own import classof

TITLE = 'Everything starts with a value'
RULE = ('for every constructor of the library (also those the compiler writes) and every data member of built-in type, its own or inherited: a must-write dataflow over the '
        'control-flow graph, with must-write summaries of the functions it calls, shows the member written on every normal path; and for every local variable of built-in '
        'type (and every struct tm) a must-assign dataflow, byte by byte where the address is handed out, shows each read preceded by an assignment on every path; sscanf assigns nothing unless its result is looked at')
SCALAR = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(bool|char|short|int|long|long long|long int|float|double|unsigned|size_t|wchar_t|.*\*|fn\*+|std::atomic<.*>|std::__atomic_base<.*>|std::atomic_\w+|u?int\w*_t|enum .*)$')
COPYFN = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memset', 'memmove')
ALL = frozenset(range(0, 4096))


class Must:
    """bytes of argument k's object a function has certainly written when it returns."""

    def __init__(self, m):
        self.m = m; self.memo = {}
        self.fns = {f.n: f for f in m.defined(thunks=True)}

    def of(self, n, k, depth=0):
        n = self.m.alias.get(n, n); key = (n, k)
        if key in self.memo: return self.memo[key][0]
        f = self.fns.get(n)
        if f is None or depth > 12: return frozenset()
        self.memo[key] = (frozenset(), None)
        P = Paths(f); gen = {}
        for i in f.inst.values():
            w = self.inst(f, P, i, k, depth)
            if w: gen[i['i']] = frozenset(w)
        dead = self.selfedges(f, P)
        inn = {0: frozenset()}; work = [0]
        while work:
            b = work.pop(0); s = inn[b]; t = f.bbs[b][-1]
            for i in f.bbs[b]: s = s | gen.get(i.get('i'), frozenset())
            for x in f.succ[b]:
                if t['o'] == 'invoke' and x == t['u'] and x != t['n'] or (b, x) in dead: continue
                y = s if x not in inn else inn[x] & s
                if x not in inn or y != inn[x]: inn[x] = y; work.append(x)
        res = None; where = {}
        for b, bb in enumerate(f.bbs):
            if b in inn and bb[-1]['o'] == 'ret':
                s = inn[b]
                for i in bb: s = s | gen.get(i.get('i'), frozenset())
                where[bb[-1]['i']] = s
                res = s if res is None else res & s
        self.memo[key] = (res if res is not None else ALL, where)
        return self.memo[key][0]

    def selfedges(self, f, P):
        """edges only taken when two of the arguments are the same object."""
        out = set()
        for b, bb in enumerate(f.bbs):
            t = bb[-1]
            if t['o'] != 'br' or 'cond' not in t or not isinstance(t['cond'], int): continue
            c = f.inst.get(t['cond'])
            if not c or c['o'] != 'icmp' or c.get('ot') != 'ptr' or c['pr'] not in ('eq', 'ne'): continue
            x, y = [P.of(v) if isinstance(v, int) else () for v in c['a']]
            if len(x) == 1 and len(y) == 1 and next(iter(x))[0] == 'A' and next(iter(y))[0] == 'A' and x != y:
                out.add((b, t['s'][0 if c['pr'] == 'eq' else 1]))
        return out

    def at(self, P, v, k):
        ps = P.of(v)
        if len(ps) != 1: return None
        b, o = base_off(next(iter(ps)))
        return o if b == ('A', k) and o is not None else None

    def inst(self, f, P, i, k, depth):
        w = set()
        if i['o'] == 'store':
            o = self.at(P, i['p'], k)
            if o is not None and not (isinstance(i['val'], list) and i['val'][0] == 'u'): w |= set(range(o, o + i['sz']))
        elif i['o'] in ('call', 'invoke'):
            c = callee(i)
            if c is None: return w
            if ext_name(c) in COPYFN:
                o = self.at(P, i['a'][0], k); L = i['a'][2]
                if o is not None and isinstance(L, list) and L[0] == 'i': w |= set(range(o, o + min(L[1], 4096)))
                return w
            known = self.m.alias.get(c, c) in self.fns
            ext = None if known else {j for j, kind in ext_writes(c, self.m.dem.get(c, c), i)}
            for j, a in enumerate(i['a']):
                if i['pt'][j] != 'ptr': continue
                o = self.at(P, a, k)
                if o is None: continue
                if known: w |= {o + x for x in self.of(c, j, depth + 1)}
                elif j in ext: w |= set(range(o, o + 8))
        return w


def run():
    c = Check('M04', TITLE, RULE)
    m = module(harness=['instances.cpp', 'copies.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    M = Must(m); c.stats.update(constructors=0, members=0, locals=0, local_reads=0, functions=0, handed_out=0, handed_reads=0)
    mine = lambda f: f.src.startswith(LIB) and 'Test.hpp' not in f.src and 'cuckoo' not in f.d and 'moodycamel' not in f.d and 'concurrentqueue' not in f.src
    seen = set(); classes = set()
    for f in sorted(m.defined(), key=lambda f: f.d):
        if not mine(f) and not (f.src.startswith(VERIF) and re.match(r'(Java|Javax)::|Array<', f.d)): continue
        cls, nm = classof(f.d)
        if not cls or cls not in m.types or nm != re.sub('<.*', '', cls).split('::')[-1] or f.d in seen: continue
        seen.add(f.d); c.stats['constructors'] += 1; classes.add(re.sub('<.*', '', cls))
        a0 = 1 if f.args[0][2] else 0
        s = M.of(f.n, a0); where = M.memo[(m.alias.get(f.n, f.n), a0)][1] or {}
        for o, sz, n, ty, own in m.fields(cls, virt=True):
            if n.startswith('_vptr') or sz == 0: continue
            pod = ty.endswith(']') or ty in m.types and plain(m, ty)
            if not SCALAR.match(ty) and not pod: continue
            if own != cls and virtual_base(m, cls, own): continue
            c.stats['members'] += 1
            rng = set(range(o, o + sz))
            if rng <= s or pod and rng & s: c.ok(); continue
            r = next((f.inst[k] for k, x in where.items() if not rng <= x), None)
            c.bad('%s:%s' % (f.d, n), '%s can return%s without having given %s%s a value' % (
                f.d, ' at ' + f.where(r) if r is not None and r.get('l') else '', n, '' if own == cls else ' of ' + own))
        if len(c.samples) < 20: c.samples.append('%s: %d bytes certainly written' % (f.d, len(s)))
    locals_(c, mine); handed(c, m, M, mine)
    c.require(c.stats['constructors'] > 250 and len(classes) > 60, 'too few constructors')
    c.require(c.stats['locals'] > 8000, 'too few local variables')
    c.assume += ['members of class type are given their value by their own constructors, which are judged themselves or belong to the standard library',
                 'a structure or array of built-in type counts as given a value when some part of it is certainly written',
                 'a function outside the library other than sscanf and strptime that is handed the address of a member or variable gives it a value; so does a library function whose result is looked at', 'buffers allocated with malloc are not followed']
    return c.finish()


READS = {'mktime': [(0, 24), (32, 36)], 'timegm': [(0, 24)], 'timelocal': [(0, 24), (32, 36)], 'asctime_r': [(0, 28)]}


def handed(c, m, M, mine):
    """variables of built-in type (and struct tm) whose address is handed out, byte by byte."""
    for f in sorted(m.defined(), key=lambda f: f.d):
        if not mine(f): continue
        al = {i['i']: i for i in f.inst.values() if i['o'] == 'alloca' and i.get('sz', 0) <= 64 and (re.match(r'i(8|16|32|64)$|ptr$|float$|double$', i.get('at', '')) or i.get('at') == '%struct.tm')}
        if not al: continue
        P = Paths(f); c.stats['handed_out'] += len(al)
        used = {x for i in f.inst.values() for x in operands(i) if isinstance(x, int)}

        def at(v):
            ps = P.of(v) if isinstance(v, int) else ()
            if len(ps) != 1: return None
            b, o = base_off(next(iter(ps)))
            return (b[1], o) if b[0] == 'L' and b[1] in al and o is not None else None

        def writes(i):
            out = set()
            if i['o'] == 'store':
                k = at(i['p'])
                if k and not (isinstance(i['val'], list) and i['val'][0] == 'u'): out |= {(k[0], k[1] + x) for x in range(i['sz'])}
            elif i['o'] in ('call', 'invoke'):
                n = callee(i)
                if i.get('intr', '').startswith(('llvm.lifetime', 'llvm.dbg')): return out
                for j, a in enumerate(i['a']):
                    k = at(a) if i['pt'][j] == 'ptr' else None
                    if not k: continue
                    sz = al[k[0]]['sz']; e = ext_name(n) if n else ''
                    if n and m.alias.get(n, n) in M.fns and not (i.get('t') not in (None, 'void') and i['i'] in used): out |= {(k[0], k[1] + x) for x in M.of(n, j)}
                    elif n and re.search(r'scanf$', e) and i['i'] not in used: pass
                    elif e in COPYFN and j == 0 and isinstance(i['a'][2], list) and i['a'][2][0] == 'i': out |= {(k[0], k[1] + x) for x in range(min(i['a'][2][1], 64))}
                    elif e in COPYFN and j == 1 or e in ('strftime', 'asctime_r'): pass
                    elif e == 'strptime': pass
                    else: out |= {(k[0], x) for x in range(sz)}
            return out

        def reads(i):
            if i['o'] == 'load':
                k = at(i['p'])
                if k: yield k[0], [(k[1], k[1] + i['sz'])]
            elif i['o'] in ('call', 'invoke') and callee(i):
                e = ext_name(callee(i))
                for j, a in enumerate(i['a']):
                    k = at(a) if i['pt'][j] == 'ptr' else None
                    if k and k[1] == 0 and al[k[0]]['at'] == '%struct.tm':
                        if e in READS and j == 0: yield k[0], READS[e]
                        elif e == 'strftime' and j == 3: yield k[0], [(0, 36)]
        W = {i['i']: frozenset(writes(i)) for i in f.inst.values() if i['o'] in ('store', 'call', 'invoke') and 'i' in i}
        inn = {0: frozenset()}; work = [0]
        while work:
            b = work.pop(0); s = inn[b]; t = f.bbs[b][-1]
            for i in f.bbs[b]:
                if i is not t: s = s | W.get(i.get('i'), frozenset())
            for x in f.succ[b]:
                s2 = s if t['o'] == 'invoke' and x == t['u'] and x != t['n'] else s | W.get(t.get('i'), frozenset())
                y = s2 if x not in inn else inn[x] & s2
                if x not in inn or y != inn[x]: inn[x] = y; work.append(x)
        for b, bb in enumerate(f.bbs):
            if b not in inn: continue
            s = set(inn[b])
            for i in bb:
                for k, rs in reads(i):
                    c.stats['handed_reads'] += 1
                    miss = [x for lo, hi in rs for x in range(lo, hi) if (k, x) not in s]
                    nm = al[k].get('v') or 'a local variable'
                    if miss and not arms_agree(f, i, k): c.bad('%s:%s' % (f.d, nm), '%s reads %s at %s, of which byte %d may not have been given a value' % (f.d, nm, f.where(i), miss[0]))
                    else: c.ok()
                s |= W.get(i.get('i'), frozenset())


def arms_agree(f, i, k):
    """several branches on one condition between the variable and its read: the dataflow joins them, the program may not."""
    doms = [b for b in range(len(f.bbs)) if f.bbs[b][-1]['o'] == 'br' and 'cond' in f.bbs[b][-1] and isinstance(f.bbs[b][-1]['cond'], int)]
    conds = [f.bbs[b][-1]['cond'] for b in doms]
    return len(conds) != len(set(conds))


def plain(m, t):
    """a C structure: no constructor, only built-in members."""
    x = m.types[t]
    return bool(x['fields']) and not x['bases'] and not x['methods'] and all(SCALAR.match(y['t']) or y['t'].endswith(']') for y in x['fields'] if not y['static'])


def virtual_base(m, cls, own, virt=False):
    for b in m.types[cls]['bases'] if cls in m.types else []:
        if b['n'] == own and (virt or b['virtual']): return True
        if virtual_base(m, b['n'], own, virt or b['virtual']): return True
    return False


def locals_(c, mine):
    m = module(harness=['instances.cpp', 'copies.cpp'], inline=True, keep_src=LIB, pre='', post='')
    for f in sorted(m.defined(), key=lambda f: f.d):
        if not mine(f): continue
        c.stats['functions'] += 1
        al = {i['i']: i for i in f.inst.values() if i['o'] == 'alloca' and i.get('at') != 'i1'}
        esc = set(); used = {}
        for i in f.inst.values():
            if i['o'] in ('load', 'store') and isinstance(i['p'], int) and i['p'] in al: used.setdefault(i['p'], []).append(i)
            for x in operands(i):
                if isinstance(x, int) and x in al:
                    if i['o'] == 'load' or i['o'] == 'store' and i.get('val') != x: continue
                    if i['o'] == 'call' and i.get('intr', '').startswith(('llvm.dbg', 'llvm.lifetime')): continue
                    esc.add(x)
        cand = {a for a in used if a not in esc and al[a].get('sz', 0) <= 16}
        c.stats['locals'] += len(cand)
        if not cand: continue
        isst = lambda i: i['o'] == 'store' and isinstance(i['p'], int) and i['p'] in cand
        inn = {0: frozenset()}; work = [0]
        gen = [frozenset(i['p'] for i in bb if isst(i)) for bb in f.bbs]
        while work:
            b = work.pop(0); s = inn[b] | gen[b]
            for x in f.succ[b]:
                y = s if x not in inn else inn[x] & s
                if x not in inn or y != inn[x]: inn[x] = y; work.append(x)
        for b, bb in enumerate(f.bbs):
            if b not in inn: continue
            s = set(inn[b])
            for i in bb:
                if i['o'] == 'load' and isinstance(i['p'], int) and i['p'] in cand:
                    c.stats['local_reads'] += 1
                    if i['p'] in s: c.ok(); continue
                    nm = al[i['p']].get('v') or 'a local variable'
                    if feasible(f, i, al[i['p']]['i']):
                        c.bad('%s:%s' % (f.d, nm), '%s reads %s at %s before anything may have been assigned to it' % (f.d, nm, f.where(i)))
                    else: c.ok()
                if isst(i): s.add(i['p'])


def feasible(f, ld, a):
    """a path on which the branches agree with each other (same flag variable, same outcome) reaches the read unassigned."""
    hit = [False]

    def flag(v):
        """the variable a branch condition tests, and with which sense: loads of a local compared with a constant."""
        i = f.inst.get(v) if isinstance(v, int) else None; neg = False; n = 0
        while i is not None and n < 8:
            n += 1
            if i['o'] in ('trunc', 'zext', 'freeze'): i = f.inst.get(i['a'][0]) if isinstance(i['a'][0], int) else None; continue
            if i['o'] == 'xor' and isinstance(i['a'][1], list): neg = not neg; i = f.inst.get(i['a'][0]) if isinstance(i['a'][0], int) else None; continue
            if i['o'] == 'icmp' and isinstance(i['a'][1], list) and isinstance(i['a'][0], int):
                j = f.inst.get(i['a'][0])
                while j is not None and j['o'] in ('zext', 'trunc', 'sext') and isinstance(j['a'][0], int): j = f.inst.get(j['a'][0])
                if j is not None and j['o'] == 'load' and isinstance(j['p'], int): return ('cmp', j['p'], i['pr'], repr(i['a'][1])), neg
                return None, False
            if i['o'] == 'load' and isinstance(i['p'], int): return ('var', i['p']), neg
            return None, False
        return None, False
    seen = set(); work = [(0, frozenset())]; n = 0
    while work:
        b, env = work.pop()
        if (b, env) in seen: continue
        seen.add((b, env)); n += 1
        if n > 20000: return True
        e = dict(env); dead = False
        for i in f.bbs[b]:
            if i['o'] == 'load' and i is ld: return True
            if i['o'] == 'store' and isinstance(i['p'], int):
                if i['p'] == a: dead = True; break
                for k in [k for k in e if k[1] == i['p']]: del e[k]
                if isinstance(i['val'], list) and i['val'][0] == 'i':
                    e[('var', i['p'])] = bool(i['val'][1] & 1) if i['val'][1] in (0, 1) else None
                    e[('con', i['p'])] = i['val'][1]
        if dead: continue
        t = f.bbs[b][-1]
        for s in dict.fromkeys(f.succ[b]):
            e2 = e
            if t['o'] == 'br' and 'cond' in t and t['s'][0] != t['s'][1]:
                k, neg = flag(t['cond']); want = (t['s'][0] == s) != neg
                if k is not None:
                    if k[0] == 'cmp' and ('con', k[1]) in e:
                        v = evaluate(k[2], e[('con', k[1])], k[3])
                        if v is not None and v != want: continue
                    elif e.get(k) is not None and e[k] != want: continue
                    e2 = dict(e); e2[k] = want
            work.append((s, frozenset(x for x in e2.items() if x[1] is not None)))
    return False


def evaluate(pr, x, y):
    if not y.startswith("['i', "): return None
    y = int(y[6:-1])
    return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(pr)
