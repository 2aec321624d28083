"""M02: a copy equals its original; assigning an object to itself changes nothing."""
from own import *
from effects import *
import v05

TITLE = 'Copies carry over every field; self-assignment changes nothing'
RULE = ('for every copy constructor and copy assignment (also those the compiler writes) and every data member that is not a lock or a cache of derived text: '
        'on every normal path the member is written, and what is written depends on the same member of the original; with the object as its own '
        'argument no path empties or frees content before it is read')
DERIVED = {'Java::Util::Date': ['localTimer'], 'Java::Util::Random': ['BADBOUND']}     # computed from another member; constant
CSTR = re.compile(r'^(strlen|strcpy|strncpy|strdup|strndup|std::char_traits<char>::length\(.*)$|basic_string<char.*>::(operator=|assign|basic_string(<.*>)?)\((char const\*|char\*)(, std::allocator<char> const&)?\)$')
EMPTIES = re.compile(r'::(clear|removeAllElements|reset|engineReset|removeAll|cleanUp)\(')


def reads(m, fns, n, k, memo, depth=0):
    """byte ranges of argument k's object that function n may read: set of (lo, hi), or None = anything."""
    n = m.alias.get(n, n); key = (n, k)
    if key in memo: return memo[key]
    f = fns.get(n)
    if f is None or depth > 6: return None
    memo[key] = set()
    P = Paths(f); out = set()
    for i in f.inst.values():
        o = i['o']
        if o == 'load':
            for p in P.of(i['p']):
                b, off = base_off(p)
                if b == ('A', k):
                    if off is None: memo[key] = None; return None
                    out.add((off, off + i.get('sz', 8)))
        elif o in ('call', 'invoke'):
            c = callee(i)
            for j, a in enumerate(i['a']):
                if i['pt'][j] != 'ptr': continue
                for p in P.of(a):
                    b, off = base_off(p)
                    if b != ('A', k): continue
                    if off is None: memo[key] = None; return None
                    if c and ext_name(c) in ('llvm.memcpy', 'llvm.memmove', 'memcpy'):
                        if j == 1:
                            L = i['a'][2]
                            out.add((off, off + L[1]) if isinstance(L, list) and L[0] == 'i' else (off, off + 1))
                        continue
                    r = reads(m, fns, c, j, memo, depth + 1) if c and m.alias.get(c, c) in fns else None
                    if r is None: out.add((off, off + 1) if off else (0, 1 << 30))
                    else: out |= set((off + x, off + y) for x, y in r)
        elif o == 'store':
            v = i['val']
            if isinstance(v, int):
                for p in P.of(v):
                    if base_off(p)[0] == ('A', k): memo[key] = None; return None
    memo[key] = out
    return out


def writes(m, fns, n, k, memo, depth=0):
    """byte ranges of argument k's object that function n may write (what its members point to counts as the member)."""
    n = m.alias.get(n, n); key = (n, k, 'w')
    if key in memo: return memo[key]
    f = fns.get(n)
    if f is None or depth > 8: return {(0, 1)}
    memo[key] = set()
    P = Paths(f); out = set()
    for i in f.inst.values(): out |= iwrites(m, fns, f, P, i, k, memo, depth)
    memo[key] = out
    return out


def member(p, k):
    """offset within argument k's object of the member a path goes through: None if it is not rooted there, 'all' if unknown."""
    if root(p) != ('A', k): return None
    o = 0; q = p
    while q[0] in ('*', '+', '?'):
        if q[0] == '*': o = 0
        elif q[0] == '+': o = q[2]
        else: o = 'all'
        q = q[1]
    return o


def iwrites(m, fns, f, P, i, k, memo, depth=0):
    o = i['o']; out = set()

    def note(p, n=1):
        x = member(p, k)
        if x == 'all': out.add((0, 1 << 30))
        elif x is not None: out.add((x, x + (n if base_off(p)[0] == ('A', k) else 1)))
    if o in ('store', 'atomicrmw', 'cmpxchg'):
        if vbase(f, i['p']): return out
        for p in P.of(i['p']): note(p, i.get('sz') or 8)
    elif o in ('call', 'invoke'):
        n = callee(i)
        if n and ext_name(n) in ('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove', 'llvm.memset', 'memset'):
            L = i['a'][2]
            for p in P.of(i['a'][0]): note(p, L[1] if isinstance(L, list) and L[0] == 'i' else 1)
        elif n and m.alias.get(n, n) in fns:
            for j, a in enumerate(i['a']):
                if i['pt'][j] != 'ptr': continue
                for p in P.of(a):
                    x = member(p, k)
                    if x is None: continue
                    w = writes(m, fns, n, j, memo, depth + 1)
                    if not w: continue
                    if x == 'all': out.add((0, 1 << 30))
                    elif base_off(p)[0] == ('A', k): out |= {(x + lo, x + hi) for lo, hi in w}
                    else: out.add((x, x + 1))
        elif n:
            for j, kind in ext_writes(n, m.dem.get(n, n), i):
                for p in P.of(i['a'][j]): note(p)
    return out


def run():
    c = Check('M02', TITLE, RULE)
    m = module(harness=['instances.cpp', 'copies.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    fns = {f.n: f for f in m.defined(thunks=True)}
    memo = {}
    c.stats['copy_operations'] = 0; c.stats['members'] = 0; c.stats['self_assignments'] = 0; c.stats['undecided'] = 0
    seen = set()
    for f in sorted(m.defined(), key=lambda f: f.d):
        if not f.src.startswith((LIB, VERIF)) or 'Test.hpp' in f.src or 'cuckoo' in f.d or 'moodycamel' in f.d or 'concurrentqueue' in f.src: continue
        cls, nm = classof(f.d); ps = [p for p in params(f.d) if p != 'void']
        if not cls or len(ps) != 1 or not ps[0].endswith('&') or ps[0].endswith('&&') or re.sub(r'( const)?&$', '', ps[0]) != cls: continue
        ctor = nm == simple(cls)
        if not ctor and nm != 'operator=' or cls not in m.types: continue
        caches = set(sum((v05.CACHES.get(k, []) for k in [re.sub(r'<.*', '', cls)] + v05.bases(m, cls)), []))
        caches |= {'originalString', 'capacityIncrement_'}
        virt = virtual_owners(m, cls)
        fl = [x for x in m.fields(cls, virt=True) if not x[2].startswith('_vptr') and x[2] not in caches and not v05.SYNC.search(x[3]) and x[4] not in virt and x[1] > 0]
        if not fl: continue
        if f.d in seen: continue
        if ctor and f.n.find('C1E') >= 0 and f.n.replace('C1E', 'C2E') in fns and not any(i['o'] == 'store' for i in f.inst.values()): continue
        seen.add(f.d)
        off = len(f.args) - 1; a0 = 1 if f.args[0][2] else 0
        P = Paths(f); k = off
        c.stats['copy_operations'] += 1
        wr = {}
        for i in f.inst.values():
            w = iwrites(m, fns, f, P, i, a0, memo)
            if w: wr[i['i']] = {x[2] for x in fl if overlaps(w, x)}
        rd = reads(m, fns, f.n, k, memo)
        ag = {}
        for i in f.inst.values():       # tests whether the two objects (or the same member of both) are one
            if i['o'] != 'icmp' or i.get('ot') != 'ptr': continue
            x, y = P.of(i['a'][0]), P.of(i['a'][1])
            if len(x) == 1 and len(y) == 1:
                (b1, o1), (b2, o2) = base_off(next(iter(x))), base_off(next(iter(y)))
                if {b1, b2} == {('A', a0), ('A', k)} and o1 == o2 and o1 is not None: ag[i['i']] = i['pr']
        same = {}
        for i in f.inst.values():       # tests whether a member is equal in both anyway
            if i['o'] != 'icmp' or i['pr'] not in ('eq', 'ne') or i['i'] in ag: continue
            x, y = [origin(f, P, v) for v in i['a']]
            if x and y and x[1] == y[1] and {x[0], y[0]} == {('A', a0), ('A', k)}:
                same[i['i']] = (i['pr'], frozenset(z[2] for z in fl if z[0] == x[1] and z[1] == x[2]))
        carry = {}
        for i in f.inst.values():       # plain copies of a scalar member
            if i['o'] == 'store':
                b = [base_off(p) for p in P.of(i['p'])]
                s = origin(f, P, i['val'])
                if len(b) == 1 and b[0][0] == ('A', a0) and s and s[:2] == (('A', k), b[0][1]): carry[i['i']] = {x[2] for x in fl if x[0] == s[1]}
        dep = tested(f, P, k) if carry else set()
        # a scalar copied plainly on one path has to be copied on all, unless the choice looks at that member of the original
        plain = {x[2] for x in fl if any(x[2] in v for v in carry.values()) and None not in dep and not any(x[0] <= o < x[0] + x[1] for o in dep)}
        # must-written on the paths where the objects differ
        miss = {}

        def step(i, st, env, ce):
            if i['i'] in wr: st = st | frozenset(n for n in wr[i['i']] if n not in plain or n in carry.get(i['i'], ()) or i['o'] != 'store' or not isinstance(i['val'], list))
            if i['i'] in same and dict(env).get(i['i']) == (1 if same[i['i']][0] == 'eq' else 0): st = st | same[i['i']][1]
            if i['o'] == 'ret':
                for x in fl:
                    if x[2] not in st: miss.setdefault(x[2], i)
            if i['o'] == 'invoke': return [st], []
            return [st]
        splits = {i: [0 if pr == 'eq' else 1] for i, pr in ag.items()}
        splits.update({i: [0, 1] for i in same})
        try: explore(f, frozenset(), step, splits=splits)
        except Broken: c.stats['undecided'] += 1; continue
        for x in fl:
            c.stats['members'] += 1
            if x[2] in DERIVED.get(cls, ()): c.ok(); continue
            key = '%s:%s' % (f.d, x[2])
            if x[2] in miss:
                c.bad(key, '%s can return at %s without having carried over %s' % (f.d, f.where(miss[x[2]]), x[2])); continue
            wrong = crossed(f, P, a0, k, x, fl)
            if wrong:
                c.bad(key, '%s fills %s from the %s of the original at %s' % (f.d, x[2], wrong[1], f.where(wrong[0]))); continue
            if rd is not None and not overlaps(rd, x):
                c.bad(key, '%s sets %s without looking at the %s of the original' % (f.d, x[2], x[2])); continue
            c.ok()
        for i in f.inst.values():       # texts know their length: copied up to the first 0 character they lose their tail
            if i['o'] not in ('call', 'invoke') or not CSTR.search(m.dem.get(callee(i), callee(i) or '')): continue
            for a in i['a'][-2:]:
                if not isinstance(a, int): continue
                d = f.inst.get(a); got = bool(d and d['o'] in ('call', 'invoke') and d['a'] and re.search(r'::(c_str|data)(\[abi:\w+\])?\(\) const', m.dem.get(callee(d), '')))
                for p in P.of(d['a'][0] if got else a):
                    x = member(p, k); y = [z for z in fl if x is not None and x != 'all' and z[0] <= x < z[0] + z[1]] if p[0] in '*?+' else []
                    if y and (got or base_off(p)[0] != ('A', k)): c.bad('%s:%s:cstr' % (f.d, y[0][2]), '%s copies %s only up to its first 0 character, at %s' % (f.d, y[0][2], f.where(i)))
        if not ctor:
            c.stats['self_assignments'] += 1
            hit = []

            def step2(i, st, env, ce):
                if i['o'] in ('call', 'invoke') and callee(i):
                    d = m.dem.get(callee(i), '') or ''
                    if EMPTIES.search(d) and i['a'] and any(base_off(p)[0] == ('A', a0) and content(m, cls, base_off(p)[1], d) for p in P.of(i['a'][0])): hit.append(i)
                if i['o'] == 'invoke': return [st], []
                return [st]
            explore(f, 0, step2, splits={i: [1 if pr == 'eq' else 0] for i, pr in ag.items()})
            if hit: c.bad(f.d + ':self', '%s empties the object at %s before copying, also when it is assigned to itself' % (f.d, f.where(hit[0])))
            else: c.ok()
    c.require(c.stats['copy_operations'] >= 40, 'copy operations')
    c.assume += ['members inherited from virtual bases carry no data', 'copying of standard containers and strings is the standard library\'s', 'that the heap memory of the copy is its own is M01']
    return c.finish()


def content(m, cls, off, d):
    """the emptied thing is content, not only a cache (cleanUp drops the remembered text)."""
    return not re.search(r'::cleanUp\(', d)


def vbase(f, v):
    """the address of a virtual base: its distance is read from before the virtual table."""
    g = f.inst.get(v) if isinstance(v, int) else None
    if not g or g['o'] != 'getelementptr' or not g['var']: return False
    x = f.inst.get(g['var'][0][0]) if isinstance(g['var'][0][0], int) else None
    y = f.inst.get(x['p']) if x and x['o'] == 'load' and isinstance(x['p'], int) else None
    return bool(y and y['o'] == 'getelementptr' and (y['off'] or 0) < 0)


def origin(f, P, v):
    """(base, offset, size) of the one scalar member a value was loaded from, looking through conversions of truth values."""
    d = f.inst.get(v) if isinstance(v, int) else None
    while d and (d['o'] in ('zext', 'trunc', 'freeze') or d['o'] == 'and' and isinstance(d['a'][1], list) or d['o'] == 'icmp' and d['pr'] == 'ne' and isinstance(d['a'][1], list)):
        d = f.inst.get(d['a'][0]) if isinstance(d['a'][0], int) else None
    if not d or d['o'] != 'load' or d['t'] == 'ptr': return None
    src = [base_off(p) for p in P.of(d['p'])]
    return (src[0][0], src[0][1], d.get('sz')) if len(src) == 1 and src[0][1] is not None else None


def crossed(f, P, a0, k, x, fl):
    """a scalar member stored straight from a different member of the original (capacities may be derived from lengths)."""
    if 'apacity' in x[2]: return None
    for i in f.inst.values():
        if i['o'] != 'store' or [base_off(p) for p in P.of(i['p'])] != [(('A', a0), x[0])]: continue
        s = origin(f, P, i['val'])
        if s and s[0] == ('A', k) and s[1] != x[0]:
            y = [z for z in fl if z[0] == s[1]]
            if y and y[0][1] == x[1]: return i, y[0][2]
    return None


def tested(f, P, k):
    """offsets of the members of argument k that some branch of f depends on (None: unknown part of it)."""
    out = set(); seen = set(); st = [bb[-1]['cond'] for bb in f.bbs if isinstance(bb[-1].get('cond'), int)]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v); d = f.inst.get(v)
        if not d: continue
        if d['o'] == 'load':
            for p in P.of(d['p']):
                if root(p) == ('A', k): out.add(base_off(p)[1] if base_off(p)[0] == ('A', k) else None)
        if d['o'] in ('call', 'invoke'):
            for p in (p for j, a in enumerate(d['a']) if d['pt'][j] == 'ptr' for p in P.of(a)):
                if root(p) == ('A', k): out.add(base_off(p)[1] if base_off(p)[0] == ('A', k) and base_off(p)[1] else None)
        st += [o for o in operands(d) if isinstance(o, int)]
    return out


def overlaps(rd, x):
    return any(lo < x[0] + x[1] and hi > x[0] for lo, hi in rd)


def virtual_owners(m, cls):
    out = set(); st = [(cls, False)]
    while st:
        n, v = st.pop()
        for b in m.types.get(n, {}).get('bases', []):
            w = v or b['virtual']
            if w: out.add(b['n'])
            st.append((b['n'], w))
    return out
