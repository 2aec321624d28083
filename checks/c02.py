"""C02: lock discipline."""
from locks import *
from lockutil import *

TITLE = 'Locks are always released and cannot deadlock'
RULE = ('lock typestate on the inlined SSA of every function of the classes owning a mutex (and of every other library function using one), exceptional edges '
        'included: no return or exception leaves a lock held, no lock is taken twice by its holder (also when two arguments are the same object), '
        'locks are nested in one global order of (class, field), nothing calls back into a caller-supplied object or task while holding a '
        'lock, and a wait gives up every lock held')


def canon(p, f, cls):
    b, off = base_off(p)
    if b[0] == 'A': return (cls.get(b[1], '?'), off)
    if b[0] == 'G': return ('global', b[1])
    return ('?', fmt(p))


def run():
    c = Check('C02', TITLE, RULE)
    m0 = module(pre='function(sroa)')
    owners = {}
    for n, t in m0.types.items():
        if not n.startswith('Java::') : continue
        for x in t['fields']:
            if re.search(r'\bstd::(_V2::)?(recursive_|timed_|shared_)*(mutex|condition_variable)', x['t']) or 'pthread_mutex_t' in x['t']: owners.setdefault(n, []).append(x['n'])
    c.require(len(owners) >= 3, 'classes owning a mutex (StringBuffer, Semaphore, Thread)')
    roots = set(owners); direct = 0
    for f in m0.defined(lambda d: 'Java::' in d):
        if '/concurrentqueue' in f.src or 'blockingconcurrentqueue' in f.src or 'lightweightsemaphore' in f.src: continue
        P = None
        for b in f.bbs:
            for i in b:
                if i['o'] not in ('call', 'invoke'): continue
                P = P or Paths(f)
                if classify(m0, i, P): direct += 1; roots.add(re.sub(r'\(.*', '', f.d.split(' ')[-1] if f.d.startswith(('void ', 'bool ')) else f.d).rsplit('::', 1)[0])
    roots = sorted(r for r in roots if r.startswith('Java::'))
    m = module(inline=True, keep=KEEP_LOCKS + r'|^(.*Java::Lang::String::|.*Java::Lang::operator|.*std::function<|std::thread::)',
               post='function(sroa,early-cse<memssa>,simplifycfg,instcombine)',
               roots='^(%s)::' % '|'.join(re.escape(r) for r in roots))
    c.stats.update(owners=len(owners), lock_call_sites=direct)
    edges = {}; nf = nev = 0
    vts = {}
    for f in m.defined(lambda d: any(d.startswith(r + '::') for r in roots)):
        own = next(r for r in sorted(roots, key=len, reverse=True) if f.d.startswith(r + '::'))
        name = f.d[len(own) + 2:]
        P = Paths(f); L = Locks(m, f, P)
        if not L.count: continue
        nf += 1; nev += L.count
        a0 = 1 if f.args and f.args[0][2] else 0
        cls = {a0: own}
        objs = {}
        for k, t in enumerate(params(f.d)):
            x = re.sub(r'( const)?[&*]+$', '', t); x = x if x.startswith('Java::') else 'Java::Lang::' + x
            if x in owners and t[-1] in '&*': cls[a0 + 1 + k] = x; objs[a0 + 1 + k] = x
        key = own.split('::')[-1] + '::' + name
        vt = vts.get(own)
        if vt is None: vt = vts[own] = m.vtable('N' + ''.join('%d%s' % (len(x), x) for x in own.split('::')) + 'E')
        nbad = len(c.viol)

        def visit(i, st):
            if not st[0] or i['i'] in L.events: return
            if i['o'] not in ('call', 'invoke'): return
            n = callee(i); hold = ', '.join(sorted(cname(h[0], cls, m) for h in st[0]))
            if n is None:
                if i.get('asm'): return
                t = slot_target(f, P, i, ('A', a0), vt)
                if t:
                    d = m.dem.get(t, t)
                    if takes_lock(m, t): c.bad(key + ':reenter', '%s: calls %s through its vtable at %s while holding %s' % (f.d, d, f.where(i), hold))
                    return
                if harmless(f, P, i, a0): return
                c.bad(key + ':callback', '%s: makes a virtual call on an object it was given at %s while holding %s: the callee may need the same lock (e.g. when it is this very object)' % (f.d, f.where(i), hold))
            else:
                d = m.dem.get(n, n)
                if re.match(r'.*std::function<.*::operator\(\)', d):
                    c.bad(key + ':callback', '%s: runs a user task at %s while holding %s' % (f.d, f.where(i), hold))
                elif n in ('pthread_join',) or d in ('std::thread::join()',) or 'sleep' in d:
                    c.bad(key + ':blocks', '%s: blocks in %s at %s while holding %s' % (f.d, d, f.where(i), hold))
        def visit2(i, st):
            e = L.events.get(i['i'])
            if e and e.kind == 'wait':
                hs = set(h[0] for h in st[0])
                g = [x[1] for x in st[1] if x[0] == e.guard]
                mine = set(p for ms in g for p in ms)
                if hs - mine: c.bad(key + ':wait', '%s: waits at %s while keeping %s locked' % (f.d, f.where(i), ', '.join(cname(h, cls, m) for h in hs - mine)))
                elif not hs & mine: c.bad(key + ':wait-unlocked', '%s: waits at %s without holding the lock the wait gives up' % (f.d, f.where(i)))
                else: c.ok()
        L.run(lambda i, st: (visit(i, st), visit2(i, st)))
        for kind, i, det in L.problems:
            det = det if det not in owners else det
            txt = {'relock': 'takes a lock it already holds (self-deadlock)', 'unlock-not-held': 'releases a lock it does not hold', 'held-at-exit': 'can leave with a lock held',
                   'throws-while-held': 'an exception thrown here leaves the lock held'}[kind]
            c.bad(key + ':' + kind, '%s: %s at %s (%s)' % (f.d, txt, f.where(i), det))
        for a, b, i in L.edges:
            x, y = canon(a, f, cls), canon(b, f, cls)
            edges.setdefault((x, y), (f, i, key))
        # two arguments naming the same object
        for k in objs:
            if objs[k] != own: continue
            if f.d.startswith(own + '::' + own.split('::')[-1] + '('): continue      # a constructor's object is new
            w = alias_relock(m, f, L, P, a0, k)
            if w: c.bad(key + ':alias', '%s: when the argument is the object itself, its lock is taken twice (%s): self-deadlock' % (f.d, f.where(w)))
            else: c.ok()
        if len(c.viol) == nbad: c.ok()
        c.samples.append(key)
    # order
    nodes = set(x for e in edges for x in e)
    succ = {n: set(y for (x, y) in edges if x == n) for n in nodes}
    for (x, y), (f, i, key) in sorted(edges.items(), key=repr):
        if x == y or reaches(succ, y, x):
            if x == y and x[0] != 'global' : what = 'the lock of another object of the same class is taken while one is held (two threads doing this on swapped objects deadlock)'
            else: what = 'locks %s and %s are taken in both orders' % (nm(x, m), nm(y, m))
            c.bad(key + ':order', '%s: %s at %s' % (f.d, what, f.where(f.inst[i])))
        else: c.ok()
    c.stats.update(functions=nf, lock_operations=nev, order_edges=len(edges))
    c.require(nf >= 45, 'lock-using functions: expected at least 45, found %d' % nf)
    c.assume = ['std::lock acquires several mutexes without deadlock', 'vendored lock-free queue and cuckoo map are trusted']
    return c.finish()


def cname(p, cls, m):
    b, off = base_off(p)
    if b[0] == 'A' and b[1] in cls:
        n = next((x[2] for x in m.fields(cls[b[1]]) if x[0] == off), None)
        return '%s.%s' % (cls[b[1]].split('::')[-1], n or off)
    return fmt(p)


def nm(x, m):
    if x[0] in m.types:
        n = next((f[2] for f in m.fields(x[0]) if f[0] == x[1]), x[1]); return '%s.%s' % (x[0].split('::')[-1], n)
    return '%s' % (x[1],)


def reaches(succ, a, b):
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += succ.get(x, ())
    return False


def subst(p, a, b):
    if p == a: return b
    if p[0] == '+': return add(subst(p[1], a, b), p[2])
    if p[0] in ('?', '*'): return (p[0], subst(p[1], a, b))
    return p


def alias_relock(m, f, L, P, a0, k):
    A, B = ('A', a0), ('A', k)
    L2 = Locks(m, f, P); L2._seenp = set(); L2.exit_states = []
    for e in L2.events.values():
        if e.kind == 'acqall': e.mutexes = tuple(tuple(sorted(set(subst(p, B, A) for p in ms))) for ms in e.mutexes)
        else: e.mutexes = tuple(sorted(set(subst(p, B, A) for p in e.mutexes)))
    splits = {}
    for b in f.bbs:
        for i in b:
            if i['o'] == 'icmp' and i['pr'] in ('eq', 'ne'):
                x, y = (set(subst(p, B, A) for p in P.of(v)) for v in i['a'])
                if len(x) == 1 and x == y: splits[i['i']] = (1 if i['pr'] == 'eq' else 0,)
    hit = []

    def step(i, st, env, ce):
        e = L2.events.get(i['i'])
        if e and e.kind == 'acqall':
            keys = [ms for ms in e.mutexes]
            if len(set(keys)) < len(keys): hit.append(i)
        new = L2.step(st, i)
        return new
    explore(f, (frozenset(), ()), step, splits)
    hit += [i for kind, i, d in L2.problems if kind == 'relock']
    return hit[0] if hit else None


