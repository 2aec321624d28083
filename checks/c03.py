"""C03: semaphore permits."""
from locks import *
from facts import *
from lockutil import public_names, mname, params

TITLE = 'Semaphore never over-grants and never loses a wake-up'
RULE = ('lockset + critical-section dataflow on inlined SSA of Semaphore: one mutex guards every access of the permit count; every store of the count is '
        'old+n or old-n with n proved non-negative and, for old-n, n<=old proved from the conditions dominating it in the same critical section; success is '
        'returned exactly on the paths that took the permits; a wait starts in the critical section (of the wait mutex) in which the count was tested and is '
        'followed by a new test; every increase happens with the wait mutex held and is followed by notify_all on every path')
CLS = 'Java::Util::Concurrent::Semaphore'


def run():
    c = Check('C03', TITLE, RULE)
    m = module(inline=True, keep=KEEP_LOCKS + r'|^(.*Java::Lang::String::|.*Java::Lang::operator)',
               post='function(sroa,early-cse<memssa>,simplifycfg,instcombine)', roots=r'^Java::Util::Concurrent::Semaphore::')
    fl = m.fields(CLS)
    cnt = [(o, s, n) for o, s, n, t, own in fl if own == CLS and t in ('int', 'long', 'unsigned int', 'unsigned long', 'short')]
    c.require(len(cnt) == 1, 'exactly one integer permit counter in ' + CLS)
    coff = cnt[0][0]
    A = ('A', 0); CP = add(A, coff)
    locksets = []; nacc = nsub = nadd = nwait = 0; grants = 0; nref = 0
    pub = public_names(m, CLS)
    for f in m.defined(lambda d: d.startswith(CLS + '::')):
        name = f.d[len(CLS) + 2:]
        if name.startswith(('~', 'Semaphore(')) or mname(f.d, CLS) not in pub or '::$_' in name or "'lambda" in name: continue      # closures are judged where they are inlined
        P = Paths(f); L = Locks(m, f, P); F = Facts(f)
        at = {}          # inst id -> set of (held mutexes with acquisition ids)

        def visit(i, st):
            at.setdefault(i['i'], set()).add(st[0])
        L.run(visit)
        reach = None
        loads = {}; stores = []; waits = []; notifies = []
        for b in f.bbs:
            for i in b:
                if i['i'] not in at: continue
                for _, kind, p in inst_accesses(i, P):
                    if p != CP: continue
                    if kind == 'x' : continue
                    nacc += 1
                    for h in at[i['i']]: locksets.append((f, i, frozenset(x[0] for x in h)))
                    if i['o'] == 'load': loads[i['i']] = i
                    elif i['o'] == 'store': stores.append(i)
                    else: c.bad(name + ':rmw', '%s: unexpected access of the permit count at %s' % (f.d, f.where(i)))
                e = L.events.get(i['i'])
                if e and e.kind == 'wait': waits.append(i)
                if e and e.kind == 'notify': notifies.append((i, 'notify_all' in m.dem.get(callee(i), '')))
        subs = []; adds = []; asked = []
        # counter loads are one value inside a critical section without stores in between
        def same_section(i, j):
            ai = set(x for h in at[i['i']] for x in h); aj = set(x for h in at[j['i']] for x in h)
            return bool(ai & aj)
        def same_value(i, j):
            ai = set(x for h in at[i['i']] for x in h); aj = set(x for h in at[j['i']] for x in h)
            common = {x[0] for x in ai} & {x[0] for x in aj}
            return bool(common) and all({x for x in ai if x[0] == k} & {x for x in aj if x[0] == k} for k in common)
        for s in stores:
            d = F.lin(s['val']); base = [a for a, k in d.t.items() if k == 1 and a in loads]
            if len(base) != 1:
                c.bad(name + ':store', '%s: the permit count is overwritten at %s with a value not derived from the current count' % (f.d, f.where(s))); continue
            ld = loads[base[0]]
            if not same_section(ld, s):
                c.bad(name + ':torn', '%s: the permit count read at %s is written back at %s in a different critical section' % (f.d, f.where(ld), f.where(s)))
            delta = d.add(Lin.atom(base[0]), -1)
            # all loads of the count inside this critical section denote the same value
            alias = [Lin.atom(x).add(Lin.atom(base[0]), -1) for x, l in loads.items() if x != base[0] and same_value(l, s)]
            eq = alias + [x.scale(-1) for x in alias]
            blk = f.blk[s['i']]
            old_free = {a for a in loads if not same_value(loads[a], s)}
            facts = F.resolve([x for x in F.at(blk) if not isinstance(x, Lin) or not (set(x.t) & old_free)], eq)
            want = amount(f)
            if want is not None and not inloop(f, blk):
                dd = delta if not neg_name(name) else delta.scale(-1)
                if dd.key() != want.key() and known(dd) and not (entails(facts, dd.add(want, -1)) and entails(facts, want.add(dd, -1))):
                    c.bad(name + ':amount', '%s: the permit count changes at %s by another amount than the permits named in the call' % (f.d, f.where(s)))
                else: c.ok()
            if entails(facts, delta): adds.append(s); nadd += 1; c.ok()
            elif entails(facts, delta.scale(-1)):
                subs.append(s); nsub += 1; asked.append(delta.scale(-1))
                if entails(facts, d): c.ok()
                else: c.bad(name + ':overgrant', '%s: permits are taken at %s without "requested <= available" holding there, tested in the same critical section' % (f.d, f.where(s)))
            else:
                # decreasing by a possibly negative amount
                c.bad(name + ':sign', '%s: the permit count changes at %s by an amount not known to be non-negative (a negative request would create or destroy permits)' % (f.d, f.where(s)))
                if entails(facts, d): subs.append(s)
        # success <=> taken
        if f.ret == 'i1' or f.ret == 'i8':
            g = grant_paths(f, subs)
            for want, got, i in g:
                grants += 1
                if isinstance(want, tuple):
                    v = want[1]
                    if not got and leaves(f, v) and all(plain(f, x) for x in leaves(f, v)) and not (asked and all(zero_asked(f, F, i, x, asked) for x in leaves(f, v))):
                        c.bad(name + ':result', '%s: on a path that took no permits the result at %s is decided by something else than the permit count: success can be reported without permits' % (f.d, f.where(i)))
                    else: c.ok()
                elif want is not None and want != got and not (want and no_request(f, F, i)):
                    c.bad(name + ':result', '%s: returns %s on a path that %s (%s)' % (f.d, 'true' if want else 'false', 'took permits' if got else 'took no permits', f.where(i)))
                else: c.ok()
        elif subs or name.startswith('acquire'):
            # a void acquire returns only after taking
            for want, got, i in grant_paths(f, subs):
                grants += 1
                if not got and name.startswith('acquire'): c.bad(name + ':result', '%s: returns at %s without having taken permits' % (f.d, f.where(i)))
                else: c.ok()
        # refusals: nobody is made to wait or sent away while enough permits are there
        if asked and len({a.key() for a in asked}) == 1:
            for b, where in [(f.blk[w['i']], w) for w in waits] + false_returns(f):
                for facts, lds in back_facts(f, F, b, loads, where):
                    nref += 1
                    ls = sorted(lds)
                    eq = [y for x in ls[1:] for y in (Lin.atom(x).add(Lin.atom(ls[0]), -1), Lin.atom(ls[0]).add(Lin.atom(x), -1))]
                    if ls and not entails(F.resolve(facts, eq), asked[0].add(Lin.atom(ls[0]), -1).plus(-1)):
                        c.bad(name + ':refused', '%s: at %s a request can be refused or put to sleep although as many permits as requested are available' % (f.d, f.where(where)))
                    else: c.ok()
        # waits
        for w in waits:
            nwait += 1
            g = L.events[w['i']].guard
            hs = at[w['i']]
            ids = set(x for h in hs for x in h)
            if len(set(x[0] for x in ids)) != 1:
                c.bad(name + ':waitlocks', '%s: waits at %s holding %d locks' % (f.d, f.where(w), len(set(x[0] for x in ids))))
            dom = [l for l in loads.values() if f.dominates(f.blk[l['i']], f.blk[w['i']]) and ids & set(x for h in at[l['i']] for x in h)]
            if not dom:
                c.bad(name + ':lostwakeup', '%s: waits at %s although the count was not tested in the critical section the wait gives up: a release in between is missed' % (f.d, f.where(w)))
            else: c.ok()
            if reach is None: reach = reaching(f)
            if not loops_through(f, w, loads):
                c.bad(name + ':spurious', '%s: after the wait at %s the count is not tested again before returning success' % (f.d, f.where(w)))
            else: c.ok()
        c.__dict__.setdefault('waitmx', set()).update(x[0] for w in waits for h in at[w['i']] for x in h)
        c.__dict__.setdefault('addsites', []).extend((f, name, s, at, notifies) for s in adds)
    # what a semaphore is born with
    nc = 0
    for f in m.defined(lambda d: re.match(re.escape(CLS) + r'::Semaphore\((int|void)?\)$', d)):
        want = Lin.atom(1) if f.d.endswith('(int)') else Lin({}, 0)
        P = Paths(f); F = Facts(f)
        for b in f.bbs:
            for i in b:
                if i['o'] != 'store' or set(P.of(i["p"])) != {CP}: continue
                nc += 1
                for d, facts in alternatives(f, F, i['val'], F.at(f.blk[i['i']])):
                    facts = F.resolve(facts)
                    if known(d) and d.key() != want.key() and not (entails(facts, d.add(want, -1)) and entails(facts, want.add(d, -1))):
                        c.bad(f.d[len(CLS) + 2:] + ':initial', '%s: can start with another number of permits than given, at %s' % (f.d, f.where(i)))
                    else: c.ok()
    c.stats['initial_stores'] = nc
    wm = c.__dict__.get('waitmx', set())
    for f, name, s, at, notifies in c.__dict__.get('addsites', []):
        held = [frozenset(x[0] for x in h) for h in at[s['i']]]
        if wm and not all(wm & h for h in held):
            c.bad(name + ':unheld-increase', '%s: permits are added at %s without the lock waiters test the count under: a waiter about to sleep misses the wake-up' % (f.d, f.where(s)))
        else: c.ok()
        miss = paths_without(f, s, [n for n, allw in notifies if allw])
        if miss:
            c.bad(name + ':nonotify', '%s: after permits are added at %s the function can return at %s without notify_all: a waiter whose request now fits keeps sleeping' % (f.d, f.where(s), f.where(miss)))
        else: c.ok()
    common = None
    for f, i, h in locksets: common = h if common is None else common & h
    if locksets and not common:
        from collections import Counter
        cc = Counter(x for _, _, h in locksets for x in h); best = cc.most_common(1)[0][0] if cc else None
        for f, i, h in locksets:
            if best not in h: c.bad(f.d[len(CLS) + 2:] + ':unlocked', '%s: permit count accessed at %s without the lock that guards it elsewhere' % (f.d, f.where(i)))
    elif locksets: c.ok(len(locksets))
    c.stats.update(accesses=nacc, takes=nsub, gives=nadd, waits=nwait, return_paths=grants, refusals=nref)
    c.require(nacc >= 4 and nadd >= 1 and (nsub >= 1 or c.viol), 'permit count accesses')
    c.assume = ['permit arithmetic does not overflow int']
    return c.finish()


def reaching(f): return None


def loops_through(f, w, loads):
    """every path from the wait to a return passes a load of the count (or never returns success)."""
    lb = set(f.blk[i] for i in loads)
    wb = f.blk[w['i']]
    # loads later in the same block count
    if any(f.blk[i] == wb and f.pos[i] > f.pos[w['i']] for i in loads): return True
    seen = set(); st = [f.bbs[wb][-1]['n']] if f.bbs[wb][-1] is w else list(f.succ[wb])
    while st:
        b = st.pop()
        if b in seen or b in lb: continue
        seen.add(b)
        if f.bbs[b][-1]['o'] == 'ret': return False
        st += [s for s in f.succ[b] if not (f.bbs[b][-1]['o'] == 'invoke' and s == f.bbs[b][-1]['u'])]
    return True


def false_returns(f):
    """blocks after which the function certainly returns false."""
    out = []
    for b, bb in enumerate(f.bbs):
        r = bb[-1]
        if r['o'] != 'ret' or not r.get('a'): continue
        seen = set(); st = [(b, r['a'][0])]
        while st:
            b2, v = st.pop()
            if (b2, repr(v)) in seen: continue
            seen.add((b2, repr(v)))
            if v in (['i', 0], 0) and isinstance(v, list): out.append((b2, f.bbs[b2][-1]))
            elif isinstance(v, int) and v in f.inst and f.inst[v]['o'] == 'phi':
                st += [(p, x) for x, p in f.inst[v]['in']]
    return out


def back_facts(f, F, b, loads, at, limit=400):
    """for every path from the last reading of the count to block b: (facts of its edges, the loads it read)."""
    lb = {}
    for i in loads: lb.setdefault(f.blk[i], set()).add(i)
    out = []; st = [(b, (), (b,))]; n = 0
    while st:
        x, facts, path = st.pop(); n += 1
        if n > limit: return []
        here = lb.get(x, ()) if len(path) > 1 else {i for i in lb.get(x, ()) if f.pos[i] < f.pos[at['i']]}
        if here: out.append((list(facts), here)); continue
        for p in f.pred[x]:
            if p in path or f.bbs[p][-1]['o'] == 'invoke' and f.bbs[p][-1]['u'] == x: continue
            st.append((p, facts + tuple(F.edge(p, x)), path + (p,)))
    return out


def grant_paths(f, subs):
    """[(returned constant or None, took permits, ret inst)] over path-sensitive exploration."""
    ids = set(s['i'] for s in subs); out = set()

    def step(i, took, env, ce):
        if i['i'] in ids: took = True
        if i['o'] == 'ret':
            v = ce.val(i['a'][0], dict(env)) if i.get('a') else None
            out.add((('?', i['a'][0] if i.get('a') else None) if v is None and i.get('a') and isinstance(i['a'][0], int) else None if v is None else bool(v & 1), took, i['i']))
        return [took]
    explore(f, False, step)
    return [(w, t, f.inst[i]) for w, t, i in sorted(out, key=repr)]


def neg_name(name): return name.startswith(('acquire', 'tryAcquire'))


def request(f):
    """the permits a call names: its first int argument, or one."""
    ps = [p for p in params(f.d) if p != 'void']
    if not ps: return Lin({}, 1)
    if ps[0] in ('int', 'Java::Lang::Integer', 'long'): return Lin.atom(len(f.args) - len(ps))
    return None


def amount(f):
    n = mname(f.d, CLS)
    return request(f) if n in ('release', 'acquire', 'tryAcquire') else None


def known(d): return all(isinstance(a, int) and a < 8 for a in d.t)


def alternatives(f, F, v, facts, depth=0):
    """the values v may have: [(linear form, raw facts)]."""
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or depth > 4: return [(F.lin(v), facts)]
    rec = lambda x, more: alternatives(f, F, x, list(facts) + list(more), depth + 1)
    if i['o'] == 'select': return rec(i['a'][1], F.cond(i['a'][0], True)) + rec(i['a'][2], F.cond(i['a'][0], False))
    if i['o'] == 'phi': return [y for x, p in i['in'] if x != v for y in rec(x, list(F.at(p)) + list(F.edge(p, f.blk[v])))]
    if i.get('intr') in ('llvm.smax', 'llvm.smin'):
        x, y = i['a']; d = F.lin(x).add(F.lin(y), -1)
        if i['intr'] == 'llvm.smin': x, y = y, x
        return rec(x, [d]) + rec(y, [d.scale(-1)])
    return [(F.lin(v), facts)]


def inloop(f, b):
    seen = set(); st = list(f.succ[b])
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += f.succ[x]
    return False


def plain(f, v, depth=0):
    """a condition over the arguments and constants alone."""
    if isinstance(v, list): return v[0] == 'i'
    if v not in f.inst: return isinstance(v, int) and v < len(f.args)
    i = f.inst[v]
    return depth < 8 and i['o'] in ('icmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'add', 'sub', 'select', 'freeze') and all(plain(f, x, depth + 1) for x in i['a'])


def leaves(f, v):
    """the non-constant values a phi web stands for."""
    out = set(); seen = set(); st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x)
        if x in f.inst and f.inst[x]['o'] == 'phi': st += [y for y, p in f.inst[x]['in']]
        else: out.add(x)
    return out


def zero_asked(f, F, i, v, asked):
    want = request(f)
    return want is not None and entails(F.resolve(list(F.at(f.blk[i['i']])) + F.cond(v, True)), want.scale(-1))


def no_request(f, F, i):
    """nothing was asked for on every way to this return (a request for no permits takes none)."""
    want = request(f)
    if want is None: return False
    return entails(F.resolve(F.at(f.blk[i['i']])), want.scale(-1))


def paths_without(f, s, marks):
    """a return reachable from s without passing one of marks, or None."""
    mk = set(x['i'] for x in marks); b0 = f.blk[s['i']]
    for i in f.bbs[b0][f.pos[s['i']] + 1:]:
        if i['i'] in mk: return None
    seen = set(); st = list(f.succ[b0])
    if f.bbs[b0][-1]['o'] == 'ret': return f.bbs[b0][-1]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(i['i'] in mk for i in f.bbs[b]): continue
        if f.bbs[b][-1]['o'] == 'ret': return f.bbs[b][-1]
        st += f.succ[b]
    return None
