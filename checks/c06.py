"""C06: thread completion protocol."""
from lockutil import *

TITLE = 'Thread join means finished; a live thread is never started twice'
RULE = ('path-sensitive typestate over the inlined SSA of Java::Lang::Thread: on every path the thread body runs its task before it clears the alive flag and '
        'clears the flag before it signals completion exactly once; join returns normally only after taking the completion permit (or a timed wait '
        'that failed) and always gives the permit back; every access of the alive flag holds the thread\'s mutex; start launches the body only in the '
        'critical section that found the thread not alive and marks it alive before leaving that section')
CLS = 'Java::Lang::Thread'
SEM = 'Java::Util::Concurrent::Semaphore'


def cname(m, i):
    n = callee(i)
    return m.dem.get(n, n) if n else None


def run():
    c = Check('C06', TITLE, RULE)
    m = module(inline=True, keep=KEEP_LOCKS + r'|^(.*Java::Lang::String::|.*Java::Lang::operator|Java::Util::Concurrent::Semaphore::|.*std::function<|std::thread::)',
               post='function(sroa,early-cse<memssa>,simplifycfg,instcombine)', roots=r'^Java::Lang::Thread::')
    fl = m.fields(CLS)
    sem = [o for o, s, n, t, w in fl if t == SEM]; alive = [o for o, s, n, t, w in fl if n == 'alive']
    mx = [o for o, s, n, t, w in fl if 'mutex' in t]; flags = [o for o, s, n, t, w in fl if t == 'bool']
    c.require(len(sem) == 1 and mx and flags, 'completion semaphore, mutex and flag fields of ' + CLS)
    A = ('A', 0); SP = add(A, sem[0])
    pub = public_names(m, CLS)
    fns = {f.d[len(CLS) + 2:]: f for f in m.defined(lambda d: d.startswith(CLS + '::'))}
    body = fns.get('run()'); c.require(body, 'Thread::run')
    if not alive:      # renamed: the flag isAlive() returns
        f = fns.get('isAlive()'); c.require(f, 'Thread::isAlive'); P = Paths(f)
        alive = [base_off(p)[1] for b in f.bbs for i in b if i['o'] == 'load' for p in P.of(i['p']) if base_off(p)[0] == A and base_off(p)[1] in flags][:1]
    c.require(len(alive) == 1, 'the alive flag of ' + CLS); AP = add(A, alive[0])
    c.stats.update(methods=len(fns))

    # --- locking of the flag
    nacc = 0
    for name, f in fns.items():
        if name.startswith(('~', 'Thread(')) or mname(f.d, CLS) not in pub: continue
        P = Paths(f); L = Locks(m, f, P); seen = []

        def visit(i, st):
            nonlocal nacc
            if i['i'] in L.events: return
            for _, k, p in inst_accesses(i, P):
                if p == AP and k != 'x':
                    nacc += 1
                    if any(base_off(h[0])[0] == A and base_off(h[0])[1] in mx for h in st[0]): c.ok()
                    else: c.bad(name + ':unlocked-alive', '%s: accesses the alive flag at %s without the thread\'s mutex' % (f.d, f.where(i)))
        L.run(visit)
    c.stats['alive_accesses'] = nacc; c.require(nacc >= 4, 'accesses of the alive flag')

    # --- body
    P = Paths(body); cnt = {'signals': 0, 'tasks': 0}

    def isrel(i):
        d = cname(m, i)
        return d and d.startswith(SEM + '::release') and SP in P.of(i['a'][0])

    def istask(i):
        d = cname(m, i)
        if d and re.match(r'.*std::function<void ?\(\)>::operator\(\)', d): return True
        return i['o'] in ('call', 'invoke') and not callee(i) and isinstance(i.get('f'), int)

    def isempty(i):
        """the value with which this test says that there is no task."""
        d = cname(m, i)
        if not d: return None
        if re.search(r'std::function<void ?\(\)>::operator bool|operator!=<.*std::function<void ?\(\)>.*nullptr_t|^bool std::operator!=<void>\(std::(function<void ?\(\)>|nullptr_t)', d): return 0
        if re.search(r'operator==<.*std::function<void ?\(\)>.*nullptr_t|^bool std::operator==<void>\(std::(function<void ?\(\)>|nullptr_t)|std::_Function_base::_M_empty', d): return 1
        return None
    empties = {i['i']: isempty(i) for b in body.bbs for i in b if isempty(i) is not None}
    splits = {k: (0, 1) for k in empties}

    def step(i, s, env, ce):
        task, al, sig = s
        if i['o'] in ('call', 'invoke'):
            if i['i'] in splits and dict(env).get(i['i']) == empties[i['i']]: task = max(task, -1) if task else -1
            if istask(i):
                if task == 1: c.bad('run:twice', '%s: the task can run twice (%s)' % (body.d, body.where(i)))
                if sig: c.bad('run:late', '%s: the task runs at %s after completion was signalled' % (body.d, body.where(i)))
                task = 1; cnt['tasks'] += 1
                if al == 0: c.bad('run:dead', '%s: the task runs at %s after the thread was marked not alive' % (body.d, body.where(i)))
                else: c.ok()
                # an exception leaving the task terminates the process (it would leave the thread's entry function)
                if i['o'] == 'invoke': return [(task, al, sig)], [(task, al, sig)]
            if isrel(i):
                cnt['signals'] += 1
                if task == 0: c.bad('run:early', '%s: completion is signalled at %s before the task has run' % (body.d, body.where(i)))
                elif al != 0: c.bad('run:alive', '%s: completion is signalled at %s while the thread still counts as alive' % (body.d, body.where(i)))
                else: c.ok()
                if sig: c.bad('run:signals', '%s: completion is signalled twice (%s)' % (body.d, body.where(i)))
                sig = 1
        elif i['o'] == 'store' and AP in P.of(i['p']):
            v = ce.val(i['val'], dict(env)); al = v & 1 if v is not None else 2
            if al == 0 and task == 0: c.bad('run:early-dead', '%s: the thread is marked not alive at %s before its task has run' % (body.d, body.where(i)))
            if al and sig: c.bad('run:revive', '%s: the thread is marked alive at %s after completion was signalled' % (body.d, body.where(i)))
        elif i['o'] == 'ret':
            if not sig: c.bad('run:nosignal', '%s: can end at %s without signalling completion: join never returns' % (body.d, body.where(i)))
            elif al != 0: c.bad('run:stays-alive', '%s: ends at %s still marked alive' % (body.d, body.where(i)))
            else: c.ok()
        return [(task, al, sig)]
    explore(body, (0, 1, 0), step, splits, track=[i for b in body.bbs for i in b if i['o'] == 'store' and AP in P.of(i['p'])])
    c.require(cnt['tasks'], 'the task call in Thread::run'); c.stats.update(cnt)

    # --- join
    nj = 0
    for name, f in fns.items():
        if not name.startswith('join('): continue
        nj += 1; P = Paths(f); unt = name == 'join()'
        def op(i):
            d = cname(m, i)
            if not d or not d.startswith(SEM + '::') or SP not in P.of(i['a'][0]): return None
            k = re.match(re.escape(SEM) + r'::(\w+)', d).group(1)
            n = 1
            if '(int' in d: n = i['a'][1][1] if isinstance(i['a'][1], list) and i['a'][1][0] == 'i' else None
            return k, n
        ops = {i['i']: op(i) for b in f.bbs for i in b if i['o'] in ('call', 'invoke') and op(i)}
        splits = {i: (0, 1) for i, (k, n) in ops.items() if k == 'tryAcquire'}

        def step(i, s, env, ce):
            bal, got, failed = s
            if i['i'] in ops:
                k, n = ops[i['i']]
                if n is None and k in ('acquire', 'tryAcquire', 'release'):
                    c.bad(name + ':amount', '%s: takes or gives a non-constant number of completion permits at %s' % (f.d, f.where(i))); n = 1
                if k == 'acquire' or (k == 'tryAcquire' and dict(env).get(i['i']) == 1): bal += n; got = 1
                elif k == 'tryAcquire': failed = 1
                elif k == 'release': bal -= n
                if abs(bal) > 4: return []
            if i['o'] == 'ret':
                if bal: c.bad(name + ':balance', '%s: returns at %s having %s: %s' % (f.d, f.where(i), 'kept the completion permit' if bal > 0 else 'given a permit it did not take',
                              'a second join never returns' if bal > 0 else 'a join can return before the thread finished'))
                elif not got and (unt or not failed): c.bad(name + ':nowait', '%s: returns at %s without having waited for completion' % (f.d, f.where(i)))
                else: c.ok()
            return [(bal, got, failed)]
        explore(f, (0, 0, 0), step, splits)
    c.require(nj >= 2, 'join overloads'); c.stats['joins'] = nj

    # --- start
    ns = 0
    for name, f in fns.items():
        P = Paths(f)
        launches = [i for b in f.bbs for i in b if i['o'] in ('call', 'invoke') and re.match(r'^std::thread::thread<', cname(m, i) or '')]
        launches += [i for b in f.bbs for i in b if callee(i) == 'pthread_create']
        if not launches or mname(f.d, CLS) not in pub: continue
        ns += len(launches)
        L = Locks(m, f, P)
        # product: lock state x (alive known false in section id)
        loads = [i for b in f.bbs for i in b if i['o'] == 'load' and AP in P.of(i['p'])]
        at = {}
        def visit(i, st): at.setdefault(i['i'], set()).add(frozenset(h for h in st[0] if base_off(h[0])[0] == A and base_off(h[0])[1] in mx))
        L.run(visit)
        for la in launches:
            hs = at.get(la['i'], set())
            if not hs or not all(hs):
                c.bad(name + ':unlocked-start', '%s: launches the thread at %s outside the critical section that tests the alive flag' % (f.d, f.where(la))); continue
            ids = set(x for h in hs for x in h)
            tests = [l for l in loads if at.get(l['i']) and set(x for h in at[l['i']] for x in h) & ids and gates(f, l, la)]
            if not tests: c.bad(name + ':untested', '%s: launches the thread at %s without having found it not alive in the same critical section: two threads can run the task at once' % (f.d, f.where(la)))
            else: c.ok()
            # marked alive before the section ends, on every normal path (or before the launch)
            bad = unmarked(m, f, L, la, AP, P)
            if bad: c.bad(name + ':unmarked', '%s: after launching at %s the lock is given up at %s without the thread being marked alive' % (f.d, f.where(la), f.where(bad)))
            else: c.ok()
    c.require(ns >= 1, 'a thread launch'); c.stats['launches'] = ns
    c.assume = ['the std::thread constructor and std::function do what the standard says', 'an exception leaving the task ends the process (std::terminate)']
    return c.finish()


def gates(f, load, tgt):
    """tgt is only reachable through the 'false' side of a branch on load: explored with load := 1, tgt is unreachable."""
    hit = []

    def step(i, s, env, ce):
        if i['i'] == tgt['i'] and s: hit.append(1)
        return [s or i['i'] == load['i']]
    explore(f, False, step, {load['i']: (1,)})
    # also no path around the load
    around = []

    def step2(i, s, env, ce):
        if i['i'] == load['i']: return []
        if i['i'] == tgt['i']: around.append(1)
        return [s]
    explore(f, False, step2)
    return not hit and not around


def unmarked(m, f, L, la, AP, P):
    out = []
    L2 = Locks(m, f, P); L2._seenp = set(); L2.exit_states = []

    def step(i, s, env, ce):
        lst, launched, marked = s
        if i['o'] == 'store' and AP in P.of(i['p']):
            v = ce.val(i['val'], dict(env)); marked = 1 if v is not None and v & 1 else 0
        if i['i'] == la['i']: launched = 1
        new = L2.step(lst, i)
        res = []
        for n in new:
            if launched and not marked and len(n[0]) < len(lst[0]): out.append(i)
            if launched and not marked and i['o'] == 'ret': out.append(i)
            res.append((n, launched, marked))
        if i['o'] == 'invoke': return res, []      # a launch that throws did not start anything
        return res
    explore(f, ((frozenset(), ()), 0, 0), step, track=[i for b in f.bbs for i in b if i['o'] == 'store' and AP in P.of(i['p'])])
    return out[0] if out else None
