"""Lock typestate over inlined SSA: which mutexes are held at each instruction, per explored state.

State: (held: frozenset of (mutex path, acquisition id), guards: tuple of (guard local, mutex path, owned 1/0)).
RAII lock types and mutex members of namespace std are kept as opaque calls and interpreted here; raw pthread_* likewise."""
import re
from ap import *

KEEP_LOCKS = r'^(std::(mutex|recursive_mutex|timed_mutex|recursive_timed_mutex|shared_timed_mutex|unique_lock<|lock_guard<|scoped_lock<|shared_lock<|condition_variable)|std::condition_variable|std::cv_status std::(_V2::)?condition_variable|(int|void) std::(try_lock|lock)<|void std::lock<)'
RE_GUARD = re.compile(r'^std::(unique_lock|lock_guard|scoped_lock|shared_lock)<(.*)>::(~?)(\w+|operator=)\((.*)\)( const)?$')
RE_MUTEX = re.compile(r'^std::(mutex|recursive_mutex|timed_mutex|recursive_timed_mutex|shared_timed_mutex)::(lock|unlock|try_lock)\(\)$')


class LockEvent:
    __slots__ = ('kind', 'mutexes', 'guard', 'recursive', 'may_throw')

    def __init__(self, kind, mutexes=(), guard=None, recursive=False):
        self.kind = kind; self.mutexes = mutexes; self.guard = guard; self.recursive = recursive


def classify(m, i, P):
    """None or the lock event of a call instruction."""
    if i['o'] not in ('call', 'invoke'): return None
    n = callee(i)
    if not n: return None
    d = m.dem.get(n) or n
    a = i['a']
    mt = RE_MUTEX.match(d)
    if mt:
        rec = 'recursive' in mt.group(1)
        return LockEvent({'lock': 'acq', 'unlock': 'rel', 'try_lock': 'try'}[mt.group(2)], tuple(sorted(P.of(a[0]))), recursive=rec)
    if n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'):
        return LockEvent({'pthread_mutex_lock': 'acq', 'pthread_mutex_unlock': 'rel', 'pthread_mutex_trylock': 'try'}[n], tuple(sorted(P.of(a[0]))))
    g = RE_GUARD.match(d)
    if g:
        cls, targ, dt, meth, params = g.group(1), g.group(2), g.group(3), g.group(4), g.group(5)
        rec = 'recursive' in targ
        guard = tuple(sorted(P.of(a[0])))
        if dt: return LockEvent('gdtor', guard=guard)
        if meth == cls:
            if len(a) == 1: return LockEvent('gnone', guard=guard)
            if cls + '<' in params and '&&' in params: return LockEvent('gmove', (tuple(sorted(P.of(a[1]))),), guard)
            ms = tuple(sorted(P.of(a[1])))
            if 'defer_lock_t' in params: return LockEvent('gdefer', ms, guard, rec)
            if 'adopt_lock_t' in params: return LockEvent('gadopt', ms, guard, rec)
            if 'try_to_lock_t' in params: return LockEvent('gtry', ms, guard, rec)
            if 'duration' in params or 'time_point' in params: return LockEvent('gtry', ms, guard, rec)
            return LockEvent('gacq', ms, guard, rec)
        if meth == 'lock': return LockEvent('glock', guard=guard)
        if meth == 'unlock': return LockEvent('gunlock', guard=guard)
        if meth in ('try_lock', 'try_lock_for', 'try_lock_until'): return LockEvent('gtrylock', guard=guard)
        return None
    if re.match(r'^void std::lock<', d):
        return LockEvent('acqall', tuple(tuple(sorted(P.of(x))) for x in a))
    if re.match(r'^std::(_V2::)?condition_variable(_any)?::wait\(', d) or n in ('pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait') \
            or re.search(r'std::(_V2::)?condition_variable(_any)?::wait(_for|_until)?\b', d) or '__wait_until_impl' in d:
        return LockEvent('wait', guard=tuple(sorted(P.of(a[1]))))
    if 'condition_variable' in d and 'notify' in d:
        return LockEvent('notify', guard=tuple(sorted(P.of(a[0]))))
    return None


class Locks:
    """Explore (block, state) pairs. visit(inst, state, held) is called for every instruction in every state; problems collects
    (kind, inst, detail): double acquire, release of a lock not held, exit while holding."""

    def __init__(self, m, fn, P=None, limit=4000):
        self.m = m; self.fn = fn; self.P = P or Paths(fn); self.problems = []; self.events = {}
        self.edges = set()      # (held mutex, acquired mutex) order edges, with the acquiring instruction
        self.count = 0
        for b in fn.bbs:
            for i in b:
                e = classify(m, i, self.P)
                if e: self.events[i['i']] = e; self.count += 1
        self.limit = limit

    def held(self, st):
        h = set(x[0] for x in st[0])
        return h

    def _problem(self, kind, i, detail):
        t = (kind, i['i'], detail)
        if t not in self._seenp:
            self._seenp.add(t); self.problems.append((kind, i, detail))

    def acq(self, st, i, ms, rec=False):
        held, guards = st
        for mm in ms:
            if not rec and any(x[0] == mm for x in held): self._problem('relock', i, fmt(mm))
            for x in held:
                if x[0] != mm: self.edges.add((x[0], mm, i['i']))
        # an ambiguous mutex (several paths) is acquired as one of them: keep the set as a single key
        key = ms[0] if len(ms) == 1 else ('phi',) + tuple(ms)
        return (held | {(key, i['i'])}, guards)

    def rel(self, st, i, ms):
        held, guards = st
        key = ms[0] if len(ms) == 1 else ('phi',) + tuple(ms)
        h = [x for x in held if x[0] == key]
        if not h:
            self._problem('unlock-not-held', i, fmt(ms[0]) if ms else '?')
            return st
        return (held - {h[-1]}, guards)

    def step(self, st, i):
        """list of successor states (normal completion)."""
        e = self.events.get(i['i'])
        if not e: return [st]
        k = e.kind
        held, guards = st
        if k == 'acq': return [self.acq(st, i, e.mutexes, e.recursive)]
        if k == 'rel': return [self.rel(st, i, e.mutexes)]
        if k == 'try': return [st, self.acq(st, i, e.mutexes, e.recursive)]
        if k == 'acqall':
            for ms in e.mutexes:   # std::lock avoids deadlock among its own arguments: only edges from locks already held
                hs = set(x[0] for x in st[0])
                for mm in ms:
                    for h in held: self.edges.add((h[0], mm, i['i']))
                st = (st[0] | {(ms[0] if len(ms) == 1 else ('phi',) + ms, i['i'])}, st[1])
            return [st]
        if k in ('gacq', 'gdefer', 'gadopt', 'gtry', 'gnone', 'gmove'):
            rest = tuple(g for g in guards if g[0] != e.guard)
            if k == 'gnone': return [(held, rest)]
            if k == 'gmove':
                src = e.mutexes[0]
                for g in guards:
                    if g[0] == src:
                        return [(held, tuple(x for x in rest if x[0] != src) + ((e.guard, g[1], g[2]),))]
                return [(held, rest)]
            if k == 'gadopt':
                return [(held, tuple(sorted(rest + ((e.guard, e.mutexes, 1),), key=repr)))]
            outs = []
            if k in ('gacq', 'gtry'):
                s2 = self.acq(st, i, e.mutexes, e.recursive)
                outs.append((s2[0], tuple(sorted(rest + ((e.guard, e.mutexes, 1),), key=repr))))
            if k in ('gdefer', 'gtry'):
                outs.append((held, tuple(sorted(rest + ((e.guard, e.mutexes, 0),), key=repr))))
            return outs
        if k == 'gdtor':
            for g in guards:
                if g[0] == e.guard:
                    ng = tuple(x for x in guards if x[0] != e.guard)
                    if g[2]:
                        s2 = self.rel(st, i, g[1]); return [(s2[0], ng)]
                    return [(held, ng)]
            return [st]
        if k in ('glock', 'gtrylock', 'gunlock'):
            for g in guards:
                if g[0] == e.guard:
                    ng = tuple(x for x in guards if x[0] != e.guard)
                    if k == 'gunlock':
                        s2 = self.rel(st, i, g[1]); return [(s2[0], tuple(sorted(ng + ((g[0], g[1], 0),), key=repr)))]
                    s2 = self.acq(st, i, g[1])
                    on = (s2[0], tuple(sorted(ng + ((g[0], g[1], 1),), key=repr)))
                    return [on] if k == 'glock' else [on, st]
            return [st]
        if k == 'wait':          # the lock is held again afterwards, in a new critical section
            for g in guards:
                if g[0] == e.guard and g[2]:
                    key = g[1][0] if len(g[1]) == 1 else ('phi',) + tuple(g[1])
                    return [(frozenset((x[0], i['i']) if x[0] == key else x for x in held), guards)]
        return [st]      # notify: no change

    def run(self, visit=None, init=None):
        self._seenp = set()
        init = init or (frozenset(), ())
        work = [(0, init)]; seen = {(0, init)}
        self.exit_states = []
        while work:
            b, st = work.pop()
            if len(seen) > self.limit: raise Broken('lock analysis state limit in ' + self.fn.d)
            states = [st]
            for i in self.fn.bbs[b]:
                nxt = []
                for s in states:
                    if visit: visit(i, s)
                    if i['o'] == 'invoke':
                        # a lock operation that throws has not taken effect
                        self._push(work, seen, i['u'], s if self.events.get(i['i']) and self.events[i['i']].kind not in ('gdtor', 'rel', 'gunlock') else self.step(s, i)[0])
                    nxt += self.step(s, i)
                states = list(dict.fromkeys(nxt))
                if i['o'] in ('ret', 'resume'):
                    for s in states:
                        self.exit_states.append((i, s))
                        if s[0]: self._problem('held-at-exit', i, ', '.join(sorted(fmt(x[0]) if x[0][0] != 'phi' else '?' for x in s[0])))
                if i.get('nr') and i['o'] == 'call':
                    # noreturn call outside any try: leaves the function by exception (or terminates)
                    if callee(i) not in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit', '_exit'):
                        for s in states:
                            if s[0]: self._problem('held-at-exit', i, ', '.join(sorted(fmt(x[0]) if x[0][0] != 'phi' else '?' for x in s[0])))
                    states = []; break
                # a plain call that may throw and is not an invoke unwinds out of the function with the current locks
                if i['o'] == 'call' and not i.get('nt') and not self.events.get(i['i']) and not (callee(i) or '').startswith('llvm.'):
                    for s in states:
                        if s[0]: self._problem('throws-while-held', i, callee(i) or 'indirect call')
            term = self.fn.bbs[b][-1]
            if term['o'] == 'invoke': tg = [term['n']]
            else: tg = self.fn.succ[b]
            for s in states:
                for t in tg: self._push(work, seen, t, s)
        return self

    def _push(self, work, seen, b, s):
        if (b, s) not in seen:
            seen.add((b, s)); work.append((b, s))
