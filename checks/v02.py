"""V02: no operation of the library ends the program: trapping divisions, exceptions out of noexcept functions, exit and abort."""
import itertools
from reach import *
from throws import Throws

TITLE = 'No operation kills the program'
KILL = ('exit', 'abort', '_exit', '_Exit', 'quick_exit', 'raise', 'kill', '__assert_fail', '__cxa_pure_virtual', 'llvm.trap', 'pthread_exit', 'pthread_kill', 'pthread_cancel')
RULE = ('every integer division or remainder with a non-constant divisor in library code is unreachable when the divisor is 0, and, unless its '
        'operands are widened, when the dividend is the minimum and the divisor -1: reachability under the assumed values through branches, getters '
        'and helpers, lifted to the callers of private functions; no library exception can reach the end of a destructor or noexcept function; '
        'no library code calls exit, abort or the like, except System::exit')


def run():
    c = Check('V02', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    R = Reach(m); c.stats.update(divisions=0, constant_divisors=0, obligations=0, undecided=0); und = []
    callers = {}
    fns = [f for f in m.defined() if f.src.startswith(LIB) and 'Test.hpp' not in f.src and 'cuckoo' not in f.d and 'moodycamel' not in f.d]
    for f in fns:
        for i in f.inst.values():
            if i['o'] in ('call', 'invoke'):
                n = callee(i)
                if n: callers.setdefault(m.alias.get(n, n), []).append((f, i))

    def private(f):
        r = re.match(r'(.*)::([~\w]+|operator[^(]*)\(', f.d)
        t = m.types.get(r.group(1)) if r else None
        ms = [x for x in t['methods'] if x['n'] == r.group(2)] if t else []
        return bool(ms) and all(x['acc'] == 'private' for x in ms)

    def verdict(f, i, env, depth=0):
        """'safe' | 'bad' | 'maybe' for reaching instruction i of f under env"""
        st, feas = R.explore(f, env)
        b = f.blk[i['i']]
        if b not in st: return 'safe'
        # a helper called earlier in the same block
        v = 'bad' if st[b] else 'maybe'
        for j in f.bbs[b]:
            if j is i: break
            if j['o'] == 'call' and not (callee(j) or '').startswith('llvm.'):
                r = R.callret(f, j, env, 0)
                if r == 'never': return 'safe'
                if r == 'maybe': v = 'maybe'
        if not env: return v
        if any(root(k)[0] not in ('A',) and k[0] != '*' for k in env): return 'maybe'
        if private(f):
            if depth > 3: return 'maybe'
            cs = callers.get(f.n, []); out = 'safe'
            for g, call in cs:
                e2 = up(g, call, env)
                if e2 is None: continue
                r = verdict(g, call, e2, depth + 1) if e2 != 'maybe' else 'maybe'
                if r == 'bad': return 'bad'
                if r == 'maybe': out = 'maybe'
            return out
        return v

    def up(g, call, env):
        """the assumption in the caller's terms; None when the caller's arguments contradict it."""
        out = {}
        for k, val in env.items():
            r = root(k)
            if r[0] != 'A': return 'maybe'
            x = call['a'][r[1]]
            if k == ('A', r[1]):
                w, _ = R.ev(g, x, {})
                if w is not None:
                    if w != val: return None
                    continue
                kk = R.key(g, x)
                if kk is None or root(kk)[0] != 'A': return 'maybe'
                out[kk] = val
            else:
                ps = R.P(g).of(x)
                if len(ps) != 1 or root(next(iter(ps)))[0] != 'A': return 'maybe'
                out[subst(k, r[1], next(iter(ps)))] = val
        return out

    for f in fns:
        for i in f.inst.values():
            if i['o'] not in ('sdiv', 'srem', 'udiv', 'urem'): continue
            st = i.get('st')
            if st and not st[0][2].startswith(LIB): continue        # the standard library's own arithmetic
            a = i['a']; t = i['t']; w = int(t[1:])
            if isinstance(a[1], list) and a[1][0] == 'i':
                c.stats['constant_divisors'] += 1
                if a[1][1] == 0: c.bad('%s:%s' % (f.d, i['o']), '%s divides by the constant 0 at %s' % (f.d, f.where(i)))
                continue
            c.stats['divisions'] += 1
            cases = [('the divisor is 0', 0)]
            if i['o'][0] == 's' and not narrow(R, f, a[0]) and not narrow(R, f, a[1], ('zext',)):
                cases.append(('the dividend is the minimum and the divisor is -1', -1))
            kd = R.key(f, a[1])
            for what, val in cases:
                c.stats['obligations'] += 1
                env = {}
                v0, _ = R.ev(f, a[1], {})
                if v0 is not None:
                    if v0 != val: c.ok(); continue
                elif kd is None:
                    e = solve(R, f, a[1], val)
                    if e == 'no': c.ok(); continue
                    if e is None: und.append('%s: %s, %s' % (f.d, f.where(i), what)); c.stats['undecided'] += 1; c.ok(); continue
                    env.update(e)
                else: env[kd] = val
                if val == -1:
                    mn = -(1 << w - 1); v1, _ = R.ev(f, a[0], {}); kn = R.key(f, a[0])
                    if v1 is not None:
                        if v1 != mn: c.ok(); continue
                    elif kn is not None:
                        if kn in env: c.ok(); continue
                        env[kn] = mn
                    else:
                        # a computed dividend: the divisor alone must rule the case out, otherwise undecided
                        if verdict(f, i, env) != 'safe': und.append('%s: %s, %s (computed dividend)' % (f.d, f.where(i), what)); c.stats['undecided'] += 1
                        c.ok(); continue
                r = verdict(f, i, env)
                if r == 'maybe' and not private(f):
                    # a condition on other arguments: some value of theirs may settle it
                    ks = [k for k, a in enumerate(f.args) if re.match(r'i(8|16|32|64)$', str(a[1])) and ('A', k) not in env]
                    for vs in itertools.product((1, 0, -1, 7), repeat=min(len(ks), 3)):
                        if verdict(f, i, {**env, **{('A', k): x for k, x in zip(ks, vs)}}) == 'bad': r = 'bad'; break
                if r == 'bad': c.bad('%s:%s:%d' % (f.d, i['o'], val), '%s: when %s the division at %s is reached and kills the program' % (f.d, what, f.where(i)))
                else:
                    if r == 'maybe': und.append('%s: %s, %s' % (f.d, f.where(i), what)); c.stats['undecided'] += 1
                    c.ok()
                    c.samples.append('%s %s: %s' % (f.d, what, r))
    T = Throws(m); c.stats.update(noexcept_calls=0, functions=len(fns))
    for f in fns:
        for i in f.inst.values():
            if i['o'] not in ('call', 'invoke'): continue
            n = callee(i); st = i.get('st')
            if n in KILL or n in ('_ZSt9terminatev', '__clang_call_terminate') and st and st[0][2].startswith(LIB) and not landing(f, i):
                if n == 'llvm.trap' and f.n.endswith('D0Ev') and len(f.bbs) == 1: continue       # nobody can delete an object of an abstract class
                if f.d != 'Java::Lang::System::exit(int)': c.bad('%s:%s' % (f.d, n), '%s ends the program: it calls %s at %s' % (f.d, n, f.where(i)))
            if i['o'] == 'invoke' and toterm(f, i['u']):
                c.stats['noexcept_calls'] += 1
                for t in T.raised(f, i):
                    if not t.startswith('Java') or not raises(R, T, f, i, t): continue
                    c.bad('%s:%s' % (f.d, t), '%s may not throw, but %s can leave the call at %s: the program is terminated' % (f.d, t, f.where(i)))
                    break
                else: c.ok()
            elif i['o'] == 'call' and f.nounwind and n == '__cxa_throw': c.bad('%s:throw' % f.d, '%s may not throw, but throws at %s' % (f.d, f.where(i)))
    c.samples = und + c.samples
    c.require(c.stats['divisions'] >= 10, 'divisions with a non-constant divisor')
    return c.finish()


def toterm(f, b):
    """the landing pad leads straight to std::terminate."""
    seen = set()
    while b not in seen:
        seen.add(b)
        if any(callee(j) in ('__clang_call_terminate', '_ZSt9terminatev') for j in f.bbs[b]): return True
        if len(f.succ[b]) != 1: return False
        b = f.succ[b][0]
    return False


def landing(f, i):
    """the instruction is (part of) a landing pad."""
    b = f.blk[i['i']]
    for _ in range(20):
        if any(j['o'] == 'landingpad' for j in f.bbs[b]): return True
        if len(f.pred[b]) == 0: return False
        b = f.pred[b][0]
    return False


def raises(R, T, f, i, t, depth=0):
    """the callee can raise t when called with these (constant) arguments."""
    n = callee(i); g = R.m.fn(n) if n else None
    if g is None or not g.has: return True
    env = {('A', k): x[1] for k, x in enumerate(i['a']) if isinstance(x, list) and x[0] == 'i'}
    for k, x in enumerate(i['a']):
        # a scalar computed here may well rule the exception out: conditions on it count as undecided
        if i['pt'][k] != 'ptr' and ('A', k) not in env and not (isinstance(x, int) and x not in f.inst): env[('A', k)] = None
    if depth > 3: return True
    st, _ = R.explore(g, env)
    st = {b for b in st if st[b]}
    return any(t in T.raised(g, j) and raises(R, T, g, j, t, depth + 1) for b in st for j in g.bbs[b] if j['o'] in ('call', 'invoke'))


def narrow(R, f, v, kinds=('sext', 'zext')):
    """the operand was widened (it cannot be the minimum of its type / is never negative)."""
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None: return False
    if i['o'] in kinds or i['o'] == 'lshr' and isinstance(i['a'][1], list) and i['a'][1][1] > 0: return True
    if i['o'] in ('call', 'invoke'):
        n = R.vcall(f, i)
        return bool(n) and R.passthru(n) in kinds
    return False


def solve(R, f, v, val):
    """inputs that make a computed divisor equal val: {} handled for x+c, x-c, c-x, x*c, x&c, 1<<x."""
    i = f.inst.get(v)
    if i is None: return None
    a = i.get('a') or []
    if i['o'] in ('add', 'sub') and isinstance(a[1], list) and a[1][0] == 'i':
        k = R.key(f, a[0]); x = val - a[1][1] if i['o'] == 'add' else val + a[1][1]
        return {k: x} if k is not None and k[0] != 'V' else None
    if i['o'] == 'or' and any(isinstance(x, list) and x[0] == 'i' and x[1] & 1 for x in a) and val == 0: return 'no'
    return None
