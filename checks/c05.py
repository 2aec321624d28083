"""C05: Random delivers the documented sequence for its seed."""
from flow import *
from v08 import pretty

TITLE = 'Random gives the documented sequence, each draw its own step'
RULE = ('every member of Random is evaluated over value-flow normal forms (loops: the first pass exactly, any later pass from an arbitrary loop state; back edges cut): '
        'next(bits), for each width, returns on every path only behind exactly one successful compare-and-set of the seed from the value read to '
        '(value * 0x5DEECE66D + 0xB) mod 2^48 and delivers its top bits; each nextXxx draws exactly its documented widths in order and combines them by '
        'the documented formula; seeding scrambles and forgets the spare number; nothing else writes the seed')
R = 'Java::Util::Random::'
MUL, ADD, MASK = 0x5DEECE66D, 0xB, (1 << 48) - 1
SEED = ('ptr', 'this', 0)


def opaque(t):
    """the term contains something the evaluator could not interpret."""
    if not isinstance(t, tuple): return False
    if t and t[0] in ('opq', 'call', 'chars', 'retype') or len(t) > 1 and t[0] in ('in', 'fin') and str(t[1])[:1] == '?': return True
    return any(opaque(x) for x in t)


class Walk(Flow):
    """Flow that follows loops: one exact pass, then one pass from an arbitrary state; paths end at back edges."""

    def run(self, f, args, mem=None, conds=()):
        out = super().run(f, args, mem, conds)
        return out if self.d == 0 else [q for q in out if q.kind != 'cut']

    def heads(self, f):
        h = getattr(f, '_heads', None)
        if h is None:
            h = f._heads = {b for b in range(len(f.bbs)) for p in f.pred[b] if dom(f, b, p)}
        return h

    def havoc(self, f, i): return self.fresh_in('loop%d' % i['i'], i['t'])

    def block(self, f, b, prev, env, mem, conds, seen, out, log):
        while True:
            self.count += 1
            if self.count > self.limit * 20: raise Undecided('too many paths in ' + f.d)
            if b in self.heads(f) and prev != 'loop':
                if prev is not None and dom(f, b, prev):
                    mem[('back',)] = {i['i']: self.val(f, env, v, i['t']) for i in f.bbs[b] if i['o'] == 'phi' for v, pb in i['in'] if pb == prev}
                    out.append(Out('cut', b, mem, conds, log)); return
                m2 = {k: self.fresh_in('loop:%s+%s' % (k[1], k[2]), v[1]) if k[0] == 'ptr' and isinstance(v, tuple) and v[0] == 'P' else ('opq', 'loop', k) if k[0] == 'ptr' else v for k, v in mem.items()}
                m2[('log',)] = mem.get(('log',), ()) + (('*',),)
                self.block(f, b, 'loop', dict(env), m2, conds, seen, out, log)
            r = self.insts(f, b, 0, prev, env, mem, conds, seen, out, log)
            if r is None: return
            prev, b, env, mem, conds, log = r

    def op(self, f, i, o, t, V):
        if o == 'cmpxchg':
            p, e, n = V(i['p']), V(i['a'][0], 'i64'), V(i['a'][1], 'i64')
            return ('agg', atom('i64', ('seen', p)), ('b', 'cas', p, e, n, (f.n, i['i'])))
        if o == 'trunc' and t == 'i1':
            s = sole(V(i['a'][0], i.get('ot') or t))
            if s and s[0] == 'zext' and isinstance(s[2], tuple) and s[2][0] == 'b': return s[2]
        if o in ('srem', 'urem', 'sdiv', 'udiv'):
            x, y = V(i['a'][0], t), V(i['a'][1], t); c = cval(y) if isinstance(y, tuple) and y[0] == 'P' else None
            b = self.case.bounds.get(x)
            if c and c > 0 and b and b[0] >= 0 and b[0] // c == b[1] // c:
                k = b[0] // c
                return const(t, k) if o.endswith('div') else addt(x, const(t, -k * c))
        if o in ('ashr', 'lshr'):
            x, y = V(i['a'][0], t), V(i['a'][1], t); q = sole(x) if isinstance(x, tuple) and x[0] == 'P' else None
            if q and q[0] == o and isinstance(y, tuple) and y[0] == 'P' and cuval(y) is not None and cuval(q[3]) is not None and cuval(y) + cuval(q[3]) < W(t): return atom(t, (o, t, q[2], const(t, cuval(y) + cuval(q[3]))))
        if o == 'fsub':
            x, y = V(i['a'][0], t), V(i['a'][1], t)
            if y[0] == 'fc' and isinstance(y[2], float): return super().op(f, {'a': [0, 1], 'ot': t}, 'fadd', t, lambda v, t=None: (x, ('fc', y[1], -y[2]))[v])
        return super().op(f, i, o, t, V)

    def named(self, f, i, n, a, mem, conds):
        if n.startswith('llvm.fmuladd'):
            z = super().op(f, {'a': [0, 1]}, 'fmul', i['t'], lambda v, t=None: a[v])
            return self.one(super().op(f, {'a': [0, 1]}, 'fadd', i['t'], lambda v, t=None: (z, a[2])[v]), mem, conds)
        return super().named(f, i, n, a, mem, conds)


def dom(f, a, b):
    idom = f.idom()
    while b is not None and b != a:
        nb = idom.get(b) if isinstance(idom, dict) else idom[b]
        if nb == b: return False
        b = nb
    return b == a


def consistent(conds):
    seen = {}
    for q, tr in conds:
        tr = bool(tr)
        while isinstance(q, tuple) and q[:2] == ('b', 'not'): q = q[2]; tr = not tr
        if seen.setdefault(q, tr) != tr: return False
    return True


def F(o, t, *a): return ('F', o, t, tuple(sorted(a, key=repr)) if o in ('fadd', 'fmul') else tuple(a))


def run():
    c = Check('C05', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    c.stats.update(members=0, cases=0, undecided=0, paths=0); und = []; done = set()
    fn = {}
    for f in m.defined(lambda d: d.startswith(R)): fn.setdefault(f.d[len(R):], f)
    step = lambda s: andt('i64', addt(mult(s, const('i64', MUL)), const('i64', ADD)), const('i64', MASK))
    dbl = lambda v: ('fc', 'double', float(v))
    flt = lambda v: ('fc', 'float', float(v))

    def summ(level, vals=None):
        """draws are taken from the functions below `level` in the order next < nextInt/nextDouble < the rest."""
        def s(fl, d, n, a, mem, i):
            if not d.startswith(R):
                if d.startswith('Java::Lang::String::') or 'Exception' in d or d.startswith('std::'):
                    return (('opq', d),) if not i['t'].startswith('i') else (fl.fresh_in('?' + d, i['t']),)
                return None
            k = d[len(R):].split('(')[0]
            if k == 'nanoTime': return (atom('i64', ('in', 'now', 'i64')),)
            if k == 'seedUniquifier' and level != k: return (atom('i64', ('in', 'unique', 'i64')),)
            if k == 'next' or k in ('nextInt', 'nextDouble') and level == 2:
                if a[0] != SEED: raise Undecided('draw from another generator')
                w = cval(a[1]) if len(a) > 1 else None
                lg = mem.get(('log',), ()); mem[('log',)] = lg + ((k, w if len(a) > 1 else 'all'),)
                j = len(lg); t = i['t']
                if t == 'double': return (('fin', 'draw%d' % j, t),)
                v = (vals or {}).get(j)
                return (v if v is not None else atom(t, ('in', 'draw%d' % j, t)),)
            return None
        return s

    def draw(j, t='i32'): return ('fin', 'draw%d' % j, t) if t == 'double' else atom(t, ('in', 'draw%d' % j, t))

    def outs(f, args, case=None, level=1, vals=None, mem=None):
        c.stats['cases'] += 1
        w = Walk(m, case, summ(level, vals), limit=2000)
        r = [q for q in w.run(f, args, mem) if consistent(q.conds)]; c.stats['paths'] += len(r)
        return r

    def bad(f, tag, text): c.bad('%s:%s' % (f.d, tag), '%s: %s (%s:%d)' % (f.d, text, f.rel, f.line)); return False

    def guarded(f, g):
        try:
            n = len(c.viol); g()
            if len(c.viol) == n: c.ok()
        except Undecided as e: und.append('%s: %s' % (f.d, e)); c.stats['undecided'] += 1
        except (TypeError, IndexError, KeyError, AttributeError) as e: und.append('%s: %r' % (f.d, e)); c.stats['undecided'] += 1

    def get(sig):
        f = fn.get(sig)
        if f is not None and f.has: done.add(sig); c.stats['members'] += 1; return f

    def cas(conds):
        """(successful, failed) compare-and-sets among path conditions"""
        ok, no = [], []
        for q, tr in conds:
            while isinstance(q, tuple) and q[:2] == ('b', 'not'): q = q[2]; tr = not tr
            if isinstance(q, tuple) and q[:2] == ('b', 'cas') and q not in (ok if tr else no): (ok if tr else no).append(q)
        return ok, no

    def locks(f): return any(i['o'] in ('call', 'invoke') and callee(i) and re.search(r'mutex|lock', m.dem.get(callee(i), callee(i))) for i in f.inst.values())

    def result(f, o, wants, tag, what):
        if o.kind == 'throw': return bad(f, tag, '%s it throws' % what)
        if o.val in wants: return True
        if opaque(o.val): raise Undecided(str(o.val)[:160])
        return bad(f, tag, '%s it returns %s instead of %s' % (what, pretty(o.val)[:300], pretty(wants[0])[:300]))

    def log_is(f, o, want, tag, what):
        lg = tuple(x for x in o.mem.get(('log',), ()))
        if lg in want: return True
        return bad(f, tag, '%s it draws %s instead of %s' % (what, ', '.join('%s(%s)' % (x[0], x[1] if len(x) > 1 else '') for x in lg) or 'nothing', ', '.join('%s(%s)' % x for x in want[0] if len(x) > 1)))

    def seed_kept(f, o, tag):
        v = o.mem.get(SEED)
        if v is None or sole(v) and sole(v)[0] == 'in' and ('this+0' in str(sole(v)[1])): return True
        return bad(f, tag, 'it overwrites the seed with a plain store')

    # ---- next(bits)
    def do_next():
        f = get('next(int)')
        if not f: return
        if locks(f): raise Undecided('locks')
        for bits in range(1, 33):
            for o in outs(f, [SEED, const('i32', bits)]):
                ok, no = cas(o.conds); what = 'for %d bits' % bits
                if o.kind == 'throw': bad(f, 'throws', what + ' it throws'); continue
                seed_kept(f, o, 'plain')
                if o.kind == 'cut':
                    if ok: bad(f, 'again', 'after a successful compare-and-set it tries again, so one call takes two steps')
                    continue
                if len(ok) != 1: bad(f, 'cas', 'it returns %s' % ('without having advanced the seed by a successful compare-and-set' if not ok else 'after advancing the seed twice')); continue
                _, _, p, e, n, _ = ok[0]
                if p != SEED: raise Undecided('compare-and-set of something else')
                if n != step(e):
                    if opaque(n): raise Undecided('new seed')
                    bad(f, 'step', 'the new seed is %s where the old one is %s, instead of (old * 0x5DEECE66D + 0xB) mod 2^48' % (pretty(n)[:200], pretty(e)[:80])); continue
                sh = const('i64', 48 - bits)
                want = [trunc('i32', atom('i64', (k, 'i64', n, sh))) for k in ('ashr', 'lshr')] + [trunc('i32', divt(k, 'i64', n, const('i64', 1 << 48 - bits))) for k in ('sdiv', 'udiv')]
                if bits == 32:
                    pass
                result(f, o, want, 'bits', what)
                old = sole(e)
                if not (old and (old[0] == 'seen' or old[0] == 'in' and re.search(r'this\+0|loop', str(old[1])))) and not opaque(e): bad(f, 'expected', 'the compare-and-set does not start from the value that was read but from %s' % pretty(e)[:120])
    if 'next(int)' in fn: guarded(fn['next(int)'], do_next)

    # ---- straight combinations of draws
    S = lambda x: ext('sext', 'i64', x); Z = lambda x: ext('zext', 'i64', x)
    d0, d1 = draw(0), draw(1)

    def simple(sig, log, wants):
        f = get(sig)
        if not f: return

        def g():
            for o in outs(f, [SEED]):
                if o.kind == 'cut': raise Undecided('loop')
                if o.conds: raise Undecided('depends on %s' % str(o.conds)[:120])
                seed_kept(f, o, 'plain'); log_is(f, o, [log], 'draws', 'for one number') and result(f, o, wants, 'value', 'from its draws')
        guarded(f, g)
    simple('nextInt()', (('next', 32),), [d0])
    hi = lambda E: mult(E(d0), const('i64', 1 << 32))
    simple('nextLong()', (('next', 32), ('next', 32)), [addt(hi(S), S(d1)), addt(hi(Z), S(d1))])
    two = [addt(mult(A(d0), const('i64', 1 << 27)), B(d1)) for A in (S, Z) for B in (S, Z)]
    simple('nextDouble()', (('next', 26), ('next', 27)), [F(o, 'double', ('F', 'i2f', 'double', (x, sg)), dbl(k)) for x in two for sg in (True, False) for o, k in (('fmul', 2.0 ** -53), ('fdiv', 2.0 ** 53))])
    simple('nextFloat()', (('next', 24),), [F(o, 'float', ('F', 'i2f', 'float', (x, sg)), flt(k)) for x in (d0, S(d0), Z(d0)) for sg in (True, False) for o, k in (('fmul', 2.0 ** -24), ('fdiv', 2.0 ** 24))])
    f = get('nextBoolean()')
    if f:
        def g(f=f):
            for v in (0, 1):
                for o in outs(f, [SEED], vals={0: const('i32', v)}):
                    if o.kind == 'cut' or o.conds: raise Undecided('branches')
                    log_is(f, o, [(('next', 1),)], 'draws', 'for one answer')
                    got = o.val if isinstance(o.val, int) else cval(o.val) if isinstance(o.val, tuple) and o.val[0] == 'P' else None
                    if got is None: raise Undecided(str(o.val)[:100])
                    if (got & 1) != v: bad(f, 'value', 'for a drawn bit %d it answers %d' % (v, got & 1))
        guarded(f, g)

    # ---- nextInt(bound)
    def do_bound():
        f = get('nextInt(int)')
        if not f: return
        what = lambda b: 'for bound %d' % b
        b = atom('i32', ('in', 'bound', 'i32')); z = const('i32', 0)
        for rel, arg in (('lt', b), ('eq', z), ('eq', const('i32', 1 << 31))):
            case = Case('', [('s', b, z, 'lt')], {b: 1}) if arg is b else Case()
            for o in outs(f, [SEED, arg], case):
                if o.kind != 'throw' and not o.conds: bad(f, 'bound', 'a bound that is not positive is accepted')
        for k in range(31):
            for o in outs(f, [SEED, const('i32', 1 << k)]):
                if o.kind == 'throw': bad(f, 'bound', 'bound %d is refused' % (1 << k)); continue
                if o.kind == 'cut': bad(f, 'again', 'for a power of two it draws again'); continue
                lg = o.mem.get(('log',), ()); d = draw(len(lg) - 1)
                if lg[-1:] == (('next', 31),):
                    x = mult(S(d), const('i64', 1 << k)); xz = mult(Z(d), const('i64', 1 << k))
                    want = [trunc('i32', atom('i64', (sh, 'i64', y, const('i64', 31)))) for y in (x, xz) for sh in ('ashr', 'lshr')] + [atom('i32', (sh, 'i32', d, const('i32', 31 - k))) for sh in ('ashr', 'lshr')]
                    want += [trunc('i32', divt('sdiv', 'i64', y, const('i64', 1 << 31))) for y in (x, xz)]
                    if k == 0: want += [z]
                    log_is(f, o, [(('next', 31),)], 'draws', what(1 << k)) and result(f, o, want, 'value', what(1 << k))
                else: log_is(f, o, [(('next', 31),)], 'draws', what(1 << k))
        for n in (3, 5, 6, 7, 10, 62, 100, 900, (1 << 30) + 1, (1 << 30) - 1, (1 << 31) - 1):
            T = (1 << 31) - (1 << 31) % n
            blocks = sorted({(0, n - 1), (T - n, T - 1), (n, 2 * n - 1) if 2 * n <= T else (0, n - 1)}) + [(T, (1 << 31) - 1)]
            for lo, hi in blocks:
                rej = lo == T
                ds = [draw(0), draw(1)]
                case = Case(bounds={d: (lo, hi) for d in ds})
                for o in outs(f, [SEED, const('i32', n)], case):
                    if o.kind == 'throw': bad(f, 'bound', '%s it throws' % what(n)); continue
                    if any(isinstance(q, tuple) for q, tr in o.conds): raise Undecided('rejection test: %s' % str(o.conds)[:150])
                    lg = [x for x in o.mem.get(('log',), ()) if x != ('*',)]
                    if lg != [('next', 31)]: bad(f, 'draws', '%s it draws %s per attempt' % (what(n), lg)); continue
                    d = draw(len(o.mem[('log',)]) - 1)
                    if rej:
                        if o.kind == 'ret': bad(f, 'bias', '%s it accepts draws above the last whole multiple (%d and more), which favours small results' % (what(n), T))
                    elif o.kind == 'cut': bad(f, 'reject', '%s it rejects draws in [%d, %d], which are fair' % (what(n), lo, hi))
                    else: result(f, o, [addt(d, const('i32', -lo))], 'value', '%s and a draw in [%d, %d]' % (what(n), lo, hi))
    if 'nextInt(int)' in fn: guarded(fn['nextInt(int)'], do_bound)

    # ---- seeding
    s = atom('i64', ('in', 'seed', 'i64')); M = const('i64', MUL)
    xor = lambda a, b: atom('i64', ('xor', 'i64', a, b))

    def scrambled(s): return [andt('i64', xor(s, M), const('i64', MASK)), andt('i64', xor(M, s), const('i64', MASK)), xor(andt('i64', s, const('i64', MASK)), M), xor(M, andt('i64', s, const('i64', MASK)))]
    off = {n: (o, sz) for o, sz, n, ty, own in m.fields('Java::Util::Random', virt=True)}

    def seeding(sig, args, want):
        f = get(sig)
        if not f: return

        def g():
            for o in outs(f, args):
                if o.kind != 'ret': bad(f, 'throws', 'it does not return normally'); continue
                v = o.mem.get(SEED)
                if v is None: bad(f, 'seed', 'it leaves the seed alone')
                elif not want(v):
                    if opaque(v): raise Undecided(str(v)[:120])
                    bad(f, 'seed', 'the seed becomes %s instead of (seed ^ 0x5DEECE66D) mod 2^48' % pretty(v)[:200])
                fl = o.mem.get(('ptr', 'this', off['haveNextGaussianNumber'][0])) if 'haveNextGaussianNumber' in off else 0
                if fl is None: bad(f, 'spare', 'a spare normal number drawn from the earlier seed is kept')
                elif not (fl == 0 or isinstance(fl, tuple) and fl[0] == 'P' and cval(fl) == 0):
                    if opaque(fl): raise Undecided('spare flag')
                    bad(f, 'spare', 'the spare-number flag becomes %s' % (fl,))
        guarded(f, g)
    seeding('setSeed(long)', [SEED, s], lambda v: v in scrambled(s))
    seeding('Random(long)', [SEED, s], lambda v: v in scrambled(s))
    seeding('Random()', [SEED], lambda v: "'unique'" in repr(v))
    f = get('seedUniquifier()')
    if f:
        def g(f=f):
            for o in outs(f, [], level='seedUniquifier'):
                ok, no = cas(o.conds)
                if o.kind == 'cut':
                    if ok: bad(f, 'again', 'a successful compare-and-set is repeated')
                    continue
                if len(ok) != 1: bad(f, 'cas', 'it returns without having advanced the shared counter by a compare-and-set, so two generators can start alike'); continue
                _, _, p, e, n, _ = ok[0]
                if p[0] != 'glob': raise Undecided('counter')
                if o.val != n and not opaque(o.val): bad(f, 'value', 'it returns %s rather than the value it stored, %s' % (pretty(o.val)[:120], pretty(n)[:120]))
                if n != mult(e, const('i64', 181783497276652981)) and n != mult(e, const('i64', 1181783497276652981)) and not opaque(n): bad(f, 'step', 'the shared counter becomes %s' % pretty(n)[:120])
        guarded(f, g)

    # ---- nextGaussian
    def do_gauss():
        f = get('nextGaussian()')
        if not f: return
        ho, no_ = ('ptr', 'this', off['haveNextGaussianNumber'][0]), ('ptr', 'this', off['nextGaussianNumber'][0])
        flag = lambda v: v if isinstance(v, int) else cval(v) if isinstance(v, tuple) and v[0] == 'P' else None
        for o in outs(f, [SEED], level=2, mem={ho: const('i8', 1), no_: ('fin', 'spare', 'double')}):
            if o.kind != 'ret' or o.conds: raise Undecided('with a spare number')
            if o.mem.get(('log',)): bad(f, 'spare', 'it draws although a spare number is there')
            if flag(o.mem.get(ho)) != 0: bad(f, 'spare-again', 'the spare number is not marked as used')
            result(f, o, [('fin', 'spare', 'double')], 'spare-value', 'with a spare number')
        V = lambda j: F('fadd', 'double', F('fmul', 'double', dbl(2), draw(j, 'double')), dbl(-1))
        sq = lambda j: F('fadd', 'double', F('fmul', 'double', V(j), V(j)), F('fmul', 'double', V(j + 1), V(j + 1)))
        one, zero = dbl(1), dbl(0)
        for r1, r0, accept in (('lt', 'gt', True), ('eq', 'gt', False), ('gt', 'gt', False), ('lt', 'eq', False)):
            rels = []
            for j in (0, 1): rels += [('f', sq(j), one, r1), ('f', sq(j), zero, r0)]
            for o in outs(f, [SEED], Case('', rels), 2, mem={ho: const('i8', 0), no_: ('fin', 'spare', 'double')}):
                lg = o.mem.get(('log',), ()); n = len(lg)
                if any(isinstance(q, tuple) for q, tr in o.conds): raise Undecided('rejection test: %s' % str(o.conds)[:200])
                if [x[0] for x in lg if x != ('*',)] != ['nextDouble'] * 2: bad(f, 'draws', 'one attempt draws %s instead of two doubles' % [x[0] for x in lg if x != ('*',)]); continue
                if o.kind == 'cut' and accept: bad(f, 'reject', 'a point inside the unit circle is rejected')
                if o.kind == 'ret' and not accept: bad(f, 'accept', 'a point %s is accepted' % ('at the centre' if r0 == 'eq' else 'on or outside the unit circle'))
                if o.kind == 'ret' and accept:
                    j = n - 2; q = sq(j)
                    mul = ('F', 'sqrt', 'double', (F('fdiv', 'double', F('fmul', 'double', dbl(-2), ('F', 'log', 'double', (q,))), q),))
                    result(f, o, [F('fmul', 'double', V(j), mul)], 'value', 'from its draws')
                    sp = o.mem.get(no_)
                    if sp != F('fmul', 'double', V(j + 1), mul):
                        if sp is None or opaque(sp): raise Undecided('spare')
                        bad(f, 'spare-store', 'the spare number becomes %s' % pretty(sp)[:200])
                    if flag(o.mem.get(ho)) != 1: bad(f, 'spare-flag', 'the spare number is not marked as there')
    if 'nextGaussian()' in fn and {'haveNextGaussianNumber', 'nextGaussianNumber'} <= set(off): guarded(fn['nextGaussian()'], do_gauss)

    # ---- one draw per element
    for sig, want in (('nextBytes(Array<unsigned char>*)', ('nextInt', 'all')), ('nextString(int)', ('nextInt', 62))):
        f = get(sig)
        if not f: continue

        def g(f=f, want=want):
            a = [SEED, ('ptr', 'bytes', 0)] if 'Bytes' in f.d else [('ptr', 'result', 0), SEED, atom('i32', ('in', 'length', 'i32'))]
            for o in outs(f, a, None, 2):
                lg = o.mem.get(('log',), ())
                if o.kind == 'cut' and [x for x in lg if x != ('*',)] != [want] and lg.count(('*',)) <= 1: bad(f, 'draws', 'for one element it draws %s instead of %s(%s)' % (lg, want[0], want[1]))
        guarded(f, g)

    # ---- nothing else writes the seed
    ok_w = {'next', 'setSeed', 'Random', 'operator='}
    for f in m.defined():
        if not f.src.startswith(LIB): continue
        P = None; k0 = f.d[len(R):].split('(')[0] if f.d.startswith(R) else None
        if k0 is None or k0 in ok_w: continue
        P = __import__('ap').Paths(f)
        for i in f.inst.values():
            if i['o'] in ('store', 'atomicrmw', 'cmpxchg'):
                for p in (P.of(i['p']) if isinstance(i['p'], int) else ()):
                    if p == ('A', 1 if f.args and f.args[0][2] else 0): bad(f, 'writes', 'it writes the seed itself at %s' % f.where(i))
        c.ok()
    c.samples = und[:20]
    c.require(c.stats['members'] >= 12, 'members of Random')
    c.assume += ['std::atomic, log and sqrt are the standard library\'s', 'two threads calling nextGaussian on one generator are outside', 'bounds of nextInt(bound): all powers of two, and eleven others for which every class of draws is decided']
    return c.finish()
