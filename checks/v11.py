"""V11: exact arithmetic is exact or throws; floor division rounds down; abs, min and max pick the right value."""
from v08 import *
from v08 import summ as summ0

TITLE = 'Exact arithmetic is exact or throws; floor division rounds down'
RULE = ('Math::addExact, subtractExact, multiplyExact, incrementExact, decrementExact, negateExact and toIntExact are evaluated over value-flow normal '
        'forms for every combination of operand signs, result sign and exactness (exact / too big / too small): the exact term is returned or '
        'ArithmeticException thrown; floorDiv and floorMod for every sign combination, divisibility and the divisors 0 and -1; abs, min, max by ordering')
M = J + 'Math::'


def run():
    c = Check('V11', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    c.stats.update(functions=0, cases=0, cells=0, undecided=0); und = []; names = set()

    def judge(f, args, case, want, what):
        """want: list of acceptable terms, or 'throw'"""
        c.stats['cases'] += 1
        outs = Flow(m, case, summ0).run(f, args)
        key = f.d
        if not outs: raise Undecided('no outcome')
        for o in outs:
            thrown = o.kind == 'throw'
            if thrown and want == 'throw' and 'ArithmeticException' in o.val or not thrown and want != 'throw' and o.val in want: continue
            if o.conds: raise Undecided('depends on %s' % (str(o.conds)[:160],))
            if not thrown and want != 'throw' and opaque(o.val): raise Undecided(str(o.val)[:160])
            got = 'throws ' + o.val if thrown else 'returns ' + pretty(o.val)
            return c.bad(key, '%s: %s it %s instead of %s (%s:%d)' % (f.d, what, got, 'throwing ArithmeticException' if want == 'throw' else 'returning ' + pretty(want[0]), f.rel, f.line))
        c.ok()

    def spec(nm, t, args, bd):
        """expected result in a cell of the partition: acceptable terms, 'throw', or None where the cell holds both"""
        w = W(t); r = t if nm != 'toIntExact' else 'i32'; lo, hi = -(1 << W(r) - 1), (1 << W(r) - 1) - 1
        (al, ah), (bl, bh) = bd[0], bd[-1]; a, b = args[0], args[-1]; z = const(t, 0)
        if nm == 'addExact': iv, R = (al + bl, ah + bh), addt(a, b)
        elif nm == 'subtractExact': iv, R = (al - bh, ah - bl), addt(a, b, -1)
        elif nm == 'multiplyExact': e = (al * bl, al * bh, ah * bl, ah * bh); iv, R = (min(e), max(e)), mult(a, b)
        elif nm == 'incrementExact': iv, R = (al + 1, ah + 1), addt(a, const(t, 1))
        elif nm == 'decrementExact': iv, R = (al - 1, ah - 1), addt(a, const(t, -1))
        elif nm == 'negateExact': iv, R = (-ah, -al), addt(z, a, -1)
        elif nm == 'toIntExact': iv, R = (al, ah), trunc('i32', a)
        elif nm == 'abs': return [a] if al >= 0 else [addt(z, a, -1)] if ah <= 0 else None
        elif nm in ('min', 'max'): return ([a] if nm == 'min' else [b]) if ah < bl else ([b] if nm == 'min' else [a]) if bh < al else None
        elif nm in ('floorDiv', 'floorMod'):
            if bl == bh == 0: return 'throw'
            if bl == bh == -1: return [addt(z, a, -1)] if nm == 'floorDiv' else [z]
            if al == ah and bl == bh: return [const(t, al // bl if nm == 'floorDiv' else al % bl)]
            return None
        else: return None
        return [R] if lo <= iv[0] and iv[1] <= hi else 'throw' if iv[1] < lo or iv[0] > hi else None

    def refine(f, nm, t, A, B):
        """an open case: the operands partitioned at the constants the code distinguishes"""
        n = len(f.args); cuts = points(m, f)
        for cell in itertools.product(cells(t, cuts), repeat=n):
            args = [v if l != h else const(t, l) for v, (l, h) in zip((A, B), cell)]
            want = spec(nm, t, args, cell)
            if want is None: continue
            case = Case(bounds={v: b for v, b in zip(args, cell) if cval(v) is None}); c.stats['cells'] += 1
            try: outs = Flow(m, case, summ0).run(f, args)
            except Undecided: continue
            for o in outs:
                if o.conds: break
                thrown = o.kind == 'throw'
                if thrown and want == 'throw' and 'ArithmeticException' in o.val or not thrown and want != 'throw' and (o.val in want or not all(apart(o.val, x, case) for x in want)): continue
                return c.bad(f.d, '%s: it %s instead of %s when %s (%s:%d)' % (f.d, 'throws ' + o.val if thrown else 'returns ' + pretty(o.val), 'throwing ArithmeticException' if want == 'throw' else 'returning ' + pretty(want[0]),
                             ', '.join('%s %s' % (x, 'is %d' % l if l == h else 'is in [%d, %d]' % (l, h)) for x, (l, h) in zip('ab', cell)), f.rel, f.line))

    def cases(f, nm, t, A, B):
        z = const(t, 0); w = W(t); mx = const(t, (1 << w - 1) - 1); mn = const(t, 1 << w - 1)
        S = ('gt', 'lt'); txt = {'gt': 'positive', 'lt': 'negative'}

        def one(args, case, want, what):
            try: judge(f, args, case, want, what)
            except Undecided as e: und.append('%s (%s): %s' % (f.d, what, e)); c.stats['undecided'] += 1

        if nm in ('addExact', 'subtractExact'):
            k = 1 if nm[0] == 'a' else -1; MX, MN, Q = (1 << w - 1) - 1, -(1 << w - 1), 1 << w - 2
            cls = [('in (0, MAX/2)', 1, Q - 1), ('above MAX/2', Q + 1, MX - 1), ('in (MIN/2, 0)', -Q + 1, -2), ('below MIN/2', MN + 1, -Q - 1), ('MAX', MX, MX), ('MIN', MN, MN), ('0', 0, 0), ('1', 1, 1), ('-1', -1, -1)]
            for an, al, ah in cls:
                for bn, bl, bh in cls:
                    x = A if al != ah else const(t, al); y = B if bl != bh else const(t, bl)
                    R = addt(x, y, k); lo, hi = (al + bl, ah + bh) if k == 1 else (al - bh, ah - bl)
                    for e, neg, l, h in (('ok', 0, 0, MX), ('ok', 1, MN, -1), ('over', 1, MX + 1, 4 * MX), ('under', 0, 4 * MN, MN - 1)):
                        if max(lo, l) > min(hi, h): continue
                        bd = {}
                        if cval(x) is None: bd[x] = (al, ah)
                        if cval(y) is None: bd[y] = (bl, bh)
                        cs = Case('', [], {R: neg} if cval(R) is None else {}, {R: e}, bd)
                        one([x, y], cs, [R] if e == 'ok' else 'throw', 'for a %s and b %s with a result that %s' % (an, bn, 'fits' if e == 'ok' else 'does not fit'))
        elif nm == 'multiplyExact':
            R = mult(A, B)
            for a in S:
                for b in S:
                    for e in ('ok', 'over' if a == b else 'under'):
                        for neg in ((0 if a == b else 1,) if e == 'ok' else (0, 1)):
                            cs = Case('', [('s', A, z, a), ('s', B, z, b)], {R: neg}, {R: e})
                            one([A, B], cs, [R] if e == 'ok' else 'throw', 'for a %s and a %s factor whose product %s' % (txt[a], txt[b], 'fits' if e == 'ok' else 'does not fit'))
            for a in S:
                one([A, z], Case('', [('s', A, z, a)], {}, {z: 'ok'}), [z], 'with b == 0')
                one([z, A], Case('', [('s', A, z, a)], {}, {z: 'ok'}), [z], 'with a == 0')
        elif nm in ('incrementExact', 'decrementExact'):
            k = 1 if nm[0] == 'i' else -1
            lim, oth = (mx, mn) if k == 1 else (mn, mx)
            one([lim], Case(), 'throw', 'at the limit of the type')
            one([oth], Case(), [addt(oth, const(t, k))], 'at the other end of the type')
            R = addt(A, const(t, k))
            for a in S:
                cs = Case('', [('s', A, z, a), ('s', A, mx, 'lt'), ('s', A, mn, 'gt')], {}, {R: 'ok'})
                one([A], cs, [R], 'for a %s operand inside the range' % txt[a])
        elif nm == 'negateExact':
            one([mn], Case(), 'throw', 'of MIN_VALUE')
            R = addt(z, A, -1)
            for a in S: one([A], Case('', [('s', A, z, a), ('s', A, mn, 'gt'), ('s', A, mx, 'lt')], {R: int(a == 'gt')}, {R: 'ok'}), [R], 'of a %s operand' % txt[a])
            one([z], Case(), [z], 'of 0')
        elif nm == 'toIntExact':
            R = trunc('i32', A)
            for e, rels in (('ok', []), ('over', [('s', A, z, 'gt')]), ('under', [('s', A, z, 'lt')])):
                one([A], Case('', rels, {}, {R: e}), [R] if e == 'ok' else 'throw', 'of a value that ' + ('fits' if e == 'ok' else 'does not fit'))
        elif nm in ('floorDiv', 'floorMod'):
            div = nm == 'floorDiv'; m1 = const(t, -1)
            one([A, z], Case(), 'throw', 'with divisor 0')
            if div: one([A, m1], Case('', [('s', A, z, 'gt')], {A: 0}), [addt(z, A, -1)], 'with divisor -1')
            q = divt('sdiv', t, A, B); r = divt('srem', t, A, B); qb = mult(q, B); rr = addt(A, qb, -1)
            for a in S:
                for b in S:
                    for dv, qz in (('eq', 0), ('ne', 0), ('ne', 1)):
                        rels = [('s', q, z, 'eq' if qz else 'gt' if a == b else 'lt'), ('s', A, z, a), ('s', B, z, b), ('s', B, z, b), ('s', qb, A, dv), ('s', r, z, dv), ('s', rr, z, dv), ('s', B, m1, 'gt' if b == 'gt' else 'lt')]
                        if dv == 'ne': rels += [('s', r, z, 'gt' if a == 'gt' else 'lt'), ('s', rr, z, 'gt' if a == 'gt' else 'lt'), ('s', qb, A, 'lt' if a == 'gt' else 'gt')]
                        cs = Case('', rels, {A: int(a == 'lt'), B: int(b == 'lt')})
                        dn = 1 if a != b and dv == 'ne' else 0
                        if div: want = [addt(q, const(t, -dn))]
                        else:
                            want = [addt(r, B) if dn else r, addt(rr, B) if dn else rr]
                            if dv == 'eq': want += [z]
                        one([A, B], cs, want, 'for a %s dividend, a %s divisor and %s division' % (txt[a], txt[b], 'an exact' if dv == 'eq' else 'an inexact'))
        elif nm == 'abs':
            for a in S: one([A], Case('', [('s', A, z, a)], {A: int(a == 'lt')}), [A if a == 'gt' else addt(z, A, -1)], 'of a %s value' % txt[a])
        elif nm in ('min', 'max'):
            for r in ORD:
                want = [A, B] if r == 'eq' else [A] if (r == 'lt') == (nm == 'min') else [B]
                one([A, B], Case('', [('s', A, B, r)]), want, 'with a %s b' % {'lt': '<', 'eq': '==', 'gt': '>'}[r])
        else: return
        names.add(nm); c.stats['functions'] += 1

    for f in m.defined(lambda d: d.startswith(M)):
        nm = f.d[len(M):].split('(')[0]
        if not f.args or any(a[1] not in ('i32', 'i64') for a in f.args) or f.ret not in ('i32', 'i64'): continue
        t = f.args[0][1]
        if any(a[1] != t for a in f.args): continue
        A = atom(t, ('in', 'a', t)); B = atom(t, ('in', 'b', t))
        n = len(und); cases(f, nm, t, A, B)
        if len(und) > n: refine(f, nm, t, A, B)
    c.samples = und[:40]
    c.require(names >= {'addExact', 'subtractExact', 'multiplyExact', 'incrementExact', 'decrementExact', 'negateExact', 'toIntExact', 'floorDiv'}, 'Math exact functions')
    return c.finish()
