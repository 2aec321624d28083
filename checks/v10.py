"""V10: bit operations deliver exactly the bits they are documented to."""
from bits import *

TITLE = 'Bit operations deliver exactly the right bits'
RULE = ('each bit of the result of a bit operation, as an input bit or constant, equals its definition, for all inputs: by bit-level abstract interpretation '
        'with a finite partition (position of the highest or lowest one bit, distance modulo the width); loads of members are inputs')
L = 'Java::Lang::'


def at(x, k): return x[k]


def specs():
    """name, [arg types], cases -> (label, args, expected)"""
    for cls, t, w in (('Integer', 'int', 32), ('Long', 'long', 64)):
        x = binput('x', w)
        q = L + cls + '::'
        yield q + 'reverse(%s)' % t, [('all', [x], tuple(reversed(x)))]
        yield q + 'reverseBytes(%s)' % t, [('all', [x], sum((x[k:k + 8] for k in range(w - 8, -1, -8)), ()))]
        lg = w.bit_length() - 1
        for nm, left in (('rotateLeft', True), ('rotateRight', False)):
            cs = []
            for d in range(w):
                dist = bconst(lg, d) + binput('d', 32)[lg:]
                k = d if left else (w - d) % w
                cs.append(('distance %d mod %d' % (d, w), [x, dist], tuple(x[(j - k) % w] for j in range(w))))
            yield q + '%s(%s, int)' % (nm, t), cs
        hi = [(p, x[:p] + (1,) + (0,) * (w - p - 1)) for p in range(w)]
        lo = [(p, (0,) * p + (1,) + x[p + 1:]) for p in range(w)]
        z = bconst(w, 0)
        yield q + 'highestOneBit(%s)' % t, [('0', [z], z)] + [('highest one bit %d' % p, [v], bconst(w, 1 << p)) for p, v in hi]
        yield q + 'lowestOneBit(%s)' % t, [('0', [z], z)] + [('lowest one bit %d' % p, [v], bconst(w, 1 << p)) for p, v in lo]
        yield q + 'numberOfLeadingZeros(%s)' % t, [('0', [z], bconst(32, w))] + [('highest one bit %d' % p, [v], bconst(32, w - 1 - p)) for p, v in hi]
        yield q + 'numberOfTrailingZeros(%s)' % t, [('0', [z], bconst(32, w))] + [('lowest one bit %d' % p, [v], bconst(32, p)) for p, v in lo]
        yield q + 'bitCount(%s)' % t, [('all', [x], norm(Lin(32, 0, {('x', k): 1 for k in range(w)})))]
    x = binput('x', 32)
    yield L + 'Integer::toUnsignedLong(int)', [('all', [x], x + (0,) * 32)]
    b = binput('x', 8)
    yield L + 'Bytes::toUnsignedInt(unsigned char)', [('all', [b], b + (0,) * 24)]
    yield L + 'Bytes::toUnsignedLong(unsigned char)', [('all', [b], b + (0,) * 56)]


def member(m, cls, name):
    for o, s, n, t, own in m.fields(cls):
        if n == name: return o, s
    return None


def run():
    c = Check('V10', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    by = {f.d: f for f in m.defined()}
    c.stats.update(functions=0, cases=0, undecided=0)

    def judge(f, cases, mem=None):
        c.stats['functions'] += 1
        bad = und = None; n = 0; tries = [0]
        def one(label, args, want, mm):
            """the wrongness of a case, None when it is right; Undecided when the domain cannot tell"""
            outs = Bits(m).run(f, [('ptr', a[1], 0) if isinstance(a, tuple) and a and a[0] == 'this' else a for a in args], mem=mm)
            soft = None
            for kind, v, ref, exact, _ in sorted(outs, key=lambda o: not o[3]):
                B = Bits(m); w = B.sub(want, ref); v = B.sub(v, ref)
                if kind == 'throw' or v is None:
                    soft = 'unknown result' if v is None and kind != 'throw' else 'throws'
                    if kind == 'throw' and exact: return (label, 'throws')
                    continue
                if v == w: continue
                if isinstance(v, Lin) or isinstance(w, Lin):
                    x, y = lin(v), lin(w)
                    if x is None or y is None: soft = 'unknown bits'; continue
                    if x == y: continue
                    if any(k[0] == '^' for k in list(x.t) + list(y.t)) and not differ(x, y): soft = 'not comparable'; continue
                elif isinstance(v, tuple) and any(x == T and y != T for x, y in zip(v, w)) and not sure(v, w): soft = 'unknown bits'; continue
                if not exact: soft = 'inexact path'; continue
                return (label, describe(v, w))
            if soft: raise Undecided(soft)
            if not outs: raise Undecided('no result')

        def refine(label, args, want, mm):
            """an open case partitioned further: every input bit but one fixed to 0 (to 1), that one free"""
            free = sorted({b[:2] for a in list(args) + list((mm or {}).values()) if isinstance(a, tuple) for b in a if isinstance(b, tuple) and len(b) == 3 and b[0] != '^'})
            B = Bits(m)
            for rest in (0, 1):
                for k in free:
                    tries[0] += 1
                    if tries[0] > 2500: return
                    ref = {q: rest for q in free if q != k}
                    try: r = one('%s with %s[%d] free and every other bit %d' % (label, k[0], k[1], rest), [a if a and a[0] == 'this' else B.sub(a, ref) for a in args], B.sub(want, ref), mm and {q: B.sub(v, ref) for q, v in mm.items()})
                    except Undecided: continue
                    if r: return r

        for label, args, want in cases:
            mm = mem(label) if mem else None
            try: bad = one(label, args, want, mm)
            except Undecided as e:
                bad = refine(label, args, want, mm)
                und = und or '%s (%s)' % (e, label)
            if bad: break
            if not und: n += 1; c.stats['cases'] += 1
        if bad: c.bad(f.d, '%s is wrong for %s: %s' % (f.d, bad[0], bad[1]))
        elif und: c.stats['undecided'] += 1; c.samples.append('undecided: %s: %s' % (f.d, und))
        else: c.ok(); c.samples.append('%s: %d cases' % (f.d, n))

    for name, cases in specs():
        f = by.get(name)
        if f: judge(f, cases)
        else: c.samples.append('not defined: ' + name)
    # objects: (class, member function, fields)
    fold = lambda x: tuple(b_xor(x[k], x[k + 32]) for k in range(32))
    x64 = binput('x', 64); x32 = binput('x', 32); x16 = binput('x', 16); x8 = binput('x', 8)
    for cls, nm, vec, want in (('Long', 'hashCode', x64, fold(x64)), ('Integer', 'hashCode', x32, x32), ('Short', 'hashCode', x16, x16 + (x16[15],) * 16), ('Bytes', 'hashCode', x8, x8 + (0,) * 24)):
        o = member(m, L + cls, 'original')
        f = by.get('%s%s::%s() const' % (L, cls, nm)) or by.get('%s%s::%s()' % (L, cls, nm))
        if f and o and o[1] * 8 == len(vec): judge(f, [('all', [('this', ('A', 'this'))], want)], mem=lambda lb: {(('A', 'this'), o[0], o[1]): vec})
    # UUID fields
    U = 'Java::Util::UUID'
    hi, lo = member(m, U, 'mostSigBits'), member(m, U, 'leastSigBits')
    if hi and lo:
        H, Lo = binput('h', 64), binput('l', 64); A = ('A', 'this')

        def uu(name, cases):
            f = by.get('%s::%s() const' % (U, name))
            if not f: return
            table = {lb: {(A, hi[0], 8): h, (A, lo[0], 8): l} for lb, h, l, w in cases}
            judge(f, [(lb, [('this', A)], w) for lb, h, l, w in cases], mem=lambda lb: dict(table[lb]))
        z = lambda v, w: v + (0,) * (w - len(v))
        uu('version', [('all', H, Lo, z(H[12:16], 32))])
        uu('variant', [('0', H, Lo[:63] + (0,), bconst(32, 0)), ('10', H, Lo[:62] + (0, 1), bconst(32, 2)),
                       ('110', H, Lo[:61] + (0, 1, 1), bconst(32, 6)), ('111', H, Lo[:61] + (1, 1, 1), bconst(32, 7))])
        H1 = H[:12] + bconst(4, 1) + H[16:]
        uu('clockSequence', [('version 1', H1, Lo, z(Lo[48:62], 32))])
        uu('node', [('version 1', H1, Lo, z(Lo[:48], 64))])
        uu('getMostSignificantBits', [('all', H, Lo, H)]); uu('getLeastSignificantBits', [('all', H, Lo, Lo)])
        x = tuple(b_xor(a, b) for a, b in zip(H, Lo))
        uu('hashCode', [('all', H, Lo, fold(x))])
    c.require(c.stats['functions'] >= 20, 'bit operations')
    c.assume += ['functions the domain cannot reduce (those that go through text) stay unjudged and are listed']
    return c.finish()


def differ(x, y):
    """two sums over parities of inputs differ on one of the cells with one or two input bits set."""
    ins = set()
    for k in list(x.t) + list(y.t): ins |= k[1] if k[0] == '^' else {k}
    ins = sorted(ins)
    at = lambda s, on: (s.c + sum(v for k, v in s.t.items() if (len(k[1] & on) & 1 if k[0] == '^' else k in on))) % (1 << s.w)
    return any(at(x, on) != at(y, on) for on in [frozenset()] + [frozenset([a]) for a in ins] + [frozenset([a, b]) for a in ins for b in ins[:40]])


def sure(v, w):
    """some bit is certainly wrong although others are unknown."""
    return any(x != T and y != T and x != y and x in (0, 1) and y in (0, 1) for x, y in zip(v, w))


def describe(v, w):
    if isinstance(v, tuple) and isinstance(w, tuple):
        for k, (x, y) in enumerate(zip(v, w)):
            if x != y: return 'bit %d of the result is %s instead of %s' % (k, show(x), show(y))
    return 'the result is %r instead of %r' % (v, w)


def show(b):
    if not isinstance(b, tuple): return 'unknown' if b == T else str(b)
    x = ' ^ '.join('%s[%d]' % q for q in sorted(b[1])) if b[0] == '^' else '%s[%d]' % (b[0], b[1])
    return ('not ' if b[2] else '') + x
