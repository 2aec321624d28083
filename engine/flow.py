"""Value-flow evaluation: what a (loop-free) function returns and leaves in memory, as normal-form terms over its inputs.

An abstract interpretation of the IR over a term domain. Integers are polynomials modulo 2^w over irreducible atoms, comparisons are
decided only where the case under consideration (an ordering of two inputs, a divisor being 0 / -1 / something else) decides them;
everything else stays symbolic or becomes opaque. No solver, no concrete values: two results are equal when their normal forms are.

terms:  ('P', t, ((monomial, coef), ...))     integer of LLVM type t; monomial = sorted tuple of atoms
        atoms: ('in', name, t) ('zext'|'sext'|'trunc', t, term) ('sdiv'|..., t, a, b) ('f2i', t, x) ('call', name, args...) ...
        ('F', op, t, args) / ('fin', name, t) / ('fc', t, value)   floating point
        ('ptr', obj, off)    ('glob', name, off)   ('null',)   ('opq', ...)   strings: ('text', fmt, args) ('lit', s)
        booleans: 0 / 1 (int) or ('b', ...) terms"""
from sa import *
from lockutil import params

W = lambda t: int(t[1:])


class Undecided(Exception): pass


# ------------------------------------------------------------------ integer terms
def const(t, v):
    v &= (1 << W(t)) - 1
    return ('P', t, (((), v),) if v else ())


def cval(x):
    """signed value of a constant term, else None"""
    if isinstance(x, tuple) and x[0] == 'P':
        if not x[2]: return 0
        if len(x[2]) == 1 and x[2][0][0] == ():
            v = x[2][0][1]; w = W(x[1])
            return v - (1 << w) if v >> (w - 1) else v
    return None


def cuval(x):
    v = cval(x)
    return None if v is None else v & ((1 << W(x[1])) - 1)


def mk(t, d):
    m = (1 << W(t)) - 1
    return ('P', t, tuple(sorted(((k, c & m) for k, c in d.items() if c & m), key=repr)))


def atom(t, a): return ('P', t, (((a,), 1),))


def sole(x):
    """the atom x consists of, or None"""
    if isinstance(x, tuple) and x[0] == 'P' and len(x[2]) == 1 and x[2][0][1] == 1 and len(x[2][0][0]) == 1: return x[2][0][0][0]
    return None


def addt(a, b, k=1):
    d = dict(a[2])
    for m, c in b[2]: d[m] = d.get(m, 0) + k * c
    return mk(a[1], d)


def mult(a, b):
    d = {}
    for m, c in a[2]:
        for n, e in b[2]:
            k = tuple(sorted(m + n, key=repr)); d[k] = d.get(k, 0) + c * e
    if len(d) > 64: return atom(a[1], ('mul', a[1], a, b))
    return mk(a[1], d)


def ext(kind, t, x):
    v = cval(x)
    if v is not None: return const(t, v if kind == 'sext' else cuval(x))
    a = sole(x)
    if a and a[0] == kind: return atom(t, (kind, t, a[2]))
    if a and a[0] == 'zext' and kind == 'sext': return atom(t, ('zext', t, a[2]))
    return atom(t, (kind, t, x))


def trunc(t, x):
    w = W(t); d = {}; out = const(t, 0)
    for m, c in x[2]:
        term = const(t, c)
        for a in m: term = mult(term, trunc_atom(t, a, x[1]))
        out = addt(out, term)
    return out


def src(a):
    """(kind, narrow term) of an extension atom term"""
    s = sole(a)
    return (s[0], s[2]) if s and s[0] in ('zext', 'sext') else (None, None)


def trunc_atom(t, a, frm):
    w = W(t)
    if a[0] in ('zext', 'sext'):
        w0 = W(a[2][1])
        if w0 == w: return a[2]
        if w0 < w: return ext(a[0], t, a[2])
        return trunc(t, a[2])
    if a[0] == 'trunc': return atom(t, ('trunc', t, a[2]))
    if a[0] == 'f2i': return atom(t, ('f2i', t, a[2]))
    if a[0] in ('sdiv', 'srem'):
        x, y = a[2], a[3]
        kx, nx = src(x); ky, ny = src(y)
        cy = cval(y)
        if kx == ky == 'sext' and W(nx[1]) == w == W(ny[1]): return divt(a[0], t, nx, ny)
        if kx == 'sext' and cy is not None and W(nx[1]) == w and -(1 << w - 1) <= cy < (1 << w - 1): return divt(a[0], t, nx, const(t, cy))
    return atom(t, ('trunc', t, atom(frm, a)))


def divt(op, t, a, b):
    ca, cb = cval(a), cval(b)
    if op in ('udiv', 'urem'): ca, cb = cuval(a), cuval(b)
    if ca is not None and cb not in (None, 0):
        q = abs(ca) // abs(cb); q = -q if (ca < 0) != (cb < 0) else q
        return const(t, q if op.endswith('div') else ca - q * cb)
    if op == 'sdiv' and cb == -1: return addt(const(t, 0), a, -1)
    if op in ('srem',) and cb in (-1, 1) or op == 'urem' and cb == 1: return const(t, 0)
    if op.endswith('div') and cb == 1: return a
    if op[0] == 's':
        kx, nx = src(a); ky, ny = src(b)
        if kx == 'zext' and ky == 'zext' and nx[1] == ny[1]: return ext('zext', t, divt('u' + op[1:], nx[1], nx, ny))
        if kx == 'zext' and cb is not None and cb > 0 and cb < 1 << W(nx[1]): return ext('zext', t, divt('u' + op[1:], nx[1], nx, const(nx[1], cb)))
        if op == 'srem' and kx == 'sext' and ky == 'sext' and nx[1] == ny[1]: return ext('sext', t, divt(op, nx[1], nx, ny))
    else:
        kx, nx = src(a); ky, ny = src(b)
        if kx == 'zext' and ky == 'zext' and nx[1] == ny[1]: return ext('zext', t, divt(op, nx[1], nx, ny))
    return atom(t, (op, t, a, b))


def andt(t, a, b):
    for x, y in ((a, b), (b, a)):
        c = cuval(y)
        if c is None: continue
        if c == 0: return const(t, 0)
        if c == (1 << W(t)) - 1: return x
        cx = cuval(x)
        if cx is not None: return const(t, cx & c)
        if c & (c + 1) == 0:            # low mask: zext(trunc)
            n = c.bit_length(); s = sole(x)
            if s and s[0] in ('zext', 'sext') and W(s[2][1]) <= n: 
                if s[0] == 'zext': return x
                if W(s[2][1]) == n: return ext('zext', t, s[2])
            return ext('zext', t, trunc('i%d' % n, x))
    return atom(t, ('and', t) + tuple(sorted((a, b), key=repr)))


def rng(x):
    """(lo, hi) signed bounds of an integer term"""
    w = W(x[1]); v = cval(x)
    if v is not None: return v, v
    s = sole(x)
    if s and s[0] == 'zext': return 0, (1 << W(s[2][1])) - 1
    if s and s[0] == 'sext': return -(1 << W(s[2][1]) - 1), (1 << W(s[2][1]) - 1) - 1
    if len(x[2]) == 2 and not any(len(m) > 1 for m, c in x[2]):
        # difference of two narrower values
        lo = hi = 0
        for m, c in x[2]:
            c = c - (1 << w) if c >> (w - 1) else c
            l, h = rng(atom(x[1], m[0])) if m else (1, 1)
            lo += min(c * l, c * h); hi += max(c * l, c * h)
        if -(1 << w - 1) <= lo and hi < 1 << w - 1: return lo, hi
    return -(1 << w - 1), (1 << w - 1) - 1


SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
TRUTH = {'lt': ('lt', 'le', 'ne'), 'eq': ('eq', 'le', 'ge'), 'gt': ('gt', 'ge', 'ne')}


def icmp(pr, a, b, case):
    """truth of an integer comparison under a case, or a ('b', ...) term."""
    t = a[1]
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is None: return icmp(SWAP[pr], b, a, case)
    if ca is not None:
        if pr[0] == 'u': ca, cb = cuval(a), cuval(b)
        k = pr if pr in ('eq', 'ne') else pr[1:]
        return int({'eq': ca == cb, 'ne': ca != cb, 'lt': ca < cb, 'le': ca <= cb, 'gt': ca > cb, 'ge': ca >= cb}[k])
    k = pr if pr in ('eq', 'ne') else pr[1:]
    if a == b: return int(k in TRUTH['eq'])
    # ranges
    la, ha = rngc(a, case); lb, hb = rngc(b, case)
    r = exact_cmp(pr, k, a, b, case)
    if r is not None: return r
    if cb in (0, -1) and pr in (('slt', 'sge') if cb == 0 else ('sgt', 'sle')):
        r = negbit(a, case)
        if r is not None: return int((r == 1) == (pr in ('slt', 'sle')))
    if pr[0] != 'u' or (la >= 0 and lb >= 0):
        if ha < lb: return int(k in TRUTH['lt'])
        if la > hb: return int(k in TRUTH['gt'])
        if ha <= lb and k in ('le', 'gt'): return int(k == 'le')
        if la >= hb and k in ('ge', 'lt'): return int(k == 'ge')
    # equal extensions
    ka, na = src(a); kb, nb = src(b)
    if ka and ka == kb and na[1] == nb[1]:
        p = pr
        if ka == 'zext' and pr[0] == 's': p = 'u' + pr[1:]
        return icmp(p, na, nb, case)
    if ka and cb is not None:
        lo, hi = rng(a)
        if lo <= cb <= hi and pr[0] != 'u' or pr in ('eq', 'ne') and lo <= cb <= hi:
            return icmp('u' + pr[1:] if ka == 'zext' and pr[0] == 's' and pr not in ('eq', 'ne') else pr, na, const(na[1], cb), case)
    # widened difference against zero
    if cb == 0 and pr[0] != 'u' and len(a[2]) == 2 and all(len(m) == 1 for m, c in a[2]):
        (m1, c1), (m2, c2) = a[2]; w = W(t); neg = (1 << w) - 1
        if {c1, c2} == {1, neg}:
            p, q = (m1[0], m2[0]) if c1 == 1 else (m2[0], m1[0])
            if p[0] == q[0] and p[0] in ('zext', 'sext') and W(p[2][1]) < w and p[2][1] == q[2][1]: return icmp(pr, atom(t, p), atom(t, q), case)
    # both shifted by the sign bit: the other signedness
    half = 1 << (W(t) - 1)
    da, db = dict(a[2]), dict(b[2])
    if pr not in ('eq', 'ne') and da.get((), 0) == half and db.get((), 0) == half:
        da.pop(()); db.pop(())
        return icmp(('u' if pr[0] == 's' else 's') + pr[1:], mk(t, da), mk(t, db), case)
    # the sign of a negated value (MIN stays negative, so x < 0 says nothing about -x)
    if cb == 0 and pr[0] != 'u' and case.rel('s', addt(const(t, 0), a, -1), b) in ('gt', 'eq'):
        r = case.rel('s', addt(const(t, 0), a, -1), b)
        return int(k in TRUTH['lt' if r == 'gt' else 'eq'])
    r = case.rel(pr[0] if pr not in ('eq', 'ne') else None, a, b)
    if r is not None: return int(k in TRUTH[r]) if r != 'ne' else (None if k not in ('eq', 'ne') else int(k == 'ne')) if k in ('eq', 'ne') else ('b', pr, a, b)
    sa, sb = sole(a), sole(b)
    if sa and sb and sa[0] == 'bits' == sb[0]:
        r = case.rel('f', sa[2], sb[2])
        if r in ('lt', 'eq', 'gt'): return int(k in TRUTH[r])
    if sa and sa[0] == 'cmp' and cb is not None:
        r = case.rel('f', sa[2], sa[3])
        if r in ('lt', 'eq', 'gt'): return icmp(pr, const(t, {'lt': -1, 'eq': 0, 'gt': 1}[r]), b, case)
    return ('b', pr, a, b)


def ival(x, case):
    """signed bounds of a term in a cell whose inputs are bounded: interval evaluation, the whole type when it may wrap."""
    w = W(x[1]); full = (-(1 << w - 1), (1 << w - 1) - 1); lo = hi = 0
    v = cval(x)
    if v is not None: return v, v
    for m, c in x[2]:
        c = c - (1 << w) if c >> (w - 1) else c
        l = h = 1
        for a in m:
            p, q = aval(x[1], a, case); e = (l * p, l * q, h * p, h * q); l, h = min(e), max(e)
        lo += min(c * l, c * h); hi += max(c * l, c * h)
    for k in (0, -1, 1):                # the whole interval wraps by the same multiple
        l, h = lo + (k << w), hi + (k << w)
        if full[0] <= l and h <= full[1]: return l, h
    return full


def aval(t, a, case):
    w = W(t); full = (-(1 << w - 1), (1 << w - 1) - 1)
    x = atom(t, a); b = case.bounds.get(x)
    if b: return b
    if a[0] in ('sext', 'zext', 'trunc'):
        l, h = ival(a[2], case); n = min(w, W(a[2][1]))
        if a[0] == 'sext': return l, h
        if a[0] == 'zext': return (l, h) if l >= 0 else (l + (1 << n), h + (1 << n)) if h < 0 else (0, (1 << n) - 1)
        return (l, h) if full[0] <= l and h <= full[1] else full
    if a[0] in ('sdiv', 'srem') and cval(a[3]) is None or a[0] in ('sdiv', 'srem') and cval(a[3]):
        (l, h), (p, q) = ival(a[2], case), ival(a[3], case)
        if p <= 0 <= q: return full
        tq = lambda u, v: abs(u) // abs(v) * (-1 if (u < 0) != (v < 0) else 1)
        if a[0] == 'sdiv':
            e = [tq(u, v) for u in (l, h) for v in (p, q)] + ([0] if l <= 0 <= h else [])
            return (min(e), max(e)) if max(e) <= full[1] else full
        k = max(abs(p), abs(q)) - 1
        return (max(-k, l) if l < 0 else 0), (min(k, h) if h > 0 else 0)
    return rng(x)


def narrow(x, case):
    """an extension of a truncation that loses nothing in this cell is the value itself."""
    s = sole(x) if case.bounds else None
    if s and s[0] in ('sext', 'zext'):
        y = s[2]; q = sole(y)
        if q and q[0] == 'trunc' and q[2][1] == x[1]:
            l, h = ival(q[2], case); n = W(y[1])
            if s[0] == 'sext' and -(1 << n - 1) <= l and h < 1 << n - 1 or s[0] == 'zext' and 0 <= l and h < 1 << n: return q[2]
    return x


def rngc(x, case):
    lo, hi = rng(x)
    if cval(x) is None:
        if case.bounds:
            l, h = ival(x, case); lo, hi = max(lo, l), min(hi, h)
        if len(x[2]) == 1 and x[2][0][1] == (1 << W(x[1])) - 1 and x[2][0][0]:       # -y
            l, h = rngc(addt(const(x[1], 0), x, -1), case)
            if l > -(1 << W(x[1]) - 1): lo, hi = max(lo, -h), min(hi, -l)
        elif len(x[2]) == 2 and () in dict(x[2]):                                     # y + c
            k = cval(const(x[1], dict(x[2])[()])); l, h = rngc(addt(x, const(x[1], -k)), case)
            if -(1 << W(x[1]) - 1) <= l + k and h + k < 1 << W(x[1]) - 1: lo, hi = max(lo, l + k), min(hi, h + k)
        r = case.rel('s', x, const(x[1], 0)); n = case.neg.get(x)
        if r == 'gt': lo = max(lo, 1)
        elif r == 'lt' or n == 1: hi = min(hi, -1)
        elif n == 0: lo = max(lo, 0)
        if x in case.bounds: lo = max(lo, case.bounds[x][0]); hi = min(hi, case.bounds[x][1])
        for v in (1 << W(x[1]) - 1, (1 << W(x[1]) - 1) - 1, -1):
            q = case.rel('s', x, const(x[1], v)); v = cval(const(x[1], v))
            if q == 'gt': lo = max(lo, v + 1)
            if q == 'lt': hi = min(hi, v - 1)
    return lo, hi


def negbit(x, case):
    """sign bit of a term: 0, 1 or None"""
    c = cval(x)
    if c is not None: return int(c < 0)
    z = const(x[1], 0)
    if x in case.neg: return case.neg[x]
    r = case.rel('s', x, z)
    if r in ('lt', 'gt', 'eq'): return int(r == 'lt')
    lo, hi = rngc(x, case)
    if lo >= 0: return 0
    if hi < 0: return 1
    h = 1 << W(x[1]) - 1
    if dict(x[2]).get((), 0) == h:
        r = negbit(addt(x, const(x[1], h)), case)
        return None if r is None else 1 - r
    a = sole(x)
    if a and a[0] in ('and', 'or', 'xor'):
        p, q = negbit(a[2], case), negbit(a[3], case)
        if a[0] == 'and': return 0 if 0 in (p, q) else 1 if p == q == 1 else None
        if a[0] == 'or': return 1 if 1 in (p, q) else 0 if p == q == 0 else None
        return None if None in (p, q) else p ^ q
    if a and a[0] == 'sext': return negbit(a[2], case)
    m = (1 << W(x[1])) - 1
    y = addt(const(x[1], -1), x, -1)
    if len(y[2]) == 1 and y[2][0][1] == 1 or y in case.neg:         # -1 - y
        r = case.neg.get(y)
        if r is None and y != x and len(y[2]) < len(x[2]): r = negbit(y, case)
        return None if r is None else 1 - r
    return None


def exact_cmp(pr, k, a, b, case):
    """comparisons decided by whether the narrow result p of an operation is exact, too big ('over') or too small ('under')."""
    if not case.exact or pr[0] == 'u': return None
    t = a[1]
    for x, y, flip in ((a, b, False), (b, a, True)):
        s = sole(x)
        if s and s[0] == 'sext' and s[2] in case.exact and W(t) > W(s[2][1]) and trunc(s[2][1], y) == s[2] and y != x:
            e = case.exact[s[2]]
            rel = {'ok': 'eq', 'over': 'lt', 'under': 'gt'}[e]      # sext(p) against the exact value, widths permitting
            if k in ('eq', 'ne'): return int((e == 'ok') == (k == 'eq'))
            return None
        c = cval(y)
        for p, e in case.exact.items():
            if W(t) > W(p[1]) and c == 0:        # the exact value minus the narrow one
                X = addt(x, ext('sext', t, p))
                if X != x and trunc(p[1], X) == p and not (sole(X) and sole(X)[0] == 'sext') and cval(X) is None:
                    r = {'ok': 'eq', 'over': 'gt', 'under': 'lt'}[e]
                    if flip: r = {'gt': 'lt', 'lt': 'gt'}.get(r, r)
                    return int(k in TRUTH[r])
            if W(t) > W(p[1]) and c is not None and cval(x) is None and trunc(p[1], x) == p and not (sole(x) and sole(x)[0] == 'sext'):
                h = 1 << W(p[1]) - 1
                lo, hi = {'ok': (-h, h - 1), 'over': (h, None), 'under': (None, -h - 1)}[e]
                r = 'gt' if lo is not None and lo > c else 'lt' if hi is not None and hi < c else None
                if r is None and lo is not None and lo == c: r = 'ge'
                if r is None and hi is not None and hi == c: r = 'le'
                if r is None: return None
                if flip: r = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}[r]
                if r in ('lt', 'gt'): return int(k in TRUTH[r])
                if r == 'ge' and k in ('ge', 'lt'): return int(k == 'ge')
                if r == 'le' and k in ('le', 'gt'): return int(k == 'le')
                return None
            # the wrapped result against one of its operands
            if p[1] == t and pr[0] == 's' and x == p and y != p:
                d = addt(p, y, -1); g = None
                for q, sg in ((d, 1), (addt(const(t, 0), d, -1), -1)):
                    lo, hi = rngc(q, case)
                    if sole(q) is None and cval(q) is None: continue
                    if lo > 0: g = sg
                    elif hi < 0: g = -sg
                    if g: break
                if g:
                    r = {'ok': 'gt' if g > 0 else 'lt', 'over': 'lt', 'under': 'gt'}[e]
                    if e == 'over' and g < 0 or e == 'under' and g > 0: r = None
                    if r:
                        if flip: r = {'gt': 'lt', 'lt': 'gt'}[r]
                        return int(k in TRUTH[r])
            # a > MAX - b  (b >= 0),  a < MIN - b  (b <= 0)
            if p[1] == t and pr[0] == 's':
                mx = const(t, (1 << W(t) - 1) - 1); mn = const(t, 1 << W(t) - 1)
                if addt(addt(x, y, -1), mx) == p and negbit(addt(mx, y, -1), case) == 0:      # x against MAX - (MAX - y)
                    q = k if not flip else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(k, k)
                    if q == 'gt': return int(e == 'over')
                    if q == 'le': return int(e != 'over')
                if addt(addt(x, y, -1), mn) == p and case.le0(addt(mn, y, -1)):
                    q = k if not flip else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(k, k)
                    if q == 'lt': return int(e == 'under')
                    if q == 'ge': return int(e != 'under')
    return None


FT = {'oeq': 'e', 'one': 'lg', 'olt': 'l', 'ole': 'le', 'ogt': 'g', 'oge': 'ge', 'ord': 'lge', 'uno': 'u', 'ueq': 'eu', 'une': 'lgu', 'ult': 'lu', 'ule': 'leu', 'ugt': 'gu', 'uge': 'geu', 'false': '', 'true': 'lgeu'}


def fcmp(pr, a, b, case):
    if a[0] == 'fc' and b[0] == 'fc':
        import math
        x, y = a[2], b[2]
        r = 'u' if x != x or y != y else 'l' if x < y else 'g' if x > y else 'e'
        return int(r in FT[pr])
    if a == b and pr in ('uno', 'une', 'ord', 'oeq'):
        r = case.rel('f', a, a)
        if r: return int(('u' if r == 'un' else 'e') in FT[pr])
    r = case.rel('f', a, b)
    if r: return int({'lt': 'l', 'gt': 'g', 'eq': 'e', 'un': 'u'}[r] in FT[pr]) if r != 'ne' else (int('l' in FT[pr]) if ('l' in FT[pr]) == ('g' in FT[pr]) == ('u' in FT[pr]) else ('b', pr, a, b))
    # extension preserves order
    if a[0] == 'F' and a[1] == 'fpext' and b[0] == 'F' and b[1] == 'fpext': return fcmp(pr, a[3][0], b[3][0], case)
    if a[0] == 'F' and a[1] == 'fpext' and b[0] == 'fc': return fcmp(pr, a[3][0], b, case)
    return ('b', pr, a, b)


def f32(x):
    import struct
    if x != x or abs(x) == float('inf'): return x
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return float('inf') if x > 0 else float('-inf')


def i2f(c, t):
    if t == 'double' or abs(c) <= 1 << 24: return float(c)
    # to float in one rounding
    n = abs(c); e = max(0, n.bit_length() - 24); q, r = n >> e, n & ((1 << e) - 1); h = 1 << e - 1 if e else 0
    if e and (r > h or r == h and q & 1): q += 1
    return float(q << e) * (1 if c > 0 else -1)


def fold(o, t, x, y):
    import math
    inf = float('inf'); r = (lambda v: f32(v)) if t == 'float' else (lambda v: v)
    try:
        if o == 'fadd': v = x + y
        elif o == 'fsub': v = x - y
        elif o == 'fmul': v = x * y
        elif o == 'frem': v = float('nan') if x != x or y != y or abs(x) == inf or y == 0 else x if abs(y) == inf else math.fmod(x, y)
        elif x != x or y != y: v = float('nan')
        elif y == 0: v = float('nan') if x == 0 else math.copysign(inf, x) * math.copysign(1, y)
        else: v = x / y
    except OverflowError: v = math.copysign(inf, x) * math.copysign(1, y)
    return ('fc', t, r(v))


class Case:
    """what is assumed about the inputs: pairs in a relation, substitutions made by the caller."""

    def __init__(self, name='', rels=(), neg=None, exact=None, bounds=None):
        self.name = name; self.r = {}; self.neg = neg or {}; self.exact = exact or {}; self.bounds = bounds or {}
        for sign, a, b, rel in rels:
            self.r[(sign, a, b)] = rel
            self.r[(sign, b, a)] = {'lt': 'gt', 'gt': 'lt'}.get(rel, rel)

    def le0(self, x):
        c = cval(x)
        return c <= 0 if c is not None else rngc(x, self)[1] <= 0 or self.neg.get(x) == 1 or self.rel('s', x, const(x[1], 0)) in ('lt', 'eq')

    def rel(self, sign, a, b):
        if sign is None:
            for s in ('s', 'u'):
                if (s, a, b) in self.r: return self.r[(s, a, b)]
            return None
        r = self.r.get((sign, a, b))
        if r is None and sign in 'su' and self.r.get(('su'.replace(sign, ''), a, b)) in ('eq',): return 'eq'
        return r


class Out:
    __slots__ = ('kind', 'val', 'mem', 'conds', 'log')

    def __init__(self, kind, val, mem, conds, log): self.kind = kind; self.val = val; self.mem = mem; self.conds = conds; self.log = log


class Flow:
    """summ(flow, fn_demangled, args, mem, inst) -> None (no opinion) or a value/('ret', value) ; objects: classes of the input objects."""

    def __init__(self, m, case=None, summ=None, classes=None, limit=200, depth=10, types=None):
        self.m = m; self.case = case or Case(); self.summ = summ; self.classes = classes or {}; self.limit = limit; self.maxd = depth
        self.count = 0; self.fresh = 0; self.d = 0

    # ---- memory
    def init(self, p, t, mem):
        """first read of an input location"""
        if p[0] == 'ptr':
            o, off = p[1], p[2]
            c = self.classes.get(o)
            if off == 0 and c and t == 'ptr':
                g = self.vt(c)
                if g:
                    fl = self.flat(self.m.globals[g]['init'])
                    ti = [k for k, x in enumerate(fl) if isinstance(x, list) and x[0] == 'g' and x[1].startswith('_ZTI')]
                    return ('glob', g, 8 * (ti[0] + 1) if ti else 16)
            nm = '%s+%s' % (o, off) if off is not None else str(o)
            return self.fresh_in(nm, t)
        if p[0] == 'glob':
            g = self.m.globals.get(p[1])
            if g and g.get('const') and 'init' in g:
                v = self.ginit(g['init'], p[2], t)
                if v is not None: return v
            return self.fresh_in('@%s+%d' % (p[1], p[2]), t)
        return self.fresh_in('*%s' % (p,), t)

    def ginit(self, init, off, t):
        if t == 'ptr':
            arr = init
            if arr[0] == 'agg':
                flat = self.flat(arr)
                k = off // 8
                if off % 8 == 0 and k < len(flat):
                    x = flat[k]
                    if isinstance(x, list) and x[0] == 'g': return ('glob', x[1], x[2] if len(x) > 2 else 0)
                    if isinstance(x, list) and x[0] in ('n', 'null'): return ('null',)
            return None
        if off == 0 and init[0] == 'i' and t[0] == 'i': return const(t, init[1])
        if off == 0 and init[0] in ('f', 'fp') and t in ('float', 'double'): return ('fc', t, float(init[1]))
        if init[0] in ('zero', 'z') and t[0] == 'i': return const(t, 0)
        return None

    def flat(self, a):
        out = []
        for x in a[1:]:
            if isinstance(x, list) and x and x[0] == 'agg': out += self.flat(x)
            else: out.append(x)
        return out

    def vt(self, c):
        k = '_ZTV' + mangle(c)
        return k if k in self.m.globals else None

    def fresh_in(self, nm, t):
        if t and t[0] == 'i' and t[1:].isdigit():
            return ('b', 'in', nm) if t == 'i1' else atom(t, ('in', nm, t))
        if t in ('float', 'double'): return ('fin', nm, t)
        if t == 'ptr': return ('ptr', '[' + nm + ']', 0)
        return ('opq', nm)

    def val(self, f, env, v, t=None):
        if isinstance(v, int): return env.get(v, ('opq', f.n, v))
        if v[0] == 'i': return v[1] & 1 if t == 'i1' else const(t, v[1]) if t and t[0] == 'i' and t[1:].isdigit() else ('imm', v[1])
        if v[0] == 'n': return ('null',)
        if v[0] == 'g': return ('glob', v[1], v[2])
        if v[0] in ('f', 'fp', 'd'): return ('fc', t, fval(v))
        return ('opq', str(v))

    # ---- evaluation
    def run(self, f, args, mem=None, conds=()):
        if self.d >= self.maxd: raise Undecided('call depth in ' + f.d)
        self.d += 1
        try:
            env = dict(enumerate(args))
            out = []
            self.block(f, 0, None, env, dict(mem or {}), tuple(conds), frozenset(), out, ())
            return out
        finally: self.d -= 1

    def block(self, f, b, prev, env, mem, conds, seen, out, log):
        while True:
            self.count += 1
            if self.count > self.limit * 20: raise Undecided('too many paths in ' + f.d)
            if (prev, b) in seen: raise Undecided('loop in ' + f.d)
            seen = seen | {(prev, b)}
            bb = f.bbs[b]; r = self.insts(f, b, 0, prev, env, mem, conds, seen, out, log)
            if r is None: return
            prev, b, env, mem, conds, log = r

    def insts(self, f, b, k, prev, env, mem, conds, seen, out, log):
        bb = f.bbs[b]
        V = lambda v, t=None: self.val(f, env, v, t)
        phis = {}
        while k < len(bb) and bb[k]['o'] == 'phi':
            i = bb[k]; r = [v for v, pb in i['in'] if pb == prev]
            phis[i['i']] = V(r[0], i['t']) if r else self.havoc(f, i); k += 1
        env.update(phis)
        while k < len(bb):
            i = bb[k]; o = i['o']; k += 1; t = i['t']
            if o == 'alloca':
                self.fresh += 1
                env[i['i']] = ('ptr', 'L%d.%d' % (self.fresh, i['i']), 0)
            elif o == 'getelementptr':
                p = V(i['p'])
                if i['var']:
                    off = i['off']
                    for x in i['var']:
                        c = cval(V(x[0], 'i64')) if True else None
                        if c is None: off = None; break
                        off += c * x[1]
                else: off = i['off']
                if p[0] in ('ptr', 'glob') and off is not None and p[2] is not None: env[i['i']] = (p[0], p[1], p[2] + off)
                elif p[0] == 'ptr': env[i['i']] = ('ptr', p[1], None)
                else: env[i['i']] = ('opq', 'gep', p, off)
            elif o == 'load': env[i['i']] = self.load(V(i['p']), t, mem)
            elif o == 'store': self.store(V(i['p']), V(i['val'], i.get('vt')), mem)
            elif o == 'select':
                c = V(i['a'][0], 'i1')
                x, y = V(i['a'][1], t), V(i['a'][2], t)
                if c in (0, 1): env[i['i']] = x if c else y
                elif x == y: env[i['i']] = x
                else:
                    self.fork(c, lambda tr: self.resume(f, b, k, prev, dict(env, **{}), mem, conds + ((c, tr),), seen, out, log, {i['i']: x if tr else y}))
                    return None
            elif o in ('call', 'invoke'):
                r = self.call(f, i, [V(x, i['pt'][j]) for j, x in enumerate(i['a'])], mem, conds, V(i['f']))
                if r is not None:
                    nl = log + (('call', self.cname(f, env, i), tuple(V(x, i['pt'][j]) for j, x in enumerate(i['a']))),) if False else log
                    for q in r:
                        if q.kind == 'throw':
                            if o == 'invoke' and self.catches(f, i): raise Undecided('exception handler in ' + f.d)
                            out.append(Out('throw', q.val, q.mem, q.conds, log)); continue
                        e2 = dict(env); e2[i['i']] = q.val
                        if o == 'invoke': self.block(f, i['n'], b, e2, dict(q.mem), q.conds, seen, out, nl)
                        else:
                            z = self.insts(f, b, k, prev, e2, dict(q.mem), q.conds, seen, out, nl)
                            if z is not None:
                                p2, b2, e3, m3, c3, l3 = z
                                self.block(f, b2, p2, e3, m3, c3, seen, out, l3)
                    return None
            elif o == 'ret':
                out.append(Out('ret', V(i['a'][0], f.ret) if i.get('a') else None, mem, conds, log)); return None
            elif o in ('resume', 'unreachable'): return None
            elif o == 'br':
                if 'cond' not in i: return (b, i['s'][0], env, mem, conds, log)
                c = V(i['cond'], 'i1')
                if c in (0, 1): return (b, i['s'][0 if c else 1], env, mem, conds, log)
                self.fork(c, lambda tr: self.block(f, i['s'][0 if tr else 1], b, dict(env), dict(mem), conds + ((c, tr),), seen, out, log))
                return None
            elif o == 'switch':
                v = V(i['cond'], 'i32')
                if not (isinstance(v, tuple) and v[0] == 'P'): raise Undecided('switch in ' + f.d)
                hit = i['s'][0]; maybe = []
                for cv, tgt in zip(i['cases'], i['s'][1:]):
                    r = icmp('eq', v, const(v[1], cv), self.case)
                    if r == 1: hit = tgt; maybe = []; break
                    if r != 0: maybe.append((r, tgt))
                if maybe:
                    neg = conds
                    for r, tgt in maybe:
                        self.count += 20
                        self.block(f, tgt, b, dict(env), dict(mem), neg + ((r, 1),), seen, out, log); neg = neg + ((r, 0),)
                    self.block(f, hit, b, dict(env), dict(mem), neg, seen, out, log)
                    return None
                return (b, hit, env, mem, conds, log)
            else: env[i['i']] = self.op(f, i, o, t, V)
        return None

    def havoc(self, f, i): return ('opq', f.n, i['i'])

    def resume(self, f, b, k, prev, env, mem, conds, seen, out, log, upd):
        env = dict(env); env.update(upd)
        z = self.insts(f, b, k, prev, env, dict(mem), conds, seen, out, log)
        if z is not None:
            p2, b2, e3, m3, c3, l3 = z
            self.block(f, b2, p2, e3, m3, c3, seen, out, l3)

    def fork(self, c, go):
        self.count += 20
        for tr in (1, 0): go(tr)

    def catches(self, f, i):
        for x in f.bbs[i['u']]:
            if x['o'] == 'landingpad': return bool(x.get('cl'))
        return False

    def load(self, p, t, mem):
        if p in mem:
            v = mem[p]
            return self.retype(v, t)
        v = self.init(p, t, mem)
        if p[0] in ('ptr', 'glob'): mem[p] = v
        return v

    def retype(self, v, t):
        if isinstance(v, tuple) and v[0] == 'P' and t[0] == 'i' and v[1] != t:
            return trunc(t, v) if t[1:].isdigit() and W(t) < W(v[1]) else ('opq', 'retype', v, t)
        if isinstance(v, int) and t != 'i1' and t[0] == 'i': return const(t, v)
        if t == 'i1' and isinstance(v, tuple) and v[0] == 'P':
            c = cval(v)
            return c & 1 if c is not None else ('b', 'ne', v, const(v[1], 0))
        return v

    def store(self, p, v, mem):
        if p[0] in ('ptr', 'glob') and p[2] is not None: mem[p] = v
        elif p[0] == 'ptr':
            for q in [q for q in mem if q[0] == 'ptr' and q[1] == p[1]]: mem[q] = ('opq', 'clobbered')
        else: raise Undecided('store through an unknown pointer')

    def op(self, f, i, o, t, V):
        a = i.get('a') or []; ot = i.get('ot') or t
        if o in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            x, y = V(a[0], t), V(a[1], t)
            if t == 'i1': return self.bop(o, x, y)
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'P'): return ('opq', o, x, y)
            if o == 'add': return addt(x, y)
            if o == 'sub': return addt(x, y, -1)
            if o == 'mul': return mult(x, y)
            if o in ('sdiv', 'srem', 'udiv', 'urem'): return divt(o, t, x, y)
            if o == 'and':
                for p, q in ((x, y), (y, x)):
                    if cuval(q) == (1 << W(t) - 1) - 1 and cval(p) is None:
                        r = icmp('slt', p, const(t, 0), self.case)
                        if r in (0, 1): return addt(p, const(t, 1 << W(t) - 1)) if r else p
                return andt(t, x, y)
            if o == 'shl' and cval(y) is not None: return mult(x, const(t, 1 << cuval(y))) if cuval(y) < W(t) else ('opq', 'shl', x, y)
            if o == 'xor':
                for p, q in ((x, y), (y, x)):
                    if cval(q) == -1: return addt(const(t, -1), p, -1)
                    if cuval(q) == 1 << (W(t) - 1): return addt(p, q)
                    if cval(q) == 0: return p
            if o in ('ashr', 'lshr') and cuval(y) is not None and cuval(y) < W(t) and cval(x) is None:
                lo, hi = rngc(x, self.case); n = cuval(y)
                if lo >> n == hi >> n and (o == 'ashr' or lo >= 0): return const(t, lo >> n)
                if o == 'lshr' and hi < 0 and (lo + (1 << W(t))) >> n == (hi + (1 << W(t))) >> n: return const(t, (lo + (1 << W(t))) >> n)
            if o in ('ashr', 'lshr') and cuval(y) == W(t) - 1:
                r = icmp('slt', x, const(t, 0), self.case)
                if r in (0, 1): return const(t, -r if o == 'ashr' else r)
            if o == 'or':
                for p, q in ((x, y), (y, x)):
                    if cval(q) == -1: return q
                    if cval(q) == 0: return p
            if cval(x) is not None and cval(y) is not None:
                u, v, w = cuval(x), cuval(y), W(t)
                if o == 'or': return const(t, u | v)
                if o == 'xor': return const(t, u ^ v)
                if o == 'lshr' and v < w: return const(t, u >> v)
                if o == 'ashr' and v < w: return const(t, cval(x) >> v)
            return atom(t, (o, t, x, y))
        if o in ('zext', 'sext', 'trunc'):
            x = V(a[0], ot)
            if ot == 'i1':
                if x in (0, 1): return const(t, (-x if o == 'sext' else x))
                return atom(t, (o, t, x)) if t != 'i1' else x
            if not (isinstance(x, tuple) and x[0] == 'P'): return ('opq', o, x)
            if o == 'trunc' and t == 'i1':
                c = cval(x)
                return c & 1 if c is not None else ('b', 'bit', x)
            return trunc(t, x) if o == 'trunc' else narrow(ext(o, t, x), self.case)
        if o == 'icmp':
            x, y = V(a[0], ot), V(a[1], ot)
            if ot == 'i1':
                if x in (0, 1) and y in (0, 1): return int((x == y) == (i['pr'] == 'eq')) if i['pr'] in ('eq', 'ne') else ('b', i['pr'], x, y)
                return ('b', i['pr'], x, y)
            if ot == 'ptr':
                if x[0] in ('ptr', 'glob', 'null', 'cstr') and y[0] in ('ptr', 'glob', 'null', 'cstr') and i['pr'] in ('eq', 'ne'):
                    if x == y: return int(i['pr'] == 'eq')
                    if 'null' in (x[0], y[0]) or x[:2] == y[:2] and x[0] == 'ptr' or self.known(x) and self.known(y): return int(i['pr'] == 'ne')
                return ('b', i['pr'], x, y)
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'P'): return ('b', i['pr'], x, y)
            return icmp(i['pr'], x, y, self.case)
        if o == 'fcmp':
            return fcmp(i['pr'], V(a[0], ot), V(a[1], ot), self.case)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = V(a[0], t), V(a[1], t)
            if x[0] == y[0] == 'fc' and isinstance(x[2], float) and isinstance(y[2], float): return fold(o, t, x[2], y[2])
            if o in ('fadd', 'fmul'): x, y = sorted((x, y), key=repr)
            return ('F', o, t, (x, y))
        if o == 'fneg':
            x = V(a[0], t)
            return ('fc', t, -x[2]) if x[0] == 'fc' and isinstance(x[2], float) else ('F', o, t, (x,))
        if o in ('fpext', 'fptrunc'):
            x = V(a[0], ot)
            if x[0] == 'fc': return ('fc', t, f32(x[2]) if t == 'float' and isinstance(x[2], float) else x[2])
            if o == 'fptrunc' and x[0] == 'F' and x[1] == 'fpext' and self.ftype(x[3][0]) == t: return x[3][0]
            if o == 'fptrunc' and x[0] == 'F' and x[1] in ('fadd', 'fsub', 'fmul', 'fdiv') and all(z[0] == 'F' and z[1] == 'fpext' and self.ftype(z[3][0]) == t for z in x[3]):
                return ('F', x[1], t, tuple(z[3][0] for z in x[3]))     # double rounding is innocuous for one operation
            return ('F', o, t, (x,))
        if o in ('sitofp', 'uitofp'):
            x = V(a[0], ot)
            if isinstance(x, tuple) and x[0] == 'P':
                c = cval(x)
                if c is not None: return ('fc', t, i2f(cuval(x) if o == 'uitofp' else c, t))
                s = sole(x)
                if s and s[0] in ('sext', 'zext'): return ('F', 'i2f', t, (s[2], s[0] == 'sext'))
                return ('F', 'i2f', t, (x, o == 'sitofp'))
            return ('opq', o, x)
        if o in ('fptosi', 'fptoui'):
            x = V(a[0], ot)
            if x[0] == 'F' and x[1] == 'fpext': x = x[3][0]
            if x[0] == 'fc' and isinstance(x[2], float) and t != 'i1' and abs(x[2]) < 1 << 63:
                n = int(x[2]); w = W(t)
                if (-(1 << w - 1) <= n < 1 << w - 1) if o == 'fptosi' else (0 <= n < 1 << w): return const(t, n)
            return atom(t, ('f2i', t, x)) if t != 'i1' else ('opq', o, x)
        if o in ('freeze', 'bitcast'): return V(a[0], t)
        if o == 'extractvalue':
            x = V(a[0])
            ix = i.get('ix'); ix = ix[0] if isinstance(ix, list) else ix
            if isinstance(x, tuple) and x[0] == 'agg' and ix in (0, 1): return x[1 + ix]
        return ('opq', o) + tuple(V(x) for x in operands(i))

    def ftype(self, x): return x[2] if x[0] in ('F', 'fin') else x[1] if x[0] == 'fc' else None

    def known(self, x): return x[0] == 'glob' or x[0] == 'ptr' and not x[1].startswith('[')

    def bop(self, o, x, y):
        if o == 'and':
            if x == 0 or y == 0: return 0
            if x == 1: return y
            if y == 1: return x
        if o == 'or':
            if x == 1 or y == 1: return 1
            if x == 0: return y
            if y == 0: return x
        if o == 'xor':
            if x in (0, 1) and y in (0, 1): return x ^ y
            if y == 1: return self.neg(x)
            if x == 1: return self.neg(y)
            if y == 0: return x
            if x == 0: return y
        if o in ('add', 'sub') and x in (0, 1) and y in (0, 1): return x ^ y
        return ('b', o, x, y)

    def neg(self, x):
        return x[2] if isinstance(x, tuple) and x[:2] == ('b', 'not') else ('b', 'not', x)

    # ---- calls
    def cname(self, f, env, i): return callee(i)

    def call(self, f, i, a, mem, conds, target):
        n = callee(i)
        if n is None:
            return self.indirect(f, i, a, mem, conds, target)
        return self.named(f, i, n, a, mem, conds)

    def indirect(self, f, i, a, mem, conds, target):
        if target and target[0] == 'glob' and target[2] == 0: return self.named(f, i, target[1], a, mem, conds)
        raise Undecided('indirect call in ' + f.d)

    def named(self, f, i, n, a, mem, conds):
        m = self.m; n = m.alias.get(n, n); d = m.dem.get(n, n)
        if n.startswith('llvm.'):
            if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.eh')): return self.one(('opq', n), mem, conds)
            r = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', n)
            if r:
                x, y = a[0], a[1]
                p = mult(x, y) if r.group(2) == 'mul' else addt(x, y, 1 if r.group(2) == 'add' else -1)
                if cval(x) is not None and cval(y) is not None:
                    cv = cval if r.group(1) == 's' else cuval
                    ex = cv(x) * cv(y) if r.group(2) == 'mul' else cv(x) + cv(y) if r.group(2) == 'add' else cv(x) - cv(y)
                    return self.one(('agg', p, int(cv(p) != ex)), mem, conds)
                e = self.case.exact.get(p) if r.group(1) == 's' else None
                return self.one(('agg', p, int(e != 'ok') if e else ('b', 'ovf', p)), mem, conds)
            if n.startswith('llvm.abs.'):
                g = negbit(a[0], self.case)
                return self.one(addt(const(i['t'], 0), a[0], -1) if g == 1 else a[0] if g == 0 else atom(i['t'], ('abs', i['t'], a[0])), mem, conds)
            r = re.match(r'llvm\.(s|u)(min|max)\.', n)
            if r:
                q = icmp(r.group(1) + 'lt', a[0], a[1], self.case)
                if q in (0, 1): return self.one(a[0] if (q == 1) == (r.group(2) == 'min') else a[1], mem, conds)
                return self.one(atom(i['t'], (r.group(1) + r.group(2), i['t']) + tuple(sorted((a[0], a[1]), key=repr))), mem, conds)
            r = re.match(r'llvm\.(ctlz|cttz|ctpop|bswap|bitreverse|fshl|fshr)\.', n)
            if r and all(isinstance(x, tuple) and x[0] == 'P' and cval(x) is not None for x in a[:3 if r.group(1)[:3] == 'fsh' else 1]):
                k = r.group(1); w = W(a[0][1]); u = cuval(a[0])
                if k == 'ctlz': v = w - u.bit_length()
                elif k == 'cttz': v = (u & -u).bit_length() - 1 if u else w
                elif k == 'ctpop': v = bin(u).count('1')
                elif k == 'bswap': v = int.from_bytes(u.to_bytes(w // 8, 'little'), 'big')
                elif k == 'bitreverse': v = int(bin(u)[2:].zfill(w)[::-1], 2)
                else:
                    sh = cuval(a[2]) % w; cat = u << w | cuval(a[1])
                    v = cat >> (w - sh) if k == 'fshl' else cat >> sh
                return self.one(const(i['t'], v), mem, conds)
            if n.startswith('llvm.fabs') and a[0][0] == 'fc' and isinstance(a[0][2], float): return self.one(('fc', i['t'], abs(a[0][2])), mem, conds)
            if n.startswith('llvm.fabs'): return self.one(('F', 'fabs', i['t'], (a[0],)), mem, conds)
            if n.startswith(('llvm.memcpy', 'llvm.memmove')) and a[0][0] == 'ptr' and a[1][0] == 'ptr':
                for q in [q for q in mem if q[0] == 'ptr' and q[1] == a[1][1]]:
                    mem[('ptr', a[0][1], q[2] - (a[1][2] or 0) + (a[0][2] or 0) if q[2] is not None and a[0][2] is not None else None)] = mem[q]
                return self.one(('opq',), mem, conds)
            return self.one(('opq', n) + tuple(a), mem, conds)
        if self.summ:
            r = self.summ(self, d, n, a, mem, i)
            if r is not None:
                if isinstance(r, list): return [Out(q.kind, q.val, q.mem, tuple(conds) + q.conds, ()) for q in r]
                return self.one(r[0], mem, conds)
        if n == '__cxa_throw': return [Out('throw', a[1][1] if a[1][0] == 'glob' else '?', dict(mem), tuple(conds), ())]
        if n in ('__cxa_allocate_exception', '_Znwm', '_Znam', 'malloc', 'calloc'):
            self.fresh += 1
            o = ('ptr', 'H%d' % self.fresh, 0)
            mem[('ptr', o[1], 'kind')] = ('imm', n)
            return self.one(o, mem, conds)
        if n in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch'): return self.one(('opq',), mem, conds)
        if n == 'asprintf' and a[0][0] == 'ptr':
            mem[a[0]] = ('cstr', ('text', self.lit(a[1]), tuple(a[2:]))); return self.one(atom('i32', ('call', 'asprintf')), mem, conds)
        if n in ('sprintf', 'snprintf') and a[0][0] == 'ptr':
            j = 1 if n == 'sprintf' else 2
            mem[('ptr', a[0][1], 'text')] = ('text', self.lit(a[j]), tuple(a[j + 1:])); return self.one(atom('i32', ('call', n)), mem, conds)
        if n in ('strdup', '__strdup'): return self.one(('cstr', self.text(a[0], mem)), mem, conds)
        if n == 'strcpy' and a[0][0] == 'ptr':
            mem[('ptr', a[0][1], 'text')] = self.text(a[1], mem); return self.one(a[0], mem, conds)
        g = m.fn(n)
        if g and g.has and g.src.startswith(LIB):
            return self.run(g, a, mem, conds)
        if g is None or not g.has:
            if any(isinstance(x, tuple) and x[0] == 'ptr' for x in a) and not n.startswith(('_ZNSt9exception', '_ZNSt12')):
                for x in a:
                    if isinstance(x, tuple) and x[0] == 'ptr': self.clobber(x, mem)
            t = i['t']
            v = ('call', n) + tuple(a)
            return self.one(atom(t, v) if t[0] == 'i' and t[1:].isdigit() and t != 'i1' else ('F', v[1], t, tuple(a)) if t in ('float', 'double') else ('opq',) + v, mem, conds)
        raise Undecided('call of ' + d)

    def clobber(self, p, mem):
        for q in [q for q in mem if q[0] == 'ptr' and q[1] == p[1]]: mem[q] = ('opq', 'clobbered')

    def one(self, v, mem, conds): return [Out('ret', v, mem, tuple(conds), ())]

    def lit(self, x):
        if x[0] != 'glob': return ('?', x)
        g = self.m.globals.get(x[1]); init = (g or {}).get('init')
        if init and init[0] == 's': return ('lit', init[1][x[2]:].split('\0')[0])
        return ('?', x)

    def text(self, p, mem):
        """the characters a char* points at"""
        if p[0] == 'cstr': return p[1]
        if p[0] == 'glob': return self.lit(p)
        if p[0] == 'ptr' and ('ptr', p[1], 'text') in mem: return mem[('ptr', p[1], 'text')]
        return ('chars', p)


def fval(v):
    try: return float(v[1])
    except (ValueError, TypeError): return v[1]


def mangle(c):
    ps = c.split('::')
    return 'N' + ''.join('%d%s' % (len(p), p) for p in ps) + 'E' if len(ps) > 1 else '%d%s' % (len(c), c)
