"""V08: the number wrappers compute what the primitives they wrap would."""
from flow import *
import itertools

TITLE = 'Number wrappers compute exactly what their primitive would'
RULE = ('every arithmetic, compound-assignment, comparison, conversion, equality, compare, min/max/sum and construction operation of the number '
        'wrappers is evaluated over value-flow normal forms for every ordering of its operands (less, equal, greater), every divisor class (0, -1, '
        'other) and with the operand aliased to the object: the resulting value term is the primitive operation on the stored values, in the '
        'primitive\'s width and signedness; division by zero throws ArithmeticException')
J = 'Java::Lang::'
KIND = {'Bytes': ('i8', 0), 'Short': ('i16', 1), 'Integer': ('i32', 1), 'Long': ('i64', 1), 'Float': ('float', 1), 'Double': ('double', 1)}
PRIM = {'unsigned char': ('i8', 0), 'byte': ('i8', 0), 'char': ('i8', 1), 'short': ('i16', 1), 'int': ('i32', 1), 'long': ('i64', 1), 'float': ('float', 1), 'double': ('double', 1), 'bool': ('i1', 0)}
CONV = {'byteValue': ('i8', 0), 'shortValue': ('i16', 1), 'intValue': ('i32', 1), 'longValue': ('i64', 1), 'floatValue': ('float', 1), 'doubleValue': ('double', 1)}
BIN = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}
REL = {'==': ('eq',), '!=': ('lt', 'gt'), '<': ('lt',), '>': ('gt',), '<=': ('lt', 'eq'), '>=': ('gt', 'eq')}
ORD = ('lt', 'eq', 'gt')


def summ(fl, d, n, a, mem, i):
    """trusted leaves: String objects as texts, number parsing as the inverse of formatting, raw bits as an injective monotone map."""
    S = J + 'String'
    if d.startswith(S + '::~'): return (('opq',),)
    if d.startswith(S + '::String(char'): mem[('ptr', a[0][1], 'S')] = fl.text(a[1], mem); return (('opq',),)
    if d == S + '::String(%s const&)' % S: mem[('ptr', a[0][1], 'S')] = mem.get(('ptr', a[1][1], 'S'), ('S', a[1])); return (('opq',),)
    if d == S + '::String()': mem[('ptr', a[0][1], 'S')] = ('lit', ''); return (('opq',),)
    r = re.match(r'Java::Lang::(Integer::parseInt|Long::parseLong)\(', d)
    if r:
        t = mem.get(('ptr', a[0][1], 'S')) if a[0][0] == 'ptr' else None
        if t and t[0] == 'text' and t[1] in (('lit', '%d'), ('lit', '%ld')) and (len(a) < 2 or cval(a[1]) == 10): return (t[2][0],)
        raise Undecided('parsing of ' + str(t)[:40])
    if re.match(r'Java::Lang::(Float::floatTo(Raw)?IntBits|Double::doubleTo(Raw)?LongBits)\(', d): return (atom(i['t'], ('bits', i['t'], a[0])),)
    if n in ('__cxa_bad_cast', '__cxa_bad_typeid'): return (('opq',),)
    return None


class World:
    def __init__(self, m, c):
        self.m = m; self.c = c
        self.off = {}; self.text = {}
        for w in KIND:
            fs = m.fields(J + w)
            o = [x for x in fs if x[4] == J + w and x[2] == 'original'] or [x for x in fs if x[4] == J + w and not x[3].endswith('*')]
            s = [x for x in fs if x[4] == J + w and x[3].replace(' ', '').endswith('char*') or x[3] == 'string']
            if len(o) != 1: raise Broken('%s: stored value not found' % w)
            self.off[w] = o[0][0]; self.text[w] = s[0][0] if len(s) == 1 else None

    cell = None; bounds = {}

    def split_at(self, name, t, v):
        """the value of an operand in the current cell of the partition"""
        b = (self.cell or {}).get(name)
        if b is None: return v
        if b[0] == b[1]: return const(t, b[0])
        self.bounds[v] = b
        return v

    def x(self, w, obj):
        t = KIND[w][0]
        if t[0] == 'i' and self.cell: return self.split_at(obj, t, self.x0(w, obj))
        return self.x0(w, obj)

    def x0(self, w, obj):
        t = KIND[w][0]
        return atom(t, ('in', '%s+%d' % (obj, self.off[w]), t)) if t[0] == 'i' else ('fin', '%s+%d' % (obj, self.off[w]), t)

    def mem0(self, objs):
        """class invariant of wrapper inputs: the cached text is the decimal text of the stored value."""
        mem = {}
        for o, w in objs.items():
            if self.cell and o in self.cell: mem[('ptr', o, self.off[w])] = self.x(w, o)
            if w in KIND and KIND[w][0][0] == 'i' and self.text[w] is not None:
                v = self.x(w, o); t = KIND[w][0]
                mem[('ptr', o, self.text[w])] = ('cstr', ('text', ('lit', '%ld' if t == 'i64' else '%d'), (v if t in ('i32', 'i64') else ext('sext' if KIND[w][1] else 'zext', 'i32', v),)))
        return mem


def conv(x, sign, to):
    t = to[0]
    if isinstance(x, tuple) and x[0] == 'P':
        if t[0] == 'i':
            return x if x[1] == t else trunc(t, x) if W(t) < W(x[1]) else ext('sext' if sign else 'zext', t, x)
        return ('F', 'i2f', t, (x, bool(sign)))
    f = x[2] if x[0] in ('fin', 'F') else x[1]
    if t[0] == 'i': return atom(t, ('f2i', t, x))
    return x if f == t else ('F', 'fpext' if t == 'double' else 'fptrunc', t, (x,))


def opaque(t):
    """the term contains something the evaluator could not interpret."""
    if not isinstance(t, tuple): return False
    if t and t[0] in ('opq', 'call', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'S', 'chars'): return True
    return any(opaque(x) for x in t)


def run():
    c = Check('V08', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    wd = World(m, c); und = []
    c.stats.update(operations=0, cases=0, cells=0, undecided=0)

    def args_of(f, w, alias):
        ps = [p for p in params(f.d) if p != 'void']
        off = len(f.args) - len(ps); sret = bool(f.args and f.args[0][2]); member = off - (1 if sret else 0) >= 1
        a = []; objs = {}; vals = []
        if off - sret > 1: return None
        if sret: a.append(('ptr', 'R', 0))
        if member: a.append(('ptr', 'this', 0)); objs['this'] = w
        for k, p in enumerate(ps):
            q = re.sub(r'( const)?\s*&*$', '', p).replace(J, '')
            nm = 'this' if alias and member else 'p%d' % k
            if q in KIND and p.endswith('&') or q in KIND and f.args[off + k][1] == 'ptr':
                a.append(('ptr', nm, 0)); objs[nm] = q; vals.append((wd.x(q, nm), KIND[q]))
            elif q in PRIM and not p.endswith(('&', '*')):
                t, sg = PRIM[q]
                v = atom(t, ('in', 'p%d' % k, t)) if t[0] == 'i' and t != 'i1' else ('fin', 'p%d' % k, t) if t[0] != 'i' else ('b', 'in', 'p%d' % k)
                if t[0] == 'i' and t != 'i1': v = wd.split_at('p%d' % k, t, v)
                a.append(v); vals.append((v, (t, sg)))
            else: return None
        return a, objs, vals, sret, member

    def evalf(f, a, objs, case, sub=None):
        if wd.cell:
            for (sg, p, q), r in list(case.r.items()):
                if not feasible(sg, p, q, r, wd.bounds): return None
            case.bounds = {**wd.bounds, **case.bounds}
        wd.case = case; mem = wd.mem0(objs)
        if sub:
            for k, v in sub.items():
                if wd.cell and k[1] in wd.cell and k[2] == wd.off.get(objs.get(k[1])) and not wd.cell[k[1]][0] <= cval(v) <= wd.cell[k[1]][1]: return None
                mem[k] = v
        fl = Flow(m, case, summ, {o: J + w for o, w in objs.items()})
        return [o for o in fl.run(f, a, mem)]

    def result(o, f, w, sret):
        """value term of the returned object or primitive"""
        if sret: return o.mem.get(('ptr', 'R', wd.off[w]), ('opq', 'unset'))
        v = o.val
        if isinstance(v, tuple) and v and v[0] == 'ptr': return o.mem.get(('ptr', v[1], wd.off[w] + (v[2] or 0)), wd.x(w, v[1]))
        return v

    def cellname():
        return '' if not wd.cell else ' when ' + ', '.join('%s %s' % ({'this': 'x', 'p0': 'y' if 'this' in wd.cell else 'a', 'p1': 'b'}.get(k, k), 'is %d' % l if l == h else 'is in [%d, %d]' % (l, h)) for k, (l, h) in wd.cell.items())

    def judge(f, outs, get, want, what, key):
        """want: set/list of acceptable terms"""
        if outs is None: return         # an empty case in this cell of the partition
        c.stats['cells' if wd.cell else 'cases'] += 1
        if not outs: raise Undecided('no outcome')
        for o in outs:
            if o.kind == 'throw':
                if want == 'throw' and 'ArithmeticException' in o.val: continue
                if o.conds: raise Undecided('conditional throw')
                return c.bad(key, '%s: %s throws %s%s (%s:%d)' % (f.d, what, o.val, cellname(), f.rel, f.line))
            if want == 'throw':
                if o.conds: raise Undecided('conditional')
                return c.bad(key, '%s: %s does not throw ArithmeticException%s (%s:%d)' % (f.d, what, cellname(), f.rel, f.line))
            g = get(o)
            if g in want: continue
            if wd.cell and not o.conds and all(apart(g, x, wd.case) for x in want):
                return c.bad(key, '%s: %s gives %s instead of %s%s (%s:%d)' % (f.d, what, pretty(g), pretty(list(want)[0]), cellname(), f.rel, f.line))
            if wd.cell: raise Undecided('not comparable in the cell')
            if opaque(g) or o.conds and any(opaque(x) for x in o.conds): raise Undecided('%s' % (str(g)[:150],))
            if o.conds: raise Undecided('depends on %s' % (str(o.conds)[:150],))
            return c.bad(key, '%s: %s gives %s instead of %s (%s:%d)' % (f.d, what, pretty(g), pretty(list(want)[0]), f.rel, f.line))
        if not wd.cell: c.ok()

    def split(f, a, objs, sig, P, Q, r, want, view, what, key):
        """judge the case `P r Q`; where it leaves the answer open, judge the (each non-empty) sub-cases by sign and by wrap of the difference."""
        def one(cs): judge(f, evalf(f, a, objs, cs), lambda o: view(o.val, cs), [want], what, key)
        try: return one(Case(r, [(sig, P, Q, r)]))
        except Undecided as e:
            subs = subcases(sig, P, Q, r) if not wd.cell else []
            if not subs: raise
            last = None
            for cs in subs:
                try: one(cs)
                except Undecided as e: last = e
            if last: raise last

    def binop(op, t, x, y):
        if t[0] != 'i':
            if op in ('add', 'mul'): x, y = sorted((x, y), key=repr)
            return ('F', 'f' + op, t, (x, y))
        if op == 'add': return addt(x, y)
        if op == 'sub': return addt(x, y, -1)
        if op == 'mul': return mult(x, y)
        return None

    def refine(f, w, alias, attempt):
        """the operands partitioned at the constants the code distinguishes: is a case certainly wrong in some cell of the partition?"""
        r = args_of(f, w, alias)
        if r is None: return False
        names = ([('this', KIND[w][0])] if r[4] else []) + [('p%d' % k, v[1][0]) for k, v in enumerate(r[2])]
        if alias: names = names[:1]
        names = [(n, t) for n, t in names if t[0] == 'i' and t != 'i1']
        if not names: return False
        cuts = points(m, f); before = len(c.viol)
        for cell in itertools.product(*[cells(t, cuts) for n, t in names]):
            wd.cell = {n: b for (n, t), b in zip(names, cell)}; wd.bounds = {}
            try: attempt(alias)
            except Undecided: pass
            finally: wd.cell = None; wd.bounds = {}
            if len(c.viol) > before: return True
        return False

    for w, (t, sg) in KIND.items():
        T = J + w; isint = t[0] == 'i'
        for f in m.defined(lambda d: d.startswith(T + '::')):
            g = f.d[len(T) + 2:]; nm = re.match(r'(operator[^(]+|~?\w+)', g).group(1).strip()
            def attempt(alias):
                r = args_of(f, w, alias)
                if r is None: return False
                a, objs, vals, sret, member = r
                X = wd.x(w, 'this'); key = f.d
                sig = 's' if sg else 'u'
                if not isint: sig = 'f'
                op = nm[8:] if nm.startswith('operator') else None
                ar = len(vals)
                th = lambda o: o.mem.get(('ptr', 'this', wd.off[w]), X)
                if member and op in BIN and ar == 1 or member and op and op.endswith('=') and op[:-1] in BIN and ar == 1:
                    comp = op.endswith('='); k = BIN[op.rstrip('=')]; Y, ky = vals[0]
                    if ky[0] != t: return False
                    const_m = f.n.startswith('_ZNK')
                    gets = []
                    if comp and not const_m: gets.append(('the object', th))
                    if f.ret != 'void' or sret: gets.append(('the result', lambda o: result(o, f, w, sret)))
                    nmw = '%s %s %s' % ('x', op, 'x' if alias else 'y')
                    if isint and k in ('div', 'rem'):
                        ok = (('s' if sg else 'u') + k)
                        cases = [('y == 0', Case(rels=[(sig, Y, const(t, 0), 'eq')]), const(t, 0)), ]
                        if sg: cases.append(('y == -1', Case(), const(t, -1)))
                        for cn, cs, val in cases:
                            sub = {('ptr', 'this' if alias else 'p0', wd.off[w]): val}
                            outs = evalf(f, a, objs, cs, {**sub, **textfix(wd, w, 'this' if alias else 'p0', val)})
                            xv = val if alias else X
                            if cn == 'y == 0': judge(f, outs, None, 'throw', '%s with %s' % (nmw, cn), key)
                            else:
                                for gn, gt in gets: judge(f, outs, gt, [divt(ok, t, xv, val)], '%s of %s with %s' % (gn, nmw, cn), key)
                        cs = Case(rels=[(sig, Y, const(t, 0), 'ne'), (sig, Y, const(t, -1), 'ne')] if sg else [(sig, Y, const(t, 0), 'ne')])
                        outs = evalf(f, a, objs, cs)
                        for gn, gt in gets: judge(f, outs, gt, [divt(ok, t, X, Y)] + ([const(t, 1 if k == 'div' else 0)] if alias else []), '%s of %s' % (gn, nmw), key)
                    else:
                        outs = evalf(f, a, objs, Case())
                        want = binop(k, t, X, Y)
                        for gn, gt in gets: judge(f, outs, gt, [want], '%s of %s' % (gn, nmw), key)
                    return True
                if member and (op in REL or nm in ('equals', 'compareTo')) and ar == 1 or not member and nm == 'compare' and ar == 2 and vals[0][1] == vals[1][1]:
                    if member: P, Q = X, vals[0][0]; kind = vals[0][1]
                    else: P, Q = vals[0][0], vals[1][0]; kind = vals[0][1]
                    if kind[0] != t: return False
                    for r in (('eq',) if alias else ORD):
                        what = 'with x %s y' % {'lt': '<', 'eq': '==', 'gt': '>'}[r]
                        if op in REL or nm == 'equals': want, view = int(r in (REL[op] if op else ('eq',))), tobool
                        else: want, view, what = {'lt': -1, 'eq': 0, 'gt': 1}[r], sign, 'the sign of the result ' + what
                        split(f, a, objs, sig, P, Q, r, want, view, what, key)
                    return True
                if member and op in ('&&', '||') and ar == 1:
                    zero = const(t, 0) if isint else ('fc', t, 0.0); Y = vals[0][0]
                    for p in (0, 1):
                        for q in ((p,) if alias else (0, 1)):
                            cs = Case('', [(sig, X, zero, 'ne' if p else 'eq')] + ([] if alias else [(sig, Y, zero, 'ne' if q else 'eq')]))
                            outs = evalf(f, a, objs, cs)
                            judge(f, outs, lambda o: tobool(o.val, cs), [int(p and q) if op == '&&' else int(p or q)], 'with x %s 0, y %s 0' % ('!=' if p else '==', '!=' if q else '=='), key)
                    return True
                if alias: return False
                if member and nm in CONV and ar == 0:
                    to = CONV[nm]; rt = f.ret
                    outs = evalf(f, a, objs, Case())
                    v = conv(X, sg, to); alts = [v]
                    if rt != to[0] and rt[0] == 'i' and to[0][0] == 'i': alts = [conv(v, s, (rt, 1)) for s in (0, 1)]
                    elif to[0] == 'i8' and not isint: alts = [v, trunc('i8', conv(X, sg, ('i32', 1)))]
                    judge(f, outs, lambda o: o.val, alts, nm, key)
                    return True
                if nm == w and ar == 1 or member and op == '=' and ar == 1 or not member and nm == 'valueOf' and ar == 1:
                    if vals[0][1][0] != t: return False
                    outs = evalf(f, a, objs, Case())
                    judge(f, outs, th if member else lambda o: result(o, f, w, sret), [vals[0][0]], 'the stored value', key)
                    return True
                if nm == w and ar == 0 and member:
                    outs = evalf(f, a, objs, Case())
                    judge(f, outs, th, [const(t, 0) if isint else ('fc', t, 0.0)], 'the default value', key)
                    return True
                if not member and nm in ('min', 'max') and ar == 2 and vals[0][1] == vals[1][1] and vals[0][1][0] == t:
                    P, Q = vals[0][0], vals[1][0]
                    for r in ORD:
                        outs = evalf(f, a, objs, Case(r, [(sig, P, Q, r)]))
                        want = [P, Q] if r == 'eq' else [P] if (r == 'lt') == (nm == 'min') else [Q]
                        judge(f, outs, lambda o: o.val, want, 'with a %s b' % {'lt': '<', 'eq': '==', 'gt': '>'}[r], key)
                    return True
                if not member and nm == 'sum' and ar == 2 and vals[0][1] == vals[1][1] and vals[0][1][0] == t:
                    outs = evalf(f, a, objs, Case())
                    judge(f, outs, lambda o: o.val, [binop('add', t, vals[0][0], vals[1][0])], 'a + b', key)
                    return True
                if not member and nm == 'compareUnsigned' and ar == 2:
                    P, Q = vals[0][0], vals[1][0]
                    for r in ORD:
                        split(f, a, objs, 'u', P, Q, r, {'lt': -1, 'eq': 0, 'gt': 1}[r], sign, 'the sign with a %s b (unsigned)' % {'lt': '<', 'eq': '==', 'gt': '>'}[r], key)
                    return True
                if not member and nm in ('toUnsignedInt', 'toUnsignedLong') and ar == 1 and isint:
                    judge(f, evalf(f, a, objs, Case()), lambda o: o.val, [ext('zext', f.ret, vals[0][0])], 'the unsigned value', key)
                    return True
                if not member and nm in ('divideUnsigned', 'remainderUnsigned') and ar == 2 and isint:
                    P, Q = vals[0][0], vals[1][0]; k = 'udiv' if nm[0] == 'd' else 'urem'
                    judge(f, evalf(f, [P, const(t, 0)], objs, Case()), None, 'throw', 'a divisor of 0', key)
                    judge(f, evalf(f, a, objs, Case('', [('u', Q, const(t, 0), 'ne'), ('s', Q, const(t, 0), 'ne')])), lambda o: o.val, [divt(k, t, P, Q)], 'a %s b (unsigned)' % ('/' if nm[0] == 'd' else '%'), key)
                    return True
                if not member and nm == 'signum' and ar == 1 and isint:
                    P = vals[0][0]
                    for r in ORD:
                        cs = Case(r, [('s', P, const(t, 0), r)])
                        judge(f, evalf(f, a, objs, cs), lambda o: o.val, [const(f.ret, {'lt': -1, 'eq': 0, 'gt': 1}[r])], 'with a %s 0' % {'lt': '<', 'eq': '==', 'gt': '>'}[r], key)
                    return True
                return False
            for alias in (False, True):
                try:
                    if attempt(alias): c.stats['operations'] += 0 if alias else 1
                except Undecided as e:
                    if refine(f, w, alias, attempt): continue
                    und.append('%s%s: %s' % (f.d, ' (aliased)' if alias else '', e)); c.stats['undecided'] += 1
    c.samples = und[:40]
    c.require(c.stats['operations'] >= 60, 'wrapper operations')
    c.assume += ['the dynamic class of an operand is its declared class', 'text of a wrapper is the decimal text of its value (V01); parsing inverts formatting',
                 'raw bit conversion of floating-point values is injective and monotone on non-NaN values']
    return c.finish()


def points(m, f, depth=4, seen=None):
    """the constants a function and its callees compare integers with, and the limits of the widths they narrow to."""
    seen = seen if seen is not None else set(); out = set()
    if f.n in seen or depth < 0: return out
    seen.add(f.n)
    for i in f.inst.values():
        if i['o'] in ('icmp', 'select', 'switch', 'and', 'sub', 'add'):
            out |= {v[1] for v in i.get('a') or [] if isinstance(v, list) and v[0] == 'i' and isinstance(v[1], int)} | set(i.get('cases') or [])
        if i['o'] == 'trunc' and i['t'] in ('i8', 'i16', 'i32'):
            n = W(i['t']); out |= {-(1 << n - 1), (1 << n - 1) - 1, 1 << n - 1, (1 << n) - 1, 1 << n, -(1 << n)}
        if i['o'] in ('call', 'invoke'):
            g = m.fn(callee(i)) if callee(i) else None
            if g and g.has and g.src.startswith(LIB): out |= points(m, g, depth - 1, seen)
    return out


def cells(t, cuts):
    n = W(t); lo, hi = -(1 << n - 1), (1 << n - 1) - 1
    ks = sorted({v if v <= hi else v - (1 << n) for v in cuts if lo <= v < 1 << n and v not in (lo, hi, 0, -1)}, key=abs)[:14]
    ks = sorted(set(ks) | {lo, hi, 0, -1}); out = []
    for a, b in zip(ks, ks[1:] + [None]):
        out.append((a, a))
        if b is not None and b - a > 1: out.append((a + 1, b - 1))
    return out


def bound(x, bounds):
    c = cval(x)
    return (c, c) if c is not None else bounds.get(x)


def unsigned(b, n): return b if b[0] >= 0 else (b[0] + (1 << n), b[1] + (1 << n)) if b[1] < 0 else (0, (1 << n) - 1)


def feasible(sg, p, q, r, bounds):
    """can the operands of these cells be in relation r? (False also when it cannot be told)"""
    x, y = bound(p, bounds), bound(q, bounds)
    if x is None or y is None or p == q: return p == q and r == 'eq'
    if sg == 'u': x, y = unsigned(x, W(p[1])), unsigned(y, W(q[1]))
    if r == 'lt': return x[0] < y[1]
    if r == 'gt': return x[1] > y[0]
    if r == 'eq': return max(x[0], y[0]) <= min(x[1], y[1])
    return not x[0] == x[1] == y[0] == y[1]


def apart(g, want, case):
    """the two values certainly differ for some operands of the cell."""
    if isinstance(g, int) and isinstance(want, int): return g != want
    if not (isinstance(g, tuple) and isinstance(want, tuple) and g and want and g[0] == want[0] == 'P' and g[1] == want[1]): return False
    d = addt(g, want, -1); v = cval(d)
    if v is not None: return v != 0
    a, b = ival(g, case), ival(want, case)
    if a[1] < b[0] or b[1] < a[0]: return True
    if 'eq' in [r for (s_, p, q), r in case.r.items() if cval(p) is None and cval(q) is None]: return False
    ms = [mm for mm, k in d[2] if mm]
    if any(len(mm) > 1 for mm in ms): return False
    wide = lambda x: x in case.bounds and case.bounds[x][1] - case.bounds[x][0] >= 3
    if all(wide(atom(d[1], mm[0])) for mm in ms): return True         # linear in independent operands
    if len(ms) != 1: return False
    x = ms[0][0]
    if x[0] == 'trunc': return wide(x[2])
    if x[0] in ('sext', 'zext'):
        y = sole(x[2])
        return wide(x[2]) or bool(y) and y[0] == 'trunc' and wide(y[2])
    if x[0] in ('sdiv', 'srem', 'udiv', 'urem'):
        p, q = bound(x[2], case.bounds), bound(x[3], case.bounds)
        if p is None or q is None or q[0] <= 0 <= q[1]: return False
        if x[0] == 'srem': return wide(x[2]) and (q[0] > 1 or q[1] < -1)
        if x[0] == 'urem': return wide(x[2]) and unsigned(q, W(d[1]))[0] > 1
        if x[0] == 'udiv': p, q = unsigned(p, W(d[1])), unsigned(q, W(d[1]))
        return tq(p[0], q[1]) != tq(p[1], q[0]) or tq(p[0], q[0]) != tq(p[1], q[0])
    return False


def tq(u, v): return abs(u) // abs(v) * (-1 if (u < 0) != (v < 0) else 1)


def subcases(sig, P, Q, r):
    if not (isinstance(P, tuple) and P[0] == 'P' and Q[0] == 'P' and cval(P) is None and cval(Q) is None) or sig == 'f': return []
    t = P[1]; z = const(t, 0); mn = const(t, 1 << W(t) - 1); out = []
    D = addt(P, Q, -1); E = addt(Q, P, -1); fl = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
    if r == 'eq': return [Case('x == y', [(sig, P, Q, 'eq'), ('s', D, z, 'eq'), ('s', E, z, 'eq')])]
    if sig == 's':
        out.append(Case('small difference', [('s', P, Q, r), ('s', D, z, r), ('s', E, z, fl[r])]))
        out.append(Case('difference wraps', [('s', P, Q, r), ('s', D, z, fl[r]), ('s', E, z, r)]))
    for sp, sq in (('gt', 'gt'), ('gt', 'lt'), ('lt', 'gt'), ('lt', 'lt')):      # signs of P and Q
        if sp == sq: s_, u_ = r, r
        else: s_, u_ = ('lt', 'gt') if sp == 'lt' else ('gt', 'lt')
        if (s_ if sig == 's' else u_) != r: continue
        base = [('s', P, Q, s_), ('u', P, Q, u_), ('s', P, z, sp), ('s', Q, z, sq)]
        if sp == sq: out.append(Case('same sign', base)); continue
        for q in ORD:      # the values without their sign bits
            a, b = (addt(P, mn), Q) if sp == 'lt' else (P, addt(Q, mn))
            out.append(Case('different signs', base + [('s', a, b, q), ('u', a, b, q)]))
    return out


def textfix(wd, w, o, val):
    if wd.text[w] is None: return {}
    t = KIND[w][0]
    return {('ptr', o, wd.text[w]): ('cstr', ('text', ('lit', '%ld' if t == 'i64' else '%d'), (val if t in ('i32', 'i64') else ext('sext' if KIND[w][1] else 'zext', 'i32', val),)))}


def tobool(v, cs):
    if isinstance(v, tuple) and v[0] == 'P':
        k = cval(v)
        if k is not None: return int(k != 0)
        return tobool(icmp('ne', v, const(v[1], 0), cs), cs)
    return v


def sign(v, cs):
    if isinstance(v, tuple) and v[0] == 'P':
        k = cval(v)
        if k is not None: return (k > 0) - (k < 0)
        for pr, s in (('slt', -1), ('sgt', 1), ('eq', 0)):
            if icmp(pr, v, const(v[1], 0), cs) == 1: return s
    return v


def pretty(t):
    if isinstance(t, int): return {0: 'false/0', 1: 'true/1'}.get(t, str(t))
    if isinstance(t, tuple) and t and t[0] == 'P':
        k = cval(t)
        if k is not None: return str(k)
        return ' + '.join(('' if c == 1 else '-' if c == (1 << W(t[1])) - 1 else '%d*' % c) + ('*'.join(pa(a) for a in mo) or '1') for mo, c in t[2])
    if isinstance(t, tuple) and t and t[0] == 'F': return '%s(%s)' % (t[1], ', '.join(pretty(x) for x in t[3]))
    if isinstance(t, tuple) and t and t[0] == 'fin': return nm_(t[1])
    if isinstance(t, tuple) and t and t[0] == 'fc': return str(t[2])
    return str(t)[:100]


def nm_(n): return {'this': 'x', 'p0': 'y' }.get(n.split('+')[0], n)


def pa(a):
    if a[0] == 'in': return nm_(a[1])
    return '%s(%s)' % (a[0] if a[0] not in ('zext', 'sext', 'trunc') else '(%s)' % a[1], ', '.join(pretty(x) for x in a[2:]))
