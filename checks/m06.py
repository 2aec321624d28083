"""M06: positions are checked."""
from reach import Reach
from guards import *
from lockutil import mname

TITLE = 'Positions outside are refused, positions inside never are'
RULE = ('for every operation that takes a position or a range, or needs an element to be there, the conditions on every acyclic path are collected as linear facts '
        'over its arguments and the length of the object (through helpers that check and through predicates): a path that returns must imply the allowed range, '
        'a path that throws must contradict it; and no value computed from an integer argument reaches an address, a std::string position, or an allocation size '
        'without a lower bound, and an upper bound against a length')
L = 'Java::Lang::'; U = 'Java::Util::'
SB = L + 'StringBuilder'; SU = L + 'StringBuffer(UnSafe)?'; ST = L + 'String'
ELEM = '0<=#1<len'; SLOT = '0<=#1<=len'; RANGE = '0<=#1<=#2<=len'
SPEC = []


def spec(cls, names, sig, legal, both=True): SPEC.append((cls, names, sig, legal, both))


LISTS = U + r'(ArrayList|Vector|LinkedList)<.*>'
spec(SB + '|' + SU, 'charAt|codePointAt|deleteCharAt|setCharAt', r'int\b.*', ELEM)
spec(SB + '|' + SU, 'codePointBefore', r'int', '1<=#1<=len')
spec(SB + '|' + SU, 'codePointCount', r'int, int', RANGE)
spec(SB + '|' + SU, 'deleteRange|deletes', r'int, int', '0<=#1<=len;#1<=#2')
spec(SB + '|' + SU, 'replace', r'int, int, .*', '0<=#1<=len;#1<=#2')
spec(SB + '|' + SU, 'insert', r'int, .*, int, int', SLOT, False)
spec(SB + '|' + SU, 'insert', r'int, .*', SLOT)
spec(SB + '|' + SU, 'setLength', r'int', '0<=#1')
spec(SB + '|' + SU, 'substring|subString', r'int', SLOT)
spec(SB + '|' + SU, 'substring|subString', r'int, int', RANGE)
spec(SB + '|' + SU, 'StringBuilder|StringBuffer|StringBufferUnSafe', r'int', '0<=#1')
spec(ST, 'charAt|getStringFromIndex', r'int', ELEM)
spec(ST, 'operator\\[\\]', r'int', SLOT)
spec(LISTS, 'get|remove|elementAt|removeElementAt|operator\\[\\]', r'int', ELEM)
spec(LISTS, 'set', r'int, .*', ELEM)
spec(LISTS, 'setElementAt', r'.*, int', '0<=#2<len')
spec(LISTS, 'add', r'int, .*', SLOT)
spec(LISTS, 'insertElementAt', r'.*, int', '0<=#2<=len')
spec(LISTS, 'subList', r'int, int', RANGE)
spec(LISTS, 'removeRange', r'int, int', RANGE, False)
spec(U + r'Vector<.*>', 'setSize', r'int', '0<=#1')
spec(ST, 'String', r'Array<(unsigned )?char> const&, int, int', '0<=#2;0<=#3;#2+#3<=len1')
spec(ST, 'getChars', r'int, int, Array<char>&, int', '0<=#1<=#2<=len;0<=#4;#4+#2<=len3+#1')
spec(SU, 'append', L + r'String const&, int, int', '0<=#2;0<=#3;#2+#3<=len1')
spec(SB + '|' + SU, 'append', L + r'CharSequence const&, int, int', '0<=#2<=#3', False)
spec(SB + '|' + SU, 'offsetByCodePoints', r'int, int', SLOT)
spec(U + r'Vector<.*>', 'indexOf|lastIndexOf', r'.*, int', '0<=#2<len')
spec(U + r'Vector<.*>', 'Vector', r'int(, int)?', '0<=#1')
spec(U + r'ArrayList<.*>', 'ArrayList', 'int', '0<=#1')
spec(U + r'PriorityQueue<.*>', 'PriorityQueue', r'int', '1<=#1')
spec(U + 'Random', 'nextInt', r'int', '1<=#1')
spec(U + 'BitSet', 'previousSetBit|previousClearBit', r'int', '0<=#1+1')
spec(U + 'LinkedList<.*>', 'getFirst|getLast|element|pop|remove|removeFirst|removeLast|poll|pollFirst|pollLast', '', '1<=len')
spec(U + 'Vector<.*>', 'firstElement|lastElement', '', '1<=len')
spec(U + 'Stack<.*>', 'peek|pop', '', '1<=len')
spec(U + 'BitSet', 'set|clear|flip|get|nextSetBit|nextClearBit', r'int(, bool)?', '0<=#1')
spec(U + 'BitSet', 'set|clear|flip|get|checkRange', r'int, int(, bool)?', '0<=#1<=#2')
spec(U + 'BitSet', 'BitSet', r'int', '0<=#1')


def split_class(d):
    """class, member, parameter list of a demangled member function."""
    ps = ', '.join(params(d))
    head = d
    k = head.rfind('(' )
    # cut the parameter list
    depth = 0; end = d.rfind(')'); k = end
    while k >= 0:
        if d[k] == ')': depth += 1
        elif d[k] == '(':
            depth -= 1
            if depth == 0: break
        k -= 1
    head = d[:k]
    dep = 0; cut = -1
    for j in range(len(head) - 1, 0, -1):
        if head[j] == '>': dep += 1
        elif head[j] == '<': dep -= 1
        elif head[j] == ':' and head[j - 1] == ':' and dep == 0: cut = j - 1; break
    if cut < 0: return None, head, ps
    return head[:cut], head[cut + 2:], ps


def legal_of(d):
    cls, name, ps = split_class(d)
    if cls is None: return None
    for c, n, sig, lg, both in SPEC:
        if re.fullmatch(c, cls) and re.fullmatch(n, name) and re.fullmatch(sig, ps): return cls, name, lg, both
    return None


def parse(lg, ln, plen):
    """list of Lin (each >= 0)."""
    out = []

    def atom(t):
        if t == 'len': return ln
        if t[:3] == 'len': return plen(int(t[3:]))
        return Lin.atom(('a', int(t[1:]))) if t[0] == '#' else Lin({}, int(t))

    def term(t):
        r = Lin({}, 0)
        for x in t.split('+'):
            y = atom(x.strip())
            if y is None: return None
            r = r.add(y)
        return r
    for part in lg.split(';'):
        toks = re.split(r'(<=|<)', part)
        for j in range(0, len(toks) - 2, 2):
            a, op, b = term(toks[j]), toks[j + 1], term(toks[j + 2])
            if b is None or a is None: return None
            out.append(b.add(a, -1).plus(-1 if op == '<' else 0))
    return out


def param_length(m, f):
    """the length of the k-th parameter, by its type."""
    def plen(k):
        t = re.sub(r' const&$|&$', '', mparams(f)[k - 1])
        if t == ST: return Lin.atom(('ssize', ('+', ('P', k), 8)))
        if t.startswith('Array<'):
            for o, sz, n, ty, own in m.fields(t):
                if n == 'length': return Lin.atom(('ld', ('+', ('P', k), o)))
        return None
    return plen


def show(l, ln, names):
    """a requirement, readably."""
    out = []
    for a, x in l.t.items():
        n = '#%d' % a[1] if a[0] == 'a' else 'the length'
        out.append(('-' if x < 0 else '+') + (' ' if abs(x) == 1 else ' %d*' % abs(x)) + n)
    if l.c: out.append('%s %d' % ('-' if l.c < 0 else '+', abs(l.c)))
    return (' '.join(out).lstrip('+ ') or '0') + ' >= 0'


def run():
    c = Check('M06', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    R = Reach(m); G = Guards(m, R)
    lens = {}
    fns = [f for f in m.defined(lambda d: True) if f.rel and 'Test' not in f.rel]
    for f in fns:
        cls, name, ps = split_class(bare(f.d))
        if cls and ps in ('', 'void') and name in LEN and not cls.startswith('std::'):
            g = G.getter(f)
            if g is not None and len(g.t) >= 1: lens.setdefault(cls, g)
    for l in lens.values():
        for a in l.t: G.canon[a] = 1
    c.stats.update(functions_with_bounds=0, addressing_functions=0, addressing_sites=0, undecided=0, without_length=0)
    seen = set()
    for f in fns:
        sinks(c, G, f)
        s = legal_of(bare(f.d))
        if not s: continue
        cls, name, lg, both = s
        ln = lens.get(cls) or (lens.get(cls.replace('Stack<', 'Vector<')) if 'Stack<' in cls else None) or (lens.get(L + 'StringBufferUnSafe') if cls == L + 'StringBuffer' else None)
        legal = parse(lg, ln, param_length(m, f))
        if legal is None: c.stats['without_length'] += 1; continue
        c.stats['functions_with_bounds'] += 1
        seen.add(re.sub('<.*>', '', cls))
        judge(c, G, f, legal, both, lg)
    for x in (ST, SB, L + 'StringBufferUnSafe', L + 'StringBuffer', U + 'ArrayList', U + 'Vector', U + 'LinkedList', U + 'Stack', U + 'BitSet'):
        c.require(x in seen, 'no operation of %s with a position was found' % x)
    c.require(c.stats['functions_with_bounds'] >= 90, 'too few operations with positions')
    c.assume += ['sums of positions and lengths do not overflow int',
                 'String::subString answers an impossible range with the empty text and the extra source ranges of insert() are only checked for memory safety',
                 'templates are judged as instantiated for String and Integer elements']
    return c.finish()


def bare(d): return d[:-6] if d.endswith(' const') else d


def judge(c, G, f, legal, both, lg):
    g = G.of(f); rets = []; refs = []; foreign = []

    mine = {a for l in legal for a in l.t}

    def visit(i, p):
        if i['o'] == 'ret': rets.append((i, p, p.alts))
        elif i['o'] in ('call', 'invoke') and callee(i) == '__cxa_throw': refs.append((i, p, p.alts)); return 'stop'
        elif i['o'] in ('call', 'invoke') and (callee(i) or '').startswith('_ZSt') and '__throw_out_of_range' in callee(i):
            foreign.append((i, p)); return 'stop'
        elif i['o'] == 'call' and both:
            n = callee(i); h = G.m.fn(G.m.alias.get(n, n)) if n else None
            if h is not None and h.has:
                for r in G.refusals(h):
                    q = [g.import_fact(x, h, i, p.env) for x in r]
                    if all(a in mine or a[0] == 'quot' or a in G.canon for l in q for a in l.t): refs.append((i, p, [a + q for a in p.alts]))
    whole = g.walk(visit)
    und = not whole; hit = False
    for i, p, alts in rets:
        for alt in alts:
            for l in legal:
                facts = G.base(alt + [l]) + alt
                if entails(facts, l) or infeasible(facts): continue
                if open_path(p): und = True; continue
                hit = True
                c.bad('%s:accepts' % f.d, '%s can return normally at %s although not %s (the positions allowed are %s)' % (f.d, f.where(i), show(l, None, None), lg))
    for i, p, alts in refs if both else []:
        for alt in alts:
            facts = G.base(alt + legal) + alt + legal
            if infeasible(facts): continue
            if open_path(p): und = True; continue
            hit = True
            c.bad('%s:refuses' % f.d, '%s throws at %s although the positions allowed (%s) include that case' % (f.d, f.where(i), lg))
    for i, p in foreign:
        # what the standard library throws is no exception of this library
        for alt in p.alts:
            if any(a not in mine and a[0] not in ('quot', 'ld') for l in alt for a in l.t) or infeasible(G.base(alt) + alt): continue
            if open_path(p): und = True; continue
            if not any(a[0] == 'a' for l in alt for a in l.t): continue
            hit = True
            c.bad('%s:foreign' % f.d, '%s leaves a position it should refuse to the standard library at %s, whose exception is none of this library (allowed: %s)' % (f.d, f.where(i), lg))
    if und: c.stats['undecided'] += 1
    elif not hit: c.ok(len(rets) + len(refs))
    if len(c.samples) < 30 and not und: c.samples.append('%s: allowed %s; %d returns, %d refusals' % (f.d, lg, len(rets), len(refs)))


RE_STR = re.compile(r'^std::__cxx11::basic_string<.*>::(at|substr|erase|insert|replace|compare|operator\[\])\(unsigned long')
ALLOC = {'malloc': (0,), 'calloc': (0,), 'realloc': (1,), '_Znwm': (0,), '_Znam': (0,)}


def sinks(c, G, f):
    g = G.of(f); res = {}
    if not any(p in ('int', 'long') for p in mparams(f)): return
    args = {('a', k + 1) for k, p in enumerate(mparams(f)) if p in ('int', 'long')}

    def arg_in(l): return any(a in args for a in l.t) and not any(has_v(a) for a in l.t)

    def need(i, p, l, what):
        for alt in p.alts:
            facts = G.base(alt + [l]) + alt
            if entails(facts, l) or infeasible(facts): v = 'ok'
            else: v = 'und' if open_path(p) else 'bad'
            res.setdefault((i['i'], what), set()).add(v)

    def upper(i, p, l, base, what):
        for alt in p.alts:
            xs = [Lin.atom(a) for a in {a for y in alt for a in y.t if a not in args and a[0] != 'v'}] + [d for y in alt for d in spans(y)]
            xs += [x.scale(k) for x in xs for k in {l.t[a] for a in l.t if a in args and l.t[a] > 1}]
            facts = G.base(alt + [l]) + alt
            # behind a length, the arguments' own part is what has to be limited
            own = Lin({a: x for a, x in l.t.items() if a in args}, l.c) if all(a in args or x == 1 and G.is_len(a) for a, x in l.t.items()) else l
            if infeasible(facts) or any(entails(facts, x.add(y, -1)) for x in xs for y in ((l, own) if own is not l else (l,))) or any(entails(facts, Lin({}, k).add(l, -1)) for k in (64, 65536)): v = 'ok'
            else: v = 'und' if p.unk else 'bad'
            res.setdefault((i['i'], what), set()).add(v)

    def visit(i, p):
        if i['o'] in ('load', 'store') and isinstance(i['p'], int):
            l = Lin({}, 0); v = i['p']; var = False
            while isinstance(v, int) and (v in f.inst or v in p.env):
                if v in p.env and p.env[v] != v: v = p.env[v]; continue
                j = f.inst[v]
                if j['o'] != 'getelementptr': break
                l = l.plus(j['off'])
                for x, sc in j['var']: l = l.add(g.lin(x, p.env).scale(sc)); var = True
                v = j['p']
            if var and arg_in(l):
                bp = g.path(v) if isinstance(v, int) else None
                if bp is not None and proot(bp)[0] in ('T', 'P', 'L') and not (proot(bp)[0] == 'P' and bp[0] == 'P'):
                    need(i, p, l, 'below'); upper(i, p, l, bp, 'above')
        elif i['o'] in ('call', 'invoke'):
            n = callee(i); d = G.m.dem.get(n or '', '') or ''
            mt = RE_STR.match(d)
            if mt:
                ps = params(d); off = len(i['a']) - len(ps)
                l = g.lin(i['a'][off], p.env)
                if arg_in(l):
                    sp = g.path(i['a'][off - 1]) if isinstance(i['a'][off - 1], int) else None
                    need(i, p, l, mt.group(1) + ' below')
                    if sp is not None and proot(sp)[0] in ('T', 'P'):
                        need(i, p, Lin.atom(('ssize', sp)).add(l, -1).plus(-1 if mt.group(1) == 'at' else 0), mt.group(1) + ' above')
            elif n in ALLOC or i.get('intr', '') in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset'):
                for k in ALLOC.get(n, (2,)):
                    l = g.lin(i['a'][k], p.env)
                    if arg_in(l): need(i, p, l, (n or 'mem') + ' size')
        elif i['o'] == 'alloca' and isinstance(i.get('cnt'), int):
            l = g.lin(i['cnt'], p.env)
            if arg_in(l): need(i, p, l, 'alloca')
    whole = g.walk(visit, first=True)
    if not res: return
    c.stats['addressing_functions'] += 1; c.stats['addressing_sites'] += len(res)
    for (n, what), v in res.items():
        if 'bad' in v:
            i = f.inst[n]
            c.bad('%s:%s' % (f.d, what), '%s: an argument reaches %s at %s unchecked: %s' % (f.d, WHERE[i['o']] if i['o'] in WHERE else 'a call', f.where(i), TEXT.get(what.split()[-1], what)))
        elif 'und' in v: c.stats['undecided'] += 1
        else: c.ok()


WHERE = {'load': 'the address of a read', 'store': 'the address of a write', 'call': 'a position or size given to a call', 'invoke': 'a position or size given to a call', 'alloca': 'the size of an array'}
TEXT = {'below': 'it may be negative there', 'above': 'nothing limits it from above', 'size': 'it may be negative there', 'alloca': 'it may be negative there'}
