"""E01: an exception keeps the message and cause it was made with and can be caught as each of its supertypes."""
from effects import *

TITLE = 'Exceptions keep their message and cause and their place in the hierarchy'
RULE = ('every constructor of every class derived from Throwable is evaluated over string and pointer terms along each non-throwing path, through '
        'all delegated and base constructors: on return the message term is the message parameter (a term built from the parameter for numeric '
        'constructors, empty when there is none) and the cause is the cause parameter or null; getMessage/getCause return exactly those members; '
        'no other function writes them; the class graph contains the Java hierarchy with public, unambiguous inheritance')
T = 'Java::Lang::Throwable'
HIER = {'Exception': 'Throwable', 'Error': 'Throwable', 'RuntimeException': 'Exception', 'ArithmeticException': 'RuntimeException', 'AssertionError': 'Error',
        'ClassCastException': 'RuntimeException', 'IllegalArgumentException': 'RuntimeException', 'IndexOutOfBoundsException': 'RuntimeException',
        'StringIndexOutOfBoundsException': 'IndexOutOfBoundsException', 'NegativeArraySizeException': 'RuntimeException', 'NumberFormatException': 'RuntimeException',
        'UnsupportedOperationException': 'RuntimeException', 'InterruptedException': 'Exception', 'CloneNotSupportedException': 'Exception',
        'NoSuchElementException': 'RuntimeException', 'EmptyStackException': 'RuntimeException', 'IOException': 'Exception', 'UnsupportedEncodingException': 'IOException',
        'GeneralSecurityException': 'Exception', 'NoSuchAlgorithmException': 'GeneralSecurityException', 'WebApplicationException': 'RuntimeException',
        'ClientErrorException': 'WebApplicationException', 'BadRequestException': 'ClientErrorException', 'MediaTypeException': 'Exception', 'CQLException': 'Exception'}
S = 'Java::Lang::String'


class Terms:
    """terms of String objects and pointers held at (object, offset) along one path."""

    def __init__(self, m): self.m = m; self.depth = 0

    def run(self, f, args, mem=None):
        """args: list of values: ('obj', id, off) pointers, ('param', k) / ('null',) / ... opaque terms. Yields (memory, return value)."""
        if self.depth > 12: return
        self.depth += 1
        yield from self.path(f, 0, None, dict(enumerate(args)), mem or {}, frozenset())
        self.depth -= 1

    def val(self, f, env, v):
        if isinstance(v, list):
            if v[0] == 'n': return ('null',)
            if v[0] == 'i': return ('int', v[1])
            if v[0] == 'g': return ('glob', v[1], v[2])
            return ('undef',)
        return env.get(v, ('v', f.n, v))

    def path(self, f, b, prev, env, mem, seen):
        if (prev, b) in seen: return
        seen = seen | {(prev, b)}
        env = dict(env); mem = dict(mem)
        yield from self.block(f, b, 0, prev, env, mem, seen)

    def block(self, f, b, k, prev, env, mem, seen):
        bb = f.bbs[b]
        while k < len(bb):
            i = bb[k]; o = i['o']; k += 1
            V = lambda v: self.val(f, env, v)
            if o == 'alloca': env[i['i']] = ('obj', (f.n, i['i'], self.depth), 0)
            elif o == 'getelementptr':
                p = V(i['p'])
                env[i['i']] = ('obj', p[1], p[2] + i['off']) if p[0] == 'obj' and not i['var'] else ('f', 'gep', p)
            elif o == 'load':
                p = V(i['p'])
                env[i['i']] = mem.get(p, ('load', p))
            elif o == 'store': mem[V(i['p'])] = V(i['val'])
            elif o == 'phi':
                r = [v for v, pb in i['in'] if pb == prev]
                env[i['i']] = V(r[0]) if r else ('v', f.n, i['i'])
            elif o == 'select':
                for w in (1, 2):
                    e2 = dict(env); e2[i['i']] = V(i['a'][w])
                    yield from self.block(f, b, k, prev, e2, dict(mem), seen)
                return
            elif o in ('call', 'invoke'):
                n = callee(i); d = self.m.dem.get(n, n) or '?'
                a = [V(x) for x in i['a']]
                nxt = None
                if n and n.startswith('llvm.'): pass
                elif d.startswith(S + '::~'): mem.pop(a[0], None)
                elif d == S + '::String()': mem[a[0]] = ('lit', '')
                elif d == S + '::String(%s const&)' % S: mem[a[0]] = mem.get(a[1], ('at', a[1]))
                elif d == S + '::operator=(%s const&)' % S: mem[a[0]] = mem.get(a[1], ('at', a[1])); env[i['i']] = a[0]
                elif d in (S + '::String(char const*)', S + '::String(char*)'): mem[a[0]] = ('lit', literal(self.m, a[1])) if a[1][0] == 'glob' else ('f', d, a[1])
                elif n and self.m.fn(n) and self.m.fn(n).has and not d.startswith(S + '::') and any(x[0] == 'obj' for x in a[:1]) and not (self.m.fn(n).args[0][2]):
                    g = self.m.fn(n)
                    for m2, rv in list(self.run(g, a, mem)):
                        e2 = dict(env); mm = dict(m2)
                        if rv is not None: e2[i['i']] = rv
                        yield from (self.block(f, b, k, prev, e2, mm, seen) if o == 'call' else self.path(f, i['n'], b, e2, mm, seen))
                    return
                elif n and self.m.fn(n) and self.m.fn(n).args and self.m.fn(n).args[0][2]:
                    mem[a[0]] = ('f', d) + tuple(mem.get(x, x) for x in a[1:])     # String-valued function
                elif n and d.startswith('std::exception'): pass
                else:
                    if i.get('nr'): return
                    env[i['i']] = ('f', d) + tuple(mem.get(x, x) for x in a)
                    if a and a[0][0] == 'obj' and not d.startswith('std::exception'): mem[a[0]] = ('f', d) + tuple(mem.get(x, x) for x in a)
            elif o == 'ret':
                yield mem, (V(i['a'][0]) if i.get('a') else None)
                return
            elif o in ('resume', 'unreachable'): return
            elif o == 'landingpad': return
            elif o in ('br', 'switch'): break
            else: env[i['i']] = ('f', o) + tuple(V(x) for x in operands(i))
        t = bb[-1]
        for s in ([t['n']] if t['o'] == 'invoke' else f.succ[b]):
            yield from self.path(f, s, b, env, mem, seen)


def literal(m, g):
    e = m.globals.get(g[1]); init = (e or {}).get('init')
    return json.dumps(init)


def mentions(t, what):
    return t == what or isinstance(t, tuple) and any(mentions(x, what) for x in t)


def run():
    c = Check('E01', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    fl = {n: (off, size) for off, size, n, t, own in m.fields(T)}
    msg = [o for o, s, n, t, own in m.fields(T) if own == T and t.endswith('String')]
    cau = [o for o, s, n, t, own in m.fields(T) if own == T and t.endswith('*')]
    if len(msg) != 1 or len(cau) != 1: raise Broken('Throwable: expected one String and one pointer member')
    msg, cau = msg[0], cau[0]
    derived = {}

    def supers(t, seen=()):
        out = []
        for b in m.types[t]['bases'] if t in m.types else []:
            out.append(b); out += supers(b['n'])
        return out
    for t in m.types:
        sp = supers(t)
        if t == T or any(b['n'] == T for b in sp): derived[t] = sp
    c.stats['exception_classes'] = len(derived); c.stats['constructors'] = 0
    by = {t.split('::')[-1]: t for t in derived}
    c.require(len(derived) >= 20, 'exception classes')
    for t, sup in HIER.items():
        if t not in by:
            if any(x.split('::')[-1] == t for x in m.types): c.bad('%s:hierarchy' % t, '%s no longer derives from Throwable' % t)
            continue
        chain = [b['n'].split('::')[-1] for b in derived[by[t]]]
        if sup not in chain: c.bad('%s:hierarchy' % t, '%s cannot be caught as %s: its bases are %s' % (t, sup, ', '.join(chain)))
        elif chain.count('Throwable') != 1: c.bad('%s:ambiguous' % t, '%s inherits Throwable %d times, no handler for Throwable matches it' % (t, chain.count('Throwable')))
        else: c.ok()
        for b in m.types[by[t]]['bases']:
            if b['n'] in derived and b.get('acc') not in (None, 'public'): c.bad('%s:inherit' % t, '%s inherits %s non-publicly: it cannot be caught as it' % (t, b['n']))
    E = Effects(m)
    for t in derived:
        nm = t.split('::')[-1]
        for f in m.defined(lambda d: d.startswith('%s::%s(' % (t, nm))):
            if 'C2E' not in f.n and 'C1E' not in f.n: continue
            ps = [p for p in params(f.d) if p != 'void']
            c.stats['constructors'] += 1
            off = len(f.args) - len(ps)
            this = ('obj', 'this', 0); args = [this] + [('vtt',)] * (off - 1); mem0 = {}
            want_m = ('lit', None); want_c = ('null',); num = None; copy = False
            for k, p in enumerate(ps):
                q = re.sub(r'( const)?&+$', '', p)
                if q == S:
                    args.append(('obj', 'p%d' % k, 0)); want_m = ('at', ('obj', 'p%d' % k, 0))
                elif q in derived and p != q: copy = True; args.append(('obj', 'p%d' % k, 0))
                elif p.endswith('*') and re.sub(r'( const)?\*$', '', p) in derived: args.append(('param', k)); want_c = ('param', k)
                else: args.append(('param', k)); num = ('param', k)
            for mem, rv in Terms(m).run(f, args):
                gm = mem.get(('obj', 'this', msg), ('unset',)); gc = mem.get(('obj', 'this', cau), ('unset',))
                if copy:
                    okm = gm == ('at', ('obj', 'p0', msg)); okc = gc == ('load', ('obj', 'p0', cau))
                else:
                    okm = gm == want_m if want_m[1] is not None else (mentions(gm, num) if num else empty(m, gm))
                    okc = gc == want_c
                if not okm: c.bad('%s:message' % f.d, '%s does not keep its message: it ends as %s (%s:%d)' % (f.d, show(gm), f.rel, f.line))
                elif not okc: c.bad('%s:cause' % f.d, '%s does not set its cause to %s: it ends as %s (%s:%d)' % (f.d, 'none' if want_c == ('null',) and not copy else 'the one given', show(gc), f.rel, f.line))
                else: c.ok()
    for nm, want in (('getMessage', None), ('getCause', None)):
        fs = m.defined(lambda d: d.startswith('%s::%s(' % (T, nm)))
        if not fs: raise Broken('%s::%s not found' % (T, nm))
        for f in fs:
            sret = f.args[0][2]
            a = ([('obj', 'ret', 0)] if sret else []) + [('obj', 'this', 0)]
            for mem, rv in Terms(m).run(f, a):
                if nm == 'getMessage': ok = mem.get(('obj', 'ret', 0)) == ('at', ('obj', 'this', msg))
                else: ok = rv == ('load', ('obj', 'this', cau))
                if ok: c.ok()
                else: c.bad(f.d, '%s returns something other than the stored %s' % (f.d, nm[3:].lower()))
    # nobody else changes them
    for t in derived:
        nm = t.split('::')[-1]
        for f in m.defined(lambda d: d.startswith(t + '::')):
            g = f.d[len(t) + 2:]
            if g.startswith((nm + '(', '~', 'operator=')): continue
            a0 = 1 if f.args and f.args[0][2] else 0
            if any(root(p) == ('A', a0) for k, p in E.eff[f.n]): c.bad('%s:writes' % f.d, '%s changes the exception it is asked about' % f.d)
            else: c.ok()
    c.assume += ['String copies and conversions are faithful (V08, M02)', 'the compiler-generated copy used by throw copies every member']
    return c.finish()


def empty(m, t):
    if t == ('lit', ''): return True
    return t[0] == 'lit' and ('""' in t[1] or t[1] in ('["z"]', '["s",""]', '["zero"]'))


def show(t): return str(t)[:120]
