"""Bottom-up write effects: which memory each library function may write, as access paths over its arguments and globals.

An effect is (kind, path): kind 'w' a store at that address, 'o' an operation that may change the object at that address and what it
owns. Paths through more than MAXD loads are cut to ('?', prefix)."""
from ap import *
from lockutil import params

MAXD = 3
NOWRITE = set('''strlen strcmp strncmp strcasecmp memcmp bcmp strchr strrchr strstr strdup atoi atol atof isdigit printf fprintf puts getenv
open stat access towupper_l towlower_l newlocale mktime_ difftime fclose fflush rewind flock ftruncate fdopen write isatty umask regexec_ strftime_
__cxa_allocate_exception __cxa_throw __cxa_rethrow __cxa_begin_catch __cxa_end_catch __cxa_free_exception __cxa_guard_acquire __cxa_guard_release
__cxa_guard_abort __cxa_atexit __clang_call_terminate __dynamic_cast _Znwm _Znam malloc calloc __ctype_b_loc __errno_location exit abort getpid
pthread_self tolower toupper isalnum time_null __isoc23_strtoul_ localtime gmtime'''.split())
CWRITE = {'sprintf': [0], 'snprintf': [0], 'vsnprintf': [0], 'asprintf': [0], 'strftime': [0], 'gettimeofday': [0, 1], 'time': [0], 'localtime_r': [1],
          'gmtime_r': [1], 'mktime': [0], 'regcomp': [0], 'regexec': [3], 'regfree': [0], 'read': [1], 'frexp': [1], 'frexpf': [1], 'modf': [1],
          '__isoc23_strtoul': [1], '__isoc23_strtol': [1], '__isoc23_strtoll': [1], 'strtod': [1], 'strtof': [1], 'putenv': [0], 'fcntl': [],
          '__isoc23_sscanf': 'rest2', '__isoc23_fscanf': 'rest2', 'sscanf': 'rest2', 'localtime': [], 'gmtime': [], 'ioctl': 'rest2', 'strtok': [0], '__cxa_demangle': [1, 2, 3]}


# hands out a reference to an element; what is written through it is seen where it is written
ACCESS = re.compile(r'std::(__cxx11::)?(basic_string|vector|deque|list|array|__cxx11::list)<.*>::(operator\[\]|at|begin|end|rbegin|rend|front|back|data)\([^()]*\)$')


def depth(p):
    n = 0
    while p[0] in ('+', '?', '*'):
        if p[0] == '*': n += 1
        p = p[1]
    return n


def cut(p):
    if depth(p) <= MAXD: return p
    # drop the innermost-last loads: keep the first MAXD
    q = p
    while depth(q) > MAXD: q = q[1]
    return anyoff(q)


def subst(p, k, q):
    """path p (rooted at argument k) with the argument replaced by path q."""
    t = p[0]
    if t == 'A': return q if p[1] == k else p
    if t == '+': return add(subst(p[1], k, q), p[2])
    if t == '?': return anyoff(subst(p[1], k, q))
    if t == '*':
        s = subst(p[1], k, q)
        return ('*', s)
    return p


class Effects:
    def __init__(self, m):
        self.m = m; self.eff = {}; self.ret = {}; self.paths = {}; self.unres = 0
        self.cls_vt = {}
        fns = {f.n: f for f in m.defined(thunks=True)}
        self.fns = fns
        callers = {}
        for f in fns.values():
            for i in f.inst.values():
                if i['o'] in ('call', 'invoke'):
                    c = callee(i)
                    if c in fns: callers.setdefault(c, set()).add(f.n)
            self.eff[f.n] = frozenset(); self.ret[f.n] = frozenset()
        work = list(fns); inq = set(work); rounds = {}
        while work:
            n = work.pop(0); inq.discard(n)
            rounds[n] = rounds.get(n, 0) + 1
            if rounds[n] > 40: continue
            e, r = self.one(fns[n])
            if e != self.eff[n] or r != self.ret[n]:
                self.eff[n] = self.eff[n] | e; self.ret[n] = self.ret[n] | r
                for c in callers.get(n, ()):
                    if c not in inq: inq.add(c); work.append(c)

    def P(self, f):
        if f.n not in self.paths or True:
            self.paths[f.n] = EPaths(self, f)
        return self.paths[f.n]

    def one(self, f):
        P = self.P(f); out = set(); ret = set()
        for b in f.bbs:
            for i in b:
                for k, p, _ in self.inst(f, P, i): out.add((k, cut(p)))
                if i['o'] == 'ret' and i.get('a') and f.ret == 'ptr':
                    ret |= set(cut(p) for p in P.of(i['a'][0]) if root(p)[0] in ('A', 'G'))
        keep = frozenset((k, p) for k, p in out if root(p)[0] in ('A', 'G') and not (root(p)[0] == 'A' and p[0] == 'A' and False))
        if len(keep) > 60:
            keep = frozenset((k, anyoff(p) if root(p)[0] == 'A' and depth(p) == 0 else p) for k, p in keep)
        return keep, frozenset(ret)

    def inst(self, f, P, i):
        """(kind, path, via) written by one instruction, in f's own terms (any root)."""
        o = i['o']
        if o == 'store' or o in ('atomicrmw', 'cmpxchg'):
            if o == 'store' and i.get('at'): kind = 'a'
            else: kind = 'w' if o == 'store' else 'a'
            for p in P.of(i['p']): yield kind, p, None
            return
        if o not in ('call', 'invoke'): return
        n = callee(i)
        if n is None:
            t = self.virtual(f, P, i)
            if t is None:
                self.unres += 1
                return
            n = t
        if n in self.eff:
            for k, p in self.eff[n]:
                r = root(p)
                if r[0] == 'G': yield k, p, n; continue
                if r[1] >= len(i['a']): continue
                for q in P.of(i['a'][r[1]]):
                    if q[0] in ('K', 'N', 'U'): continue
                    yield k, subst(p, r[1], q), n
            return
        for k, kind in ext_writes(n, self.m.dem.get(n, n), i):
            for q in P.of(i['a'][k]):
                if q[0] in ('K', 'N', 'U'): continue
                yield kind, q, n

    def vt_of(self, f):
        """vtable slots of the class whose method f is."""
        r = re.match(r'_ZNK?((?:\d+\w+?)+)', f.n)
        c = cls_prefix(f.n)
        if c is None:
            from own import classof
            return self.vt_class(classof(f.d)[0])
        if c not in self.cls_vt: self.cls_vt[c] = self.m.vtable(c)
        return self.cls_vt[c]

    def vt_class(self, c):
        """vtable slots of a class given by its source name (template instances included)."""
        if not hasattr(self, '_vtn'):
            self._vtn = {g['d'][len('vtable for '):]: n for n, g in self.m.globals.items() if n.startswith('_ZTV') and g['d'].startswith('vtable for ')}
        g = self._vtn.get(c)
        return self.m.vtable(g[4:]) if g else []

    def virtual(self, f, P, i):
        v = i.get('f')
        if not isinstance(v, int): return None
        d = f.inst.get(v)
        if not d or d['o'] != 'load': return None
        a0 = 1 if f.args and f.args[0][2] else 0
        ps = P.of(d['p'])
        if len(ps) != 1: return None
        b, off = base_off(next(iter(ps)))
        if b[0] != '*' or b[1][0] != 'A' or off is None: return None
        if b[1][1] == a0: vt = self.vt_of(f)
        else:           # an argument: the override of its declared class
            pl = [p for p in params(f.d) if p != 'void']; j = b[1][1] - (len(f.args) - len(pl))
            c = re.sub(r'( const)?\s*[&*]+$', '', pl[j]) if 0 <= j < len(pl) else ''
            vt = self.vt_class(c)
        ti = [x for x, n in enumerate(vt) if n and n.startswith('_ZTI')]
        k = (ti[0] + 1 if ti else 2) + off // 8
        t = vt[k] if 0 <= k < len(vt) else None
        return None if t == '__cxa_pure_virtual' else self.m.alias.get(t, t)


def cls_prefix(n):
    """mangled nested class name of a member function: 'N4Java4Lang6StringE' for _ZNK4Java4Lang6String6lengthEv."""
    r = re.match(r'_ZNK?(.*)$', n)
    if not r: return None
    s = r.group(1); parts = []; k = 0
    while k < len(s) and s[k].isdigit():
        q = re.match(r'\d+', s[k:]).group(0); L = int(q); k += len(q)
        parts.append(q + s[k:k + L]); k += L
        if k < len(s) and s[k] == 'I': return None
    if k < len(s) and s[k] in 'CD': return 'N' + ''.join(parts) + 'E'
    if len(parts) < 2: return None
    return 'N' + ''.join(parts[:-1]) + 'E'


def ext_writes(n, d, i):
    """(argument index, kind) an external function may write."""
    if n.startswith('llvm.'):
        e = EXT.get(ext_name(n))
        return [(k, 'w') for k in e[1]] if e else []
    if n in EXT: return [(k, 'o' if n in ('free', 'realloc') or n.startswith('_Zd') else 'w') for k in EXT[n][1] if k < len(i['a'])]
    if n in CWRITE:
        w = CWRITE[n]
        if w == 'rest2': w = range(2, len(i['a']))
        return [(k, 'w') for k in w if k < len(i['a']) and i['pt'][k] == 'ptr']
    if n in NOWRITE or ACCESS.match(d): return []
    if not n.startswith('_Z'):
        return [(k, 'w') for k, t in enumerate(i['pt']) if t == 'ptr']
    ps = params(d); na = len(i['a']); out = []
    if ps == ['void']: ps = []
    if ps and ps[-1] == '...':
        ps = ps[:-1]; na = min(na, len(ps) + (1 if n.startswith('_ZN') and not n.startswith('_ZNSt') else 0))
        if n.startswith('_ZSt'): na = len(ps)
    extra = na - len(ps)
    const = n.startswith('_ZNK') or re.search(r'\) const( \[.*)?$', d)
    for k in range(na):
        if i['pt'][k] != 'ptr': continue
        j = k - extra
        if j < 0:
            if extra - 1 == k:            # this (or sret of a free function)
                if not const: out.append((k, 'o'))
            else: out.append((k, 'o'))    # sret
            continue
        t = ps[j]
        if re.search(r'const[&*]$', t) or t.endswith('const&&') or '(*)' in t: continue
        out.append((k, 'o'))
    return out


class EPaths(Paths):
    """Paths that also see through calls returning a pointer derived from an argument."""

    def __init__(self, E, fn):
        super().__init__(fn); self.E = E

    def _of(self, v, i):
        if i['o'] in ('call', 'invoke') and i['t'] == 'ptr':
            n = callee(i)
            if n is None: n = self.E.virtual(self.fn, self, i)
            if n in self.E.ret:
                out = set()
                for p in self.E.ret[n]:
                    r = root(p)
                    if r[0] == 'G': out.add(p); continue
                    if r[1] < len(i['a']):
                        for q in self.of(i['a'][r[1]]): out.add(cut(subst(p, r[1], q)))
                return frozenset(out) or frozenset([('V', v)])
            if n and n.startswith('_ZN') and 'ptr' in i['pt'][:1] and not n.startswith(('_ZNKSt', '_ZNSolsE')):
                # reference / pointer into the object the external method was called on
                return frozenset(anyoff(('*', q)) for q in self.of(i['a'][0]))
            if n in ('realloc', 'strchr', 'strrchr', 'strstr', '__dynamic_cast'):
                return frozenset(anyoff(q) for q in self.of(i['a'][0]))
        return super()._of(v, i)
