"""Which exceptions can leave each library function: thrown types, through handlers, calls and rethrows."""
from ap import *

STD = [  # external functions that throw on bad input: (demangled prefix, type)
    ('std::__throw_out_of_range', 'std::out_of_range'), ('std::__throw_invalid_argument', 'std::invalid_argument'), ('std::__throw_length_error', 'std::length_error'),
    ('std::__throw_logic_error', 'std::logic_error'), ('std::__throw_domain_error', 'std::domain_error'), ('std::__throw_range_error', 'std::range_error'),
    ('std::__throw_overflow_error', 'std::overflow_error'), ('std::__throw_runtime_error', 'std::runtime_error'), ('std::__throw_bad_function_call', 'std::bad_function_call'),
    ('std::__throw_regex_error', 'std::regex_error'), ('std::__throw_bad_cast', 'std::bad_cast'), ('std::__throw_bad_typeid', 'std::bad_typeid'), ('__cxa_bad_cast', 'std::bad_cast'),
    ('std::__throw_system_error', 'std::system_error'), ('std::__throw_bad_alloc', 'std::bad_alloc'), ('std::__throw_bad_array_new_length', 'std::bad_array_new_length'), ('std::__throw_future_error', 'std::future_error'),
]
POS = re.compile(r'basic_string<.*>::(at|substr|erase|replace|insert|compare|append|assign|copy)\(unsigned long')
STDBASE = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
           'std::domain_error': ['std::logic_error', 'std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'], 'std::overflow_error': ['std::runtime_error', 'std::exception'],
           'std::bad_alloc': ['std::exception'], 'std::bad_array_new_length': ['std::bad_alloc', 'std::exception'], 'std::bad_function_call': ['std::exception'], 'std::bad_cast': ['std::exception'],
           'std::system_error': ['std::runtime_error', 'std::exception'], 'std::regex_error': ['std::runtime_error', 'std::exception'], 'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception']}


class Throws:
    def __init__(self, m, pos_ok=None):
        """pos_ok(fn, call) -> True when a position-checked std call provably stays in range."""
        self.m = m; self.pos_ok = pos_ok; self._bases = {}
        self.fns = {f.n: f for f in m.defined(thunks=True)}
        self.out = {n: {} for n in self.fns}          # fn -> {type: (instruction, via)}
        callers = {}
        for f in self.fns.values():
            for i in f.inst.values():
                if i['o'] in ('call', 'invoke'):
                    k = callee(i)
                    if k in self.fns: callers.setdefault(k, set()).add(f.n)
        work = list(self.fns); inq = set(work); self._local = {}
        while work:
            n = work.pop(0); inq.discard(n)
            r = self.one(self.fns[n])
            if set(r) - set(self.out[n]):
                for k, v in r.items(): self.out[n].setdefault(k, v)
                for q in callers.get(n, ()):
                    if q not in inq: inq.add(q); work.append(q)

    def tname(self, ti):
        """type name of a typeinfo symbol."""
        d = self.m.dem.get(ti)
        if ti.startswith('_ZTI'):
            g = self.m.globals.get(ti)
            if g and g.get('d'): return g['d'].replace('typeinfo for ', '')
        return re.sub('^typeinfo for ', '', d or ti)

    def bases(self, t):
        if t not in self._bases:
            out = set(STDBASE.get(t, []))
            if t in self.m.types:
                for b in self.m.types[t]['bases']: out |= {b['n']} | self.bases(b['n'])
            self._bases[t] = out
        return self._bases[t]

    def raised(self, f, i):
        """{type: via} this instruction can raise (before handlers)."""
        n = callee(i)
        if n is None: return {}
        if n == '__cxa_throw':
            a = i['a'][1]
            return {self.tname(a[1]) if isinstance(a, list) and a[0] == 'g' else '?': None}
        if n in self.out: return {t: n for t in self.out[n]}
        d = self.m.dem.get(n, n) or n
        for p, t in STD:
            if d.startswith(p): return {t: n}
        if POS.search(d) and not (self.pos_ok and self.pos_ok(f, i)): return {'std::out_of_range': n}
        return {}

    def handlers(self, f, i):
        """landing pad instruction an invoke unwinds to."""
        for j in f.bbs[i['u']]:
            if j['o'] == 'landingpad': return j
        return None

    def one(self, f):
        out = {}
        caught_at = {}          # landingpad block -> types entering a handler there
        lp_in = {}              # landingpad id -> {type: (inst, via)}
        for b in f.bbs:
            for i in b:
                if i['o'] not in ('call', 'invoke'): continue
                for t, via in self.raised(f, i).items():
                    if i['o'] == 'call': out.setdefault(t, (i, via)); continue
                    lp = self.handlers(f, i)
                    if lp is None: out.setdefault(t, (i, via)); continue
                    st = self.caught(lp, t)
                    if st: lp_in.setdefault(lp['i'], {}).setdefault(t, (i, via))
                    if st != 'yes': out.setdefault(t, (i, via))
        # rethrow: everything that any handler reaching it may hold
        for b in f.bbs:
            for i in b:
                if i['o'] in ('call', 'invoke') and callee(i) == '__cxa_rethrow':
                    for lp, ts in lp_in.items():
                        if self.reach(f, f.blk[lp], f.blk[i['i']]):
                            for t, v in ts.items():
                                if i['o'] == 'call': out.setdefault(t, v)
                                else:
                                    l2 = self.handlers(f, i)
                                    if l2 is None or self.caught(l2, t) != 'yes': out.setdefault(t, v)
        return out

    def caught(self, lp, t):
        maybe = None
        for kind, c in lp['cl']:
            if kind == 'filter': return 'yes'
            if c == ['n'] or c[0] == 'n': return 'yes'
            ct = self.tname(c[1]) if c[0] == 'g' else '?'
            ct = ct.rstrip('*& ')
            if ct == t or ct in self.bases(t): return 'yes'
        return maybe

    def reach(self, f, a, b):
        seen = {a}; st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            for s in f.succ[x]:
                if s not in seen: seen.add(s); st.append(s)
        return False

    def site(self, n, t, depth=0):
        """readable chain to where type t is raised."""
        f = self.fns[n]; i, via = self.out[n][t]
        s = f.where(i)
        if via in self.fns and depth < 6 and t in self.out[via]: return s + ' -> ' + self.site(via, t, depth + 1)
        return s
