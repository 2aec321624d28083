"""Helpers shared by the lock checks."""
from locks import *


def params(d):
    """parameter type list of a demangled member function."""
    k = d.rfind('(', 0, d.rfind(')'))
    depth = 0
    # find the '(' that opens the parameter list
    end = d.rfind(')'); k = end; depth = 0
    while k >= 0:
        if d[k] == ')': depth += 1
        elif d[k] == '(':
            depth -= 1
            if depth == 0: break
        k -= 1
    s = d[k + 1:end]; out = []; cur = ''; dep = 0
    for ch in s:
        if ch in '<([': dep += 1
        if ch in '>)]': dep -= 1
        if ch == ',' and dep == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out



def slot_target(f, P, i, A, vt):
    """Target of a virtual call on *A, using StringBuffer's own vtable."""
    v = i.get('f')
    if not isinstance(v, int): return None
    d = f.inst.get(v)
    if not d or d['o'] != 'load': return None
    for p in P.of(d['p']):
        b, off = base_off(p)
        if b == ('*', A) and off is not None:
            ti = [x for x, n in enumerate(vt) if n and n.startswith('_ZTI')]
            k = (ti[0] + 1 if ti else 2) + off // 8
            return vt[k] if k < len(vt) else None
    return None



def takes_lock(m, n, memo={}):
    """the (fully inlined) function contains a lock acquisition."""
    k = (id(m), n)
    if k not in memo:
        f = m.fn(n)
        memo[k] = bool(f and f.has and any(e.kind in ('acq', 'try', 'acqall', 'gacq', 'gtry', 'glock') for e in Locks(m, f, Paths(f)).events.values()))
    return memo[k]



def harmless(f, P, i, a0):
    """a virtual call on a String (its methods take no lock) or on an object local to this call."""
    d = f.inst.get(i.get('f')) if isinstance(i.get('f'), int) else None
    if not d or d['o'] != 'load': return False
    ps = params(f.d); ok = []
    for p in P.of(d['p']):
        b, off = base_off(p)
        if b[0] != '*': return False
        o = b[1]; b2, off2 = base_off(o)
        if root(o)[0] == 'L': ok.append(o); continue
        if o[0] == 'A' and o[1] > a0 and o[1] - a0 - 1 < len(ps) and re.match(r'^(Java::Lang::)?(String|Array<.*>)( const)?[&*]*$', ps[o[1] - a0 - 1]): ok.append(o); continue
        return False
    return bool(ok)


def public_names(m, cls):
    """names of the methods of a class callable from outside; helpers are analysed where they are inlined."""
    return set(x['n'] for x in m.type(cls)['methods'] if x['acc'] == 'public')


def mname(d, cls):
    r = re.match(r'(operator.*?|~?\w+)\(', d[len(cls) + 2:])
    return r.group(1) if r else d[len(cls) + 2:]
