"""C01: every StringBuffer operation is one critical section on the lock of each buffer it touches."""
from locks import *

from lockutil import *
TITLE = 'StringBuffer operations are atomic'
RULE = ('typestate/lockset analysis on fully inlined SSA of every StringBuffer member: each load, store, or call argument that reaches the '
        'length, capacity, text pointer or text of a StringBuffer parameter must happen in a state where that buffer\'s mutex is held, '
        'all of them inside one acquisition; StringBuffer must hide every inherited unlocked operation')
SB = 'Java::Lang::StringBuffer'
US = 'Java::Lang::StringBufferUnSafe'


def contains(p, q):
    while True:
        if p == q: return True
        if p[0] in ('+', '?', '*'): p = p[1]
        else: return False


def run():
    c = Check('C01', TITLE, RULE)
    m = module(inline=True, keep=KEEP_LOCKS + r'|^(.*Java::Lang::String::|.*Java::Lang::operator)',
               post='function(sroa,early-cse<memssa>,simplifycfg,instcombine)', roots=r'Java::Lang::StringBuffer::')
    us = m.type(US); sb = m.type(SB)
    fields = [(o, s, n) for o, s, n, t, own in m.fields(SB) if own == US]
    mutexes = [o for o, s, n, t, own in m.fields(SB) if 'mutex' in t]
    c.require(fields, 'fields of ' + US); c.require(len(mutexes) == 1, 'one mutex member in ' + SB)
    moff = mutexes[0]
    ptrs = [o for o, s, n, t, own in m.fields(SB) if own == US and t.endswith('*')]
    c.stats['protected_fields'] = len(fields)
    # 1. no unlocked inherited operation is reachable through a StringBuffer
    own = set(x['n'] for x in sb['methods'])
    for x in us['methods']:
        if x['n'].startswith('~') or x['n'] == 'StringBufferUnSafe' or x['acc'] != 'public': continue
        if x['n'] in own or x['n'].startswith('_vptr'): c.ok()
        else: c.bad('inherited:' + x['n'], 'StringBuffer inherits %s() (%s:%d) without redeclaring it: callable without the buffer\'s lock' % (x['n'], us['file'], x['line']))
    vt = m.vtable('N4Java4Lang12StringBufferE')
    nops = nacc = 0
    sigs = set(); pub = public_names(m, SB)
    for f in m.defined(lambda d: d.startswith(SB + '::')):
        name = f.d[len(SB) + 2:]
        if name.startswith('~') or mname(f.d, SB) not in pub: continue
        ctor = name.startswith('StringBuffer(')
        key = f.d.replace(SB + '::', '')
        if key in sigs: continue          # complete/base object constructor twins
        a0 = 1 if f.args and f.args[0][2] else 0
        objs = {} if ctor else {a0: 'this'}
        for k, t in enumerate(params(f.d)):
            if re.match(r'^(Java::Lang::)?StringBuffer(UnSafe)?( const)?[&*]+$', t): objs[a0 + 1 + k] = t
        if ctor and len(f.args) > 1 + len(params(f.d)):   # base-object variant carries a VTT argument
            continue
        if not objs: continue
        sigs.add(key); nops += 1
        P = Paths(f); L = Locks(m, f, P)
        acc = {k: [] for k in objs}       # object -> [(inst, acquisition ids)]
        bad = []

        def visit(i, st, f=f, P=P, acc=acc, bad=bad, L=L, objs=objs):
            nonlocal nacc
            if i['i'] in L.events: return
            for _, kind, p in inst_accesses(i, P):
                for k in objs:
                    A = ('A', k)
                    if not contains(p, A): continue
                    b, off = base_off(p)
                    if b == ('*', A): continue        # vtable contents
                    mine = [h for h in st[0] if h[0] == add(A, moff)]
                    if b == A and off is not None and off == 0 and kind != 'x':
                        continue                      # vtable pointer
                    if b == A and off is not None and off >= moff and kind != 'x': continue
                    if b == A and off == 0 and kind == 'x':
                        # the whole object goes to a call
                        n = callee(i)
                        tgt = n
                        if n is None: tgt = slot_target(f, P, i, A, vt)
                        d = m.dem.get(tgt or '', tgt or '')
                        if d.startswith(SB + '::') and tgt:
                            lk = takes_lock(m, tgt)
                            if not lk and not mine: bad.append((i, 'calls %s, which takes no lock, without holding the buffer\'s lock' % d.split('::')[-1]))
                            elif not lk: acc[k].append((i, mine[0][1]))
                            elif mine: bad.append((i, 'calls %s, which locks the buffer, while already holding its lock (self-deadlock)' % d.split('::')[-1]))
                            else: acc[k].append((i, ('call', i['i'])))
                            continue
                        if tgt and not d.startswith(US + '::') and 'StringBuffer' not in d: continue
                        if not mine: bad.append((i, 'hands %s to %s without holding its lock' % (objs[k], d or 'an unresolved virtual call')))
                        else: acc[k].append((i, mine[0][1]))
                        continue
                    nacc += 1
                    if not mine: bad.append((i, '%s of %s (%s) without holding its lock' % ({'r': 'read', 'w': 'write', 'x': 'use'}[kind], objs[k], fieldname(fields, A, p))))
                    else: acc[k].append((i, mine[0][1]))
        L.run(visit)
        for i, what in bad:
            c.bad('%s:%s' % (key, re.sub(r'\(.*', '', what)), '%s: %s at %s' % (f.d, what, f.where(i)))
        # one critical section: no access under a second acquisition can follow an access under a first one
        reach = None
        for k, l in acc.items():
            ids = set(a for _, a in l)
            if len(ids) < 2: continue
            if reach is None: reach = reachability(f)
            done = False
            for i, a in l:
                for j, b in l:
                    if a != b and follows(f, reach, i, j) and not done:
                        done = True
                        c.bad('%s:split' % key, '%s: %s is accessed in two separate critical sections (%s, then %s): another thread can change it in between'
                              % (f.d, objs[k], f.where(i), f.where(j)))
        if not bad: c.ok()
        c.samples.append(key)
    c.stats['operations'] = nops; c.stats['accesses'] = nacc; c.stats['units'] = len(m.units)
    c.require(nops >= 45, 'expected at least 45 StringBuffer operations, found %d' % nops)
    c.assume += ['a StringBuffer still under construction is not shared', 'String values passed in are not concurrently modified']
    return c.finish()


def fieldname(fields, A, p):
    b, off = base_off(p)
    if b == A:
        for o, s, n in fields:
            if off is not None and o <= off < o + s: return n
        return 'offset %s' % off
    return 'text'


def reachability(f):
    n = len(f.bbs); r = [set() for _ in range(n)]
    for b in range(n):
        st = list(f.succ[b]); 
        while st:
            x = st.pop()
            if x in r[b]: continue
            r[b].add(x); st += f.succ[x]
    return r


def follows(f, reach, i, j):
    bi, bj = f.blk[i['i']], f.blk[j['i']]
    if bi == bj and f.pos[i['i']] < f.pos[j['i']]: return True
    return bj in reach[bi]
