"""M01: heap memory is released exactly once and never used afterwards."""
from own import *
from throws import *

TITLE = 'Heap memory is freed exactly once and not used afterwards'
RULE = ('ownership typestate over every path of every library function, copy operations written by the compiler included: no double free, no use after '
        'free, no free of foreign memory, no block lost; and for every field a destructor frees: each constructor sets it to memory of its own or null, '
        'no member leaves it dangling, sharing or lost, including when an object is passed to its own operation')
NOMEM = {'std::bad_alloc', 'std::length_error', 'std::bad_array_new_length'}


def skip(f):
    return not f.src.startswith(LIB) and not f.src.startswith(VERIF) or 'Test.hpp' in f.src or 'cuckoo' in f.d or 'moodycamel' in f.d or 'concurrentqueue' in f.src


def smart(i):
    """code of a smart pointer, inlined."""
    return any(re.search(r'unique_ptr|default_delete|shared_ptr|_Sp_counted', m[0]) for m in i.get('st') or [])


def ownthrow(O, f, i):
    """the exit is a throw of the function's own (what its callees may refuse is theirs to judge)."""
    if i['o'] in ('call', 'invoke'): return callee(i) == '__cxa_throw'
    seen = {f.blk[i['i']]}; w = list(seen)
    pads = set()
    while w:
        b = w.pop()
        if any(j['o'] == 'landingpad' for j in f.bbs[b]): pads.add(b); continue
        for p in f.pred[b]:
            if p not in seen: seen.add(p); w.append(p)
    inv = [j for j in f.inst.values() if j['o'] == 'invoke' and j['u'] in pads and O.mayraise(f, j)]
    # index checks inside what it calls are that code's own business; what its callees refuse for good is not
    return bool(inv) and all(callee(j) == '__cxa_throw' or any(t.startswith('Java') and 'IndexOutOf' not in t for t in O.raised(f, j)) for j in inv)


def linked(c, m, fns, O):
    """lists of node pointers: a node is deleted exactly when it is unlinked."""
    def deletes(n, depth=0):
        """library code that deletes something: itself, through a callee or a closure it makes."""
        n = m.alias.get(n, n)
        if n in FREE: return True
        if n in deletes_memo: return deletes_memo[n]
        g = O.fns.get(n); deletes_memo[n] = False
        if not g or depth > 6: return False
        r = False; nrm = {0}; w = [0]           # the blocks reached without an exception: what `new` gives back on one does not count
        while w:
            b = w.pop(); t = g.bbs[b][-1]
            for x in [t['n']] if t['o'] == 'invoke' else g.succ[b]:
                if x not in nrm: nrm.add(x); w.append(x)
        for i in g.inst.values():
            if g.blk[i['i']] not in nrm: continue
            if i['o'] in ('call', 'invoke'):
                k = callee(i)
                if k in FREE: r = r or inlib(i) or smart(i)
                elif k: r = r or deletes(k, depth + 1)
            if r: break
        r = r or any(k.d.startswith(g.d + '::') and deletes(k.n, depth + 1) for k in fns)      # closures it makes
        deletes_memo[n] = r
        return r
    def every(n, depth=0):
        """it deletes in a loop, or in a closure that is called for each node."""
        n = m.alias.get(n, n); g = O.fns.get(n)
        if not g or depth > 6: return False
        if any(k.d.startswith(g.d + '::') and deletes(k.n) for k in fns): return True
        for i in g.inst.values():
            if i['o'] not in ('call', 'invoke') or not callee(i): continue
            k = callee(i)
            if every(k, depth + 1): return True
            if (k in FREE and (inlib(i) or smart(i)) or k not in FREE and deletes(k)) and cyclic(g, g.blk[i['i']]): return True
        return False

    def cyclic(g, b):
        seen = set(); w = list(g.succ[b])
        while w:
            x = w.pop()
            if x == b: return True
            if x not in seen: seen.add(x); w += g.succ[x]
        return False
    deletes_memo = {}
    for f in fns:
        cls, nm = classof(f.d)
        if not any(re.search(r'list<.*Node<.*\*', t) for o, s, n, t, own in (m.fields(cls) if cls in m.types else [])): continue
        if any('clear' in x[0] and 'list' in x[0] for i in f.inst.values() for x in (i.get('st') or [])) or any(re.search(r'_List_base.*8_M_clear|list.*5clearEv', callee(i) or '') for i in f.inst.values() if i['o'] in ('call', 'invoke')):
            if not every(f.n): c.bad('%s:cleared' % f.d, '%s empties the list without deleting its nodes' % f.d)
            else: c.ok()
        calls = [i for i in f.inst.values() if i['o'] in ('call', 'invoke')]; P = Paths(f)
        own = lambda i: any(root(p)[0] == 'A' for p in P.of(i['a'][1 if '_M_hook' in (callee(i) or '') else 0]))
        if any((re.search(r'_List_node_base7_M_hook', callee(i) or '') or re.search(r'std::(__cxx11::)?list<.*Node<.*\*.*>::(list|operator=|assign|_M_assign_dispatch|_M_initialize_dispatch|push_back|push_front|insert|_M_insert)\b.*\(', m.dem.get(callee(i), ''))) and i['a'] and own(i) for i in calls):
            # nodes put into the list are new ones, made here or handed in
            fresh = any(callee(i) == '_Znwm' and inlib(i) for i in calls) or any('Node<' in p for p in params(f.d)) or any(
                callee(i) in O.fns and O.relevant(callee(i)) and any(x[0] == 'own' for x in O.summary(callee(i)).outs) for i in calls) or any(callee(i) is None for i in calls)
            if fresh: c.ok()
            else: c.bad('%s:linked' % f.d, '%s puts nodes into the list that it has not made: two lists then delete them' % f.d)
        un = {i['i'] for i in f.inst.values() if i['o'] in ('call', 'invoke') and '_List_node_base9_M_unhook' in (callee(i) or '')}
        de = {i['i'] for i in f.inst.values() if i['o'] in ('call', 'invoke') and callee(i) in FREE and (inlib(i) or smart(i))}
        unsure = False
        if not un: continue
        for i in f.inst.values():           # a callee that deletes a node it is given
            n = m.alias.get(callee(i), callee(i)) if i['o'] in ('call', 'invoke') else None
            g = O.fns.get(n)
            if not g or not skip(g) and not O.relevant(n): continue
            r = O.summary(n)
            k = {len(x[3]) for x in r.outs}
            if not r.known or len(k) > 1: unsure = unsure or any(a == 'ptr' for a in i['pt'])
            elif k == {1}: de.add(i['i'])
        if unsure: c.samples.append('%s: undecided (a callee may delete a node)' % f.d); continue
        for d in list(de):                  # `delete p` tests p for null first: the test stands for the deletion
            if callee(f.inst[d]) not in FREE: continue
            v = f.inst[d]['a'][0]; b = f.blk[d]; dom = f.idom()
            while b in dom and b != 0:
                b = dom[b]; t = f.bbs[b][-1]
                q = f.inst.get(t.get('cond')) if isinstance(t.get('cond'), int) else None
                if q and q['o'] == 'icmp' and q['a'][0] == v and q['a'][1] == ['n']: de.discard(d); de.add(t['i']); break
        c.stats['unlinking_members'] = c.stats.get('unlinking_members', 0) + 1
        hit = []

        def step(i, st, env, ce):
            u, d = st
            if i['i'] in un: u = min(u + 1, 3)
            if i['i'] in de: d = min(d + 1, 3)
            if i['o'] == 'ret' and u != d: hit.append(i)
            if i['o'] == 'invoke': return [(u, d)], []
            return [(u, d)]
        explore(f, (0, 0), step)
        if hit: c.bad('%s:unlinked' % f.d, '%s can return at %s having unlinked and deleted different numbers of nodes' % (f.d, f.where(hit[0])))
        else: c.ok()


def run():
    c = Check('M01', TITLE, RULE)
    m = module(harness=['instances.cpp', 'copies.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    O = Own(m, None); T = Throws(m)
    O.raised = T.raised
    O.mayraise = lambda f, i: callee(i) is None or any(t not in NOMEM for t in T.raised(f, i))
    fns = [f for f in m.defined() if not skip(f)]
    owner = {}          # (class, off) -> (owner class, field name)
    fields = O.flds
    def fieldat(cls, off):
        for o, s, n, t, own in fields(cls):
            if o == off and t.rstrip().endswith('*'): return (own, n)
        return None
    viol = []

    def judge(kind, f, i, text, tok):
        viol.append((kind, f, i, text, tok))
    # fields that hold owned memory: freed by a destructor, or given a fresh block by some member
    info = {}
    for f in fns:
        if not O.relevant(f.n): continue
        ps = [p for p in params(f.d) if p != 'void']; off = len(f.args) - len(ps); a0 = 1 if f.args and f.args[0][2] else 0
        cls, nm = classof(f.d)
        info[f.n] = (cls, nm, ps, off, a0)
        s = O.summary(f.n)
        if not s.known:
            continue
        for ret, cc, freed, argf, nulls in s.outs:
            for p in freed:
                b, o = base_off(p)
                if b == ('A', a0) and off - a0 >= 1 and nm.startswith('~'):
                    x = fieldat(cls, o)
                    if x: owner[x] = 'freed by ' + f.d
            for p, x in cc:
                b, o = base_off(p)
                if x == 'own' and b == ('A', a0) and off - a0 >= 1:
                    y = fieldat(cls, o)
                    if y: owner.setdefault(y, 'allocated in ' + f.d)
    c.stats['functions'] = 0; c.stats['owning_fields'] = len(owner); c.stats['alias_runs'] = 0
    c.samples += ['%s::%s: %s' % (k[0], k[1], v) for k, v in sorted(owner.items())]
    c.require(len(owner) >= 8, 'owning fields')
    freedby = {k for k, v in owner.items() if v.startswith('freed')}
    for k in sorted(set(owner) - freedby):
        # shared with a destructor that is not in the IR, or never freed at all
        c.bad('%s::%s:never' % k, 'no destructor frees %s::%s although it is %s' % (k[0], k[1], owner[k]))
    for f in sorted(fns, key=lambda x: x.d):
        if f.n not in info: continue
        cls, nm, ps, off, a0 = info[f.n]
        c.stats['functions'] += 1
        variants = [{}]
        if off - a0 >= 1:
            for k, p in enumerate(ps):
                if re.sub(r'( const)?&$', '', p) == cls and p.endswith('&'): variants.append({off + k: a0})
        if cls and nm == simple(cls): variants = variants[:1]       # nothing is constructed from itself
        for al in variants:
            if al: c.stats['alias_runs'] += 1
            viol.clear()
            r = Run(O, f, alias=al, judge=judge)
            try: r.go()
            except Broken:
                c.stats['undecided'] = c.stats.get('undecided', 0) + 1; continue
            sfx = ' when given its own object' if al else ''
            hit = False
            for kind, g, i, text, tok in viol:
                hit = True
                c.bad('%s:%s' % (f.d, kind), '%s at %s %s%s' % (f.d, f.where(i), text, sfx))
            objs = []
            if off - a0 >= 1 and cls: objs.append((a0, cls, 'its object'))
            if a0 == 1 and f.args[0][2]:
                rc = f.args[0][1]
            for k, p in enumerate(ps):
                t = re.sub(r'( const)?[&*]+$', '', p)
                if p.endswith(('&', '*')) and t in m.types and off + k < len(f.args): objs.append((al.get(off + k, off + k), t, 'its argument'))
            ctor = off - a0 >= 1 and cls and nm == simple(cls)
            dtor = nm.startswith('~')
            for i, cells, status in r.exits:
                thrown = i['o'] != 'ret'
                for k, t, what in dict.fromkeys(objs):
                    for o, sz, n, ty, own in fields(t):
                        if (own, n) not in freedby: continue
                        p = add(('A', k), o)
                        x = cells.get(p, ('f', p)); bt = r.base(x)
                        st = status.get(bt)
                        me = k == a0 and what == 'its object'
                        if me and dtor:
                            if st not in ('freed', 'null') and bt != ('0',) and not thrown:
                                hit = True; c.bad('%s:%s:kept' % (f.d, n), '%s can return without freeing %s at %s' % (f.d, n, f.where(i)))
                            continue
                        if me and ctor and thrown:                     # the destructor never runs
                            if bt and bt[0] in 'nrc' and str(st).startswith('live') and ownthrow(O, f, i):
                                hit = True; c.bad('%s:%s:thrown' % (f.d, n), '%s can throw at %s with %s already allocated: no destructor will free it' % (f.d, f.where(i), n))
                            continue
                        if me and ctor and x == ('f', p):
                            hit = True; c.bad('%s:%s:unset' % (f.d, n), '%s leaves %s, which the destructor frees, uninitialised' % (f.d, n)); continue
                        if st == 'freed':
                            hit = True; c.bad('%s:%s:dangling' % (f.d, n), '%s can leave %s of %s pointing to memory it has freed at %s%s' % (f.d, n, what, f.where(i), sfx)); continue
                        if bt[0] == 's':
                            hit = True; c.bad('%s:%s:literal' % (f.d, n), '%s leaves %s of %s pointing to constant memory, which the destructor frees' % (f.d, n, what)); continue
                        if bt[0] == 'f' and bt[1] != p and root(bt[1])[0] == 'A':
                            y = cells.get(bt[1], ('f', bt[1]))
                            if r.base(y) == bt:
                                hit = True; c.bad('%s:%s:shared' % (f.d, n), '%s makes %s of %s share the memory of another object, so that both free it' % (f.d, n, what)); continue
                        if x[0] == 'i':
                            hit = True; c.bad('%s:%s:interior' % (f.d, n), '%s leaves %s of %s pointing into the middle of a block' % (f.d, n, what)); continue
                        # the block it held on entry must not get lost
                        if x != ('f', p) and not (me and ctor) and not thrown:
                            e = ('f', p)
                            if status.get(e) not in ('freed', 'null', 'esc', 'gone') and not any(r.base(v) == e for v in cells.values()):
                                hit = True; c.bad('%s:%s:lost' % (f.d, n), '%s replaces %s of %s without freeing the memory it held%s' % (f.d, n, what, sfx))
            if not hit: c.ok()
    linked(c, m, fns, O)
    for k, v in O.stats.items():
        if v: c.stats[k] = v
    c.require(c.stats['functions'] > 200, 'too few functions')
    c.assume += ['memory obtained inside the standard library is the standard library\'s business', 'allocation does not fail',
                 'cells reached through more than one pointer and element storage of containers are not tracked']
    return c.finish()
