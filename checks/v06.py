"""V06: unrelated objects never interfere: no library operation keeps working data in static storage or process-wide settings."""
from effects import *

TITLE = 'Independent objects never interfere'
RULE = ('whole-program effect analysis: no library function (outside static initialisation) writes a static or global object that is not '
        'thread-local, atomic or a lock; a function-local static is initialised only under its guard and never from the arguments of the call that '
        'happened to come first; no function calls a libc routine that works on hidden process-wide state; no public function hands out a '
        'pointer or reference to mutable static storage unless nothing but constructors writes objects of that class')
BANNED = {
    'localtime': 'returns the C library\'s shared buffer', 'gmtime': 'returns the C library\'s shared buffer', 'ctime': 'returns the C library\'s shared buffer',
    'asctime': 'returns the C library\'s shared buffer', 'strtok': 'keeps its position in a static variable', 'strerror': 'returns a shared buffer',
    'setlocale': 'changes the locale of the whole process', 'putenv': 'changes the environment of the whole process', 'setenv': 'changes the environment of the whole process',
    'unsetenv': 'changes the environment of the whole process', 'clearenv': 'changes the environment of the whole process', 'chdir': 'changes the directory of the whole process',
    'rand': 'draws from the process-wide generator', 'srand': 'reseeds the process-wide generator', 'random': 'draws from the process-wide generator',
    'srandom': 'reseeds the process-wide generator', 'drand48': 'draws from the process-wide generator', 'srand48': 'reseeds the process-wide generator', 'lrand48': 'draws from the process-wide generator',
    'mrand48': 'draws from the process-wide generator', 'gethostbyname': 'returns a shared buffer', 'inet_ntoa': 'returns a shared buffer', 'getpwnam': 'returns a shared buffer',
    'getpwuid': 'returns a shared buffer', 'tmpnam': 'returns a shared buffer', 'ttyname': 'returns a shared buffer', 'ecvt': 'returns a shared buffer', 'fcvt': 'returns a shared buffer',
    'gcvt_': '', 'l64a': 'returns a shared buffer', 'crypt': 'returns a shared buffer', 'basename': 'may return a shared buffer', 'dirname': 'may return a shared buffer',
    'mblen': 'keeps conversion state in a static variable', 'mbtowc': 'keeps conversion state in a static variable', 'wctomb': 'keeps conversion state in a static variable',
    'signal': 'changes process-wide signal handling', 'hcreate': 'uses one process-wide table', 'hsearch': 'uses one process-wide table', 'readdir_': '', 'nl_langinfo_': '', 'uselocale_': '',
    '_ZNSt6locale6globalERKS_': 'changes the locale of the whole process', 'fesetround': 'changes the rounding mode under every other computation of the thread', 'umask': 'changes the file mode mask of the whole process',
}
SYNC = re.compile(r'std::(atomic|__atomic|mutex|recursive_mutex|timed_mutex|condition_variable|once_flag|shared_)|^std::atomic')
VENDOR_OK = {('umask', 'get_clock'): 'restored immediately around creating the clock file (vendored libuuid)',
             ('rand', 'random_get_fd'): 'vendored libuuid mixes rand() into /dev/urandom bytes', ('rand', 'random_get_bytes'): 'as above', ('srand', 'random_get_fd'): 'as above'}


def is_init(f):
    return f.n.startswith(('_GLOBAL__', '__cxx_global_var_init', '__cxx_global_array_dtor', '__tls_init', '_ZTH'))


def guarded(f, i, guards):
    """i lies inside the guarded initialisation of a function-local static: returns the guard's acquire call or None."""
    for acq, rels, tb in guards:
        b = f.blk[i['i']]
        if not f.dominates(tb, b): continue
        done = False
        for r in rels:
            rb = f.blk[r['i']]
            if rb == b:
                if f.pos[r['i']] < f.pos[i['i']]: done = True
            elif f.dominates(rb, b): done = True
        if not done: return acq
    return None


def run():
    c = Check('V06', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    E = Effects(m)
    c.stats['functions'] = 0; c.stats['writes'] = 0; c.stats['calls'] = 0

    def shared(n):
        g = m.globals.get(n)
        if g is None: return None
        if g['decl'] and not (g.get('src') or '').startswith(LIB): return None    # std::cout and friends
        if g['const'] or g['tls']: return None
        if n.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZTT', '_ZGV')): return None
        if SYNC.search(g.get('dt') or ''): return None
        return g

    stat = [n for n in m.globals if shared(n)]
    c.stats['static_objects'] = len([n for n in stat if 'Test.hpp' not in (m.globals[n].get('src') or '')])
    fns = [f for f in m.defined() if 'Test.hpp' not in f.src and not is_init(f)]
    for f in fns:
        c.stats['functions'] += 1
        P = E.P(f)
        guards = []
        for i in f.inst.values():
            if i['o'] in ('call', 'invoke') and callee(i) == '__cxa_guard_acquire':
                gv = P.of(i['a'][0])
                rels = [j for j in f.inst.values() if j['o'] in ('call', 'invoke') and callee(j) in ('__cxa_guard_release', '__cxa_guard_abort') and P.of(j['a'][0]) == gv]
                # the branch on the acquire result
                tb = None
                for u in f.users().get(i['i'], []):
                    for w in [u] + f.users().get(u['i'], []):
                        if w['o'] == 'br' and 'cond' in w:
                            ic = f.inst.get(w['cond'])
                            tb = w['s'][0] if ic and ic.get('pr') == 'ne' else (w['s'][1] if ic and ic.get('pr') == 'eq' else w['s'][0])
                if tb is not None: guards.append((i, rels, tb))
        flagged = set()
        for b in f.bbs:
            for i in b:
                if i['o'] in ('call', 'invoke'):
                    n = callee(i)
                    c.stats['calls'] += 1
                    if n in BANNED:
                        k = (n, f.name)
                        if k in VENDOR_OK: c.ok(); continue
                        c.bad('%s:calls:%s' % (f.d, n), '%s calls %s(), which %s (%s)' % (f.d, m.dem.get(n, n), BANNED[n], f.where(i)))
                        continue
                g = guarded(f, i, guards)
                if g is not None:
                    # initialisation of a local static: no argument of this call may flow in
                    for o in operands(i):
                        if i['o'] in ('call', 'invoke') and (callee(i) or '').startswith(('__cxa_', 'llvm.')): break
                        if from_arg(f, P, o):
                            key = '%s:static-from-argument' % f.d
                            if key not in flagged:
                                flagged.add(key)
                                c.bad(key, '%s initialises a static local from the arguments of its first call: every later call gets that first result (%s)' % (f.d, f.where(i)))
                    continue
                for kind, p, via in E.inst(f, P, i):
                    r = root(p)
                    if r[0] != 'G': continue
                    if via in E.eff: continue          # reported (or accepted) inside that function
                    if kind == 'a': continue
                    G = shared(r[1])
                    if not G: continue
                    c.stats['writes'] += 1
                    # a load from the static that points elsewhere is only shared if what it points to is
                    key = '%s:writes:%s' % (f.d, G.get('name') or r[1])
                    if key in flagged: continue
                    flagged.add(key)
                    c.bad(key, '%s writes the shared static object %s%s (%s)' % (f.d, G.get('d') or r[1], ' through ' + m.dem.get(via, via) if via else '', f.where(i)))
        # handing a static object to a library function that writes through its argument
        for b in f.bbs:
            for i in b:
                n = callee(i) if i['o'] in ('call', 'invoke') else None
                if n not in E.eff or guarded(f, i, guards) is not None: continue
                for kind, p in E.eff[n]:
                    r = root(p)
                    if r[0] != 'A' or kind == 'a' or r[1] >= len(i['a']): continue
                    for q in P.of(i['a'][r[1]]):
                        G = shared(root(q)[1]) if root(q)[0] == 'G' else None
                        if not G: continue
                        key = '%s:writes:%s' % (f.d, G.get('name') or root(q)[1])
                        if key in flagged: continue
                        flagged.add(key)
                        c.bad(key, '%s changes the shared static object %s by calling %s (%s)' % (f.d, G.get('d') or root(q)[1], m.dem.get(n, n), f.where(i)))
        # handing out static storage
        if f.ret == 'ptr' and not f.internal:
            for i in f.inst.values():
                if i['o'] != 'ret' or not i.get('a'): continue
                for p in P.of(i['a'][0]):
                    r = root(p)
                    if r[0] != 'G': continue
                    G = m.globals.get(r[1])
                    if G is None or G['const'] or r[1].startswith(('_ZTV', '.str')): continue
                    if G['decl'] and not (G.get('src') or '').startswith(LIB): continue
                    if G['tls'] and p[0] == '*': continue
                    t = re.sub(r'^const |[&*]+$', '', G.get('dt') or '')
                    if (G.get('dt') or '').startswith('const ') and not t.endswith('*'): continue
                    if t in m.types and immutable(m, E, t): c.ok(); continue
                    c.bad('%s:returns:%s' % (f.d, G.get('name') or r[1]), '%s returns the address of mutable static storage %s: what one caller holds changes under it on the next call (%s)' % (f.d, G.get('d') or r[1], f.where(i)))
        if not flagged: c.ok()
    c.require(c.stats['functions'] > 1500, 'expected the whole library, found %d functions' % c.stats['functions'])
    c.samples += sorted((m.globals[n].get('d') or n) for n in stat if 'Test.hpp' not in (m.globals[n].get('src') or ''))[:40]
    c.assume += ['libc functions outside the listed set are reentrant', 'virtual calls dispatch to library functions, each analysed itself', 'vendored libuuid may mix rand() into its entropy']
    return c.finish()


def from_arg(f, P, o):
    if not isinstance(o, int): return False
    seen = set(); st = [o]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        i = f.inst.get(v)
        if i is None: return True
        if i['o'] in ('call', 'invoke', 'alloca'): continue
        st += [x for x in operands(i) if isinstance(x, int)]
    return False


def immutable(m, E, t):
    """no non-constructor method of t writes its object."""
    cm = None
    for f in m.defined(lambda d: d.startswith(t + '::')):
        nm = f.d[len(t) + 2:]
        if nm.startswith(('~', t.split('::')[-1] + '(', 'operator=')): continue
        a0 = 1 if f.args and f.args[0][2] else 0
        if any(root(p) == ('A', a0) for k, p in E.eff[f.n]): return False
    return True
