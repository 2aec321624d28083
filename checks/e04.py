"""E04: an operation that rejects a call by throwing leaves its object and its arguments as they were."""
from effects import *
from throws import *
from guards import Guards
from reach import Reach
import v05

TITLE = 'A rejected operation changes nothing'
RULE = ('for every library function, forward dataflow of "has written its object or a by-reference argument" (interprocedural write effects, locks and '
        'private text caches excepted) over the control-flow graph; no throw of a library exception, direct or out of a callee, that leaves the '
        'function is reached with such a write behind it')
T0 = 'Java::Lang::Throwable'
OUT = v05.OUT | {'formatUnsignedLong', 'formatUnsignedInt'}
EXEMPT = {
    'Java::Lang::StringBufferUnSafe::appendCodePoint(int)': 'the second append of a surrogate pair cannot be refused: append(char) only fails on an inner index check',
    'Java::Lang::Thread::run()': 'runs inside the started thread; its own semaphore refuses only negative permit counts',
    'Java::Lang::Thread::join(long)': 'releases the completion permit it has just taken; its semaphore refuses only negative permit counts',
}
# loops whose one call could only refuse in its first iteration, after which the index stays valid
LOOPS = {r'Java::Util::Vector<.*>::addAll\(int, std::initializer_list': 'each insertion makes the next index valid',
         r'Java::Util::Vector<.*>::removeRange\(int, int\)': 'both ends are checked first'}


def run():
    c = Check('E04', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    T = Throws(m); E = Effects(m); G = Guards(m, Reach(m), E); G.T = T
    c.stats['functions'] = 0; c.stats['throw_points'] = 0; c.stats['never_refused'] = 0
    lib = lambda t: t == T0 or T0 in T.bases(t)
    caches = {}

    def skipmem(t):
        cls = re.sub(r'( const)?[&*]+$', '', t)
        if cls not in caches:
            out = []
            if cls in m.types:
                names = set(sum((v05.CACHES.get(k, []) for k in [re.sub(r'<.*', '', cls)] + v05.bases(m, cls)), []))
                out = [(o, o + s) for o, s, n, ty, own in m.fields(cls, virt=True) if n in names or v05.SYNC.search(ty)]
            caches[cls] = out
        return caches[cls]
    for n, f in sorted(T.fns.items(), key=lambda x: x[1].d):
        if 'Test.hpp' in f.src or not f.src.startswith(LIB) or 'cuckoo' in f.d or 'moodycamel' in f.d or 'concurrentqueue' in f.src: continue
        if re.search(r'::(\w+)(<.*>)?::\1\(', f.d) or f.d in EXEMPT: continue
        if not any(lib(t) for t in T.out[n]): continue
        c.stats['functions'] += 1
        ps = [p for p in params(f.d) if p != 'void']; off = len(f.args) - len(ps)
        a0 = 1 if f.args and f.args[0][2] else 0
        r = re.search(r'((?:Java|Javax)::.*)::(operator[^\w ]+|~?\w+)\(', f.d)
        cls = r.group(1) if r else ''; nm = r.group(2) if r else ''
        P = E.P(f)

        def weff(i):
            for k, p, via in E.inst(f, P, i):
                rt = root(p)
                if rt[0] != 'A' or rt[1] < a0 or k == 'a': continue
                j = rt[1] - off
                if j >= 0:
                    if j >= len(ps) or not ps[j].endswith(('&', '*')) or nm in OUT: continue
                    if v05.in_ranges(p, rt, skipmem(ps[j])): continue
                elif v05.in_ranges(p, rt, skipmem(cls)): continue
                yield p
        loop = any(re.match(x, f.d) for x in LOOPS)
        wr = {}
        for i in f.inst.values():
            if i['o'] in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg'):
                e = next(weff(i), None)
                if e is not None: wr[i['i']] = e
        # may-written-before: set of writing instructions reaching each block
        inn = {b: frozenset() for b in range(len(f.bbs))}
        work = list(range(len(f.bbs)))
        while work:
            b = work.pop(0); s = inn[b] | {i['i'] for i in f.bbs[b] if i.get('i') in wr}
            t = f.bbs[b][-1]
            for x in f.succ[b]:
                # a call that throws has refused: what it may have written is its own obligation
                y = s - {t['i']} if t['o'] == 'invoke' and t.get('u') == x else s
                if not y <= inn[x]: inn[x] = inn[x] | y; work.append(x)
        late = []
        for b in range(len(f.bbs)):
            w = set(inn[b])
            for i in f.bbs[b]:
                if i['o'] in ('call', 'invoke'):
                    ts = [t for t in T.raised(f, i) if lib(t) and t in T.out[n]]
                    if ts:
                        c.stats['throw_points'] += 1
                        ww = w - {i['i']} if loop else w
                        if ww: late.append((i, ts[0], f.inst[min(ww, key=lambda k: f.pos[k])]))
                        else: c.ok()
                if i.get('i') in wr: w.add(i['i'])
        # a call whose arguments the code in front of it keeps inside what the callee accepts is not refused
        never = G.never_refused(f, [i for i, t, x in late if callee(i) != '__cxa_throw']) if late else ()
        for i, t, x in late:
            if i['i'] in never: c.ok(); c.stats['never_refused'] += 1
            else:
                c.bad('%s:%s' % (f.d, t.split('::')[-1]), '%s can throw %s at %s after it has already changed %s at %s' % (
                    f.d, t.split('::')[-1], f.where(i), 'its object' if root(wr[x['i']])[1] < off else 'its argument', f.where(x)))
    c.require(c.stats['functions'] > 60, 'too few throwing functions')
    c.assume += ['%s: %s' % x for x in EXEMPT.items()] + ['%s: %s' % x for x in LOOPS.items()] + [
        'exceptions of the standard library (out of memory, bad Array index) are not rejections of a call', 'arrays and buffers passed to be filled (copyInto, getChars, encode, decode) may be partly filled']
    return c.finish()
