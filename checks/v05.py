"""V05: asking a question never changes anything: queries leave the object and their arguments alone, const arguments are never written."""
from effects import *

TITLE = 'Queries change nothing; const arguments are never modified'
RULE = ('interprocedural write effects of every member function: a const member or a query (by name, across all classes) has no effect rooted at '
        'its object other than on locks and on the private text/hash caches listed, nor on its arguments (output arrays excepted); no function '
        'has an effect rooted at a parameter declared const&; ConcurrentHashMap queries call no mutating operation of the underlying map')
# exact names of operations that only ask
QUERIES = set('''getSize size length isEmpty empty capacity charAt codePointAt codePointBefore codePointCount offsetByCodePoints indexOf lastIndexOf contains
containsAll containsKey containsValue equals equalsIgnoreCase compareTo compareToIgnoreCase compare hashCode toString toCharPointer getBytes getValue get
getFirst getLast getOrDefault peek peekFirst peekLast element elementAt firstElement lastElement search find startsWith endsWith subString substring
subSequence subList subListForUnsafe concat toLowerCase toUpperCase toCharArray getStringFromIndex split regionMatches matches isFinite isInfinite isNaN
byteValue shortValue intValue longValue floatValue doubleValue booleanValue charValue stringValue bytesValue clone copy copyInto toArray getChars
availablePermits hasQueuedThreads isAlive getId getName getPriority isDaemon getState isInterrupted cardinality nextSetBit nextClearBit previousSetBit
previousClearBit intersects toByteArray toLongArray after before getTime getYear getMonth getDate getDay getHours getMinutes getSeconds
getTimezoneOffset toGMTString toLocaleString version variant timestamp clockSequence node getMostSignificantBits getLeastSignificantBits getTimestamp
getMessage getCause getLocalizedMessage getInternalId getID getDisplayName getHost getPort getProtocol getPath getQuery getRef getFile getUserInfo
getAuthority getDefaultPort getType getSubtype getParameters isWildcardType isWildcardSubtype isCompatible getDigestLength getAlgorithm
keySet values entrySet elements hasMoreElements hasNext hasPrevious getKey ordinal name format
operator== operator!= operator< operator> operator<= operator>= operator+ operator- operator* operator/ operator% operator&& operator|| operator[]'''.split())
OUT = {'copyInto', 'toArray', 'getChars', 'encode', 'decode', 'encoding', 'decoding'}
# private members that only cache a rendering of the object (V01 decides that they are coherent)
CACHES = {'Java::Lang::String': ['hash'], 'Java::Lang::StringBuilder': ['backupOriginalForToString'], 'Java::Util::BitSet': ['backupForToString'],
          'Java::Util::ArrayList': ['backup', 'backupForToString', 'original_backup'], 'Java::Util::HashMap': ['backup', 'backupForToString'], 'Java::Util::Date': ['backUp'],
          'Javax::Ws::Rs::Core::MediaType': ['backup', 'backupForToString', 'backupString']}
SYNC = re.compile(r'std::(mutex|recursive_mutex|timed_mutex|condition_variable|shared_)|spinlock|^moodycamel')
EXTCONST = re.compile(r'::(at|operator\[\]|begin|end|rbegin|rend|data|c_str|back|front|length|size|find)(\[abi:\w+\])?\(')
EXEMPT = {'Java::Util::BitSet::clone()': 'as in Java, clone first gives back the unused words of an unsized set'}


def run():
    c = Check('V05', TITLE, RULE)
    m = module(harness=['instances.cpp'], inline=True, keep_src=LIB, post='function(sroa,early-cse<memssa>,simplifycfg)')
    E = Effects(m)
    c.stats['queries'] = 0; c.stats['const_params'] = 0
    pat = re.compile(r'(?:^|[ (])((?:Java|Javax)::[\w:]+?|Array|ArrayIterator|Kernel::\w+)(<.*>)?::(operator[^\w ]+|~?\w+)\(')
    caches = {}

    def skipmem(cls, a0):
        """byte ranges of the object that may change: caches and locks."""
        if cls in caches: return caches[cls]
        base = re.sub(r'<.*', '', cls); out = []
        if cls in m.types:
            allc = set(sum((CACHES.get(k, []) for k in [base] + bases(m, cls)), []))
            for off, size, n, t, own in m.fields(cls, virt=True):
                if n in allc or SYNC.search(t): out.append((off, off + size))
        caches[cls] = out
        return out

    for f in m.defined():
        if 'Test.hpp' in f.src or not f.src.startswith(LIB) or 'cuckoo' in f.d or 'moodycamel' in f.d: continue
        r = pat.search(f.d)
        if not r: continue
        cls = r.group(1) + (r.group(2) or ''); nm = r.group(3)
        if nm == cls.split('<')[0].split('::')[-1] or nm[0] == '~': nm = 'ctor'
        a0 = 1 if f.args and f.args[0][2] else 0
        ps = [p for p in params(f.d) if p != 'void']
        off = len(f.args) - len(ps)
        member = off - a0 >= 1
        const = f.n.startswith('_ZNK')
        query = const or (member and nm in QUERIES)
        eff = E.eff[f.n]
        if query and nm not in ('ctor',):
            c.stats['queries'] += 1
            ranges = skipmem(cls, a0)
            hit = None
            if f.d not in EXEMPT:
                for k, p in eff:
                    rt = root(p)
                    if rt[0] != 'A' or rt[1] < a0: continue
                    if rt[1] > a0:
                        j = rt[1] - off
                        if nm in OUT or j < 0 or j >= len(ps) or not ps[j].endswith(('&', '*')): continue
                        if takes_lock_only(m, ps[j], p, rt): continue
                        hit = (p, 'its argument %d (%s)' % (j + 1, ps[j])); break
                    if in_ranges(p, rt, ranges): continue
                    if k == 'a': continue
                    if mapq(f, E, cls): continue
                    if only_accessors(f, E, rt): continue
                    hit = (p, 'the object itself'); break
            if hit:
                site = where(f, E, hit[0])
                c.bad('%s:%s' % (f.d, 'object' if 'itself' in hit[1] else 'argument'),
                      '%s is a query but writes %s (%s) at %s' % (f.d, hit[1], fmt(hit[0]), site))
            else: c.ok()
        for j, t in enumerate(ps):
            if not re.search(r'const&$', t): continue
            c.stats['const_params'] += 1
            bad = None
            for k, p in eff:
                rt = root(p)
                if rt != ('A', off + j) or k == 'a': continue
                if takes_lock_only(m, t, p, rt) or in_ranges(p, rt, skipmem(re.sub(r' const&$', '', t), 0)): continue
                if t.startswith('Java::Util::Concurrent::ConcurrentHashMap<') and table_queries_only(f, E, rt): continue
                bad = p; break
            if bad: c.bad('%s:const%d' % (f.d, j + 1), '%s modifies its const argument %d (%s) at %s' % (f.d, j + 1, fmt(bad), where(f, E, bad)))
            else: c.ok()
        if cls.startswith('Java::Util::Concurrent::ConcurrentHashMap') and nm in QUERIES:
            for i in f.inst.values():
                d = m.dem.get(callee(i) or '', '') if i['o'] in ('call', 'invoke') else ''
                x = re.search(r'cuckoohash_map<.*>::(?:locked_table::)?(\w+)(<.*>)?\(', d)
                if x and re.match(r'insert|erase|update|upsert|clear|uprase|rehash|reserve', x.group(1)):
                    c.bad('%s:mutates' % f.d, '%s is a query but calls %s on the map (%s)' % (f.d, x.group(1), f.where(i)))
    c.require(c.stats['queries'] > 350, 'too few queries found')
    c.assume += ['external (standard library) const members and const parameters are not written', 'virtual calls without a resolvable target have the effects of no function']
    return c.finish()


def bases(m, cls):
    out = []
    for b in m.types[cls]['bases']:
        if b['n'] in m.types: out += [re.sub(r'<.*', '', b['n'])] + bases(m, b['n'])
    return out


def chain(p):
    """first step from the root: offset within the root object (None when unknown)."""
    st = []
    while p[0] in ('+', '?', '*'): st.append(p); p = p[1]
    if not st: return 0
    s = st[-1]
    return s[2] if s[0] == '+' else (0 if s[0] == '*' else None)


def in_ranges(p, rt, ranges):
    o = chain(p)
    return o is not None and any(a <= o < b for a, b in ranges)


def takes_lock_only(m, t, p, rt):
    cls = re.sub(r'( const)?[&*]+$', '', t)
    if cls not in m.types: return False
    return in_ranges(p, rt, [(o, o + s) for o, s, n, ty, own in m.fields(cls, virt=True) if SYNC.search(ty)])


def mapq(f, E, cls):
    """queries of ConcurrentHashMap go through the vendored map, whose lock bookkeeping they change; decided by the call rule instead."""
    return cls.startswith('Java::Util::Concurrent::ConcurrentHashMap')


def table_queries_only(f, E, rt):
    """every effect on the map is that of taking its lock or asking it something."""
    P = E.P(f)
    for i in f.inst.values():
        for k, p, via in E.inst(f, P, i):
            if root(p) != rt or k == 'a': continue
            d = E.m.dem.get(via, via) if via else ''
            x = re.search(r'cuckoohash_map<.*>::(?:locked_table::)?(~?\w+)(<.*>)?\(', d)
            if not x or re.match(r'insert|erase|update|upsert|clear|uprase|rehash|reserve', x.group(1)): return False
    return True


def only_accessors(f, E, rt):
    """every effect on the object is a non-const standard accessor (operator[], at, begin ...) of a string or container."""
    P = E.P(f); any_ = False
    for i in f.inst.values():
        for k, p, via in E.inst(f, P, i):
            if root(p) != rt or k == 'a': continue
            if via is None or via in E.eff: return False
            d = E.m.dem.get(via, via)
            if not (d.startswith('std::') and EXTCONST.search(d)) or 'map<' in d and 'operator[]' in d: return False
            any_ = True
    return any_


def where(f, E, p):
    P = E.P(f)
    for i in f.inst.values():
        for k, q, via in E.inst(f, P, i):
            if cut(q) == p: return f.where(i) + (' through ' + E.m.dem.get(via, via)[:100] if via else '')
    return f.rel
