"""K06: everything the headers declare can be used."""
import json
from sa import *
import sa
from sa import run as sh

TITLE = 'Every public function the headers declare can be called'
RULE = ('declared against defined: every public or protected function, constructor, destructor and constant declared in a header of the library (syntax tree of all headers) '
        'has a definition in the library; every member of every class template compiles for ordinary element types (explicit instantiation) and refers only to what is defined; '
        'the ordinary classes can be constructed (not abstract, a public constructor left)')
VENDOR = ('libcuckoo/', 'concurrentqueue.hpp', 'blockingconcurrentqueue.hpp', 'lightweightsemaphore.hpp', 'Test.hpp', 'Kernel/')

# uses of function templates, which explicit instantiation of a class does not reach: (what is used, code)
USES = [
    ('String::join', 'String s("a"); (void) String::join(s, s, s);'),
    ('String::format', 'String s("%d"); (void) String::format(s, 1);'),
    ('Arrays::asList', '(void) Java::Util::Arrays::asList<String>({String("a"), String("b")});'),
    ('Arrays::binarySearch(Array, key)', 'Array<int> a{1, 2}; (void) Java::Util::Arrays::binarySearch(a, 1, 2);'),
    ('Arrays::copyOf', 'Array<int> a{1, 2}; Array<int> b = Java::Util::Arrays::copyOf(a, 3);'),
    ('Arrays::copyOfRange', 'Array<int> a{1, 2}; Array<int> b = Java::Util::Arrays::copyOfRange(a, 0, 1);'),
    ('Arrays::sort(Array)', 'Array<int> a{1, 2}; Java::Util::Arrays::sort(&a, 2);'),
    ('Arrays::sort(Array, range)', 'Array<int> a{1, 2}; Java::Util::Arrays::sort(&a, 0, 1);'),
    ('BitSet::equals', 'Java::Util::BitSet b; (void) b.equals(b);'),
    ('System::out::print', 'System::out::print(String("a")); System::out::println(1);'),
    ('Array range for', 'Array<String> a; for (String s : a) (void) s.length();'),
    ('operator<<(ArrayList)', 'Java::Util::ArrayList<String> a; std::ostringstream o; o << a;'),
]
# classes a program makes objects of
CONCRETE = '''Lang::String Lang::StringBuilder Lang::StringBuffer Lang::StringBufferUnSafe Lang::Boolean Lang::Bytes Lang::Character Lang::Short Lang::Integer Lang::Long Lang::Float Lang::Double
Lang::Object Lang::Thread Lang::Throwable Lang::Exception Lang::RuntimeException Util::BitSet Util::Date Util::Random Util::UUID Util::TimeZone Util::Base64::Encoder Util::Base64::Decoder Net::URL
Text::SimpleDateFormat Util::Concurrent::Semaphore Util::ArrayList<String> Util::LinkedList<String> Util::Vector<String> Util::Stack<String> Util::HashMap<String,String> Util::PriorityQueue<Integer>
Util::Concurrent::ConcurrentHashMap<String,String> Util::Concurrent::ConcurrentLinkedQueue<String>'''.split()


def tool_apx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(sa.HERE, 'apx.cpp'); out = os.path.join(BUILD, 'apx-' + sha(open(src, 'rb').read()))
    if not os.path.exists(out):
        cfg = find_llvm('llvm-config'); lib = sh([cfg, '--libdir']).stdout.strip()
        so = sorted(f for f in os.listdir(lib) if f.startswith('libclang-cpp.so'))
        if not so: raise Broken('no libclang-cpp')
        tmp = out + '.%d' % os.getpid()
        r = sh([find_llvm('clang++'), '-w', '-O0'] + [f for f in sh([cfg, '--cxxflags']).stdout.split() if not f.startswith('-std=')] + ['-std=c++17', src, '-o', tmp, '-L' + lib, os.path.join(lib, so[-1]), '-lLLVM-18'])
        if r.returncode: raise Broken('cannot build apx:\n' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def headers():
    out = []
    for d, _, fs in os.walk(LIB):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), LIB)
            if f.endswith('.hpp') and not any(v in p for v in VENDOR): out.append(p)
    return sorted(out)


def cxx(): return [find_llvm('clang++'), '-include', os.path.join(VERIF, 'lib/clang_shim.h')] + CXXFLAGS + ['-w', '-fsyntax-only', '-ferror-limit=0', '-I' + REPO]


def first_error(text):
    es = re.findall(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', text, re.M)
    lib = [e for e in es if e[0].startswith(LIB)] or es
    return '%s (%s:%s)' % (lib[0][2], os.path.relpath(lib[0][0], REPO), lib[0][1]) if lib else text.strip()[:200]


def run():
    c = Check('K06', TITLE, RULE)
    d = os.path.join(BUILD, 'bc-' + tree()); os.makedirs(d, exist_ok=True)
    hs = headers(); tu = os.path.join(d, 'headers-%d.cpp' % os.getpid())
    open(tu, 'w').write('#include <sstream>\n' + ''.join('#include "%s/%s"\n' % (LIB, h) for h in hs))
    r = sh([tool_apx(), LIB + '/', tu, '--', '-include', os.path.join(VERIF, 'lib/clang_shim.h')] + CXXFLAGS + ['-w', '-I' + REPO])
    A = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
    if r.returncode and not A: raise Broken('headers do not compile: ' + r.stderr[-600:])
    if r.returncode: c.bad('headers', 'the headers do not compile together: ' + first_error(r.stderr))
    for a in A: a['file'] = os.path.normpath(a['file'])
    A = [a for a in A if not any(v in a['file'] for v in VENDOR)]

    # declared against defined
    bc, _ = bitcode(harness=['instances.cpp'])
    D = set(sh([find_llvm('llvm-nm'), '--defined-only', '-j', bc]).stdout.split())
    for a in A:
        if a['k'] == 'cls' or a['hidden'] or a['acc'] == 'private': continue
        if a['k'] == 'var':
            if a['tmpl'] or a['init']: continue
            c.stats.setdefault('constants', 0); c.stats['constants'] += 1
            if a['body'] or a['m'] in D: c.ok()
            else: c.bad(a['q'], '%s is declared (library/%s:%d) but defined nowhere in the library: every use fails to link' % (a['q'], a['file'], a['line']))
            continue
        if a['pure'] or a['deleted'] or a.get('friend') and a['body']: continue
        c.stats.setdefault('functions', 0); c.stats['functions'] += 1
        if a['body'] or not a['tmpl'] and set(a['m']) & D: c.ok()
        else: c.bad(a['q'], '%s is declared %s (library/%s:%d) but defined nowhere in the library: every call fails to link' % (a['q'], a['acc'] if a['acc'] != 'none' else '', a['file'], a['line']))

    # class templates: every member compiles
    errs = {}
    failing_instances(os.path.join(sa.HERE, 'instances.cpp'), errs)
    for k, t in instances():
        c.stats.setdefault('instantiations', 0); c.stats['instantiations'] += 1
        if k in errs: c.bad('instance ' + t, 'a member of %s does not compile: %s' % (t, first_error(errs[k])))
        else: c.ok()
    # function templates and constructibility
    pre = '#include "%s"\n' % tu + 'using namespace Java; using namespace Java::Lang;\n'

    def one(k):
        p = os.path.join(d, 'use-%d-%d.cpp' % (os.getpid(), k)); open(p, 'w').write(pre + 'void use() { %s }\n' % snippets[k][1])
        r = sh(cxx() + [p]); os.unlink(p); return r.returncode, r.stderr
    snippets = list(USES)
    for t in CONCRETE:
        q = 'Java::' + t.replace('<String', '<Java::Lang::String').replace(',String', ', Java::Lang::String').replace('<Integer', '<Java::Lang::Integer')
        snippets.append(('objects of ' + t, 'static_assert(!std::is_abstract<%s>::value, "abstract class"); static_assert(std::is_destructible<%s>::value, "no public destructor"); static_assert(%s, "no usable public constructor");' % (
            q, q, 'std::is_default_constructible<%s>::value || std::is_copy_constructible<%s>::value' % (q, q))))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: res = list(ex.map(one, range(len(snippets))))
    for (what, code), (rc, err) in zip(snippets, res):
        c.stats.setdefault('uses', 0); c.stats['uses'] += 1
        if rc: c.bad('use ' + what, '%s cannot be used: %s' % (what, first_error(err)))
        else: c.ok()
    # nothing the library's code refers to is missing
    U = [s for s in sh([find_llvm('llvm-nm'), '--undefined-only', '-j', bc]).stdout.split() if re.match(r'_ZT?[VISTK]*N?K?(4Java|5Javax|5Array)', s)]
    dem = dict(zip(U, sh(['c++filt'], input='\n'.join(U)).stdout.splitlines())) if U else {}
    own = {s for a in A if a['k'] == 'fn' and not a['tmpl'] for s in a['m']} | {a['m'] for a in A if a['k'] == 'var' and not a['tmpl']}
    for s in U:
        if s in own: continue
        c.bad('ref ' + dem[s], 'the library\'s code refers to %s, which is defined nowhere' % dem[s])
    c.ok()
    os.unlink(tu)
    c.stats['headers'] = len(hs)
    c.require(c.stats.get('functions', 0) > 800, 'declared functions')
    c.assume += ['constants initialised in their class are used by value', 'templates are decided for the element types String and Integer']
    return c.finish()

