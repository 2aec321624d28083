"""Shared infrastructure: compile /repo's current sources to LLVM bitcode with the build's flags, normalise
(inline / SSA) with irx, load the result, and report verdicts in the MANIFEST interface."""
import hashlib, json, os, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = REPO + '/library'
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXXFLAGS = ['-std=gnu++11', '-D_GNU_SOURCE']          # what the root CMakeLists.txt passes (plus -g/-O0 below)
CFLAGS = ['-D_GNU_SOURCE']


class Broken(Exception):
    """The analysis itself could not run (anchor vanished, does not compile): exit 2, neither pass nor violation."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def find_llvm(name):
    for c in (name, name + '-18', '/usr/lib/llvm-18/bin/' + name):
        p = shutil.which(c)
        if p:
            return p
    raise Broken('tool not found: ' + name)


def tool_irx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irx.cpp')
    out = os.path.join(BUILD, 'irx-' + sha(open(src, 'rb').read()))
    if not os.path.exists(out):
        cfg = find_llvm('llvm-config')
        fl = [f for f in run([cfg, '--cxxflags']).stdout.split() if not f.startswith('-std=')]
        ld = run([cfg, '--ldflags']).stdout.split()
        tmp = out + '.%d' % os.getpid()
        r = run([find_llvm('clang++'), '-w', '-O0'] + fl + ['-std=c++17', src, '-o', tmp] + ld + ['-lLLVM-18'])
        if r.returncode:
            raise Broken('cannot build irx:\n' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def sources():
    """The translation units of the root CMakeLists.txt globs: every library .cpp/.c that is no test or benchmark."""
    out = []
    for d, _, fs in os.walk(LIB):
        for f in fs:
            if f.endswith(('.cpp', '.c')) and not f.endswith(('Test.cpp', 'Benchmark.cpp')):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d, _, ff in os.walk(LIB):
        fs += [os.path.join(d, f) for f in ff if f.endswith(('.cpp', '.c', '.hpp', '.h')) and not f.endswith(('Test.cpp', 'Benchmark.cpp'))]
    fs.append(REPO + '/library.hpp')
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


_tree = None


def tree():
    global _tree
    if _tree is None:
        _tree = tree_hash()
    return _tree


def compile_unit(src, outdir, extra=()):
    own = src.startswith(HERE)
    out = os.path.join(outdir, os.path.relpath(src, '/').replace('/', '_') + (sha(open(src, 'rb').read())[:8] if own else '') + '.bc')
    if own: extra = list(extra) + ['-I' + REPO]
    if os.path.exists(out):
        return out, ''
    tmp = out + '.tmp%d' % os.getpid()
    if src.endswith('.c'):
        cmd = [find_llvm('clang')] + CFLAGS
    else:
        cmd = [find_llvm('clang++'), '-include', os.path.join(VERIF, 'lib/clang_shim.h')] + CXXFLAGS
    cmd += ['-w', '-g', '-fstandalone-debug', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', src, '-o', tmp] + list(extra)
    r = run(cmd)
    if r.returncode and own and os.path.basename(src) == 'instances.cpp':
        # a member that does not compile must not hide the rest: leave out the classes whose instantiation fails (K06 reports them)
        skip = failing_instances(src)
        if skip: r = run(cmd + ['-DSKIP_%d' % k for k in skip])
    if r.returncode:
        return None, r.stderr
    os.replace(tmp, out)
    return out, ''


def instances():
    src = os.path.join(HERE, 'instances.cpp')
    return [(int(k), t) for k, t in re.findall(r'#ifndef SKIP_(\d+)\ntemplate class (.*);', open(src).read())]


def failing_instances(src, errors=None):
    ids = [int(k) for k in re.findall(r'#ifndef SKIP_(\d+)', open(os.path.join(HERE, 'instances.cpp')).read())]
    def one(k):
        cmd = [find_llvm('clang++'), '-include', os.path.join(VERIF, 'lib/clang_shim.h')] + CXXFLAGS + ['-w', '-fsyntax-only', '-ferror-limit=0', '-I' + REPO, src]
        r = run(cmd + ['-DSKIP_%d' % j for j in ids if j != k])
        return k, r.returncode, r.stderr
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, ids))
    if errors is not None: errors.update({k: e for k, rc, e in res if rc})
    return [k for k, rc, e in res if rc]


def bitcode(units=None, harness=None, need=None):
    """Compile units (default: the whole library) + harness files; return the linked module's path."""
    units = units if units is not None else sources()
    harness = [os.path.join(HERE, h) for h in (harness or [])]
    key = sha(tree(), *[open(h, 'rb').read() for h in harness], *units)
    d = os.path.join(BUILD, 'bc-' + tree())
    os.makedirs(d, exist_ok=True)
    linked = os.path.join(d, 'linked-%s.bc' % key)
    if os.path.exists(linked):
        return linked, units
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda u: (u,) + compile_unit(u, d), units + harness))
    for u, o, e in res:
        if o is None:
            raise Broken('does not compile under clang: %s\n%s' % (u, e[-1500:]))
    r = run([find_llvm('llvm-link')] + [o for _, o, _ in res] + ['-o', linked + '.tmp%d' % os.getpid()])
    if r.returncode:
        raise Broken('llvm-link: ' + r.stderr[-1500:])
    os.replace(linked + '.tmp%d' % os.getpid(), linked)
    return linked, units


SSA = 'function(sroa,simplifycfg)'
POST = 'function(sroa,early-cse<memssa>,simplifycfg,instcombine,early-cse<memssa>)'


def module(units=None, harness=None, inline=False, keep='', pre='function(mem2reg)', post='', export=None, cap=60000, roots='', keep_src=''):
    bc, units = bitcode(units, harness)
    irx = tool_irx()
    export = LIB if export is None else export
    args = ['--export-src=' + export, '--pre=' + pre, '--cap=%d' % cap]
    if inline:
        args.append('--inline')
    if keep:
        args.append('--keep=' + keep)
    if keep_src:
        args.append('--keep-src=' + keep_src)
    if roots:
        args.append('--roots=' + roots)
    if post:
        args.append('--post=' + post)
    key = sha(bc, irx, *args)
    out = os.path.join(BUILD, 'bc-' + tree(), 'm-%s.jsonl' % key)
    if not os.path.exists(out):
        with open(out + '.tmp%d' % os.getpid(), 'w') as f:
            r = subprocess.run([irx] + args + [bc], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken('irx failed: ' + r.stderr[-1500:])
        if r.stderr.strip():
            open(out + '.log', 'w').write(r.stderr)
        os.replace(out + '.tmp%d' % os.getpid(), out)
    m = Module(out)
    m.units = units
    if os.path.exists(out + '.log'):
        m.log = open(out + '.log').read()
    return m


class Inst(dict):
    __slots__ = ()
    __getattr__ = dict.get


class Fn:
    def __init__(self, d):
        self.__dict__.update({k: v for k, v in d.items() if k not in ('bbs', 'n', 'd', 'k')})
        self.n = d['n']; self.d = d['d']
        self.has = 'bbs' in d
        self.src = d.get('src', ''); self.line = d.get('line', 0); self.name = d.get('name', '')
        if self.has:
            self.bbs = [[Inst(i) for i in b] for b in d['bbs']]
            self.inst = {}
            self.blk = {}
            self.pos = {}
            for bi, b in enumerate(self.bbs):
                for k, i in enumerate(b):
                    self.inst[i['i']] = i; self.blk[i['i']] = bi; self.pos[i['i']] = k
            self.succ = []
            for b in self.bbs:
                t = b[-1]; o = t['o']
                if o == 'invoke':
                    self.succ.append([t['n'], t['u']])
                elif o in ('br', 'switch'):
                    self.succ.append(list(dict.fromkeys(t['s'])))
                else:
                    self.succ.append([])
            self.pred = [[] for _ in self.bbs]
            for b, ss in enumerate(self.succ):
                for s in ss:
                    self.pred[s].append(b)
            self._dom = None
            self._users = None

    @property
    def rel(self):
        return os.path.relpath(self.src, REPO) if self.src else ''

    def rpo(self):
        seen = set(); out = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    def idom(self):
        if self._dom is None:
            order = self.rpo(); num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}; ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom and p in num:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]: x = idom[x]
                                    while num[y] > num[x]: y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new; ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = d[b]

    def users(self):
        if self._users is None:
            u = {}
            for i in self.inst.values():
                for o in operands(i):
                    if isinstance(o, int):
                        u.setdefault(o, []).append(i)
            self._users = u
        return self._users

    def where(self, i):
        """file:line of an instruction, with the inline chain when it came from a helper."""
        st = i.get('st')
        if st:
            chain = ['%s:%d' % (os.path.relpath(s[2], REPO) if s[2].startswith(REPO) else s[2], s[1]) for s in st]
            mine = [c for c, s in zip(chain, st) if s[2].startswith(LIB)]
            return ' <- '.join(mine[:4] or chain[:1])
        return '%s:%d' % (self.rel, i['l'])


def operands(i):
    out = []
    for k in ('p', 'val', 'f', 'cond', 'cnt'):
        if k in i: out.append(i[k])
    if i['o'] == 'phi':
        out += [v for v, _ in i['in']]
    else:
        out += i.get('a') or []
    for v in i.get('var') or []:
        out.append(v[0])
    return out


class Module:
    def __init__(self, path):
        self.types = {}; self.globals = {}; self.alias = {}; self._raw = {}; self._fn = {}; self.dem = {}
        self.log = ''
        with open(path) as f:
            for line in f:
                if line.startswith('{"k":"fn"'):
                    m = _fnre.match(line)
                    n = json.loads(m.group(1)); self._raw[n] = line; self.dem[n] = json.loads(m.group(2))
                else:
                    d = json.loads(line)
                    if d['k'] == 'type': self.types[d['n']] = d
                    elif d['k'] == 'global': self.globals[d['n']] = d
                    elif d['k'] == 'alias': self.alias[d['n']] = d['to']

    def fn(self, n):
        n = self.alias.get(n, n)
        if n not in self._fn:
            r = self._raw.get(n)
            self._fn[n] = Fn(json.loads(r)) if r else None
        return self._fn[n]

    def fns(self, pred=None):
        for n in self._raw:
            if pred and not pred(self.dem[n]): continue
            yield self.fn(n)

    def defined(self, pred=None, thunks=False):
        return [f for f in self.fns(pred) if f and f.has and (thunks or not f.d.startswith(('virtual thunk', 'non-virtual thunk', 'covariant')))]

    def type(self, n):
        t = self.types.get(n)
        if t is None: raise Broken('type %s not found (renamed or removed?)' % n)
        return t

    def fields(self, n, base=0, virt=False):
        """All non-static data members of a class including its (non-virtual) bases: [(offset, size, name, type, owner)]."""
        t = self.type(n); out = []
        for b in t['bases']:
            if b['virtual'] and not virt: continue
            out += self.fields(b['n'], base + b['off'], virt)
        for f in t['fields']:
            if not f['static']: out.append((base + f['off'], f['size'], f['n'], f['t'], n))
        return sorted(out)

    def vtable(self, cls_mangled):
        """Primary vtable slots of a class: function names (or None)."""
        g = self.globals.get('_ZTV' + cls_mangled)
        if not g or 'init' not in g: return []
        init = g['init']
        arr = init[1] if init[0] == 'agg' and isinstance(init[1], list) and init[1][0] == 'agg' else init
        return [x[1] if isinstance(x, list) and x[0] == 'g' else None for x in arr[1:]]


_fnre = re.compile(r'\{"k":"fn","n":("(?:[^"\\]|\\.)*"),"d":("(?:[^"\\]|\\.)*")')


def callee(i):
    f = i.get('f')
    return f[1] if isinstance(f, list) and f[0] == 'g' else None


def short(d):
    """Readable function name without return type/template noise."""
    return d


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, title, rule):
        self.pid = pid; self.rule = rule; self.title = title
        self.t0 = time.time(); self.viol = []; self.known = []; self.stats = {}; self.samples = []; self.assume = []
        self.obl = 0; self.dis = 0
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.kf = load_known(pid)
        self.kf_hit = set()

    def ok(self, n=1):
        self.obl += n; self.dis += n

    def bad(self, key, text):
        """key identifies the construct (function + what), independent of line numbers."""
        self.obl += 1
        for k in self.kf:
            if k['key'] == key:
                if key not in self.kf_hit:
                    self.kf_hit.add(key); self.known.append((key, text, k))
                return
        if any(v[0] == key for v in self.viol): return
        self.viol.append((key, text))

    def require(self, cond, what):
        if not cond:
            raise Broken('%s: analysis has nothing to decide: %s' % (self.pid, what))

    def finish(self, level='other', explanation=None):
        for key, text, k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k.get('what', text)))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': {'explanation': explanation or self.rule, 'rule': self.rule, 'obligations': self.obl,
                           'discharged': self.dis, 'counts': self.stats, 'samples': self.samples[:40], 'known_findings': [k for k, _, _ in self.known]},
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol), 'assumptions': self.assume}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %s; obligations %d, discharged %d, known findings %d, violations %d (%.1fs)' % (
            self.pid, ', '.join('%s=%s' % kv for kv in self.stats.items()), self.obl, self.dis, len(self.known), len(self.viol), time.time() - self.t0))
        if self.viol:
            rp = BUILD + '/report-%s.txt' % self.pid
            with open(rp, 'w') as f:
                f.write('property %s: %s\nrule: %s\n\n' % (self.pid, self.title, self.rule))
                for k, t in self.viol: f.write('[%s]\n%s\n\n' % (k, t))
            for k, t in self.viol:
                print('  [%s] %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]
