"""Developer helper: make /verif/seeded/<id> from an edit script (spec file exec'd): ID, PROP, EDITS=[(file, old, new)], DEMO (C++), NEEDS, BREAKS.
Validates: patch builds, stable tests pass, demo passes on clean tree and fails with patch, and reports which checks catch it."""
import json, os, subprocess, sys, shutil, tempfile
R = '/repo'; V = '/verif'
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']; d = '%s/seeded/%s' % (V, ID)
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), 'dirty repo'
os.makedirs(d, exist_ok=True)


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo(): sh('git -C /repo checkout -- .')


for f, old, new in ns['EDITS']:
    p = R + '/' + f; s = open(p, newline='').read()
    crlf = s.count('\r\n') > s.count('\n') / 2
    if crlf: s = s.replace('\r\n', '\n')
    assert s.count(old) == 1, (f, s.count(old), old)
    s = s.replace(old, new)
    open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
undo()
open(d + '/demo.cpp', 'w').write(ns['DEMO'])
flags = ns.get('FLAGS', '-O0 -g')
tmo = ns.get('TIMEOUT', 60)
open(d + '/demo.sh', 'w').write(ns.get('SH') or '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++11 -D_GNU_SOURCE -w %s -I. "$here/demo.cpp" -o "$tmp/demo" _build/libnative_static.a -lpthread -lm -lrt || exit 3
cd "$tmp" && timeout -k 5 %d ./demo
''' % (flags, tmo))
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)


def demo():
    t = tempfile.mkdtemp(); shutil.copytree(d, t + '/x')
    for n in os.listdir(t + '/x'):
        if n.endswith(('.diff', '.json')): os.remove(t + '/x/' + n)
    r = sh('bash %s/x/demo.sh' % t, cwd=R); shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-300:]


ok = True
r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stderr
try:
    t = sh('/tmp/tst.sh').stdout; print('patched:', t.strip()); ok &= 'missing []' in t
    rc, out = demo(); print('demo patched rc', rc, out.strip()[-200:]); ok &= rc not in (0, 3)
    ids = json.load(open(V + '/MANIFEST.json'))['checks'] if os.path.exists(V + '/MANIFEST.json') else []
    ids = [x['property'] for x in ids] or [ns['PROP']]
    ids = sys.argv[2:] or ids
    for i in ids:
        r = sh('./check %s' % i, cwd=V, env=dict(os.environ, VERIF_BUILD='/tmp/vseed'))
        if r.returncode or i == ns['PROP']: print(i, 'rc', r.returncode, [l[:260] for l in r.stdout.splitlines() if l.startswith('  [') or 'BROKEN' in l][:3], r.stderr[-300:])
finally:
    undo(); shutil.rmtree('/tmp/vseed', ignore_errors=True)
t = sh('/tmp/tst.sh').stdout
rc, out = demo(); print('demo clean rc', rc, out.strip()[-200:]); ok &= rc == 0
print('SEED', ID, 'OK' if ok else 'BAD')
if not ok: shutil.rmtree(d)
