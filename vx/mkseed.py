#!/usr/bin/env python3
"""mkseed.py DIR...: (dev tool) each DIR holds spec.json {id, property, crate, package, edits: [[file, old, new]...], needs, what_it_breaks} and demo.rs.
Confirms in the scratch copy /tmp/r that the demo passes without / fails with the change and that the tests pass with it, writes seeded/<id>, and runs the property's check against it."""
import sys, os, json, subprocess as sp, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/tmp/r'
def sh(cmd, cwd=R, t=1500):
    p = sp.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def sync():
    head = sp.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    sh('git fetch -q /repo HEAD && git checkout -q -f --detach %s && git clean -fdq -e target' % head)
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds for the demonstrated input
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=%(crate)s/tests/zz_seed_demo.rs
mk=0; [ -d %(crate)s/tests ] || { mkdir %(crate)s/tests; mk=1; }
cp "$d/demo.rs" $t
cargo test --offline --locked --workspace --all-features --test zz_seed_demo 2>&1 | tail -40
rc=${PIPESTATUS[0]}
rm -f "$PWD/$t"; [ $mk = 1 ] && rmdir %(crate)s/tests
exit $rc
'''
def one(d):
    s = json.load(open(d + '/spec.json')); id = s['id']
    out = V + '/seeded/' + id; tmp = '/tmp/seed/.out.' + id
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in os.listdir(d):
        if f not in ('spec.json',): shutil.copy(d + '/' + f, tmp)
    if not os.path.exists(tmp + '/demo.sh'): open(tmp + '/demo.sh', 'w').write(DEMO % s)
    os.chmod(tmp + '/demo.sh', 0o755)
    sync()
    rc, o = sh('timeout 300 ' + tmp + '/demo.sh')
    if rc: print(id, 'DEMO FAILS ON CLEAN TREE\n', o[-2500:]); return
    for f, a, b in s['edits']:
        t = open(R + '/' + f).read()
        if t.count(a) != 1: print(id, 'EDIT does not apply (%d matches)' % t.count(a), f, a[:60]); sync(); return
        open(R + '/' + f, 'w').write(t.replace(a, b))
    p = sp.check_output(['git', '-C', R, 'diff'], text=True)
    open(tmp + '/patch.diff', 'w').write(p)
    rc, o = sh('timeout 300 ' + tmp + '/demo.sh')
    if rc == 0 or 'error[E' in o or 'could not compile' in o: print(id, 'DEMO PASSES WITH CHANGE / compile error\n', o[-1500:]); sync(); return
    rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline --locked 2>&1')
    fl = re.findall(r'^test (.*) \.\.\. FAILED', o, re.M)
    if fl or 'could not compile' in o: print(id, 'TESTS FAIL with change', fl[:5], o[-800:] if not fl else ''); sync(); return
    sync()
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out); shutil.rmtree(tmp)
    a = sp.run(['git', '-C', '/repo', 'apply', out + '/patch.diff'])
    try: q = sp.run([sys.executable, V + '/check.py', s['property']], stdout=sp.PIPE, text=True)
    finally: sp.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(id, 'OK', 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=' + s['property'] in q.stdout else 'MISSED', [l.strip() for l in q.stdout.split('\n') if re.match(r'^  \S', l)][:4])
for d in sys.argv[1:]:
    try: one(os.path.abspath(d))
    except Exception as ex: print(d, repr(ex)); sync()
