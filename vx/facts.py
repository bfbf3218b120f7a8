"""(Re)build the fact base from /repo's current working tree with the rustc driver."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
B = os.environ.get('VX_BUILD', os.path.join(V, '.build'))
FACTS = os.path.join(B, 'facts'); TARGET = os.path.join(B, 'target'); DRV = os.path.join(B, 'driver')
EXCLUDE = ['bench-vortex', 'vortex-fuzz', 'xtask']
SKIPDIR = {'.git', 'target', 'node_modules', '.venv', 'bench-vortex', 'fuzz', 'xtask', 'docs', '.github'}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()

def hashes():
    """content hash per package directory (dir of the nearest Cargo.toml)"""
    out = {}
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in SKIPDIR and not x.startswith('.'))
        for f in sorted(fs):
            if not f.endswith(('.rs', '.toml', '.lock', '.fbs', '.proto')): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, REPO)
            parts = rel.split(os.sep); pk = '.'
            for i in range(len(parts) - 1, 0, -1):
                if os.path.exists(os.path.join(REPO, *parts[:i], 'Cargo.toml')): pk = '/'.join(parts[:i]); break
            sub = rel[len(pk) + 1:] if pk != '.' else rel
            if sub.split(os.sep)[0] in ('tests', 'benches', 'examples'): continue
            h = out.setdefault(pk, hashlib.sha256())
            h.update(rel.encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    return {k: h.hexdigest() for k, h in out.items()}

def pkgname(d):
    for line in open(os.path.join(REPO, d, 'Cargo.toml')):
        if line.startswith('name'): return line.split('"')[1]

def build_driver():
    S = sysroot()
    src = hashlib.sha256(open(os.path.join(V, 'driver/src/main.rs'), 'rb').read() + open(os.path.join(V, 'driver/Cargo.toml'), 'rb').read()).hexdigest()
    st = os.path.join(B, 'driver.stamp'); exe = os.path.join(DRV, 'release/vxfacts')
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == src: return exe, src
    env = dict(os.environ, CARGO_TARGET_DIR=DRV, LD_LIBRARY_PATH=S + '/lib', CARGO_NET_OFFLINE='true')
    for k in ('RUSTC', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'): env.pop(k, None)
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(V, 'driver'), env=env)
    if r.returncode: print(r.stdout[-4000:]); raise SystemExit('driver build failed')
    open(st, 'w').write(src)
    return exe, src

def build(verbose=False):
    """returns (facts dir, info)"""
    os.makedirs(FACTS, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    exe, drv = build_driver()
    h = hashes(); h['__driver__'] = drv
    stamp = os.path.join(FACTS, '_stamp.json')
    old = json.load(open(stamp)) if os.path.exists(stamp) else {}
    if old == h: return FACTS, {'rebuilt': [], 'seconds': time.time() - t0, 'hash': h}
    changed = sorted(k for k in h if old.get(k) != h[k])
    if os.path.exists(stamp): os.remove(stamp)
    fps = os.path.join(TARGET, 'debug/.fingerprint')
    if '__driver__' in changed or '.' in changed or not old: pk = [k for k in h if k not in ('.', '__driver__')]
    else: pk = changed
    for d in pk:
        n = pkgname(d)
        if n is None: continue
        for f in glob.glob(os.path.join(fps, n + '-*')):
            if f[len(os.path.join(fps, n)) + 1:].find('-') < 0: shutil.rmtree(f)
    S = sysroot()
    env = dict(os.environ, LD_LIBRARY_PATH=S + '/lib', RUSTFLAGS='--cap-lints allow', RUSTC=S + '/bin/rustc', RUSTC_WORKSPACE_WRAPPER=exe,
               PYO3_PYTHON='/usr/bin/python3.12', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET, VX_FACTS_DIR=FACTS, CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    cmd = ['cargo', '+nightly-2024-09-04', 'check', '--workspace', '--all-features', '--lib', '--offline', '--locked']
    for x in EXCLUDE: cmd += ['--exclude', x]
    r = sh(cmd, cwd=REPO, env=env)
    if r.returncode:
        print(r.stdout[-6000:]); raise SystemExit('fact extraction failed: the tree does not type-check')
    json.dump(h, open(stamp, 'w'))
    return FACTS, {'rebuilt': pk, 'seconds': time.time() - t0, 'hash': h}

if __name__ == '__main__':
    f, i = build()
    print(f, 'rebuilt', len(i['rebuilt']), 'packages in %.1fs' % i['seconds'])
