"""respec.py CHECKFILE...: (dev) rewrite the tables of a check with the normal forms of the current tree, after a change of the normal form itself.
Only for a tree whose verdicts were just reviewed as right; prints every changed line."""
import sys, importlib.util
from spec import *
import subprocess
subprocess.run([sys.executable, os.path.join(V, "vx/facts.py")], check=True, stdout=subprocess.DEVNULL)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short", "--untracked-files=no"]), "tree not clean"
F = Facts(os.path.join(V, '.build/facts')); c = Check('X', F, {})
for f in sys.argv[1:]:
    sys.path.insert(0, os.path.dirname(f))
    m = {}; src = open(f).read(); exec(compile(src, f, 'exec'), m); S = m.get('S', '')
    sub = lambda s: s.replace('%S%', S) if isinstance(S, str) else s
    lines = src.split('\n'); out = []; i = 0
    while i < len(lines):
        l = lines[i]; out.append(l); i += 1
        if not l.startswith('@ '): continue
        exp = []
        while i < len(lines) and lines[i].strip() and not lines[i].startswith(('@ ', "'''")): exp.append(lines[i]); i += 1
        b = parse(sub('\n'.join([l] + exp)))[0]
        if b.path not in F.bodies: out += exp; continue
        r, e = evaluate(c, b.path, b.opt, vocab(b.exp) | set(b.opt.get('voc', '').split(',')) | base_voc(F))
        if r is None: print('budget', b.path); out += exp; continue
        if 'calls' in b.opt and b.opt.get('n') != str(sites(r, b.opt)): out[-1] = re.sub(r' n=\d+', '', l) + ' n=%d' % sites(r, b.opt)
        got = [clean(x) for x in observed(r, e, b.opt)]
        if b.opt.get('guards') == '0': got = sorted({split_top(x, ' <- ')[0] for x in got})
        if b.opt.get('under') == '1':
            def sp(x): y = split_top(x, ' <- '); return y[0], set(split_top(y[1], ' & ')) if len(y) > 1 else set()
            ex = [(x, *sp(x)) for x in b.exp]
            got = sorted({next((x for x, t, g in ex if t == sp(y)[0] and g <= sp(y)[1]), y) for y in got})
        if set(got) != {clean(x) for x in b.exp}:
            print('==', l)
            for x in exp:
                if clean(sub(x)) not in got: print('  -', x)
            for x in got:
                if x not in b.exp: print('  +', x)
            exp = got
        out += exp
    open(f, 'w').write('\n'.join(out))
