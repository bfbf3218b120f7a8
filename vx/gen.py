"""dev: gen.py FILE -- each line 'PATHREGEX opts'; prints the spec blocks of the current tree (lines starting with # are copied)"""
import sys, os, io
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import *
F = Facts(os.environ.get('VX_FACTS') or os.path.join(V, '.build/facts')); c = Check('X', F, {})
import arr
for line in open(sys.argv[1]):
    line = line.rstrip('\n')
    if not line.strip() or line.startswith('#'): print(line); continue
    rx, *o = re.split(r' +(?=[a-z]+=)', line.strip()); opt = dict(x.split('=', 1) for x in o if x)
    n = 0
    for p in sorted(F.bodies):
        if not re.search(rx, p) or '{closure' in p or 'Const#' in p: continue
        so = arr.self_of(p)
        voc = set(opt.get('voc', '').split(',')) | base_voc(F)
        for q in F.bodies:
            m = re.match(r'<(?:.*::)?([A-Za-z0-9_]+Array)>::([a-z_0-9]+)$', q)
            if m and so and q.startswith('<%s>' % so) and not ctor(m.group(2)): voc.add(m.group(2))
        voc -= set(opt.get('drop', '').split(','))
        def look():
            r, e = evaluate(c, p, opt, voc)
            return (r, e, observed(r, e, opt)) if r is not None else None
        x = limited(15, look)
        if x is None: print('# budget', p, flush=True); continue
        r, e, got = x
        if not got or got == ["('#', ('tup', ()))"]: continue
        n += 1
        o2 = dict(opt)
        if 'voc' in o2 and 'calls' not in o2:
            w = set(WORD.findall(' '.join(got))); o2['voc'] = ','.join(x for x in o2['voc'].split(',') if x in w)
            vv = vocab(got); o2['voc'] = ','.join(x for x in o2['voc'].split(',') if x and x not in vv)
            def again():
                r2, e2 = evaluate(c, p, opt, vv | set(o2['voc'].split(',')) | base_voc(F))
                return r2 is not None and observed(r2, e2, opt) == got
            if not limited(15, again): o2['voc'] = opt['voc']
            if not o2['voc']: del o2['voc']
        print('@ %s%s' % (p, ''.join(' %s=%s' % (k, v) for k, v in o2.items() if k not in ('drop',))))
        for x in got: print(clean(x))
    if not n: print('# nothing for', rx)
