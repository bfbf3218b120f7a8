"""dev: newcheck.py OUT ID TITLE RULE MSG NAME=FILE...  -- assemble a check file from gen.py outputs"""
import sys, re
out, ID, title, rule, msg, *secs = sys.argv[1:]
s = 'from lib import *\nimport spec\nID = %r\nTITLE = %r\nRULE = %r\n' % (ID, title, rule)
kinds = []
for x in secs:
    n, kind, f = x.split('=', 2)
    s += "%s = r'''\n%s'''\n" % (n, ''.join(l for l in open(f) if not l.startswith('# '))); kinds.append((kind, n))
nf = sum(open(x.split('=', 2)[2]).read().count('\n@ ') + 1 for x in secs)
s += "def run(c):\n    spec.run_tables(c, (%s), %r, %s)\n" % (', '.join('(%r, %s)' % k for k in kinds) + ',', msg, 'HAVE, FLOOR')
open(out, 'w').write(s)
