"""refresh the seed table and the repair count of DESIGN.md"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
rows = ['| seed | caught by | what it breaks |', '|------|-----------|---------------|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks']))
s = re.sub(r'<!--seeds-->.*?<!--/seeds-->', lambda _: '<!--seeds-->\n' + '\n'.join(rows) + '\n<!--/seeds-->', s, flags=re.S)
n = len(json.load(open(V + '/known_findings.json'))['fixed'])
s = re.sub(r'(NFIX|\d+) repairs\.', '%d repairs.' % n, s)
open(V + '/DESIGN.md', 'w').write(s)
