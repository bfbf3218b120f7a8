import sys; sys.path.insert(0,'/verif/vx')
from ir import *
import re
F=Facts('/verif/.build/facts')
for n,b in F.bodies.items():
    if all(re.search(a,n) for a in sys.argv[1:]) : print(n, len(b['b']), b['args'], b['file'].split('/repo/')[-1], b['line'])
