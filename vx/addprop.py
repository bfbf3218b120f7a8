"""addprop.py: merge property dicts (python literal on stdin) into properties.jsonl"""
import sys, json, ast, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); P = V + '/properties.jsonl'
ps = {}
if os.path.exists(P):
    for l in open(P): p = json.loads(l); ps[p['id']] = p
for id, title, st, over, qt, why, files, mech, obs in ast.literal_eval(sys.stdin.read()):
    assert len(title) <= 80, (id, len(title))
    ps[id] = {'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
      'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs, 'hook_needed': None}}
open(P, 'w').write(''.join(json.dumps(ps[k]) + '\n' for k in sorted(ps)))
