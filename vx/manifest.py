"""regenerate MANIFEST.json from the check modules and na.json (run by hand after adding a check)"""
import json, glob, os, re, importlib.util, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
checks = []
for f in sorted(glob.glob(V + '/checks/*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    checks.append({'property': m.ID, 'quick_cmd': 'python3 check.py ' + m.ID, 'thorough_cmd': 'python3 check.py ' + m.ID,
        'technique': getattr(m, 'TECH', 'static analysis: flow-sensitive value-origin dataflow over rustc MIR'), 'level': 'other',
        'level_note': getattr(m, 'NOTE', 'Every obligation is decided on the compiled program (MIR) of the current tree, for all inputs; trusts the rustc front end, the library models of the dataflow engine and the property table in the check. ' + m.RULE[0].upper() + m.RULE[1:] + '.' + (' A construct whose normal form uses operations outside the vocabulary of the rule is counted as undecided in the evidence, not as held and not as a violation.' if hasattr(m, 'spec') else ''))})
na = json.load(open(V + '/na.json'))
json.dump({'version': 1, 'setup_cmd': 'python3 vx/facts.py', 'checks': checks, 'not_applicable': na,
  'notes': 'All checks share one fact base: a rustc driver (driver/) exports the MIR of every library crate of the workspace; vx/facts.py re-exports the crates whose sources changed before each check.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ids = {p['id'] for p in props}; cl = {c['property'] for c in checks}; n = {x['property'] for x in na}
print(len(ids), 'properties', len(cl), 'claimed', len(n), 'n/a', 'missing:', ids - cl - n, 'unknown:', (cl | n) - ids, 'both:', cl & n)
