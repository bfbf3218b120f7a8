"""fixed.py PROP COMMIT TEXT: record a repaired defect"""
import json, sys, os
P = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.json'
k = json.load(open(P)); k['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4])); json.dump(k, open(P, 'w'), indent=1)
