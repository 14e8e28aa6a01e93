"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('deductive verification: contracts on the real functions, verification conditions generated by symbolic '
        'execution of the LLVM IR clang emits from /repo, discharged by exact integer reasoning and z3')
NOTE = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NOTE['claimed']:
        checks.append({'property': p, 'quick_cmd': 'python3-vt vc/run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt vc/run.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'proof',
                       'level_note': NOTE['claimed'][p]})
    else:
        na.append({'property': p, 'reason': NOTE['not_applicable'].get(p, 'not claimed yet: contracts under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks verify the unmodified sources, included from harness/*.cpp.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
