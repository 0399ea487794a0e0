"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDED = ('Bounded: the postconditions of the contracts are evaluated on the real code for generated inputs (no proof yet); '
           'the generators are described in harness/h%s.py.')
NOTES = {}
notes = os.path.join(H, 'tools', 'level_notes.json')
if os.path.exists(notes):
    NOTES = json.load(open(notes))
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    proved = os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py'))
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': ('contract-based deductive verification of the real source (pyvc: VCs from /repo on every run, z3/cvc5), '
                      'failed obligations replayed concretely') if proved else
                     'contracts evaluated on the real code for generated inputs (bounded stand-in)',
        'level': 'proof' if proved else 'exploration',
        'level_note': NOTES.get(i) or (BOUNDED % i[1:] if not proved else 'see DESIGN.md'),
    })
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'See DESIGN.md. No hooks are needed in /repo; known_findings.txt lists the repaired defects.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
