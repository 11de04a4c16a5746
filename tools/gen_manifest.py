"""writes MANIFEST.json from properties.jsonl and the existing proof modules (props/cXX.py)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C23': 'Quantifies over worker interleavings of concurrent.futures executors: sequential function contracts cannot express schedules, and no '
             'deductive verifier for concurrent Python is available. Its sequential part (results are zipped back to the individuals in order, '
             'whatever the executor mode) is proved under C06.'}
notes = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        continue
    proof = os.path.exists(os.path.join(HERE, 'props', p.lower() + '.py'))
    checks.append(dict(
        property=p, quick_cmd='python3-vt run_check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt run_check.py ' + p,
        evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification of the source in /repo (pycv: VCs from its AST, z3/cvc5)' + (
            ', failed obligations replayed by a contract-checking harness' if proof else ': not yet in reach, bounded contract-checking harness stands in'),
        level='proof' if proof else 'exploration',
        level_note=notes.get(p) or ('bounded stand-in: the contract is evaluated on generated inputs of the real code, nothing proved' if not proof else 'see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import numpy"', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hooks in /repo. The verified text is /repo/eckity parsed on every run; see DESIGN.md.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
