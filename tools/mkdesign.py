"""DESIGN.md = tools/DESIGN.src.md with the tables of fixed defects and planted bugs filled in."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, 'tools', 'DESIGN.src.md')).read()
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
notes = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
caught = {}
p = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
src = src.replace('@@defects', '\n'.join('* {}'.format(k.get('note') or 'known finding: property={} {}: {} ({})'.format(k['property'], k['check'], k['input'], k['what'])) for k in kf))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    n = os.path.basename(d)
    rows.append('| {} | {} | {} | {} | {} |'.format(n, m['property'], m['needs'], m['what_it_breaks'],
                                                     caught.get(n, 'check ' + m['property'])))
src = src.replace('@@seeds', '\n'.join(rows))
src = re.sub('@@(C[0-9]+)', lambda m: 'Not claimed: ' + notes.get('na ' + m.group(1), 'the check of this property is not built yet') + '.', src)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(src)
