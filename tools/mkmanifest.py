"""Writes MANIFEST.json from the registry."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry

NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in registry.all_properties():
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py --property %s --tier quick' % i,
                           thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                           technique=n['technique'], level='exploration', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTES[i].get('reason', 'the check is not built yet')))
doc = dict(version=1, setup_cmd='python3 tools/setup.py',
           hooks=dict(guard='none', enable='no hooks: every seam is an existing interface or a standard library module which the '
                      'simulator replaces before qtune is imported', source_commits=[]),
           checks=checks, not_applicable=na,
           notes='Deterministic simulation with fault injection; see DESIGN.md. Commits in /repo are fixes of genuine defects '
                 'only, listed in known_findings.txt.')
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
