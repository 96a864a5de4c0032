"""Regenerate MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(here, 'manifest_notes.py')).read(), NOTES)
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'harness', 'check_%s.py' % pid)) and pid in NOTES['NOTES']:
        tech, note = NOTES['NOTES'][pid]
        checks.append(dict(property=pid, quick_cmd='./run.sh %s quick' % pid,
                           thorough_cmd='./run.sh %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=pid, reason=NOTES['NA'].get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true',
               hooks=dict(guard='none', enable='no hooks are needed: every check observes ports, '
                          'printed output or emitted Verilog', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Specifications in spec/*.tla (TLA+, TLC); harness/ binds them to the code.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
