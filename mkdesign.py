"""fills the tables of DESIGN.md from design_notes.py, known_findings.json and seeded/"""
import json, glob, os
from design_notes import TABLE, LIM, CATCH
import manifest_notes
os.chdir('/verif')
t = open('design_head.md').read()
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d['title']
claimed = [c['property'] for c in json.load(open('MANIFEST.json'))['checks']]
na = json.load(open('MANIFEST.json'))['not_applicable']
t = t.replace('@@TABLE@@', '\n'.join('| %s %s | %s |' % (p, props[p], ' | '.join(TABLE[p])) for p in props if p in claimed))
t = t.replace('@@NA@@', '\n'.join('* %s (%s): %s' % (n['property'], props[n['property']], n['reason']) for n in na) if na else 'None; every property has a check.')
t = t.replace('@@LIM@@', LIM.strip())
k = json.load(open('known_findings.json'))
t = t.replace('@@FIXED@@', '\n'.join('* ' + f.replace('fixed: property=', '') for f in k['fixed']))
t = t.replace('@@KNOWN@@', '\n'.join('* %s `%s` %s' % (f['property'], f['match'], f['what']) for f in k['findings']))
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), CATCH.get(n, m['property'])))
t = t.replace('@@BUGS@@', '\n'.join(rows))
open('DESIGN.md', 'w').write(t)
