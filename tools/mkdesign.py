"""Fills the generated parts of DESIGN.md from DESIGN.in.md, checks, findings and seeded."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/verif')
src = open('/verif/tools/DESIGN.in.md').read()
props = [json.loads(ln) for ln in open('/verif/properties.jsonl')]
out = []
for p in props:
    pid = p['id']
    out.append('### %s %s\n' % (pid, p['title']))
    if not os.path.exists('/verif/checks/%s.py' % pid.lower()):
        out.append('Planned; not claimed yet.\n')
        continue
    m = importlib.import_module('checks.' + pid.lower())
    out.append('*Method.* %s.\n' % m.TECHNIQUE.rstrip('.'))
    if getattr(m, 'DESIGN', None):
        out.append(m.DESIGN.strip() + '\n')
    out.append('*What counts.* %s\n' % m.RULE)
    out.append('*Scenarios (cases quick / thorough).* ' + ', '.join(
        '%s %s/%s' % (s[0], s[2], s[3]) for s in m.SCENARIOS) + '. '
        'Flavours: ' + ', '.join(sorted(set(getattr(
            m, 'MODES', ('c', 'pure'))))) + '.\n')
    out.append('*Bounds and trust.* %s\n' % m.LEVEL_NOTE)
kf = json.load(open('/verif/known_findings.json'))['findings']
known = ['- %s `%s`: %s' % (e['property'], e['key'], e['what'])
         for e in kf if e['status'] == 'known'] or ['(none)']
known += ['', 'Repaired:', ''] + ['- ' + e['entry'] for e in kf
                                  if e['status'] == 'fixed']
try:
    res = json.load(open('/verif/tools/planted_results.json'))
except FileNotFoundError:
    res = {}
pl = ['| change | property | needs | quick check |', '|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    pl.append('| %s | %s | %s | %s |' % (
        d, m['property'], m['needs'].replace('|', '/'),
        res.get(d, '?')))
src = src.replace('@@PROPS@@', '\n'.join(out)).replace(
    '@@KNOWN@@', '\n'.join(known)).replace('@@PLANTED@@', '\n'.join(pl))
open('/verif/DESIGN.md', 'w').write(src)
