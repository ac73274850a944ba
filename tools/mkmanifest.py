"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/verif')
props = [json.loads(ln) for ln in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists('/verif/checks/%s.py' % pid.lower()):
        na.append({'property': pid, 'reason': 'No check built yet.'})
        continue
    m = importlib.import_module('checks.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': './run.sh %s --tier quick' % pid,
        'thorough_cmd': './run.sh %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': m.TECHNIQUE,
        'level': getattr(m, 'LEVEL', 'exploration'),
        'level_note': m.LEVEL_NOTE,
    })
out = {
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the monitors '
              'attach from outside (subclasses, wrapped objects, recording '
              'filters, stores and transactions, a sanitizer build of the '
              'extension).', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'run.sh builds the C NameMapper from the working tree and '
             'imports Cheetah from /repo; known_findings.json lists repaired '
             'and known defects.',
}
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'unclaimed')
