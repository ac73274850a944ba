"""kf.py fixed|known PROP KEY WHAT [COMMIT]: adds an entry (by hand, never at run time)."""
import json
import subprocess
import sys
p = '/verif/known_findings.json'
d = json.load(open(p))
st, prop, key, what = sys.argv[1:5]
e = {'property': prop, 'key': key, 'status': st, 'what': what}
if st == 'fixed':
    c = sys.argv[5] if len(sys.argv) > 5 else subprocess.check_output(
        ['git', '-C', '/repo', 'log', '-1', '--format=%h']).decode().strip()
    e['commit'] = c
    e['entry'] = 'fixed: property=%s %s %s' % (prop, c, what)
d['findings'].append(e)
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
