"""Makes and confirms planted bugs (used by hand; no check reads them).

plant(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ after
confirming that the tests pass with the change and the demo tells the trees
apart; then runs the property's check on it and says whether it is caught.
confirm(id) re-does the confirmation of an existing one.
"""
import json
import os
import subprocess
import sys

SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LC_ALL=C.UTF-8 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$work" && TMPDIR="$work" timeout 200 python -X utf8 -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def clean():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --porcelain').stdout.strip()


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd='/repo')


def confirm(pid, tests=True, check=True, tier='quick'):
    d = os.path.join(SEEDED, pid)
    meta = json.load(open(d + '/meta.json'))
    clean()
    sh('bash /opt/vp/build.sh')
    ok = True
    r = demo(d)
    if r.returncode != 0:
        print(pid, 'demo fails on the clean tree:', r.stdout.decode()[-1500:])
        return False
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stdout
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(pid, 'does not build', r.stdout.decode()[-800:])
            return False
        r = demo(d)
        if r.returncode == 0:
            print(pid, 'demo passes with the patch', r.stdout.decode()[-500:])
            ok = False
        if ok and tests:
            sh('bash /opt/vp/test.sh /tmp/plant-out.json')
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            out = json.load(open('/tmp/plant-out.json'))
            k = [x for x in out if 'pass' in x.lower()][0]
            miss = base - set(out[k])
            if miss:
                print(pid, 'breaks tests:', len(miss), sorted(miss)[:4])
                ok = False
        if ok and check:
            r = sh('VERIF_SEED=1 ./run.sh %s --tier %s'
                   % (meta['property'], tier), cwd='/verif')
            out = r.stdout.decode()
            hit = r.returncode == 1 and \
                'VIOLATION property=%s' % meta['property'] in out
            print(pid, 'CAUGHT' if hit else
                  'MISSED (exit %d)' % r.returncode,
                  [ln.strip()[:160] for ln in out.splitlines()
                   if 'scenario=' in ln][:2])
            rp = '/verif/tools/planted_results.json'
            try:
                res = json.load(open(rp))
            except FileNotFoundError:
                res = {}
            res[pid] = 'caught' if hit else 'missed'
            json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
            return res[pid]
    finally:
        clean()
        sh('bash /opt/vp/build.sh')
    return ok


def plant(pid, prop, edits, code, needs, breaks, tests=True, tier='quick'):
    d = os.path.join(SEEDED, pid)
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in edits:
        p = os.path.join('/repo', f)
        s = open(p, encoding='utf-8', newline='').read()
        assert s.count(old) == 1, (pid, f, s.count(old), old)
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    clean()
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(code)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    return confirm(pid, tests, tier=tier)


if __name__ == '__main__':
    for pid in sys.argv[1:] or sorted(os.listdir(SEEDED)):
        confirm(pid, tests='--tests' in sys.argv) \
            if not pid.startswith('-') else None
