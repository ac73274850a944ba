"""Drives one property check.

The runner builds the C NameMapper from /repo's working tree into a scratch
directory, starts worker processes that import Cheetah straight from /repo,
hands every worker its share of the scenario cases, collects what the monitors
in the workers observed, writes evidence/<id>.json and decides.

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION
line), 2 the check itself could not decide (harness error, monitor starved).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import build  # noqa: E402


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in data.get('findings', [])
            if e['property'] == prop and e.get('status') == 'known'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run just this scenario')
    ap.add_argument('--scale', type=float, default=0)
    ap.add_argument('--workers', type=int, default=0)
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    prop = args.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        rc = run(prop, args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, args, scratch, t0):
    mod = importlib.import_module('checks.' + prop.lower())
    if not args.scale:
        args.scale = (getattr(mod, 'QUICK_SCALE', 3)
                      if args.tier == 'quick' else 1)
    known = load_known(prop)
    need = getattr(mod, 'NEEDS', ('c',))
    try:
        exts = build.build(scratch, need)
    except build.BuildError as e:
        print('check %s: the extension does not build: %s' % (prop, e))
        return 2
    nw = args.workers or getattr(mod, 'WORKERS', 8)
    if args.replay:
        nw = 1
    modes = getattr(mod, 'MODES', ('c', 'c', 'pure'))
    procs = []
    limit = getattr(mod, 'LIMIT', {'quick': 420, 'thorough': 3000})[args.tier]
    for w in range(nw):
        mode = modes[w % len(modes)]
        wd = os.path.join(scratch, 'w%d' % w)
        os.makedirs(os.path.join(wd, 'tmp'))
        os.makedirs(os.path.join(wd, 'cwd'))
        if args.replay:
            with open(args.replay) as f:
                mode = json.load(f).get('mode', mode)
        env = dict(os.environ)
        env.update({
            'TMPDIR': os.path.join(wd, 'tmp'),
            'HOME': wd,
            'PYTHONPYCACHEPREFIX': os.path.join(wd, 'pyc'),
            'VERIF_PROP': prop, 'VERIF_MODE': mode,
            'VERIF_SEED': str(args.seed), 'VERIF_TIER': args.tier,
            'VERIF_WORKER': '%d/%d' % (w, nw),
            'VERIF_OUT': os.path.join(wd, 'out.json'),
            'VERIF_WD': wd,
            'VERIF_SCALE': str(args.scale),
            'VERIF_ONLY': args.only or '',
            'VERIF_REPLAY': os.path.abspath(args.replay) if args.replay else '',
            'VERIF_EXTS': json.dumps(exts),
            'VERIF_DEADLINE': str(t0 + limit * 0.85),
        })
        cmd = [sys.executable, '-X', 'utf8',
               os.path.join(HERE, 'vlib', 'worker.py')]
        if mode == 'asan':
            env.update(build.asan_env(exts))
        err = open(os.path.join(wd, 'stderr'), 'wb')
        procs.append((w, mode, wd, subprocess.Popen(
            cmd, cwd=os.path.join(wd, 'cwd'), env=env, stdin=subprocess.DEVNULL,
            stdout=err, stderr=subprocess.STDOUT, start_new_session=True)))
        err.close()

    results, broken, violations = [], [], []
    for w, mode, wd, p in procs:
        left = max(1, t0 + limit - time.time())
        try:
            p.wait(left)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        out = None
        try:
            with open(os.path.join(wd, 'out.json')) as f:
                out = json.load(f)
        except (OSError, ValueError):
            pass
        with open(os.path.join(wd, 'stderr'), 'rb') as f:
            tail = f.read()[-6000:].decode('utf-8', 'replace')
        cur = None
        try:
            with open(os.path.join(wd, 'current.json')) as f:
                cur = json.load(f)
        except (OSError, ValueError):
            pass
        if out is not None:
            results.append(out)
            violations.extend(out['violations'])
        if rc == 0 and out is not None:
            if out.get('harness_errors'):
                broken.append((w, 'harness error', out['harness_errors'][0]))
            continue
        # a worker that died: was the process under test killed by its own
        # memory error (signal, sanitizer abort), or did the harness fail?
        if isinstance(rc, int) and (rc < 0 and -rc in (4, 6, 7, 8, 11)
                                    or 'AddressSanitizer' in tail
                                    or 'runtime error:' in tail):
            violations.append({
                'scenario': (cur or {}).get('scenario', '?'),
                'index': (cur or {}).get('index', -1), 'mode': mode,
                'key': 'crash', 'message':
                'the process died (status %s) while running this case' % rc,
                'detail': {'tail': tail[-3000:]}})
        elif rc == 'timeout' and getattr(mod, 'HANG_IS_VIOLATION', False):
            violations.append({
                'scenario': (cur or {}).get('scenario', '?'),
                'index': (cur or {}).get('index', -1), 'mode': mode,
                'key': 'hang', 'message': 'did not terminate',
                'detail': {'tail': tail[-3000:]}})
        else:
            broken.append((w, 'worker ended with %s' % rc, tail[-2500:]))

    counters, sigs, samples, evals, cases = {}, set(), [], 0, {}
    for r in results:
        evals += r['evaluations']
        sigs.update(r['sigs'])
        samples.extend(r['samples'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r['cases'].items():
            cases[k] = cases.get(k, 0) + v
    starved = []
    if not args.replay and not args.only and not violations:
        for k, least in getattr(mod, 'REQUIRED', {}).items():
            if counters.get(k, 0) < least:
                starved.append('%s: %d < %d' % (k, counters.get(k, 0), least))

    new, seen_known = [], {}
    for v in violations:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            new.append(v)
    for k in sorted(known):
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))

    ev = {
        'property': prop, 'tier': args.tier, 'seed': args.seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:6],
            'cases_per_scenario': cases,
            'observed': dict(sorted(counters.items())),
            'workers': ['%s' % m for _, m, _, _ in procs],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if not args.replay and not args.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=repr)

    print('%s %s seed=%d: %d evaluations, %d distinct, %.1fs' % (
        prop, args.tier, args.seed, evals, len(sigs), time.time() - t0))
    if new:
        shown = {}
        for n, v in enumerate(new):
            if len(shown) >= 8 or v['key'] in shown:
                continue
            shown[v['key']] = 1
            path = os.path.join(HERE, 'evidence', 'replay-%s-%d.json'
                                % (prop, len(shown)))
            v = dict(v, property=prop, seed=args.seed, tier=args.tier)
            if not args.replay:
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1, default=repr)
            else:
                path = args.replay
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  scenario=%s case=%s mode=%s key=%s: %s' % (
                v['scenario'], v['index'], v['mode'], v['key'],
                str(v['message'])[:600]))
            for k, d in sorted((v.get('detail') or {}).items()):
                print('    %s: %s' % (k, str(d)[:1200]))
        return 1
    if broken:
        for w, what, tail in broken:
            print('check %s: worker %s: %s\n%s' % (prop, w, what, tail))
        return 2
    if starved:
        print('check %s: monitor starved: %s' % (prop, '; '.join(starved)))
        return 2
    return 0


if __name__ == '__main__':
    main()
