"""A worker: imports Cheetah from /repo with the freshly built extension (or
the pure-Python NameMapper) and runs its share of the cases."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import boot  # noqa: E402
from vlib.core import Violation, Skip, CaseTimeout  # noqa: E402


class Ctx(object):
    def __init__(self, mod):
        self.mod = mod
        self.tier = os.environ['VERIF_TIER']
        self.seed = int(os.environ['VERIF_SEED'])
        self.mode = os.environ['VERIF_MODE']
        self.wd = os.environ['VERIF_WD']
        self.exts = json.loads(os.environ['VERIF_EXTS'])
        self.thorough = self.tier == 'thorough'
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.cases = {}
        self.harness_errors = []
        self.vcount = 0
        self.state = {}
        self.keys = {}

    # -- what the monitors report
    def saw(self, sig=None, n=1):
        """n oracle evaluations; sig identifies a distinct non-trivial case."""
        self.evaluations += n
        if sig is not None and len(self.sigs) < 400000:
            self.sigs.add(hashlib.blake2b(
                repr(sig).encode('utf-8', 'surrogatepass'),
                digest_size=6).hexdigest())

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def tmp(self, name):
        d = os.path.join(self.wd, 'cwd', name)
        os.makedirs(d, exist_ok=True)
        return d

    def violation(self, message, key=None, **detail):
        raise Violation(message, key=key, **detail)

    def report(self, message, key=None, **detail):
        """record and go on"""
        key = key or message[:80]
        self.vcount += 1
        if self.keys.get(key, 0) < 2:
            self.keys[key] = self.keys.get(key, 0) + 1
            self.violations.append({
                'scenario': self.scenario, 'index': self.index,
                'mode': self.mode, 'key': key, 'message': message,
                'detail': {k: (v if isinstance(v, (str, int, float, list))
                               else repr(v)) for k, v in detail.items()}})


def repo_frame(tb):
    last = None
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if fn.startswith('/repo/'):
            last = fn
    return last


def run_case(ctx, name, func, i, cpu):
    ctx.scenario, ctx.index = name, i
    rng = random.Random('%d/%s/%s/%d' % (
        ctx.seed, os.environ['VERIF_PROP'], name, i))
    # Cheetah draws region ids from the global generator
    random.seed('%d/%s/%d' % (ctx.seed, name, i))
    with open(os.path.join(ctx.wd, 'current.json'), 'w') as f:
        json.dump({'scenario': name, 'index': i}, f)
    ctx.cases[name] = ctx.cases.get(name, 0) + 1
    if cpu:
        signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        func(ctx, rng)
    except Skip:
        ctx.count('skipped:' + name)
    except Violation as v:
        ctx.report(v.message, key=v.key, **v.detail)
    except CaseTimeout:
        ctx.report('no result after %s s of CPU time' % cpu, key='hang:' + name,
                   stack=traceback.format_exc()[-1500:])
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        fn = repo_frame(e.__traceback__)
        if fn:
            ctx.report('unexpected %s out of the code under test: %s'
                       % (type(e).__name__, str(e)[:300]),
                       key='exc:%s:%s:%s' % (name, type(e).__name__,
                                             os.path.basename(fn)),
                       traceback=tb[-3000:])
        elif isinstance(e, (MemoryError, SystemError)) or \
                isinstance(e, OSError) and e.errno in (11, 12, 24, 28):
            ctx.harness_errors.append('%s[%d]: %s' % (name, i, tb[-2500:]))
        else:
            # the monitor could not make sense of what it was given
            ctx.report('the result could not be interpreted (%s: %s)'
                       % (type(e).__name__, str(e)[:300]),
                       key='odd:%s:%s' % (name, type(e).__name__),
                       traceback=tb[-3000:])
    finally:
        if cpu:
            signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    prop = os.environ['VERIF_PROP']
    w, nw = map(int, os.environ['VERIF_WORKER'].split('/'))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    only = os.environ.get('VERIF_ONLY')
    deadline = float(os.environ['VERIF_DEADLINE'])
    sys.setrecursionlimit(3000)

    def on_prof(sig, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, on_prof)

    pre = importlib.import_module('vlib.pre.' + prop.lower()) \
        if os.path.exists(os.path.join(HERE, 'vlib', 'pre',
                                       prop.lower() + '.py')) else None
    del pre
    boot.boot(os.environ['VERIF_MODE'])
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = Ctx(mod)
    cpu = getattr(mod, 'CPU', 10)
    usable = True
    if hasattr(mod, 'setup'):
        run_case(ctx, 'setup', lambda c, rng: mod.setup(c), 0, 60)
        usable = not (ctx.violations or ctx.harness_errors)
    replay = os.environ.get('VERIF_REPLAY')
    scen = {s[0]: s for s in mod.SCENARIOS}
    if not usable:
        pass
    elif replay:
        with open(replay) as f:
            r = json.load(f)
        s = scen.get(r['scenario'], ('setup', lambda c, rng: None))
        ctx.seed = r['seed']
        run_case(ctx, s[0], s[1], r['index'], cpu)
    else:
        todo = []
        for s in mod.SCENARIOS:
            name, func, nq, nt = s[:4]
            opts = s[4] if len(s) > 4 else {}
            if only and name != only:
                continue
            if opts.get('modes') and ctx.mode not in opts['modes']:
                continue
            n = int(round((nt if ctx.thorough else nq) * scale)) or 1
            # shares are dealt among the workers that can run the scenario
            modes = getattr(mod, 'MODES', ('c', 'c', 'pure'))
            able = [x for x in range(nw) if not opts.get('modes')
                    or modes[x % len(modes)] in opts['modes']]
            if w not in able:
                continue
            pos = able.index(w)
            for i in range(n):
                if i % len(able) == pos:
                    todo.append((i / n, name, func, i))
        todo.sort(key=lambda t: (t[0], t[1]))
        for _, name, func, i in todo:
            if time.time() > deadline:
                ctx.count('deadline_cut')
                break
            run_case(ctx, name, func, i, cpu)
            if sum(n for k, n in ctx.keys.items()
                   if k.startswith('hang:')) >= 2:
                break
            if ctx.vcount >= 25 or len(ctx.harness_errors) > 3:
                break
    if usable and hasattr(mod, 'finish'):
        ctx.scenario, ctx.index = 'finish', -1
        try:
            mod.finish(ctx)
        except Violation as v:
            ctx.report(v.message, key=v.key, **v.detail)
    out = {'evaluations': ctx.evaluations, 'sigs': sorted(ctx.sigs),
           'samples': ctx.samples, 'counters': ctx.counters,
           'violations': ctx.violations, 'cases': ctx.cases,
           'harness_errors': ctx.harness_errors}
    path = os.environ['VERIF_OUT']
    with open(path + '.tmp', 'w') as f:
        json.dump(out, f, default=repr)
    os.rename(path + '.tmp', path)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
