"""C03: the native and the pure-Python lookup agree."""
import importlib.util
import sys
import types
import collections
from vlib import boot, gen, graph
from vlib.core import same, Violation, need
from vlib.t import compile_, outcome

RULE = ('Both flavours of every lookup function run on the same generated '
        'object graph and dotted name; the monitor compares result identity, '
        'exception type and message, and the log of calls made. Distinct: '
        'function, autocall flag, shape of the path (kinds of objects '
        'passed through) and outcome. A single-name hit in a plain dict '
        'counts as trivial.')
TECHNIQUE = ('differential runtime monitoring of both implementations on the '
             'same generated object graphs')
LEVEL_NOTE = ('Sampled graphs and names; both flavours run in one process, '
              'the extension is rebuilt from the working tree.')
MODES = ('c',)


def setup(ctx):
    ctx.C = boot.load_ext(ctx.exts['c'], 'Cheetah._namemapper')
    sys._cheetah_namemapper_pure = True
    spec = importlib.util.spec_from_file_location(
        'Cheetah.NameMapper_pure', '/repo/Cheetah/NameMapper.py')
    mod = importlib.util.module_from_spec(spec)
    sys.modules['Cheetah.NameMapper_pure'] = mod
    spec.loader.exec_module(mod)
    del sys._cheetah_namemapper_pure
    need(not mod.C_VERSION, 'pure flavour not selected')
    ctx.P = mod
    from Cheetah import NameMapper
    globals()['NameMapper'] = NameMapper


def run(fn, log):
    del log[:]
    try:
        r = ('ok', fn())
    except RecursionError:
        r = ('raised', 'RecursionError', '')
    except Exception as e:
        r = ('raised', type(e).__name__, str(e))
    return r, list(log)


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'raised':
        return a == b
    x, y = a[1], b[1]
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, (types.BuiltinFunctionType, types.MethodWrapperType)) \
            and x.__name__ == y.__name__ and \
            type(x.__self__) is type(y.__self__):
        # a method of a fresh value or of the (fresh) dictionary of locals
        if isinstance(x.__self__, dict):
            return True
        try:
            return bool(x.__self__ == y.__self__)
        except Exception:
            return False
    if isinstance(x, (type({}.keys()), type({}.items()), type({}.values()))):
        return True
    if isinstance(x, dict):
        x = {k: v for k, v in x.items() if k not in ('fn', 'SL')}
        y = {k: v for k, v in y.items() if k not in ('fn', 'SL')}
    try:
        return bool(x == y)
    except Exception:
        return False


def kinds(scopes, name):
    out = []
    for ns in scopes:
        try:
            here = graph.has(ns, name.split('.')[0])
        except Exception:
            out.append('!!')
            break
        if here:
            v = ns
            for p in name.split('.'):
                out.append(type(v).__name__[:6])
                try:
                    v = graph.autocall(graph.fetch(v, p))
                except Exception as e:
                    out.append('!' + type(e).__name__)
                    break
            out.append(type(v).__name__[:6])
            break
    return tuple(out)


FRAME = '''
def call(fn, SL, name_, ec, {params}):
    return fn(SL, name_, ec)
def callf(fn, SL, name_, ec, {params}):
    return fn(name_, ec)
def callk(fn, SL, name_, ec, {params}):
    return fn(searchList=SL, name=name_, executeCallables=ec)
'''


def lookups(ctx, rng):
    g = graph.Graph(rng)
    roots = {}
    for n in rng.sample(graph.NAMES, rng.randint(2, 6)):
        roots[n] = g.node(4)
    nss = []
    for _ in range(rng.randint(1, 4)):
        ns = {n: (roots[n] if n in roots and rng.random() < .6
                  else g.node(2)) for n in rng.sample(graph.NAMES, 3)}
        k = rng.randint(0, 4)
        if k == 1:
            o = graph.Plain()
            o.__dict__.update(ns)
            ns = o
        elif k == 2:
            ns = graph.Own(ns)
        elif k == 3:
            ns = g.node(3)
        nss.append(ns)
    nss.append(roots)
    rng.shuffle(nss)
    lcl = {n: g.node(2) for n in rng.sample(['a', 'c', 'e', 'name', 'loc'],
                                            rng.randint(1, 3))}
    glb = {n: g.node(2) for n in rng.sample(['b', 'd', 'glo', 'count', 'len'],
                                            rng.randint(1, 3))}
    ns = dict(glb)
    exec(FRAME.format(params=', '.join(sorted(lcl))), ns)
    args = [lcl[k] for k in sorted(lcl)]
    for _ in range(12):
        name = graph.path(g, roots if rng.random() < .7 else
                          rng.choice([lcl, glb, rng.choice(nss)]), rng)
        if rng.random() < .06:
            name = '.'.join([name] * rng.randint(1, 3))
            name = '.'.join(name.split('.')[:12])
        if rng.random() < .05:
            name = rng.choice(['len', 'None', 'str.upper', 'dict.fromkeys',
                               'print', 'abs', '__name__', 'ValueError'])
        ec = rng.choice([0, 1, True, False])
        obj = rng.choice(nss + [roots, rng.choice(g.pool)])
        sl = rng.choice([nss, tuple(nss), [], iter_of(nss), iter_of(nss),
                         iter_of(nss, rng.randint(0, len(nss)))])
        which = rng.randint(0, 5)
        C, P = ctx.C, ctx.P

        def call(M):
            s = sl() if callable(sl) else sl
            if which == 0:
                return M.valueForKey(obj, name.split('.')[0])
            if which == 1:
                return M.valueForName(obj, name, ec)
            if which == 2:
                return M.valueFromSearchList(s, name, executeCallables=ec)
            if which == 3:
                return ns['call'](M.valueFromFrameOrSearchList, s, name, ec,
                                  *args)
            if which == 4:
                return ns['callf'](M.valueFromFrame, s, name, ec, *args)
            return ns['callk'](M.valueFromFrameOrSearchList, s, name, ec,
                               *args)
        c, clog = run(lambda: call(C), g.log)
        p, plog = run(lambda: call(P), g.log)
        if not equal(c, p):
            raise Violation('native and pure lookup disagree', key='differ',
                            function=which, name=name, native=repr(c)[:500],
                            pure=repr(p)[:500])
        if which == 0 or True:
            # the first component's presence test may evaluate properties,
            # which both flavours do equally often
            same([x for x in clog if x[0] != 'raise'],
                 [x for x in plog if x[0] != 'raise'],
                 'the flavours made different calls', key='calls', name=name)
        if which == 1 and not ec:
            want = ('ok', True) if c[0] == 'ok' else ('ok', False) \
                if c[1] == 'NotFound' else c
            for M in (NameMapper, P):
                same(run(lambda: M.hasName(obj, name), g.log)[0], want,
                     'the presence test and the lookup disagree',
                     key='hasName', name=name, native=M.C_VERSION)
        need(not any(x[0] == 'wrongcall' for x in clog),
             'an instance was called implicitly', key='wrongcall', name=name)
        sig = (which, bool(ec), kinds([obj] if which < 2 else nss, name),
               c[0] if c[0] == 'ok' else c[1])
        ctx.saw(sig if sig[2] != ('dict', 'int') else None)
        ctx.count('fn%d' % which)
        ctx.count('ok' if c[0] == 'ok' else 'raised:' + c[1])
        ctx.count('calls_logged', len(clog))
    ctx.sample({'name': name, 'result': repr(c)[:200]})


def iter_of(nss, fail=None):
    def fn():
        for n, x in enumerate(list(nss) + [None]):
            if n == fail:
                raise ZeroDivisionError('the search list failed')
            if n < len(nss):
                yield x
    return fn


class GetItemOnly(object):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


class BadItem(graph.Own):
    def __getitem__(self, k):
        raise ValueError('no item')


PROBES = [
    ('defaultdict', lambda: collections.defaultdict(list), 'anything'),
    ('getitem-only', lambda: GetItemOnly({'a': 1}), 'a'),
    ('failing-item', lambda: BadItem({'a': 1}), 'a'),
]


def probes(ctx, rng):
    """namespaces on which `in` and item access disagree"""
    tag, make, name = PROBES[ctx.index % len(PROBES)]
    c, _ = run(lambda: ctx.C.valueForName(make(), name), [])
    p, _ = run(lambda: ctx.P.valueForName(make(), name), [])
    ctx.saw(('probe', tag))
    if not equal(c, p):
        ctx.report('native %r, pure %r' % (c, p), key='probe:' + tag)


def templates(ctx, rng):
    """whole renderings with the lookup functions of either flavour"""
    g = gen.TGen(rng, maxdepth=3, budget=20)
    g.template()
    src = g.w.src()
    if rng.random() < .3:
        # break something so that errors are compared as well
        bad = rng.choice(['$no_such', '$o1.nosuch', '$d1.b.zip.x',
                          '$o1.num.real.q', '$f1.a', '$lst.nope(1)'])
        src += bad + ' '
    cls = compile_(src, compilerSettings=rng.choice([
        None, {'useStackFrames': False}]) or {})
    mod = sys.modules[cls.__module__]
    fac = gen.make_data(rng)
    res = []
    for M in (ctx.C, ctx.P):
        for k, v in (('VFFSL', 'valueFromFrameOrSearchList'),
                     ('VFSL', 'valueFromSearchList'),
                     ('VFN', 'valueForName'), ('NotFound', 'NotFound')):
            if hasattr(mod, k):
                setattr(mod, k, getattr(M, v))
        sl, log = fac()
        res.append((outcome(lambda: str(cls(searchList=sl))), list(log)))
    same(res[0], res[1], 'a template renders differently with and without '
         'the extension', key='template', src=src)
    sys.modules.pop(cls.__module__, None)
    ctx.saw(('t', tuple(sorted(g.x.used)), res[0][0][0]))
    ctx.count('templates')


SCENARIOS = [
    ('lookups', lookups, 6000, 120000),
    ('templates', templates, 600, 8000),
    ('probes', probes, 3, 3),
]
REQUIRED = {'calls_logged': 1000, 'raised:NotFound': 500, 'ok': 1000}
