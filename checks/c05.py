"""C05: flow-control and assignment directives behave as Python statements."""
from vlib.core import same, Violation
from vlib import gen, pyprog

RULE = ('Templates are drawn from a grammar over the flow-control, assignment, '
        'exception and PSP directives with nested expressions; an independent '
        'interpreter predicts output and evaluation trace. Distinct: the '
        'multiset of constructs used plus the output length class; trivial '
        '(no directive at all) cases are not counted.')


def render(src, sl, **kw):
    from Cheetah.Template import Template
    return str(Template.compile(src, cacheCompilationResults=False,
                                **kw)(searchList=sl))


def flow(ctx, rng):
    g = gen.TGen(rng, maxdepth=rng.randint(1, 4),
                 budget=rng.choice([10, 20, 40]))
    run = g.template()
    src = g.w.src()
    fac = gen.make_data(rng)
    sl, log = fac()
    want = gen.reference(run, gen.World(sl))
    sl2, log2 = fac()
    try:
        got = render(src, sl2)
    except Exception as e:
        raise Violation('a valid template failed: %s: %s' % (
            type(e).__name__, str(e)[:400]), key='fails', src=src, want=want)
    same(got, want, 'output differs from the reference interpreter',
         key='output', src=src)
    same(log2, log, 'evaluation trace differs', key='trace', src=src)
    fs = sorted(g.features) + sorted(g.x.used)
    if set(g.features) - {'text', 'ph'}:
        ctx.saw((tuple(fs), len(want) // 20))
    else:
        ctx.saw()
    for f in g.features:
        ctx.count('construct:' + f)
    ctx.count('trace_events', len(log))
    ctx.sample({'src': src, 'out': want})


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


def program(ctx, rng):
    g = pyprog.PGen(rng, eol=rng.choice(['\n'] * 5 + ['\r\n', '\r']),
                    budget=rng.choice([15, 40, 60]),
                    maxdepth=rng.choice([3, 4, 6]))
    src, py = g.program()
    fac = pyprog.data(rng)
    ns, log = fac()
    want = outcome(lambda: pyprog.run_python(py, ns))
    ns2, log2 = fac()
    got = outcome(lambda: render(src, [ns2]))
    same(got, want, 'the template does not do what the Python statements do',
         key='program', src=src, python=py)
    same(log2, log, 'evaluation trace differs from Python', key='ptrace',
         src=src)
    ctx.saw((tuple(sorted(g.feat)), want[0], len(py) // 100))
    for f in g.feat:
        ctx.count('stmt:' + f)
    ctx.count('ended:' + (want[0] if want[0] == 'ok' else want[1]))
    ctx.count('trace_events', len(log))
    ctx.sample({'src': src, 'python': py}, limit=3)


class Box(object):
    """An object with attributes and items, nested as deep as one looks."""

    def __init__(self, depth=3):
        self.items = {}
        self.n = 0
        if depth:
            self.a = Box(depth - 1)
            self.b = Box(depth - 1)
            self.items = {'a': Box(depth - 1), 'k.v': Box(depth - 1),
                          'x[y': Box(depth - 1), 2: Box(depth - 1)}

    def __getitem__(self, key):
        return self.items[key]

    def __setitem__(self, key, value):
        self.items[key] = value

    def __delitem__(self, key):
        del self.items[key]

    def dump(self):
        return '<%s>' % ' '.join(
            '%s=%s' % (k, v.dump() if isinstance(v, Box) else v)
            for k, v in sorted(list(vars(self).items())
                               + [(repr(k), v) for k, v in
                                  self.items.items()])
            if k != 'items')


def assign(ctx, rng):
    """#set and #set global of parts of objects: the variable named first is
    taken from the right scope, the rest is a Python target."""
    src, py = [], []
    scopes = {'g': [], 'l': []}
    names = {'g': ['gone', 'global_', 'g2'], 'l': ['lone', 'local_', 'l2']}
    ints = []
    feats = set()
    for n in range(rng.randint(3, 10)):
        sc = rng.choice('gl')
        word = {'g': 'global ', 'l': rng.choice(['', 'local '])}[sc]
        what = rng.random()
        if not scopes[sc] or what < .25:
            v = rng.choice(names[sc])
            if v in ints:
                continue
            src.append('#set %s$%s = $mk()' % (word, v))
            py.append('%s["%s"] = mk()' % (sc.upper(), v))
            if v not in scopes[sc]:
                scopes[sc].append(v)
            continue
        if what < .35:
            ix = 'ix%d' % n
            src.append('#set $%s = %s' % (ix, rng.choice(['2', "'a'"])))
            py.append('L["%s"] = %s' % (ix, src[-1].split(' = ')[1]))
            ints.append(ix)
            continue
        v = rng.choice(scopes[sc])
        path, pypath = '', ''
        kinds = []
        for d in range(rng.randint(0, 2)):
            if rng.random() < .5:
                step = rng.choice(['.a', '.b'])
                pystep = step
                kinds.append('attr')
            elif ints and rng.random() < .3:
                ix = rng.choice(ints)
                step = rng.choice(['[$%s]', '[%s]']) % ix
                pystep = '[L["%s"]]' % ix
                kinds.append('var')
            else:
                step = pystep = rng.choice(
                    ["['a']", '["a"]', "['k.v']", "['x[y']", '[2]', '[1 + 1]'])
                kinds.append('item')
            path += step
            pypath += pystep
        aug = rng.random() < .4
        if aug:
            path += '.n'
            pypath += '.n'
            op = rng.choice(['+=', '-=', '*=', '|=', '//='])
            kinds.append('aug')
        else:
            last = rng.choice(['.c', '.n', "['z']", "['k.z']", '[7]'])
            path += last
            pypath += last
            op = '='
            kinds.append('attr' if last[0] == '.' else 'item')
        val = rng.choice(['1', '$two', '3 + $two', '$len("a=b")', '(4)'])
        src.append('#set %s$%s%s %s %s' % (word, v, path, op, val))
        py.append('%s["%s"]%s %s %s' % (sc.upper(), v, pypath, op,
                                        val.replace('$', '')))
        feats.add((sc,) + tuple(kinds))
    src += ['$%s.dump()' % v for v in scopes['g'] + scopes['l']]
    eol = rng.choice(['\n', '\n', '\r\n', '\r'])
    text = eol.join(src) + eol
    G, L = {}, {}
    exec('\n'.join(py), {'G': G, 'L': L, 'mk': Box, 'two': 2, 'len': len})
    want = ''.join((G if v in G else L)[v].dump() + eol
                   for v in scopes['g'] + scopes['l'])
    got = outcome(lambda: render(text, [{'mk': lambda: Box(), 'two': 2}]))
    same(got, ('ok', want), 'assignments differ from Python', key='assign',
         src=text, python='\n'.join(py))
    ctx.saw(tuple(sorted(feats)))
    for f in feats:
        ctx.count('target:' + '/'.join(f))


TECHNIQUE = ('reference-interpreter monitor: generated directive programs '
             'run against the equivalent Python statements, comparing output '
             'and logged evaluations')
LEVEL_NOTE = ('Sampled programs and data; the reference is a separate '
              'interpreter and CPython itself.')
SCENARIOS = [
    ('flow', flow, 4000, 60000),
    ('program', program, 4000, 80000),
    ('assign', assign, 1500, 20000),
]
