"""C08: captured, called and nested output is conserved."""
from vlib import regions
from vlib.core import same, need
from vlib.t import compile_, outcome

RULE = ('Templates nest call, capture, def, block, closure, cache, include '
        'and nested-template bodies with every way of leaving them; every '
        'literal word is unique, so the output shows where each piece went '
        'and how often. Distinct: set of constructs and exits plus the '
        'destination mode (string, own transaction, awake).')
TECHNIQUE = ('conservation monitor: unique tokens traced from source to '
             'destination, compared with an explicit model of destinations; '
             'a recording transaction observes every write')
LEVEL_NOTE = ('With a transaction set by awake(), methods write straight to '
              'it, so bodies with return values or exceptions inside methods '
              'are compared for strings and explicit transactions only.')


class Resp(object):
    def __init__(self):
        self.chunks = []

    def write(self, s):
        need(isinstance(s, str), 'something other than text was written',
             key='type', is_=repr(s))
        self.chunks.append(s)

    def flush(self):
        pass


class Trans(object):
    def __init__(self):
        self._r = Resp()

    def response(self):
        return self._r

    def request(self):
        return None

    def text(self):
        return ''.join(self._r.chunks)


def go(ctx, rng, gen, awake):
    prog = gen.program()
    src = prog[0]
    seq = [rng.random() < .4 for _ in range(rng.randint(2, 7))]
    cls = compile_(src)
    for mode in ('string', 'trans') + (('awake', 'plain') if awake else ()):
        if mode == 'plain' and rng.random() < .5:
            continue
        mlog = []
        model = regions.Interp(prog, regions.namespace(seq), mlog,
                               initial=None)
        ns = regions.namespace(seq)
        ns['sub'] = compile_(regions.SUB)(searchList=[ns])
        ns.update(K1=None, K2=None)
        t = cls(searchList=[ns])
        for n in range(2):
            want = outcome(model.render)
            if mode == 'string':
                got = outcome(lambda: str(t))
            elif mode == 'plain':
                got = outcome(lambda: t.respond())
            elif mode == 'trans':
                tr = Trans()
                got = outcome(lambda: (t.respond(tr), tr.text())[1])
            else:
                tr = Trans()
                t.transaction = tr
                got = outcome(lambda: (t.respond(), tr.text())[1])
                t.transaction = None
            if want[0] == 'raised':
                need(got[0] == 'raised' and got[1] == want[1], '%s rendering '
                     '%d ends differently' % (mode, n), key='ending',
                     src=src, is_=repr(got), should_be=repr(want))
            else:
                same(got, want, '%s rendering %d: output is not conserved'
                     % (mode, n), key='output', src=src, seq=repr(seq))
            ctx.saw((tuple(sorted(gen.feat)), mode, want[0]))
            ctx.count('tokens', len(want[1]) if want[0] == 'ok' else 0)
            ctx.count('mode:' + mode)
    for f in gen.feat:
        ctx.count('construct:' + f)
    ctx.sample({'src': src, 'out': want[1]})


def bodies(ctx, rng):
    go(ctx, rng, regions.Gen(rng, budget=rng.choice([6, 12, 25]),
                             maxdepth=rng.choice([2, 3, 4, 5]),
                             filters=False), False)


def servlet(ctx, rng):
    go(ctx, rng, regions.Gen(rng, budget=rng.choice([6, 12, 25]),
                             maxdepth=rng.choice([2, 3, 4]), filters=False,
                             boom=False, returns=False), True)


PROBES = [
    ('capture', 'a#capture c#b#stop##end capture#d', 'a'),
    ('call', 'a#call $str#b#stop##end call#d', 'a'),
    ('cache', 'a#cache#b#stop##end cache#d', 'a'),
]


def probes(ctx, rng):
    name, src, want = PROBES[ctx.index % len(PROBES)]
    same(str(compile_(src)()), want, '#stop inside a %s body' % name,
         key='probe:stop-in-' + name, src=src)
    ctx.saw()


def methods(ctx, rng):
    """Methods called from Python, with and without a transaction."""
    words = ['w%d ' % i for i in range(6)]
    src = ('#def m(a="x")\n%s$a %s\n#end def\n#def n\n%s$m("y")%s#end def\n'
           '#block b\n%s#end block\n' % tuple(words[:5]))
    t = compile_(src)()
    a = rng.choice(['q', '', 'zz', 0, None])
    body = {'m': words[0] + ('' if a is None else str(a)) + ' ' + words[1]
            + '\n', 'n': words[2] + words[0] + 'y ' + words[1] + '\n'
            + words[3], 'b': words[4]}
    for name in rng.sample(['m', 'n', 'b'], 3):
        args = (a,) if name == 'm' else ()
        same(getattr(t, name)(*args), body[name], 'return value of a method',
             key='method', name=name)
        tr = Trans()
        r = getattr(t, name)(*args, trans=tr)
        same((r, tr.text()), ('', body[name]), 'a method given a transaction '
             'writes there and returns nothing', key='methodtrans', name=name)
        ctx.saw(('method', name, a))
    same(str(t), '\n' + words[4] + '\n', 'main method', key='main')


def counter(counts, name):
    def fn(*a, **k):
        counts[name] += 1
        return 'called'
    return fn


def autocall(ctx, rng):
    """#call never calls the method before its body is there, and leaves
    autocalling of what follows as it was."""
    auto = rng.random() < .5
    counts = {'c': 0, 'f': 0}
    c, f = counter(counts, 'c'), counter(counts, 'f')
    parts = [('$kind($c);', 'called;' if auto else 'uncalled;', auto),
             ('$kind($o.c);', 'called;' if auto else 'uncalled;', auto)]
    calls = [('#call $f#b#end call#', 'called'),
             ('#call $o.f#b#end call#', 'called'),
             ('#call $f x=1#b$c#end call#', 'called'),
             ('#call $o.f##arg y#b$o.c#end call#', 'called')]
    src, want, nc, nf = '', '', 0, 0
    for i in range(rng.randint(2, 6)):
        if rng.random() < .5:
            s, w = rng.choice(calls)
            nf += 1
            nc += auto and 'c#end' in s
        else:
            s, w, k = rng.choice(parts)
            nc += k
        src += s
        want += w
    ns = {'kind': lambda x: x if x == 'called' else 'uncalled',
          'c': c, 'f': f, 'o': {'c': c, 'f': f}}
    t = compile_(src, compilerSettings={'useAutocalling': auto})(
        searchList=[ns])
    same(str(t), want, 'calls and placeholders', key='autocall', src=src,
         auto=auto)
    same((counts['c'], counts['f']), (nc, nf), 'number of calls made', key='autocalls',
         src=src, auto=auto)
    ctx.saw(('auto', src, auto))


SCENARIOS = [
    ('autocall', autocall, 150, 3000),
    ('bodies', bodies, 3500, 70000),
    ('servlet', servlet, 1500, 30000),
    ('methods', methods, 40, 200),
    ('probes', probes, 3, 3),
]
REQUIRED = {'tokens': 500000, 'construct:capture': 800, 'construct:call0': 500,
            'construct:closure': 300, 'construct:break': 60,
            'construct:block': 300, 'construct:cache': 300,
            'mode:awake': 2000}
DESIGN = '''The region generator of C07 without filters: every literal word in a
template is unique, so the output is a trace of which piece went where and how
often. The model keeps explicit destinations (surrounding output, collector of
a call argument or capture, method result). Each program is rendered twice to
a string, to a recording transaction passed to respond(), and (where methods
cannot be abandoned half-way) to one set as the instance's transaction; breaks, continues,
returns and exceptions leave bodies at random depths. #stop inside a collected
body is a known finding, probed separately.'''
