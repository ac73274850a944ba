"""C07: every top-level value passes the active output filter exactly once."""
from vlib import regions
from vlib.core import same, need
from vlib.t import compile_, outcome

RULE = ('Templates nest filter regions with calls, captures, methods, blocks, '
        'closures, caches, includes and all ways of leaving them; recording '
        'filters log each call (filter, value, arguments, raw expression) and '
        'an explicit model predicts log and output, over two renderings. '
        'Distinct: set of constructs and ways out, plus log length. The '
        'supplied filters are compared with exact definitions on hostile '
        'values; distinct there: filter, options and value.')
TECHNIQUE = ('recording filters hooked into the running template, the log '
             'checked against an interpreter of the region structure')
LEVEL_NOTE = ('#stop inside a call, capture or cache body is not generated '
              '(known finding of C08).')


def rows(log):
    return [repr(x) for x in log]


def go(ctx, rng, gen):
    prog = gen.program()
    src = prog[0]
    seq = [rng.random() < .4 for _ in range(rng.randint(2, 7))]
    mlog, log = [], []
    model = regions.Interp(prog, regions.namespace(seq), mlog)
    lib, klasses = regions.filters(log)
    ns = regions.namespace(seq)
    ns.update(klasses)
    ns['sub'] = compile_(regions.SUB)(searchList=[ns])
    cls = compile_(src)
    t = cls(searchList=[ns], filter=rng.choice(['FI', lib.FI]),
            filtersLib=lib)
    for n in range(2):
        del mlog[:], log[:]
        want = outcome(model.render)
        got = outcome(lambda: str(t))
        if want[0] == 'raised':
            need(got[0] == 'raised' and got[1] == want[1],
                 'rendering %d ends differently' % n, key='ending',
                 src=src, is_=repr(got), should_be=repr(want))
        else:
            same(got, want, 'rendering %d differs' % n, key='output', src=src,
                 seq=repr(seq))
        same(rows(log), rows(mlog), 'filter calls of rendering %d' % n,
             key='calls', src=src, seq=repr(seq))
        ctx.count('filter_calls', len(log))
        ctx.saw((tuple(sorted(gen.feat)), len(log) // 4, want[0])
                if 'filter' in gen.feat else None)
    for f in gen.feat:
        ctx.count('construct:' + f)
    ctx.sample({'src': src, 'out': want[1]})


def nested(ctx, rng):
    go(ctx, rng, regions.Gen(rng, budget=rng.choice([6, 12, 25]),
                             maxdepth=rng.choice([2, 3, 4])))


# ------------------------------------------------------ supplied filters

CH = 'ab <>&"\'\n\t\r\x0b;#=%\x00\x85\u2028\xa0\xe9\u4e2d\U0001f600'
ALSO = ' "\'=%/()\t\xe9\u4e2d{}`_$~'
ENT = {' ': '&nbsp;', '"': '&quot;'}


class Odd(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class SubStr(str):
    pass


def supplied(ctx, rng):
    from Cheetah import Filters
    for _ in range(20):
        s = ''.join(rng.choice(CH) for _ in range(rng.choice(
            [0, 1, 2, 5, 20, 60])))
        v = rng.choice([s, s, s, Odd(s), SubStr(s), rng.randint(-9, 10 ** 6),
                        1.25, True, None, [s, 1], {'<': s}, (1,), object])
        text = '' if v is None else v if isinstance(v, str) else str(v)
        name = rng.choice(['RawOrEncodedUnicode', 'EncodeUnicode', 'WebSafe',
                           'MaxLen', 'Strip', 'StripSqueeze'])
        kw, want = {}, text
        if name == 'WebSafe':
            m = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
            if rng.random() < .6:
                kw['also'] = ''.join(rng.sample(ALSO, rng.randint(0, 6)))
                for c in kw['also']:
                    m[c] = ENT.get(c, '&#%d;' % ord(c))
            want = ''.join(m.get(c, c) for c in text)
        elif name == 'MaxLen':
            if rng.random() < .8:
                kw['maxlen'] = rng.choice([0, 1, 2, 5, 19, 20, 21, 100])
                want = text[:kw['maxlen']]
        elif name == 'Strip':
            want = '\n'.join(ln.strip() for ln in text.split('\n'))
        elif name == 'StripSqueeze':
            want = ' '.join(text.split())
        got = getattr(Filters, name)().filter(v, **kw)
        need(isinstance(got, str), 'a filter returned no text', key='type',
             filter=name, value=repr(v), is_=repr(got))
        same(str(got), str(want), '%s filter' % name, key='filter:' + name,
             value=repr(v), args=repr(kw))
        # and through a template, as instance filter or region
        key = rng.choice(['x', 'x', 'o.x'])
        ph = '${%s%s}' % (key, ''.join(', %s=$%s' % (k, k) for k in kw))
        ns = dict(kw, x=v, o={'x': v})
        how = rng.randint(0, 3)
        if how == 0:
            t = compile_('<&"' + ph + '">')(searchList=[ns], filter=name)
        elif how == 1:
            t = compile_('<&"#filter %s#%s#end filter#">' % (name, ph))(
                searchList=[ns])
        elif how == 2:
            ns['K'] = getattr(Filters, name)
            t = compile_('<&"#filter $K#%s#end filter#">' % ph)(
                searchList=[ns])
        else:
            t = compile_('#def m#%s#end def#<&"#filter %s##silent 1##end '
                         'filter##filter %s#%s#end filter#">'
                         % ('', name, name, ph))(searchList=[ns])
        same(str(t), '<&"' + str(want) + '">', '%s filter in a template'
             % name, key='template:' + name, value=repr(v), args=repr(kw))
        ctx.saw((name, sorted(kw.items()), repr(v), how))
        ctx.count('supplied:' + name)
        if name == 'WebSafe':
            need(not set('<>') & set(got), 'raw markup', key='websafe')


def transform(ctx, rng):
    """#transform filters the whole output once, literal text included."""
    from Cheetah.Filters import Filter
    log = []

    class T(Filter):
        def filter(self, val, **kw):
            log.append(val)
            return '{' + val.upper() + '}'
    words = [rng.choice(['a ', 'b\n', '<c>', '$x ', '${x}', '#if $one#y#end '
                         'if#', '\xe9']) for _ in range(rng.randint(1, 8))]
    stop = rng.random() < .3
    body = ''.join(words)
    plain = str(compile_(body)(searchList=[{'x': 'ex', 'one': 1}]))
    if stop:
        src = '#transform $TT\n' + body + '#stop#more'
    else:
        src = '#transform $TT\n' + body
    t = compile_(src)(searchList=[{'x': 'ex', 'one': 1, 'TT': T}])
    for n in range(2):
        del log[:]
        same(str(t), '{' + plain.upper() + '}', 'transformed output',
             key='transform', src=src)
        same(log, [plain], 'the transformer is applied once to all output',
             key='transformcalls', src=src)
        ctx.saw(('transform', src))
    ctx.count('transforms')


SCENARIOS = [
    ('nested', nested, 5000, 100000),
    ('supplied', supplied, 150, 4000),
    ('transform', transform, 150, 2000),
]
REQUIRED = {'filter_calls': 20000, 'construct:filter': 1500,
            'construct:break': 60, 'construct:return': 30,
            'construct:stop': 60, 'construct:boom:filter': 30,
            'supplied:WebSafe': 200, 'supplied:MaxLen': 200,
            'transforms': 100}
DESIGN = '''Recording filter classes are installed as the instance filter, in a filters
library and as `$Klass` filters; each call is logged with value, arguments and
raw expression. `vlib/regions.py` generates templates that nest filter regions
in and around calls, captures, methods, blocks, closures, caches, includes,
loops and try blocks and leave them normally, by break, continue, return, stop
and exceptions, and predicts log and output from the region structure alone.
Each instance is rendered twice, so a filter that stays in force is seen.
Tests render each filter once in straight-line templates; the interleavings of
regions, exits and re-rendering are what this reaches. The supplied filters
are compared with one-line definitions over hostile text.'''
