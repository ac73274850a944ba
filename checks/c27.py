"""C27: methods defined in templates are the Python methods they describe."""
from vlib.core import Violation, same
from vlib.t import compile_

RULE = ('Templates with methods, blocks, closures, decorators and attributes '
        'are generated together with the Python class they describe; every '
        'method is called from Python and from the template with matching '
        'and mismatched arguments. Distinct: the set of (kind, parameter '
        'kinds, decorators, call outcome) of the template.')
TECHNIQUE = ('differential monitor: calls of template-defined methods against '
             'an equivalent Python class, with decorators and bodies logging '
             'what is applied and called')
QUICK_SCALE = 2
LEVEL_NOTE = 'Sampled definitions and calls; the reference is CPython.'

DEFAULTS = ['1', "'s'", '"),"', '(1, 2)', '[1, [2, (3,)]]', "{'k': 'v', 2: 3}",
            '-1', 'not 0', 'K[1]', 'K[0](3)', '1 + 2 * 3', 'None', 'True',
            '1 if K else 2', '1 == 1', '2 >= 1', '1 or 2', '1.5e3', "u'x'",
            '[i for i in range(3)]', '"""q"""', "'#'", "'a=b'", 'len("abc")',
            "dict(a=1, b=[2])['b']", '"it\'s"', '$K[1]', '$len("ab")',
            '[$K[1], 2]']
VALUES = ['1', "'z'", '[3, 4]', '(5,)', "{'p': 1}", 'None', '0', '2.5',
          "'a b'", '-7', "' s\\t'"]
TEXTS = ['x', ' and ', '<b>', '&', "it's", '"', '100%', '%s', '\\ ', 'def',
         '(', '), ', ': ', '@', 'é']
BASIC = (int, float, str, list, tuple, dict)
NAMES = ['alpha', 'beta', 'gamma_', 'delta', 'eps1']


class Double(object):
    def __call__(self, v):
        return v * 2

    def __repr__(self):
        return 'Double'

    def __eq__(self, other):
        return type(self) is type(other)


class Env(object):
    """The names that definitions may use, with their own logs."""

    def __init__(self):
        self.log = log = []

        def wrap(label, fn):
            log.append(('applied', label, fn.__name__))

            def wrapper(*args, **kw):
                kw2 = {k: v for k, v in kw.items() if k != 'trans'}
                log.append(('called', label, fn.__name__, [
                    x for x in args if isinstance(x, BASIC)], sorted(kw2)))
                r = fn(*args, **kw)
                if fn.__name__.startswith('block'):
                    return r        # blocks write; what they return is unused
                if hasattr(r, '__next__'):
                    return [label] + list(r)
                if isinstance(r, str):
                    return '%s(%s)' % (label, r)
                return (label, r)
            wrapper.__name__ = fn.__name__
            return wrapper

        def plain(fn):
            return wrap('plain', fn)

        def same_(fn):
            log.append(('applied', 'same', fn.__name__))
            return fn

        def label(name, *more, **kw):
            return lambda fn: wrap(
                ':'.join((name,) + more + tuple(sorted(kw))), fn)

        class lib(object):
            class deep(object):
                mark = staticmethod(lambda fn: wrap('mark', fn))
        self.names = {'plain': plain, 'same_': same_, 'label': label, 'lib': lib,
                      'K': [Double(), 'k1']}


def show(v):
    return '' if v is None else str(v)


class G(object):
    def __init__(self, rng):
        self.r = rng
        self.feats = set()

    def decorators(self, kind):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            out.append(r.choice(['plain', "label('a')", "label('b', 'c')",
                                 'label("(\'", z=1)', 'lib.deep.mark',
                                 "label(name='n')"]))
        return out

    def params(self):
        r = self.r
        ps = []
        names = r.sample(NAMES, r.randint(0, 4))
        dflt = False
        for n in names:
            dflt = dflt or r.random() < .4
            ps.append((n, r.choice(DEFAULTS) if dflt else None))
        star = r.random() < .25
        if star:
            ps.append(('*rest', None))
        kws = r.random() < .25
        if kws:
            ps.append(('**more', None))
        return ps, star, kws

    def signature(self, ps):
        r = self.r
        out = []
        for n, d in ps:
            s = n if n[0] == '*' or r.random() < .4 else '$' + n
            if d is not None:
                s += r.choice(['=', '=', ' = ', '= ']) + d
            out.append(s)
        sep = r.choice([', ', ',', ' , ', ',\n    '])
        pad = r.choice(['', '', ' '])
        return '(' + pad + sep.join(out) + pad + ')'

    def pysig(self, ps):
        return ', '.join(n if d is None else '%s=%s' % (n, d.replace('$', ''))
                         for n, d in ps)

    def segments(self, ps):
        """-> [(template text, python expression of the text)]"""
        r = self.r
        out = []
        names = [n.lstrip('*') for n, d in ps]
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5 or not names:
                t = r.choice(TEXTS)
                out.append((t, repr(t)))
            else:
                n = r.choice(names)
                if n == 'more':
                    out.append(('${sorted($more.items())}',
                                'show(sorted(more.items()))'))
                elif x < .85:
                    out.append(('${%s}' % n, 'show(%s)' % n))
                else:
                    out.append(('${str($%s) + "!"}' % n,
                                'show(str(%s) + "!")' % n))
        return out

    def closure(self, n, static):
        """a function defined inside a method"""
        r = self.r
        ps, star, kws = self.params()
        ps = [p for p in ps if p[0][0] != '*'][:2]
        decos = self.decorators('closure')
        segs = self.segments(ps)
        word = r.choice(['closure', 'def'])
        name = 'inner%d' % n
        line = r.random() < .3
        t = ['#@' + d for d in decos]
        head = '#%s %s%s' % (word, name, self.signature(ps))
        p = ['@' + d for d in decos]
        p.append('def %s(%s):' % (name, self.pysig(ps)))
        if line:
            segs = [('.', repr('.'))] + segs + [('.', repr('.'))]
            t.append(head + ': ' + ''.join(s for s, _ in segs))
        else:
            t += [head, ''.join(s for s, _ in segs), '#end ' + word]
            segs = segs + [('', r'"\n"')]
        p += ['    out.append(%s)' % e for _, e in segs]
        for k in range(r.choice([0, 0, 1, 2])):
            # a definition inside other directives inside the method
            d, e = r.choice([('if 1', 'if'), ('for $q in [0]', 'for'),
                             ('unless 0', 'unless'), ('repeat 1', 'repeat'),
                             ('filter None', 'filter')])
            if static and e == 'filter':
                continue    # the filters belong to an instance
            t = ['#' + d] + t + ['#end ' + e]
            self.feats.add(('innerin', e, line))
        args = []
        for n_, d in ps:
            if d is None or r.random() < .5:
                args.append('%s=%s' % (n_, r.choice(VALUES)))
        for k in range(r.randint(1, 2)):
            t.append('${%s(%s)}|' % (name, ', '.join(args)))
            p.append('out.append(show(%s(%s)) + "|\\n")'
                     % (name, ', '.join(args)))
        self.feats.add(('inner', word, len(ps), len(decos)))
        return t, p

    def method(self, n):
        r = self.r
        kind = r.choice(['text'] * 4 + ['return', 'stop', 'gen', 'gentext',
                                        'oneline', 'block'])
        static = r.choice([None] * 4 + ['staticmethod', 'classmethod'])
        name = ('block%d' if kind == 'block' else 'meth%d') % n
        ps, star, kws = self.params()
        decos = self.decorators(kind)
        if kind == 'block':
            ps, star, kws, static = [], False, False, None
        if kind in ('gen', 'gentext'):
            static = None if static == 'classmethod' else static
        if kind == 'oneline':
            ps = [p for p in ps if p[1] is None or '#' not in p[1]]
        segs = self.segments(ps)
        if static:
            decos = [static] + decos
            while r.random() < .3:
                decos.insert(0, 'same_')
                self.feats.add(('above', static))
        if kind == 'block':
            word = 'block'
            head = '#block ' + name
        else:
            word = 'def'
            sig = self.signature(ps)
            if not ps:
                sig = r.choice(['', '()', '( )'])
            head = '#def %s%s' % (name, sig)
        ind = r.choice(['', '', '  '])
        t = [ind + '#@' + d for d in decos]
        first = {'staticmethod': '', 'classmethod': 'cls'}.get(static, 'self')
        p = ['@' + d for d in decos]
        p.append('def %s(%s):' % (name, ', '.join(
            x for x in (first, self.pysig(ps)) if x)))
        b = ['out = []']
        body = ''.join(s for s, _ in segs)
        add = ['out.append(%s)' % e for _, e in segs]
        if kind == 'oneline':
            t.append(ind + head + ': ' + body.strip() if body.strip()
                     else ind + head + ': x')
            texts = [e for _, e in segs] if body.strip() else ['"x"']
            b.append('out.append((%s).strip())' % ' + '.join(texts))
            # what is stripped is source, not values
            if body.strip():
                segs2 = list(segs)
                b.pop()
                while segs2 and not segs2[0][0].strip():
                    segs2.pop(0)
                while segs2 and not segs2[-1][0].strip():
                    segs2.pop()
                for i, (s, e) in enumerate(segs2):
                    if not s.startswith('${'):
                        s2 = s.lstrip() if i == 0 else s
                        s2 = s2.rstrip() if i == len(segs2) - 1 else s2
                        e = repr(s2)
                    b.append('out.append(%s)' % e)
            b.append('return "".join(out)')
        else:
            t.append(ind + head)
            if r.random() < .3 and kind == 'text':
                ct, cp = self.closure(n, static)
                t += ct
                b += cp
            if kind == 'gen':
                v = r.choice(VALUES)
                k = r.randint(0, 3)
                t += ['#for $i in $range(%d)' % k, '#yield [$i, %s]' % v,
                      '#end for', '#yield 9']
                b += ['for i in range(%d): yield [i, %s]' % (k, v), 'yield 9']
            elif kind == 'gentext':
                k = r.randint(1, 3)
                t += ['#for $i in $range(%d)' % k, body + '$i', '#yield',
                      '#end for']
                b.append('for i in range(%d):' % k)
                b += ['    ' + a for a in add]
                b += ['    out.append(show(i) + "\\n")',
                      '    yield "".join(out)', '    out = []']
            elif kind == 'return':
                e = r.choice(['[%s]', '(%s, 1)', '{"r": %s}']) % ', '.join(
                    '$' + x[0].lstrip('*') for x in ps[:1] or [('K',)])
                t += [body, '#return ' + e, 'never']
                b += add + ['return ' + e.replace('$', '')]
            elif kind == 'stop':
                t += [body, '#stop', 'never']
                b += add + ['return "".join(out) + "\\n"']
            else:
                t.append(body)
                b += add + ['out.append("\\n")', 'return "".join(out)']
            t.append('#end ' + word + r.choice(['', ' ' + name])
                     if word == 'block' else '#end ' + word)
        p += ['    ' + x for x in b]
        self.feats.add((kind, static or '', tuple(
            x[0] if x[0][0] == '*' else 'd' if x[1] is not None else 'p'
            for x in ps), len(decos)))
        return dict(name=name, kind=kind, static=static, ps=ps, star=star,
                    kws=kws, t=t, p=p, decos=decos)

    def call(self, m, wrong=True):
        """-> argument text of a call, '' for none"""
        r = self.r
        ps = [x for x in m['ps'] if x[0][0] != '*']
        args, kw = [], []
        npos = r.randint(0, len(ps))
        for n, d in ps[:npos]:
            args.append(r.choice(VALUES))
        for n, d in ps[npos:]:
            if d is None or r.random() < .5:
                kw.append('%s=%s' % (n, r.choice(VALUES)))
        if m['star'] and npos == len(ps):
            args += [r.choice(VALUES) for _ in range(r.randint(0, 2))]
        if m['kws'] and r.random() < .6:
            kw += ['%s=%s' % (k, r.choice(VALUES)) for k in
                   r.sample(['q1', 'q2', 'extra'], r.randint(1, 2))]
        r.shuffle(kw)
        if wrong and r.random() < .25:
            x = r.random()
            if x < .4 and (args or kw):
                (args or kw).pop(0)         # one is missing
            elif x < .7 and not m['star']:
                args += ['1'] * (len(ps) + 1)   # too many
            elif args and not m['star']:
                kw.append('%s=1' % ps[0][0])    # twice
        return ', '.join(args + kw)


def methods(ctx, rng):
    g = G(rng)
    ms = [g.method(i) for i in range(rng.randint(1, 4))]
    src, py, main = [], ['class Ref(object):'], []
    attrs = []
    for i in range(rng.choice([0, 0, 1, 2])):
        v = rng.choice(VALUES)
        src.append('#attr %sattr%d = %s' % (rng.choice(['$', '']), i, v))
        py.append('    attr%d = %s' % (i, v))
        attrs.append('attr%d' % i)
    for m in ms:
        src += m['t']
        py += ['    ' + x for x in m['p']]
        if m['kind'] == 'block':
            main.append('self.%s()' % m['name'])
    # calls in the template
    env = Env()
    ns = dict(env.names, show=show)
    for m in ms:
        for _ in range(rng.randint(0, 2)):
            if m['kind'] == 'block':
                continue
            a = g.call(m, wrong=False)
            how = rng.choice(['$%s(%s)', '$self.%s(%s)', '${%s(%s)}'])
            if not a and rng.random() < .4 and not any(
                    x[1] is None and x[0][0] != '*' for x in m['ps']):
                t = '$' + m['name']
            else:
                t = how % (m['name'], a)
            gen_ = m['kind'] in ('gen', 'gentext')
            if gen_:
                t = '${"|".join([str(x) for x in $%s(%s)])}' % (
                    m['name'], a)
            src.append('[' + t + ']')
            e = 'self.%s(%s)' % (m['name'], a)
            main.append('"[" + show(%s) + "]\\n"'
                        % ('"|".join([str(x) for x in %s])' % e if gen_
                           else e))
    py.append('    def respond(self):')
    py.append('        out = []')
    py += ['        out.append(%s)' % e for e in main]
    py.append('        return "".join(out)')
    text = '\n'.join(src) + '\n'
    eol = rng.choice(['\n'] * 4 + ['\r\n', '\r'])
    if any(m['kind'] == 'gentext' and m['decos'] for m in ms):
        eol = '\n'      # their texts are shown as representations
    settings = {}
    if rng.random() < .15:
        settings['useKWsDictArgForPassingTrans'] = False
    exec('\n'.join(py), ns)
    Ref = ns['Ref']
    env2 = Env()
    try:
        cls = compile_(text.replace('\n', eol), moduleGlobals=env2.names,
                       compilerSettings=settings)
        t = cls()
    except Exception as e:
        raise Violation('a valid template failed: %s: %s' % (
            type(e).__name__, str(e)[:400]), key='fails', src=text)
    same([x for x in env2.log if x[0] == 'applied'],
         [x for x in env.log if x[0] == 'applied'],
         'decorators are not applied once each, innermost first, to the '
         'functions they precede', key='applied', src=text)
    ref = Ref()
    for a in attrs:
        same(getattr(cls, a), getattr(Ref, a), 'class attribute differs',
             key='attr', src=text)
    outcomes = set()
    for round_ in range(2):
        del env.log[:], env2.log[:]
        got, want = run(t.respond), run(ref.respond)
        if want[0] == 'ok':
            want = ('ok', want[1].replace('\n', eol))
        same(norm(got, eol), norm(want, eol), 'output differs from the '
             'Python class', key='output', src=text, python='\n'.join(py))
        same(norm(env2.log, eol), norm(env.log, eol), 'calls differ',
             key='calls', src=text)
        for m in ms:
            if m['kind'] == 'block':
                continue
            for _ in range(2):
                if settings:
                    a = g.call(m, wrong=False)
                else:
                    a = g.call(m)
                where = rng.choice(['object', 'class']) if m['static'] \
                    else 'object'
                expr = 'o.%s(%s)' % (m['name'], a)
                o1, o2 = (t, ref) if where == 'object' else (cls, Ref)
                del env.log[:], env2.log[:]
                w = run(lambda: full(eval(expr, {'o': o2})))
                r = run(lambda: full(eval(expr, {'o': o1})))
                if settings and w[0] == 'raised':
                    continue
                same(norm(r, eol), norm(w, eol),
                     'a call differs from the Python method', key='call',
                     call=expr, where=where, src=text, python='\n'.join(py))
                same(norm(env2.log, eol), norm(env.log, eol),
                     'decorated calls differ', key='decorated', call=expr,
                     src=text)
                outcomes.add((m['kind'], m['static'], w[0]))
                ctx.count('call:' + w[0])
    ctx.saw((tuple(sorted(map(repr, g.feats))), tuple(sorted(map(
        repr, outcomes)))))
    for f in g.feats:
        ctx.count('kind:%s %s' % (f[0], f[1]))
        if len(f) > 3:
            ctx.count('decorators:%d' % f[3])
    ctx.sample({'src': text, 'python': '\n'.join(py)}, limit=3)


def full(v):
    return list(v) if hasattr(v, '__next__') else v


def run(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', type(e).__name__)


def norm(v, eol):
    if isinstance(v, str):
        return v.replace(eol, '\n')
    if isinstance(v, dict):
        return {k: norm(x, eol) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(norm(x, eol) for x in v)
    return v


SCENARIOS = [('methods', methods, 12000, 150000)]
