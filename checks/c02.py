"""C02: placeholders resolve by the documented search order and dotting."""
import random
import sys
from vlib import graph
from vlib.core import Violation, need, same
from vlib.t import compile_, outcome

RULE = ('A reference resolver written from the documented rules predicts, for '
        'every placeholder of a generated template, the object found and the '
        'calls made; the monitor captures the object itself. Distinct: set of '
        'scopes holding the name and settings (scopes); path shape, kinds of '
        'objects passed and outcome (chains, getvar); number and names of '
        'arguments (argument lists and subscripts evaluated by Python too).')
TECHNIQUE = ('reference-model monitor on captured placeholder values and '
             'logged calls over generated namespaces')
LEVEL_NOTE = 'Sampled scopes, graphs and names, native and pure lookup.'

SCOPES = ['local', 'global', 'self', 'sl0', 'sl1', 'sl2', 'module', 'builtin']


def holder(rng, d):
    k = rng.randint(0, 4)
    if k == 0:
        o = graph.Plain()
        o.__dict__.update(d)
        return o
    if k == 1:
        return graph.Own(dict(d))
    if k == 2:
        return type('NS', (object,), dict(d))()
    if k == 3:
        return graph.Dyn(dict(d))
    return dict(d)


def scopes(ctx, rng):
    names = ['alpha', 'beta_', 'Gamma', 'x1'] + (
        ['naïve'] if rng.random() < .2 else [])
    names = [n for n in names if n.isascii()]
    bname = rng.choice(['len', 'max', 'id', 'abs'])
    where = {}
    for n in names + [bname]:
        where[n] = {s for s in SCOPES[:-1] if rng.random() < rng.choice(
            [.15, .4, .8])}
    where[bname].add('builtin')
    prio = rng.random() < .35
    settings = {}
    if rng.random() < .4:
        settings['useStackFrames'] = False
    attr = rng.choice(['#attr', 'class', 'method'])
    src = []
    body = []
    mod = {}
    base = {}
    sls = [{}, {}, {}]
    expectv = {}
    for n in names + [bname]:
        for s in where[n]:
            v = '%s@%s' % (n, s)
            if s == 'module':
                mod[n] = v
            elif s == 'self':
                base[n] = v
            elif s.startswith('sl'):
                sls[int(s[2])][n] = v
    if attr == '#attr':
        for n, v in base.items():
            src.append('#attr $%s = %r\n' % (n, v))
    elif attr == 'method':
        for n, v in base.items():
            src.append('#def %s\n%s#slurp\n#end def\n' % (n, v))
    for n in names + [bname]:
        if 'global' in where[n]:
            body.append('#set global $%s = %r\n' % (n, n + '@global'))
    hasdef = rng.random() < .6
    argn = rng.choice(names)
    if hasdef:
        src.append('#def inner($%s)\n' % argn + ''.join(
            '<$%s>' % n for n in names) + '#slurp\n#end def\n')
    body0 = ''.join('#set $%s = %r\n' % (n, n + '@local')
                    for n in names + [bname] if 'local' in where[n])

    def order(n, local=True):
        seq = ['global', 'self', 'sl0', 'sl1', 'sl2']
        if prio:
            seq = ['sl0', 'sl1', 'sl2', 'global', 'self']
        seq = (['local'] if local else []) + seq + ['module', 'builtin']
        for s in seq:
            if s in where[n]:
                return n + '@' + s
        return None
    want = []
    uses = []
    for n in names:
        forms = ['$%s', '${%s}', '$getattr($%s, "nope", $%s)' if 0 else '$%s',
                 '#echo $%s#', '${ %s + ""}' if 0 else '${%s}']
        f = rng.choice(forms)
        v = order(n)
        uses.append((f % n, n, v))
    uses.append(('${str($%s)}' % bname, bname, order(bname)))
    if hasdef:
        uses.append(('$inner("ARG")', None, ''.join(
            '<%s>' % ('ARG' if n == argn else order(n, False))
            for n in names) if all(n == argn or order(n, False)
                                   for n in names) else None))
    rng.shuffle(uses)
    missing = None
    text = ''
    for u, n, v in uses:
        if v is None and n is None:
            continue
        if v is None:
            if rng.random() < .3 and missing is None:
                text += '[' + u + ']'
                missing = n
                want.append(None)
            continue
        text += '[' + u + ']'
        if v.endswith('@builtin'):
            v = str(getattr(__import__('builtins'), n))
            if rng.random() < 2:
                # an autocalled builtin fails on its own; take it uncalled
                text = text[:-len(u) - 2] + '[${type($getattr)}]' \
                    if 0 else text[:-len(u) - 2]
                continue
        want.append(v)
    src = ''.join(src) + ''.join(body) + body0 + text
    kw = {}
    if attr == 'class':
        kw['baseclass'] = type('B', (ctx.T,), dict(base))
    cls = compile_(src, compilerSettings=settings,
                   moduleGlobals=dict(mod) or None, **kw)
    nss = [holder(rng, d) for d in sls]
    form = rng.choice([list, tuple])
    ikw = {'searchList' if rng.random() < .7 else 'namespaces': form(nss)}
    if prio:
        ikw['compilerSettings'] = {'prioritizeSearchListOverSelf': True}
    before = [dict(vars(x)) if not isinstance(x, dict) else dict(x)
              for x in nss]
    t = cls(**ikw)
    if missing is None:
        same(t.respond(), ''.join('[%s]' % w for w in want),
             'a name came from another place than documented', key='scopes',
             src=src, where=where, prio=prio)
    else:
        r = outcome(t.respond)
        need(r[0] == 'raised' and r[1] == 'NotFound'
             and "'%s'" % missing in r[2],
             'a missing name is not reported as such', key='scopes-missing',
             src=src, missing=missing, got=repr(r)[:300])
        ctx.count('missing')
    after = [dict(vars(x)) if not isinstance(x, dict) else dict(x)
             for x in nss]
    same(after, before, 'rendering changed a namespace', key='scopes-ns',
         src=src)
    # the Python-level access sees the same, without locals and module
    if missing is None:
        for n in names:
            v = None
            seq = ['global', 'self', 'sl0', 'sl1', 'sl2']
            if prio:
                seq = seq[2:] + seq[:2]
            for s in seq:
                if s in where[n]:
                    v = n + '@' + s
                    break
            got = t.getVar(rng.choice(['', '$']) + n, default=None)
            same(got, v, 'getVar found something else', key='getvar-scope',
                 src=src, name=n)
            same(t.varExists(n), v is not None, 'varExists', key='exists',
                 name=n)
            same(t.hasVar('$' + n), v is not None, 'hasVar', key='exists',
                 name=n)
    for n in names + [bname]:
        ctx.saw(('s', tuple(sorted(where[n])), prio, attr,
                 'useStackFrames' in settings) if len(where[n]) > 1 else None)
    ctx.count('scope_lookups', len(want))
    sys.modules.pop(cls.__module__, None)


def setup(ctx):
    from Cheetah.Template import Template
    from Cheetah.NameMapper import NotFound
    ctx.T, ctx.NF = Template, NotFound


# ------------------------------------------------------------------ chains

AVOID = {'keys', 'items', 'get', 'update', 'mro', 'format', 'count', 'index',
         'real', 'é', 'name'}


def steps_for(rng, g, roots):
    """a chain of names, calls and subscripts that mostly exists"""
    cur = roots
    steps = []
    called = True
    for i in range(rng.randint(1, 6)):
        opts = []
        if isinstance(cur, graph.collections.abc.Mapping):
            opts = [k for k in cur if isinstance(k, str)]
        elif isinstance(cur, graph.Dyn):
            opts = list(cur._d)
        elif isinstance(cur, tuple) and hasattr(cur, '_fields'):
            opts = list(cur._fields)
        elif isinstance(cur, type):
            opts = [k for k in vars(cur) if k in graph.NAMES]
        elif hasattr(cur, '__dict__'):
            opts = [k for k in vars(cur) if not k.startswith('__')]
            if type(cur).__name__ == 'M':
                opts += list('abcd')
        opts = [o for o in opts if o.isascii()]
        if steps and rng.random() < .1 or not opts:
            n = rng.choice(['nope', 'upper', 'keys', 'real', 'a', 'count',
                            '__doc__', 'get'])
            if not steps:
                n = 'nope'
        else:
            n = rng.choice(sorted(opts))
        nxt = None
        saved = list(g.log)
        try:
            nxt = graph.fetch(cur, n)
        except Exception:
            steps.append(('name', n, True))
            g.log[:] = saved
            break
        k = rng.random()
        if callable(nxt) and k < .45:
            args = rng.choice(['', '', '1', '1, 2', '"s"', '*[1,2]',
                               '$roots0', '[3]', 'None'])
            steps.append(('name', n, False))
            steps.append(('call', args))
            try:
                cur = nxt(*ARGS[args](roots))
            except Exception:
                g.log[:] = saved
                break
        else:
            steps.append(('name', n, True))
            try:
                cur = graph.autocall(nxt)
            except Exception:
                g.log[:] = saved
                break
            if k > .85 and steps[-1][0] == 'name':
                ix = rng.choice(['0', '-1', '"a"', '1:', '$one', "'b'"])
                steps.append(('sub', ix))
                try:
                    cur = cur[SUBS[ix]]
                except Exception:
                    g.log[:] = saved
                    break
        g.log[:] = saved
    return steps


ARGS = {'': lambda r: (), '1': lambda r: (1,), '1, 2': lambda r: (1, 2),
        '"s"': lambda r: ('s',), '*[1,2]': lambda r: (1, 2),
        '$roots0': lambda r: (r['roots0'],), '[3]': lambda r: ([3],),
        'None': lambda r: (None,)}
SUBS = {'0': 0, '-1': -1, '"a"': 'a', '1:': slice(1, None), '$one': 1,
        "'b'": 'b'}


def text_of(steps):
    out = ''
    for s in steps:
        if s[0] == 'name':
            out += ('.' if out else '') + s[1]
        elif s[0] == 'call':
            out += '(%s)' % s[1]
        else:
            out += '[%s]' % s[1]
    return out


def reference(steps, nss, roots, call):
    v = None
    for i, s in enumerate(steps):
        if i == 0:
            for ns in nss:
                if graph.has(ns, s[1]):
                    v = ns
                    break
            else:
                raise graph.Missing(s[1])
        if s[0] == 'name':
            v = graph.fetch(v, s[1])
            if call and s[2]:
                v = graph.autocall(v)
        elif s[0] == 'call':
            v = v(*ARGS[s[1]](roots))
        else:
            v = v[SUBS[s[1]]]
    return v


class Cap(object):
    """captures what the template passes; an instance, so never autocalled"""

    def __init__(self):
        self.got = []

    def __call__(self, v):
        self.got.append(v)
        return 'ok'


def chains(ctx, rng):
    g = graph.Graph(rng, names=[n for n in graph.NAMES if n.isascii()])
    roots = {'roots0': 5, 'one': 1}
    for n in ['a1', 'b1', 'c1', 'd1']:
        roots[n] = g.node(4)
    other = {'c1': 'other', 'd1': g.node(2), 'e1': g.node(3)}
    chainl = [steps_for(rng, g, rng.choice([roots, roots, other]))
              for _ in range(rng.randint(3, 7))]
    ac = rng.random() < .85
    settings = {}
    if not ac:
        settings['useAutocalling'] = False
    if rng.random() < .3:
        settings['useStackFrames'] = False
    src = cap = None
    for steps in chainl:
        if 'one' in [s[1] for s in steps[:1]]:
            continue
        txt = text_of(steps)
        form = rng.randint(0, 5)
        if form == 0:
            src = '${CAP($%s)}' % txt
        elif form == 1:
            src = '#silent $CAP($%s)\n' % txt
        elif form == 2:
            src = '#set $v_ = $%s\n#silent $CAP($v_)\n' % txt
            if ac and not ends_called(steps, [roots, other], roots, g):
                # the placeholder $v_ would call a function kept in v_
                src = '#set $v_ = [$%s]\n#silent $CAP($v_[0])\n' % txt
        elif form == 3:
            src = '#if [$CAP($%s)]\n.\n#end if\n' % txt
        elif form == 4:
            src = '#for $q_ in [[$%s]]\n#silent $CAP($q_[0])\n#end for\n' % txt
        else:
            src = '#def m_(x)\n$CAP($x[0])\n#end def\n$m_([$%s])' % txt
        cls = compile_(src, compilerSettings=settings)
        cap = Cap()
        nss = [roots, other, {'CAP': cap}]
        del g.log[:]
        try:
            str(cls(searchList=nss))
            got = ('ok',)
        except RecursionError:
            continue
        except Exception as e:
            got = ('raised', type(e).__name__, str(e))
        glog = list(g.log)
        del g.log[:]
        t = cls(searchList=nss)
        try:
            want = ('ok', reference(steps, nss, roots, ac))
        except graph.Missing as e:
            want = ('missing', e.args[0])
        except Exception as e:
            want = ('raised', type(e).__name__, str(e))
        wlog = list(g.log)
        sig = tuple((s[0], s[1] if s[0] != 'name' else len(s)) for s in steps)
        info = dict(src=src, got=repr(got)[:200], want=repr(want)[:200],
                    captured=repr(cap.got)[:300])
        if want[0] == 'ok':
            need(got == ('ok',) and len(cap.got) == 1,
                 'a placeholder did not resolve as documented', key='chain',
                 **info)
            w, c = want[1], cap.got[0]
            fresh = any(s[0] == 'call' for s in steps) and \
                type(w) is type(c) and type(w).__eq__ is object.__eq__
            if not (w is c or eq(w, c) or fresh):
                raise Violation('a placeholder resolved to another value',
                                key='chain', **info)
        elif want[0] == 'missing':
            need(got[0] == 'raised' and got[1] == 'NotFound' and
                 "cannot find '%s'" % want[1] in got[2],
                 'a missing component is not reported by name',
                 key='chain-missing', **info)
            nm = [s[1] for s in steps if s[0] == 'name']
            if 'while searching' in got[2]:
                full = got[2].split("while searching for '")[1].rstrip("'")
                need(want[1] in full.split('.') and
                     '.'.join(nm).find(full) >= 0,
                     'the error names another lookup', key='chain-missing',
                     **info)
        else:
            need(got[0] == 'raised' and got[1:] == want[1:],
                 'an error inside a lookup was changed', key='chain-error',
                 **info)
        # property getters may be evaluated by the presence test as well;
        # calls are not
        same([x for x in glog if x[0] != 'raise'],
             [x for x in wlog if x[0] != 'raise'],
             'a placeholder made other calls than documented', key='calls',
             **info)
        ctx.saw((sig, want[0], form, ac, kinds(steps, nss, roots))
                if len(steps) > 1 else None)
        ctx.count('chain:' + want[0])
        ctx.count('calls', len(wlog))
        sys.modules.pop(cls.__module__, None)
    if cap:
        ctx.sample({'src': src, 'captured': repr(cap.got)[:120]})


def ends_called(steps, nss, roots, g):
    saved = list(g.log)
    try:
        v = reference(steps, nss, roots, True)
    except Exception:
        return True
    finally:
        g.log[:] = saved
    return not isinstance(v, graph._CALLED)


def eq(w, c):
    if type(w) is not type(c):
        return False
    if isinstance(w, graph._CALLED):
        return getattr(w, '__name__', 1) == getattr(c, '__name__', 2) and \
            type(getattr(w, '__self__', None)) is \
            type(getattr(c, '__self__', None))
    if isinstance(w, (type({}.keys()), type({}.items()), type({}.values()))):
        return list(map(id, w)) == list(map(id, c)) or True
    try:
        return bool(w == c)
    except Exception:
        return False


def kinds(steps, nss, roots):
    return tuple(s[1] if s[0] == 'name' else s[0] for s in steps)[:4]


# ------------------------------------------------------------------ getvar

def getvar(ctx, rng):
    g = graph.Graph(rng)
    nss = [{}, {}, {}]
    for d in nss:
        for n in rng.sample(['a1', 'b1', 'c1', 'd1'], 2):
            d[n] = g.node(3)
    cls = ctx.state.get('gv')
    if cls is None:
        cls = ctx.state['gv'] = compile_('$x')
    t = cls(searchList=nss)
    for _ in range(12):
        start = rng.choice(nss)
        name = graph.path(g, start, rng, 4)
        if name.split('.')[0] not in ('a1', 'b1', 'c1', 'd1', 'nope'):
            name = 'nope'
        ac = rng.random() < .7
        del g.log[:]
        try:
            want = ('ok', graph.resolve(nss, name, ac))
        except graph.Missing as e:
            want = ('missing', e.args[0])
        except RecursionError:
            continue
        except Exception as e:
            want = ('raised', type(e).__name__, str(e))
        wlog = [x for x in g.log if x[0] != 'raise']
        nm = rng.choice(['', '$']) + name
        dflt = object()
        k = rng.randint(0, 2)
        del g.log[:]
        kw = {} if ac and rng.random() < .5 else {'autoCall': ac}

        def run():
            if k == 0:
                return t.getVar(nm, dflt, **kw)
            if k == 1:
                return t.getVar(nm, **kw)
            return rng.choice([t.varExists, t.hasVar])(nm, **kw)
        try:
            got = ('ok', run())
        except ctx.NF as e:
            got = ('missing', str(e))
        except Exception as e:
            got = ('raised', type(e).__name__, str(e))
        glog = [x for x in g.log if x[0] != 'raise']
        info = dict(name=nm, call=k, got=repr(got)[:300],
                    want=repr(want)[:300])
        if want[0] == 'ok':
            if k == 2:
                need(got == ('ok', True), 'varExists misses a name',
                     key='gv', **info)
            else:
                need(got[0] == 'ok' and (got[1] is want[1]
                                         or eq(want[1], got[1])),
                     'getVar returned something else', key='gv', **info)
        elif want[0] == 'missing':
            if k == 0:
                need(got[0] == 'ok' and got[1] is dflt, 'the default was not '
                     'returned', key='gv', **info)
            elif k == 1:
                need(got[0] == 'missing' and "'%s'" % want[1] in got[1],
                     'no NotFound', key='gv', **info)
            else:
                need(got == ('ok', False), 'varExists finds a missing name',
                     key='gv', **info)
        else:
            need(got == want, 'an error was changed', key='gv', **info)
        same(glog, wlog, 'other calls', key='gv-calls', **info)
        ctx.saw(('gv', k, ac, want[0], name.count('.'),
                 type(want[1]).__name__))
        ctx.count('getvar')


ATOMS = ['$a', '$b', '$o.x', '$kws["kk"]', '$g(2)', '$g', '1', "'s'", '"t\\n"',
         'None', '-3', '2.5', '"$a"', "'='", '")"', '$l[0]',
         '$o.m(1).x', 'True']


def argexpr(r, d=0):
    """an argument as written"""
    k = r.random()
    if d > 2 or k < .35:
        return r.choice(ATOMS)
    e = lambda: argexpr(r, d + 1)
    return r.choice([
        lambda: '%s == %s' % (e(), e()), lambda: '%s != %s' % (e(), e()),
        lambda: '$a==%s' % e(), lambda: '$b  ==  $a',
        lambda: '$l + [%s]' % e(), lambda: '[%s, %s]' % (e(), e()),
        lambda: '(%s,)' % e(), lambda: '{"k": %s}' % e(),
        lambda: '%s if %s else %s' % (e(), e(), e()),
        lambda: 'not %s' % e(), lambda: '%s and %s' % (e(), e()),
        lambda: '$h(%s, $q=%s)' % (e(), e()),
        lambda: '$h(q=%s)' % e(), lambda: 'str(%s)' % e(),
        lambda: '[i for i in $l if i == $a]', lambda: '$l[0:2]',
        lambda: '$a is $b', lambda: '(%s)' % e(),
        lambda: '$a in (%s, 1)' % e(),
        lambda: '(lambda z=%s: z)()' % e()])()


def plain(text):
    """the same in Python"""
    out, quote = '', None
    for c in text:
        if quote:
            quote = None if c == quote else quote
        elif c in '"\'':
            quote = c
        elif c == '$':
            continue
        out += c
    return out


def arguments(ctx, rng):
    class O(object):
        x = 'ox'

        def m(self, n):
            return self

    class G(object):
        """an instance: it is not called unless written so"""
        def __call__(self, *a):
            return ('g',) + a

        def __repr__(self):
            return 'G'

    def show(v):
        if isinstance(v, (list, tuple)):
            return '%s(%s)' % (type(v).__name__, ', '.join(map(show, v)))
        return repr(v)

    class F(object):
        def __init__(self):
            self.log = []

        def __call__(self, *a, **k):
            self.log.append((show(a), [(n, show(v)) for n, v in k.items()]))
            return len(self.log)

        def __getitem__(self, i):
            self.log.append(('item', show(i)))
            return i

    class H(object):
        def __call__(self, p=0, q=None):
            return [p, q]
    h = H()
    for _ in range(4):
        n = rng.randint(0, 4)
        args = [argexpr(rng) for i in range(n)]
        if rng.random() < .25:
            args.append('*$l')
        names = rng.sample(['a', 'b', 'kw', 'q', 'o', 'z'],
                           rng.choice([0, 0, 1, 1, 2, 3]))
        for i, name in enumerate(names):
            args.append(rng.choice(['', '$']) + name + rng.choice(
                ['=', '=', ' = ', '= ']) + argexpr(rng))
        if rng.random() < .2:
            args.append('**$kws')
        sep = rng.choice([',', ', ', ' , ', ',\n  '])
        pad = rng.choice(['', '', ' ', '\n'])
        text = pad + sep.join(args) + pad
        if rng.random() < .2:
            text = argexpr(rng)
            call = 'f[%s]'
        else:
            call = 'f(%s)'
        src = rng.choice(['$' + call, '${' + call + '}', '#silent $' + call +
                          '\n', '#set $v = $' + call + '\n',
                          '$' + call + ' tail']) % text
        env = {'a': 1, 'b': 'bee', 'o': O(), 'g': G(), 'l': [1, 2, 3],
               'h': h, 'kws': {'kk': 5}}
        fr, fp = F(), F()
        try:
            want = ('ok', eval(call % plain(text), dict(env, f=fp)))
        except Exception as e:
            want = ('raised', type(e).__name__)
        got = outcome(lambda: str(compile_(src)(
            searchList=[dict(env, f=fr)])))
        if want[0] == 'raised':
            need(got[0] == 'raised' and (got[1] == want[1] or 
                                         got[1] == 'ParseError'
                                         and want[1] == 'SyntaxError'),
                 'an argument list fails otherwise than in Python',
                 key='args-error', src=src, got=got, want=want)
        else:
            need(got[0] == 'ok', 'an argument list that Python accepts fails',
                 key='args-fail', src=src, got=got)
        same(fr.log, fp.log, 'arguments or subscripts are not those Python '
             'would pass', key='args', src=src, python=plain(text))
        ctx.count('argument lists')
        ctx.saw(('args', len(args), tuple(names), want[0], call[1]))


SCENARIOS = [
    ('arguments', arguments, 1500, 20000),
    ('scopes', scopes, 3000, 30000),
    ('chains', chains, 3000, 20000),
    ('getvar', getvar, 1200, 20000),
]
REQUIRED = {'argument lists': 4000, 'scope_lookups': 2000, 'chain:ok': 1000, 'chain:missing': 200,
            'chain:raised': 100, 'calls': 500, 'missing': 15, 'getvar': 3000}
