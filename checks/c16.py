"""C16: forbidden directives and rejected expressions never compile."""
import builtins
import re
from vlib.core import need, same
from vlib.t import compile_, outcome

RULE = ('Random templates composed of every directive in every form '
        '(block, one-line, inline, nested, in macro output, in macro '
        'definitions, decorated, custom tokens), each expression carrying a '
        'unique marker. Distinct: directive, form, nesting, way of '
        'forbidding.')
TECHNIQUE = ('trace monitor on the parser hooks (every marker must be '
             'presented, under its directive) and outcome monitor on '
             'compilations with one used directive forbidden or one '
             'expression rejected, with execution tripwires')
LEVEL_NOTE = ('Templates that change the restrictions themselves through a '
              'permitted settings directive are outside the property.')
REQUIRED = {'forbidden': 1500, 'markers presented': 8000, 'rejected': 1000,
            'permitted': 500}
DESIGN = ('A generator knows which directives each template uses and where '
          'its expressions are. Forbidding any used one (disabled list in '
          'any letter case and container, or an enabled list lacking it) '
          'must raise ForbiddenDirective before a tripwire in the template '
          'runs; forbidding others must change nothing. Recording hooks '
          'must see every marker; a hook rejecting one marker must abort.')
TRIPS = []


class Piece(object):
    def __init__(self, src, uses=(), marks=()):
        self.src, self.uses, self.marks = src, set(uses), list(marks)

    def __add__(self, o):
        return Piece(self.src + o.src, self.uses | o.uses,
                     self.marks + o.marks)


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.forms = set()
        self.macros = []

    def mk(self):
        self.n += 1
        return 'mk%dz' % self.n

    def expr(self, *types):
        """an expression with one to two markers"""
        rng = self.rng
        m, k = self.mk(), self.mk()
        f = rng.choice(['$%s', '$%s + 0', '($%s)', '[$%s][0]', '$abs($%s)',
                        'abs($%s)', '$ident(x=$%s)', '{1: $%s}[1]',
                        '(lambda: $%s)()', 'int(c"$%s")', '$%s * $' + k,
                        '$ident($%s)', '$lst[$%s - 1]', '-$%s', '$obj.a(%s)'
                        .replace('%s', '$%s'), 'int("%s"[:0] or 1)',
                        'sum([$%s for q in (1,)])', '(1 if $%s else 2)'])
        ms = [(m, types)]
        if k in f:
            ms.append((k, types))
        return f % m, ms

    def inline(self):
        return self.rng.random() < .3

    def tag(self, body, uses, marks, inline=None):
        """a directive tag on its own line or inline"""
        if inline is None:
            inline = self.inline()
        return Piece('#' + body + ('#' if inline else '\n'), uses, marks)

    def body(self, depth, n=None, ctx=()):
        p = Piece('')
        for _ in range(n or self.rng.randint(1, 3)):
            p = p + self.node(depth, ctx)
            if not p.src.endswith('\n') and self.rng.random() < .7:
                p = p + Piece('\n')
        if not p.src.endswith('\n'):
            p = p + Piece('\n')
        return p + Piece('b\n')

    def line(self, ctx=()):
        """a body that fits on one line"""
        rng = self.rng
        r = rng.random()
        if r < .4:
            return self.ph(1)
        e, ms = self.expr('echo')
        if r < .6:
            return Piece('#echo %s#' % e, ['echo'], ms)
        if r < .8:
            e, ms = self.expr('silent')
            return Piece('a #silent %s# b' % e, ['silent'], ms)
        return Piece('text ')

    def ph(self, oneline=0):
        rng = self.rng
        m = self.mk()
        f = rng.choice(['$%s', '${%s}', '$(%s)', '$[%s]', '${%s + 1}',
                        '$!%s', '$*%s', '$*5*%s', '$*{%s}', '$!{%s}',
                        '$ident($%s)', '$lst[$%s - 1]', '${ident(%s=1)}',
                        '$obj.a($%s)', '${1 + $%s}', '$ident("$%s")',
                        '${ident($%s), mark=1}',
                        '${ident(1), mark=$%s}', '$ident(x=\n$%s)'][:-oneline
                                                              or None])
        self.forms.add('ph:' + f)
        t = ('placeholder',)
        if f == '${ident(%s=1)}':
            f = '${ident2(%s=1)}'
        return Piece('<' + f % m + '>', [], [(m, t)])

    def node(self, depth, ctx=()):
        rng = self.rng
        simple = ['ph', 'ph', 'text', 'set', 'setg', 'echo', 'silent', 'del',
                  'assert', 'slurp', 'raw', 'comment', 'psp', 'psp=',
                  'include', 'filter1', 'transform0', 'catcher', 'ternary',
                  'if1', 'for1', 'pass', 'i18n', 'i18nshort', 'macro',
                  'call1', 'capture1', 'cache1', 'breakcont', 'unless1',
                  'repeat1', 'setop', 'setc', 'setmod', 'import', 'from',
                  'attr', 'ifstop']
        blocks = ['if', 'ifelse', 'elif', 'for', 'while', 'repeat', 'unless',
                  'try', 'tryfinally', 'filter', 'cache', 'call', 'callarg',
                  'capture', 'closure', 'raise']
        k = rng.choice(simple if not depth else simple + blocks * 2)
        self.forms.add(k + ':' + ','.join(sorted(set(ctx))))
        sub = tuple(ctx) + (k,)
        b = (lambda: self.body(depth - 1, None, sub))
        P, tag, ex = Piece, self.tag, self.expr
        if k == 'ph':
            return self.ph()
        if k == 'text':
            return P('text \\$x \\#if ')
        if k in ('set', 'setg', 'setmod'):
            e, ms = ex('set')
            if k == 'setmod':  # evaluated on import
                m = self.mk()
                e, ms = '"%s"' % m, [(m, ('set',))]
            st = {'set': '', 'setg': 'global ', 'setmod': 'module '}[k]
            return tag('set %s$v%s = %s' % (st, k, e), ['set'], ms)
        if k == 'setop':
            e, ms = ex('set')
            return P('#set $acc = 1\n', ['set']) + \
                tag('set $acc += %s' % e, ['set'], ms)
        if k == 'setc':
            m = self.mk()
            return tag('set $vc = c"q${%s}q"' % m, ['set'], [(m, ('set',))])
        if k == 'echo':
            e, ms = ex('echo')
            return tag('echo ' + e, ['echo'], ms)
        if k == 'silent':
            e, ms = ex('silent')
            return tag('silent ' + e, ['silent'], ms)
        if k == 'del':
            m = self.mk()
            return P('#set $%s = 1\n' % m, ['set'], [(m, ('set',))]) + \
                tag('del $' + m, ['del'], [(m, ('del',))])
        if k == 'assert':
            e, ms = ex('assert')
            return tag('assert ' + e, ['assert'], ms)
        if k == 'slurp':
            return P('x #slurp\n', ['slurp'])
        if k == 'raw':
            return P('#raw# $nope #end raw#', ['raw'])
        if k == 'comment':
            return P('x ## $nope #if\n#* #if $nope *#')
        if k == 'psp':
            m = self.mk()
            return P('<%% %s = 1 %%>' % m, ['psp'], [(m, ('psp',))])
        if k == 'psp=':
            m = self.mk()
            return P('<%%= "%s" %%>' % m, ['psp'], [(m, ('psp',))])
        if k == 'include':
            m = self.mk()
            f = rng.choice(['source="%s"', 'raw source="%s"',
                            'source=str($%s)'])
            return tag('include ' + f % m, ['include'], [(m, ('include',))])
        if k == 'filter1':
            m = self.mk()
            p = self.line()
            return P('#filter $ident(Filter, %s=1): ' % m, ['filter'],
                     [(m, ('filter',))]) + p + P('\n')
        if k == 'filter':
            m = self.mk()
            return tag('filter $ident(Filter, %s=1)' % m, ['filter'],
                       [(m, ('filter',))]) + b() + P('#end filter\n',
                                                     ['end'])
        if k == 'transform0':
            return P('')
        if k == 'catcher':
            if 'catcher' in ctx or not depth:
                return P('')
            return tag('errorCatcher Echo', ['errorCatcher'],
                       [('Echo', ('errorcatcher',))])
        if k == 'ternary':
            ms = [self.mk() for _ in range(3)]
            return tag('if $%s then $%s else $%s' % tuple(ms), ['if'],
                       [(m, ('if',)) for m in ms])
        if k == 'if1':
            e, ms = ex('if')
            p = P('#if %s: ' % e, ['if'], ms) + self.line() + P('\n')
            if rng.random() < .4:
                e, ms = ex('elif')
                p = p + P('#elif %s: ' % e, ['elif'], ms) + self.line() + \
                    P('\n')
            if rng.random() < .4:
                p = p + P('#else: ', ['else']) + self.line() + P('\n')
            return p
        if k == 'for1':
            e, ms = ex('for')
            return P('#for $i in [%s]: ' % e, ['for'], ms) + self.line() + \
                P('\n')
        if k == 'unless1':
            e, ms = ex('unless')
            return P('#unless %s: ' % e, ['unless'], ms) + self.line() + \
                P('\n')
        if k == 'repeat1':
            e, ms = ex('repeat')
            return P('#repeat (%s): ' % e, ['repeat'], ms) + self.line() + \
                P('\n')
        if k == 'cache1':
            return P('#cache: ', ['cache']) + self.line() + P('\n')
        if k == 'call1':
            m = self.mk()
            m2 = self.mk()
            return P('#call $ident2 %s=$%s: ' % (m, m2), ['call'],
                     [(m, ('call',)), (m2, ('call',))]) + self.line() + \
                P('\n')
        if k == 'capture1':
            m = self.mk()
            return P('#capture %s: ' % m, ['capture'], [(m, ('capture',))]) \
                + self.line() + P('\n')
        if k == 'pass':
            return P('#if 1\n#pass\n#end if\n', ['if', 'pass', 'end'])
        if k == 'ifstop':
            w = rng.choice(['stop', 'return'])
            if w == 'stop' and set(ctx) & {'call', 'callarg', 'capture',
                                           'cache'}:
                w = 'return'
            return P('#if 0\n#%s\n#end if\n' % w, ['if', w, 'end'])
        if k == 'breakcont':
            w = rng.choice(['break', 'continue'])
            return P('#for $i in (1, 2)\n#%s\n#end for\n' % w,
                     ['for', w, 'end'])
        if k == 'import':
            return tag('import string as %s' % self.q(), ['import'],
                       [(self.lastq, ('import',))])
        if k == 'from':
            return tag('from string import digits as %s' % self.q(),
                       ['from'], [(self.lastq, ('from',))])
        if k == 'attr':
            m = self.mk()
            return tag('attr $at%d = len("%s")' % (self.n, m), ['attr'],
                       [(m, ('attr',))])
        if k == 'i18n':
            return P('#i18n\n', ['i18n']) + b_line(self) + \
                P('\n#end i18n\n')
        if k == 'i18nshort':
            m = self.mk()
            return P('#i18n id="%s": ' % m, ['i18n'], [(m, ('i18n',))]) + \
                self.line() + P('\n')
        if k == 'macro':
            # a macro written in Python, with arguments
            m = self.mk()
            p = b_line(self)
            return P('#pymac a="%s"\n' % m, ['pymac'], [(m, ('pymac',))]) + \
                p + P('\n#end pymac\n')
        if k == 'if':
            e, ms = ex('if')
            return tag('if ' + e, ['if'], ms) + b() + P('#end if\n', ['end'])
        if k == 'ifelse':
            e, ms = ex('if')
            p = tag('if ' + e, ['if'], ms) + b()
            if rng.random() < .5:
                e, ms = ex('else', 'elif')
                p = p + tag('else if ' + e, ['else'], ms) + b()
            return p + P('#else\n', ['else']) + b() + P('#end if\n', ['end'])
        if k == 'elif':
            e, ms = ex('if')
            f, ns = ex('elif')
            return tag('if ' + e, ['if'], ms) + b() + \
                tag('elif ' + f, ['elif'], ns) + b() + P('#end if\n', ['end'])
        if k == 'for':
            e, ms = ex('for')
            return tag('for $i in [%s]' % e, ['for'], ms) + b() + \
                P('#end for\n', ['end'])
        if k == 'while':
            e, ms = ex('while')
            return tag('while 0 and %s' % e, ['while'], ms) + b() + \
                P('#end while\n', ['end'])
        if k == 'repeat':
            e, ms = ex('repeat')
            return tag('repeat (%s)' % e, ['repeat'], ms) + b() + \
                P('#end repeat\n', ['end'])
        if k == 'unless':
            e, ms = ex('unless')
            return tag('unless ' + e, ['unless'], ms) + b() + \
                P('#end unless\n', ['end'])
        if k == 'try':
            m = self.mk()
            return P('#try\n', ['try']) + b() + \
                tag('except $ident(KeyError, %s=1)' % m, ['except'],
                    [(m, ('except',))]) + b() + P('#end try\n', ['end'])
        if k == 'tryfinally':
            return P('#try\n', ['try']) + b() + P('#finally\n', ['finally']) \
                + b() + P('#end try\n', ['end'])
        if k == 'raise':
            e, ms = ex('raise')
            return P('#if 0\n', ['if']) + tag(
                'raise KeyError(%s)' % e, ['raise'], ms) + \
                P('#end if\n', ['end'])
        if k == 'cache':
            m = self.mk()
            return tag('cache id="%s"' % m, ['cache'], [(m, ('cache',))]) + \
                b() + P('#end cache\n', ['end'])
        if k == 'call':
            m = self.mk()
            f = rng.choice(['$ident2 %s=1', '$obj.call %s=1',
                            '$ident2 x=$%s', '$ident2 x="%s"',
                            '$obj["%s"]', '$obj.pick($%s)',
                            '$obj["%s"] x=1'])
            return tag('call ' + f % m, ['call'], [(m, ('call',))]) + b() + \
                P('#end call\n', ['end'])
        if k == 'callarg':
            m = self.mk()
            return P('#call $ident2\n#arg %s\n' % m, ['call', 'arg'],
                     [(m, ('arg',))]) + b() + P('#end call\n', ['end'])
        if k == 'capture':
            m = self.mk()
            return tag('capture ' + m, ['capture'], [(m, ('capture',))]) + \
                b() + P('#end capture\n', ['end'])
        if k == 'closure':
            m = self.mk()
            d = self.mk()
            return tag('closure c%d(%s="%s")' % (self.n, m, d), ['closure'],
                       [(m, ('def', 'closure')), (d, ('def', 'closure'))],
                       False) + self.closure() + \
                P('#end closure\n', ['end'])
        raise AssertionError(k)

    def closure(self):
        m = self.mk()
        return Piece('#echo "%s"\n' % m, ['echo'], [(m, ('echo',))])

    def q(self):
        self.lastq = self.mk()
        return self.lastq

    def template(self):
        rng = self.rng
        top = []
        P = Piece
        for _ in range(rng.randint(0, 2)):
            k = rng.choice(['def', 'def1', 'block', 'deco', 'defmacro',
                            'defmacro1', 'implements', 'encoding',
                            'compiler', 'csettings', 'shbang', 'yielddef',
                            'extends', 'superdef', 'transform', 'filterN'])
            self.forms.add(k)
            m, d = self.mk(), self.mk()
            t = ('def', 'block')
            if k in ('def', 'block'):
                # depth bound keeps bodies out of macros
                top.append(P('#%s f%d(%s="%s")\n' % (k, self.n, m, d), [k],
                             [(m, t), (d, t)]) + self.body(1, None, (k,))
                           + P('#end %s\n' % k, ['end']))
            elif k == 'def1':
                top.append(P('#def f%d(%s="%s"): ' % (self.n, m, d), ['def'],
                             [(m, t), (d, t)]) + self.line() + P('\n'))
            elif k == 'deco':
                top.append(P(
                    '#from functools import lru_cache as %s\n'
                    '#@%s(maxsize=3)\n#def f%d\n'
                    % (m, m, self.n), ['from', '@', 'def'],
                    [(m, ('from',)), (m, ('decorator', '@'))])
                    + self.body(0) + P('#end def\n', ['end']))
            elif k == 'extends':
                top.append(P('#from Cheetah.Template import Template as %s\n'
                             '#extends %s\n' % (m, m), ['from', 'extends'],
                             [(m, ('from',)), (m, ('extends',))]))
            elif k == 'superdef':
                top.append(P('#def f%d(%s="")\n#super(%s="%s")\n#end def\n'
                             % (self.n, m, m, d), ['def', 'super', 'end'],
                             [(m, ('def',)), (d, ('super',))]))
            elif k == 'transform':
                top.append(P('#transform $ident(%s=1)\n' % m, ['transform'],
                             [(m, ('transform',))]))
            elif k == 'filterN':
                top.append(P('#filter WebSafe\n', ['filter'],
                             [('WebSafe', ('filter',))]) + self.body(1)
                           + P('#end filter\n', ['end']))
            elif k == 'yielddef':
                e, ms = self.expr('yield')
                top.append(P('#def f%d\n#yield %s\n#end def\n' % (self.n, e),
                             ['def', 'yield', 'end'], ms))
            elif k == 'defmacro':
                name = 'dm%d' % self.n
                top.append(P(
                    '#defmacro %s(%s="%s")\n%%if 1\n%%silent "%s"\n%%end if'
                    '\n<@src>\n#end defmacro\n#%s\nq\n#end %s\n' % (
                        name, m, d, self.q(), name, name),
                    ['defmacro', 'if', 'silent', name],
                    [(m, ('defmacro',)), (d, ('defmacro',)),
                     (self.lastq, ('silent',))]))
            elif k == 'defmacro1':
                name = 'dm%d' % self.n
                top.append(P(
                    '#defmacro %s(%s="%s"): <@src%%silent "%s"%%>\n'
                    '#%s %s="%s": q\n' % (name, m, d, self.q(), name, m,
                                          d + 'b'),
                    ['defmacro', 'silent', name],
                    [(m, ('defmacro',)), (d, ('defmacro',)),
                     (d + 'b', (name,)), (self.lastq, ('silent',))]))
            elif k == 'implements':
                top.append(P('#implements respond(%s="%s")\n'
                             % (m, d), ['implements'],
                             [(m, ('implements',)), (d, ('implements',))]))
            elif k == 'encoding':
                top.append(P('#encoding utf-8\n', ['encoding'],
                             [('utf-8', ('encoding',))]))
            elif k == 'shbang':
                top.append(P('#shBang #!/usr/bin/%s\n' % m, ['shBang'],
                             [(m, ('shbang',))]))
            elif k == 'compiler':
                top.append(P('#compiler commentOffset = %d\n' % self.n,
                             ['compiler'], [('commentOffset',
                                             ('compiler',))]))
            elif k == 'csettings':
                top.append(P(
                    '#compiler-settings\ncommentOffset = %d\n'
                    '#end compiler-settings\n' % self.n,
                    ['compiler-settings'],
                    [('commentOffset', ('compilersettings',
                                        'compiler-settings'))]))
        seen = set()
        res = P('')
        for p in top:
            for once in ('encoding', 'implements', 'shBang',
                         'extends', 'transform'):
                if once in p.uses and once in seen:
                    p = P('')
            seen |= p.uses
            res = res + p
        res = res + self.body(2)
        if rng.random() < .05:
            res = res + P('#breakpoint\n#if junk', ['breakpoint'])
        return res


def b_line(g):
    p = g.line()
    return p


# the tokens of a template may be customised
def retoken(src, tokens):
    if not tokens:
        return src
    var, dirc = tokens
    return src.replace('$', '\0').replace('#', dirc).replace('\0', var)


def pymac(src, a=None):
    return src


def namespace():
    from Cheetah.Filters import Filter

    class Any(dict):
        def __missing__(self, k):
            if re.match(r'mk\d+zb?$', k):
                return 1
            raise KeyError(k)

        def __contains__(self, k):
            return dict.__contains__(self, k) or bool(
                re.match(r'mk\d+zb?$', k))

        def has_key(self, k):
            return k in self

    class O(object):
        def a(self, x):
            return x

        def call(self, *a, **k):
            return a[0] if a else ''

        def pick(self, x):
            return self.call

        __getitem__ = pick

    def ident(x=1, **k):
        return x

    def ident2(*a, **k):
        return a[0] if a else 'i2'
    return Any(ident=ident, ident2=ident2, lst=[7, 8, 9], obj=O(),
               Filter=Filter)


TRIP = '#attr tripped = __import__("builtins").c16_trip("attr")\n' \
       '#silent __import__("builtins").c16_trip("body")\n'


def setup(ctx):
    builtins.c16_trip = lambda w: TRIPS.append(w) or 0


def make(rng):
    g = Gen(rng)
    p = g.template()
    tokens = rng.choice([None, None, None, ('$', '%'), ('@', '%%'),
                         ('~', '&&')])
    s = {'macroDirectives': {'pymac': pymac}}
    src = p.src
    trip = ''
    if rng.random() < .3:
        trip = TRIP
        p = Piece(TRIP + src, p.uses | {'attr', 'silent'}, p.marks)
        src = p.src
    special = set(p.uses) & {'defmacro'} or '<%' in src or '\\' in src \
        or '%' in src or 'compiler' in src or 'shBang' in src \
        or '@' in src or '#*' in src or '##' in src
    if tokens and not special:
        src = retoken(src, tokens)
        s['cheetahVarStartToken'], d = tokens
        s['directiveStartToken'] = s['directiveEndToken'] = d
        g.forms.add('tokens:%s%s' % tokens)
    return g, p, src, s, trip


def rendering(src, s):
    TRIPS[:] = []
    kw = dict(s)
    t = compile_(src, compilerSettings=kw)
    return str(t(searchList=[namespace()]))


def container(rng, names, change=True):
    def case(n):
        return rng.choice([n, n.lower(), n.upper(), n.capitalize(),
                           n.swapcase()]) if change else n
    names = [case(n) for n in names]
    rng.shuffle(names)
    return rng.choice([list, tuple, set, frozenset])(names)


ALL = ['import', 'from', 'extends', 'implements', 'super', 'slurp', 'raw',
       'include', 'cache', 'filter', 'echo', 'silent', 'transform', 'call',
       'arg', 'capture', 'attr', 'def', 'block', '@', 'defmacro', 'closure',
       'set', 'del', 'if', 'while', 'for', 'else', 'elif', 'pass', 'break',
       'continue', 'stop', 'return', 'yield', 'repeat', 'unless', 'assert',
       'raise', 'try', 'except', 'finally', 'errorCatcher', 'breakpoint',
       'compiler', 'compiler-settings', 'shBang', 'encoding', 'end', 'psp',
       'i18n', 'pymac']


def forbid(ctx, rng):
    g, p, src, s, trip = make(rng)
    base = outcome(rendering, src, s)
    if base[0] != 'ok':
        need(base[1] in OKFAIL, 'the template under test does not compile',
             key='base', src=src, outcome=base)
        ctx.count('unrenderable')
    used = sorted(p.uses)
    unused = [n for n in ALL if n not in p.uses]
    for _ in range(3):
        if not used:
            break
        d = rng.choice(used)
        r = dict(s)
        how = rng.choice(['disabled', 'disabled', 'enabled', 'both'])
        if how == 'disabled':
            r['disabledDirectives'] = container(
                rng, [d] + rng.sample(unused, rng.randint(0, 3)))
        else:
            r['enabledDirectives'] = container(
                rng, [n for n in ALL + used if n != d or how == 'both'])
            if how == 'both':
                r['disabledDirectives'] = container(rng, [d])
        log = []
        if rng.random() < .5:
            r['disabledDirectiveHooks'] = [
                lambda parser, directiveName: log.append(directiveName)]
        TRIPS[:] = []
        got = outcome(compile_, src, compilerSettings=r)
        need(got[:2] == ('raised', 'ForbiddenDirective'),
             'a template using a forbidden directive compiled', key='forbid',
             directive=d, how=how, src=src, got=got[:2],
             settings=repr({k: v for k, v in r.items()
                            if 'abled' in k})[:300])
        need(not TRIPS, 'code of a forbidden template ran', key='ran',
             src=src)
        if 'disabledDirectiveHooks' in r:
            same(log, [d.lower()] if how == 'disabled' or how == 'both'
                 else log[:1], 'the hook for disabled directives', key='hook',
                 src=src)
        need(repr(d)[1:-1].lower() in got[2].lower(), 'the error does not '
             'name the directive', key='name', message=got[2][:200])
        ctx.count('forbidden')
        ctx.saw(('forbid', d, how))
    # what is not forbidden is unaffected
    r = dict(s)
    if rng.random() < .5:
        r['disabledDirectives'] = container(
            rng, rng.sample(unused, min(len(unused), 8)))
    else:
        r['enabledDirectives'] = container(rng, set(used) | {'zzz'})
    r['expressionFilterHooks'] = [lambda parser, expr, exprType,
                                  rawExpr=None, startPos=None: expr]
    got = outcome(rendering, src, r)
    same(strip(got), strip(base), 'restrictions changed a template that '
         'meets them', key='permitted', src=src,
         settings=repr(r)[:300])
    ctx.count('permitted')
    for f in g.forms:
        ctx.saw(f)
    ctx.sample({'src': src, 'uses': used}, limit=4)


OKFAIL = ('NotFound', 'TypeError', 'KeyError', 'IndexError', 'NameError',
          'UnboundLocalError', 'AssertionError', 'AttributeError')


def strip(o):
    return o[:2] if o[0] == 'raised' else o


class Rejected(Exception):
    pass


def hooks(ctx, rng):
    from Cheetah.Parser import ForbiddenExpression
    g, p, src, s, trip = make(rng)
    seen = []

    def first(parser, expr, exprType, rawExpr=None, startPos=None):
        seen.append((1, exprType, repr(expr) + repr(rawExpr)))
        return expr

    def second(parser, expr, exprType, rawExpr=None, startPos=None):
        seen.append((2, exprType, repr(expr) + repr(rawExpr)))
        return expr
    r = dict(s, expressionFilterHooks=[first, second])
    got = outcome(compile_, src, compilerSettings=r)
    need(got[0] == 'ok', 'recording hooks broke a compilation', key='broke',
         src=src, got=got)
    same([e[1:] for e in seen if e[0] == 1],
         [e[1:] for e in seen if e[0] == 2],
         'two hooks were shown different expressions', key='order', src=src)
    for m, types in p.marks:
        ok = [t for n, t, x in seen if m in x]
        need(ok, 'an expression was never presented to the hooks',
             key='unseen', marker=m, types=types, src=src)
        need(any(t.lower() in types for t in ok), 'an expression was '
             'presented under another directive', key='type', marker=m,
             types=types, shown=ok, src=src)
        ctx.count('markers presented')
    # rejection
    for _ in range(2):
        if not p.marks:
            break
        m, types = rng.choice(p.marks)
        exc = rng.choice([0, 1])
        first_only = rng.random() < .5

        def reject(parser, expr, exprType, rawExpr=None, startPos=None):
            if m in repr(expr) and exprType.lower() in types:
                if exc:
                    raise Rejected(m)
                raise ForbiddenExpression(parser, msg='no ' + m)
            return expr
        hs = [reject]
        if not first_only:
            hs = [first, reject, second]
        TRIPS[:] = []
        got = outcome(compile_, src, compilerSettings=dict(
            s, expressionFilterHooks=hs))
        need(got[:2] == ('raised', 'Rejected' if exc
                         else 'ForbiddenExpression'),
             'a rejected expression compiled', key='rejected', marker=m,
             types=types, src=src, got=got[:2])
        need(not TRIPS, 'code of a rejected template ran', key='ran',
             src=src)
        ctx.count('rejected')
        ctx.saw(('reject', types))
    ctx.sample({'src': src, 'marks': p.marks}, limit=2)


def evaluated(ctx, rng):
    """Macro arguments are evaluated while compiling: hooks come first."""
    trip = '__import__("builtins").c16_trip("macro")'
    srcs = ['#pymac a=%s\nq\n#end pymac\n' % trip,
            '#pymac a=%s: q\n' % trip,
            '#i18n id=%s: q\n' % trip,
            '#i18n id=%s\nq\n#end i18n\n' % trip,
            '#defmacro dm(a="")\n<@src>\n#end defmacro\n'
            '#dm a=%s\nq\n#end dm\n' % trip,
            '#defmacro dm\n%%silent %s\n<@src>\n#end defmacro\n'
            '#dm\nq\n#end dm\n' % trip,
            '#defmacro dm(a=%s)\n<@src>\n#end defmacro\n#dm\nq\n#end dm\n'
            % trip]
    src = rng.choice(srcs)

    def reject(parser, expr, exprType, rawExpr=None, startPos=None):
        if 'c16_trip' in repr(expr):
            raise Rejected('no')
        return expr
    TRIPS[:] = []
    s = {'macroDirectives': {'pymac': pymac}}
    got = outcome(compile_, src, compilerSettings=dict(
        s, expressionFilterHooks=[reject]))
    need(got[:2] == ('raised', 'Rejected'), 'a rejected macro argument '
         'compiled', key='macro', src=src, got=got)
    need(not TRIPS, 'a rejected expression was evaluated', key='evaluated',
         src=src)
    got = outcome(compile_, src, compilerSettings=s)
    need(got[0] == 'ok', 'the macro template', key='macro-ok', got=got)
    ctx.saw(src)
    ctx.count('rejected')


def inherited(ctx, rng):
    """Restrictions of a template API class hold for includes and macros."""
    from Cheetah.Template import Template
    d, use = rng.choice([('import', '#import os\n'), ('psp', '<% q = 1 %>'),
                         ('set', '#set $x = 1\n'),
                         ('errorCatcher', '#errorCatcher Echo\n'),
                         ('compiler-settings', '#compiler-settings reset\n'),
                         ('silent', 'x #silent 1#'),
                         ('defmacro', '#defmacro q: x\n')])
    how = rng.choice(['disabled', 'enabled'])
    names = [n for n in ALL if n.lower() != d.lower()] if how == 'enabled' else [d]

    class Restricted(Template):
        _CHEETAH_compilerSettings = {
            how + 'Directives': container(rng, names)}
    got = outcome(Restricted.compile, use)
    need(got[:2] == ('raised', 'ForbiddenDirective'), 'a class-level '
         'restriction was not applied', key='class', got=got, use=use)
    k = Restricted.compile('a #include source=$s', baseclass=Restricted)
    got = outcome(lambda: str(k(searchList=[{'s': 'ok'}])))
    same(got, ('ok', 'a ok'), 'a permitted include', key='include-ok')
    got = outcome(lambda: str(k(searchList=[{'s': use}])))
    need(got[:2] == ('raised', 'ForbiddenDirective'), 'an included template '
         'escaped the restrictions', key='include', got=got, use=use)
    got = outcome(Restricted, use)
    need(got[:2] == ('raised', 'ForbiddenDirective'), 'an instance escaped '
         'the restrictions', key='instance', got=got, use=use)

    class Sub(Restricted):
        pass
    got = outcome(Sub.compile, 'x\n' + use)
    need(got[:2] == ('raised', 'ForbiddenDirective'), 'a subclass escaped '
         'the restrictions', key='subclass', got=got, use=use)
    same(outcome(compile_, use)[0], 'ok', 'restrictions leaked to the base '
         'class', key='leak')
    ctx.saw((d, how))
    ctx.count('forbidden', 3)


SCENARIOS = [
    ('forbid', forbid, 1200, 12000),
    ('hooks', hooks, 1200, 12000),
    ('evaluated', evaluated, 40, 100),
    ('inherited', inherited, 60, 200),
]
