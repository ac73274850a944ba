"""C18: token and code-style settings change the notation, not the result."""
import re
from vlib.core import need, same, Violation
from vlib.t import compile_, outcome
from vlib import gen

RULE = ('Random directive programs written with random placeholder, '
        'directive, comment, PSP and slurp tokens, a corpus of every '
        'directive form rewritten in such tokens, and both under random '
        'combinations of code-style settings. Distinct: token set, way of '
        'setting it, constructs, setting values.')
TECHNIQUE = ('reference-interpreter and differential monitor on output and '
             'evaluation trace under each configuration')
LEVEL_NOTE = ('Token sets are drawn so that no token is a prefix of another '
              'and none occurs in Python expressions. A comment behind a '
              'directive on its line needs a comment token beginning with '
              'the directive end token (a limitation of the parser).')
REQUIRED = {'programs': 800, 'rewritten': 600, 'styled': 800}
DESIGN = ('The template writer emits the same construct in any token set; '
          'its reference interpreter never sees the tokens. Corpus '
          'templates are abstract over tokens and must render equally in '
          'default and rewritten notation. Style settings are varied at '
          'random and must not change output, trace or outcome.')

VARS = ['$', '@', '~', '&&', '$$', '!$', '\u20ac', '\xa7',
        '?', '@@', '@=']
DIRS = ['#', '%', '@', '~', '!', '::', '%%', '/', '#!', '<#',
        '\xb6', '^', '|', '?', '+', '*', '$#', '\u2261']
ENDS = ['#', '%', '/#', '#>', '%%', '~', '!', ';;', '\xb6', '|', '}}', '?>',
        ']]', '^^', '$', '.', '*', '/', '+', '\u2261']
COMS = ['##', '//', '--', '%%', '##', '#:', ';;', '\xa7\xa7', '/-', '||',
        '??']
MLS = [('#*', '*#'), ('/*', '*/'), ('<!--', '-->'), ('{#', '#}'),
       ('<?', '?>'),
       ('\xab', '\xbb'), ('^{', '}^')]
PSPS = [('<%', '%>'), ('<?', '?>'), ('<:', ':>'),
        ('<\u2261', '\u2261>'), ('^(', ')^')]
SLURPS = ['#', None, '%', '~', '^', '&', '-+', '+']
PYCHARS = set('()[]{}=+-*/%<>|&^~!.,:;\'"\\_ \t#@')


def clash(a, b):
    return a and b and (a.startswith(b) or b.startswith(a) or a in b
                        or b in a)


def tokens(rng):
    """A token set in which nothing is ambiguous"""
    while True:
        var = rng.choice(VARS)
        ds = rng.choice(DIRS)
        de = ds if rng.random() < .3 else rng.choice(ENDS)
        cs = rng.choice(COMS)
        ms, me = rng.choice(MLS)
        ps, pe = rng.choice(PSPS)
        slurp = rng.choice(SLURPS)
        if rng.random() < .3:
            ds, de, cs, ms, me, slurp = '#', '#', '##', '#*', '*#', '#'
        elif rng.random() < .2:
            slurp = ds
        starts = [var, ds, cs, ms, ps]
        ok = True
        for i, a in enumerate(starts):
            for b in starts[i + 1:]:
                if clash(a, b) and not (ds == '#' and {a, b} <=
                                        {'#', '##', '#*'}):
                    ok = False
        # text ending in the first part of a token, then another token
        for st in starts:
            for o in starts:
                if o != st and o[0] in st[1:] and not (
                        ds == '#' and {st, o} <= {'#', '##', '#*'}):
                    ok = False
        # ending an expression: must not be Python, nor a placeholder
        if clash(de, var) or set(de) & PYCHARS and de not in (
                '#', '#>', '?>', '$'):
            ok = False
        if set(var) & PYCHARS - set('@%^&|~+'):
            ok = False
        if var[-1:] in '*!':
            ok = False
        if clash(de, cs) and not de == '#':
            ok = False
        if clash(me, de) and me != '*#' or clash(pe, var) or \
                set(ds) & set('([{'):
            ok = False
        if slurp and slurp != ds and any(clash(slurp, s) for s in
                                         starts + [de]):
            ok = False
        # the end-of-line slurp follows text; the directive end token may
        # not be taken for it
        if slurp and clash(slurp, de) and de != ds:
            ok = False
        if ok:
            return gen.Tokens(var, ds, de, cs, ms, me, ps, pe, slurp)


def deliver(ctx, rng, src, settings, tok, how=None):
    """compile src with the settings reaching the compiler in some way"""
    from Cheetah.Template import Template
    how = how or rng.choice(['kw', 'kw', 'class', 'subclass', 'mixed'])
    ctx.count('delivered:' + how)
    if how == 'kw':
        return compile_(src, compilerSettings=settings)
    if how == 'class':
        class T(Template):
            _CHEETAH_compilerSettings = settings
        return T.compile(src, cacheCompilationResults=False)
    if how == 'subclass':
        class A(Template):
            _CHEETAH_compilerSettings = settings

        class B(A):
            pass
        return B.compile(src, cacheCompilationResults=False)
    ks = sorted(settings)
    rng.shuffle(ks)
    k = rng.randrange(len(ks) + 1)

    class C(Template):
        _CHEETAH_compilerSettings = dict(
            {x: 'q' for x in ks[k:]}, **{x: settings[x] for x in ks[:k]})
    # what is given with the call wins over the class
    return C.compile(src, cacheCompilationResults=False,
                     compilerSettings=dict(settings))


def generate(rng, tok=None, **kw):
    g = gen.TGen(rng, tok=tok, maxdepth=rng.randint(1, 3),
                 budget=rng.choice([8, 16, 30]), **kw)
    run = g.template()
    return g, run


def play(ctx, rng, g, run, cls, src, tok, key, **d):
    fac = gen.make_data(rng)
    sl, log = fac()
    want = gen.reference(run, gen.World(sl))
    sl2, log2 = fac()
    try:
        got = str(cls(searchList=sl2))
    except Exception as e:
        raise Violation('a valid template failed: %s: %s' % (
            type(e).__name__, str(e)[:300]), key=key + '-fails', src=src,
            want=want, tokens=tok, **d)
    same(got, want, 'output differs from the reference interpreter',
         key=key, src=src, tokens=tok, **d)
    same(log2, log, 'the evaluation trace differs', key=key + '-trace',
         src=src, tokens=tok, **d)


def programs(ctx, rng):
    tok = tokens(rng)
    g, run = generate(rng, tok)
    src = g.w.src()
    st = tok.settings()
    try:
        cls = deliver(ctx, rng, src, st, tok)
    except Exception as e:
        raise Violation('a valid template was rejected: %s: %s' % (
            type(e).__name__, str(e)[:300]), key='rejected', src=src,
            tokens=st)
    play(ctx, rng, g, run, cls, src, st, 'program')
    ctx.count('programs')
    ctx.saw((tok.var, tok.ds, tok.de, tok.ps, tuple(sorted(g.features))))
    ctx.sample({'src': src, 'tokens': st}, limit=4)


STYLE = {
    'useStackFrames': [True, False],
    'includeRawExprInFilterArgs': [True, False],
    'commentOffset': [0, 1, 2, 9],
    'outputRowColComments': [True, False],
    'defDocStrMsg': ['x', 'other text', 'it\'s """odd"""', '', 'a\nb'],
    'setup__str__method': [True, False],
    'indentationStep': [' ', '  ', '    ', '\t', '        '],
    'initialMethIndentLevel': [2, 3, 4],
    'outputMethodsBeforeAttributes': [True, False],
    'addTimestampsToCompilerOutput': [True, False],
    'useKWsDictArgForPassingTrans': [True, False],
    'monitorSrcFile': [True, False],
    'gettextTokens': [[], ['_'], ['f0', 'num', 'tr']],
    'allowSearchListAsMethArg': [True, False],
    'useErrorCatcher': [True, False],
    'blockMarkerStart': [('a', 'b')],
    'blockMarkerEnd': [('a', 'b')],
    'allowWhitespaceAfterDirectiveStartToken': [False],
    'allowExpressionsInExtendsDirective': [True, False],
    'autoImportForExtendsDirective': [True, False],
    'allowEmptySingleLineMethods': [True, False],
    'mainMethodName': ['respond', 'main', 'go'],
    'mainMethodNameForSubclasses': ['writeBody', 'other'],
}


def some_style(rng):
    st = {}
    for k in rng.sample(sorted(STYLE), rng.choice([1, 1, 2, 4, 8,
                                                   len(STYLE)])):
        st[k] = rng.choice(STYLE[k])
    return st


def styled(ctx, rng):
    g, run = generate(rng)
    src = g.w.src()
    st = some_style(rng)
    try:
        cls = deliver(ctx, rng, src, st, None,
                      rng.choice(['kw', 'class', 'subclass']))
    except Exception as e:
        raise Violation('a valid template was rejected: %s: %s' % (
            type(e).__name__, str(e)[:300]), key='style-rejected', src=src,
            style=st)
    play(ctx, rng, g, run, cls, src, None, 'style', style=st)
    ctx.count('styled')
    ctx.saw((tuple(sorted((k, repr(v)) for k, v in st.items())),
             tuple(sorted(g.features))[:3]))


# V placeholder, { } as D...E directive; C comment; M..N multi-line comment;
# P..Q PSP; S slurp token. Written with unlikely characters, see build().
V, D, E, C, M, N, P, Q, S = [chr(0xE000 + i) for i in range(9)]


def abstract(s):
    for a, b in (('<<%', P), ('%>>', Q), ('##', C), ('#*', M), ('*#', N),
                 ('#|', S), ('$', V), ('#;', E), ('#', D)):
        s = s.replace(a, b)
    return s


PIECES = [
    '#def f%d($a, b=2, *c, **d)\n[$a $b ${a, x=1} $c $d]\n#end def\n'
    '$f%d(1) $f%d(1, b=$x) $f%d(*[1, 2, 3], **{"q": $x})\n',
    '#def g%d: one line $x\n$g%d()\n', '#block b%d\nin $x\n#end block\n',
    '#block b%d: one $x\n',
    '#call $up a=1, b=$x#;inner $y#end call#;\n',
    '#call $kw\n#arg p\n$x\n#arg q: $y\n#arg r#;zz#end call\n',
    '#call $up: line $x\n', '#capture c%d\n<$x>\n#end capture\n[$c%d]\n',
    '#capture c%d: <$y>\n[$c%d]\n',
    '#filter WebSafe\n$lt #filter None#;$lt#end filter#;\n#end filter\n',
    '#filter WebSafe: $lt\n',
    '#cache\n$x\n#end cache\n', '#cache timer="5m", id="i%d"\n$y\n'
    '#end cache\n', '$*x $*5m*y $*(x) $*{y} $!nope $!{nope.x} $!x\n',
    '#include source="inc"\n', '#include raw source="inc DOLx"#;\n',
    '#raw\nDOLx HASHif 1\n#end raw\n', '#raw#;DOLx HASHif 1#end raw#;\n',
    '#if $x == 1#;yes#else#;no#end if#;\n', '#if $x: yes $x\n',
    '#if $x then $y else $lt\n', '#unless $x: no\n',
    '#for $i in range(3): <$i>\n', '#for i, j in $pairs#;$i$j,#end for#;\n',
    '#repeat 3#;x#end repeat#;\n', '#set $n%d = 0\n#while $n%d < 3\n'
    '#set $n%d += 1\n$n%d\n#end while\n',
    '#try\n$boom()\n#except ZeroDivisionError as e\n$e\n#finally\nf\n'
    '#end try\n', '#silent $log(1)\n#echo $x + 1 #;\n',
    '#set global $gl%d = $x\n$gl%d\n', '#set $s%d = c"a$(x)b" + c\'$y\'\n'
    '$s%d\n',
    '#set module mo%d = 3\n$mo%d\n', '#attr at%d = [1, 2]\n$at%d[0]\n',
    '#import os\n$os.path.basename("a/b")\n',
    '#from os import path as pp%d\n$pp%d.basename("a/b")\n',
    '#closure k%d(q)\n<$q>\n#end closure\n$k%d(5)\n',
    '#i18n#;text $x#end i18n#;\n', '#i18n: text $x\n',
    '#defmacro m%d\n<m>@src</m>\n#end defmacro\n#m%d: $x\n#m%d#;t $y'
    '#end m%d#;\n',
    '#@staticmethod\n#def st%d()\nstatic\n#end def\n$st%d()\n',
    'line ## comment $nope #if\n## whole line\n#* multi $nope\n#if *#\n'
    'a #*x*# b\n', '<<%= abs(3) %>> <<% q = 4 %>><<%= q %>>\n',
    '<<% for z in (1, 2): %>>$z <<% end %>>\n',
    'slurped #slurp\nnext\n', 'slurped #|\nnext\n',
    '#assert $x == 1\n#pass\n', '#set $dl%d = 1\n#del $dl%d\n', '#if $x\n  #if $y\n    deep $x\n  #end if\n#end if\n',
    '$x.__class__.__name__ $d.k.l $d["k"]["l"] $up($x + 1) $obj.m(1).n\n',
    '${x + 1} $(x) $[x] ${ x } ${d["k"]} ${up("}")} $up($up($x))\n',
    '$pairs[0][1] $pairs[$x:][0] $d.get("k", {"z": [$x]})\n',
    '#echo [$i for i in $pairs]\n', '#if 0\n#stop\n#end if\n',
    '#if $x == 1 and not $d.k.l == 2#;both#end if#;\n',
]


def build(t, tok):
    out = t
    if tok.slurp is None:
        out = out.replace(S, D + 'slurp')
    for a, b in zip((V, D, E, C, M, N, P, Q, S),
                    (tok.var, tok.ds, tok.de, tok.cs, tok.ms, tok.me, tok.ps,
                     tok.pe, tok.slurp or '')):
        out = out.replace(a, b)
    return out.replace('DOL', '$').replace('HASH', '#')


class Obj(object):
    def m(self, a=0):
        return self

    n = 'enn'


def data():
    events = []

    def up(s='', a=None, b=None):
        events.append(('up', repr(s), a, b))
        return str(s).upper()

    def kw(**k):
        events.append(('kw', sorted(k.items())))
        return repr(sorted(k.items()))

    def boom():
        events.append('boom')
        return 1 // 0
    ns = {'x': 1, 'y': 'why', 'lt': '<&>', 'up': up, 'kw': kw, 'boom': boom,
          'pairs': [(1, 2), (3, 4)], 'd': {'k': {'l': 2}}, 'obj': Obj(),
          'log': events.append}
    return ns, events


def corpus_template(rng):
    parts = []
    n = 0
    for p in rng.sample(PIECES, rng.randint(2, 7)):
        n += 1
        parts.append(abstract(p.replace('%d', str(n))))
        if rng.random() < .3:
            parts.append(rng.choice(['text\n', '\n', 'a ' + V + 'x\n']))
    s = ''.join(parts)
    return s


def show(cls):
    ns, events = data()
    o = outcome(lambda: str(cls(searchList=[ns])))
    return o, events


def rewritten(ctx, rng):
    t = corpus_template(rng)
    base = build(t, gen.Tokens())
    if 'defmacro' in base and rng.random() < .5:
        return ctx.saw()
    tok = tokens(rng)
    if 'defmacro' in base and (tok.var in '@%' or tok.ds in '@%' or
                               tok.slurp in ('%', '@')):
        return ctx.saw()
    src = build(t, tok)
    want = show(compile_(base))
    need(want[0][0] == 'ok', 'the corpus template fails', key='corpus',
         src=base, got=want[0])
    st = tok.settings()
    style = some_style(rng) if rng.random() < .3 else {}
    try:
        cls = deliver(ctx, rng, src, dict(style, **st), tok)
    except Exception as e:
        raise Violation('a rewritten template was rejected: %s: %s' % (
            type(e).__name__, str(e)[:300]), key='rewrite-rejected',
            src=src, tokens=st, base=base, style=style)
    same(show(cls), want, 'a template rewritten in other tokens renders '
         'differently', key='rewrite', src=src, base=base, tokens=st,
         style=style)
    ctx.count('rewritten')
    ctx.saw((tok.var, tok.ds, tok.de, tok.cs, tok.ms, tok.ps, tok.slurp))


def restyled(ctx, rng):
    base = build(corpus_template(rng), gen.Tokens())
    want = show(compile_(base))
    need(want[0][0] == 'ok', 'the corpus template fails', key='corpus',
         src=base, got=want[0])
    st = some_style(rng)
    cls = deliver(ctx, rng, base, st, None, rng.choice(['kw', 'class']))
    same(show(cls), want, 'a style setting changed the output', key='restyle',
         src=base, style=st)
    ctx.count('styled')
    ctx.saw((tuple(sorted((k, repr(v)) for k, v in st.items())), 'corpus'))


def directive(ctx, rng):
    """Tokens set by a directive hold from there on."""
    t1, t2 = corpus_template(rng), corpus_template(rng)
    t2 = re.sub(r'\b(f|g|b|c|i|n|gl|s|mo|at|pp|k|m|st|dl)(\d)\b', r'\g<1>2\2',
                t2)
    tok = tokens(rng)
    if 'defmacro' in t2 and (tok.var in '@%' or tok.ds in '@%' or
                             tok.slurp in ('%', '@')):
        return ctx.saw()
    st = tok.settings()
    base = build(t1 + t2, gen.Tokens())
    want = show(compile_(base))
    need(want[0][0] == 'ok', 'the corpus template fails', key='corpus',
         src=base, got=want[0])
    how = rng.choice(['python', 'config', 'single'])
    if how == 'python':
        head = '#compiler-settings python\n' + ''.join(
            '%s = %r\n' % kv for kv in sorted(st.items())) + \
            '#end compiler-settings\n'
    elif how == 'config':
        ks = [k for k in sorted(st) if st[k] != gen.Tokens().settings()[k]]
        if any(st[k] is None for k in ks) or not ks:
            return ctx.saw()
        head = '#compiler-settings\n' + ''.join(
            '%s = %s\n' % (k, st[k]) for k in ks) + \
            '#end compiler-settings\n'
    else:
        # one token only
        k = rng.choice(['cheetahVarStartToken', 'PSPStartToken',
                        'PSPEndToken', 'commentStartToken'])
        d = gen.Tokens()
        a = {'cheetahVarStartToken': 'var', 'PSPStartToken': 'ps',
             'PSPEndToken': 'pe', 'commentStartToken': 'cs'}[k]
        v = getattr(tok, a)
        if a == 'var' and (v in '#<' or v[0] in '#<'):
            return ctx.saw()
        if clash(v, '#') or a == 'cs' and (clash(v, '<%') or clash(v, '$')) \
                or a == 'ps' and clash(v, '$') or \
                a == 'var' and clash(v, '<%'):
            return ctx.saw()
        setattr(d, a, v)
        tok, st = d, d.settings()
        head = '#compiler %s = %r\n' % (k, v)
    src = build(t1, gen.Tokens())
    # directive tags want their own line
    if not src.endswith('\n'):
        src += '\n'
        base = src + build(t2, gen.Tokens())
        want = show(compile_(base))
    src += head + build(t2, tok)
    try:
        cls = compile_(src)
    except Exception as e:
        raise Violation('tokens set by a directive: rejected: %s: %s' % (
            type(e).__name__, str(e)[:300]), key='directive-rejected',
            src=src, how=how)
    same(show(cls), want, 'tokens set by a directive change the result',
         key='directive', src=src, base=base, how=how)
    ctx.count('by directive')
    ctx.saw(('directive', how, tok.var, tok.ds, tok.de))


SCENARIOS = [
    ('programs', programs, 1200, 20000),
    ('styled', styled, 800, 15000),
    ('rewritten', rewritten, 1200, 20000),
    ('restyled', restyled, 700, 10000),
    ('directive', directive, 500, 6000),
]
