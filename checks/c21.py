"""C21: settings mean what was written, and stay where they were set."""
import contextlib
import copy
import io
import os

from vlib.core import need, same
from vlib.t import compile_, write

RULE = ('Random sets of compiler settings (tokens, switches, lists) delivered '
        'by dictionary, class attribute, command line, config text, Python '
        'text and single directives, changed and reset along templates, some '
        'of which fail; random config texts and merge histories. Distinct: '
        'source and setting, change and switch state, value sort.')
TECHNIQUE = ('hooked-state monitor (the compiler\'s settings after each '
             'compilation) and reference-model monitor of the rendering, with '
             'the defaults, the caller\'s dictionaries and a canary template '
             'compared after every case')
LEVEL_NOTE = ('Keys without a default (macro tables and the like) are not '
              'removed by a reset; not asserted either way.')
REQUIRED = {'settings_compared': 20000, 'lines': 3000, 'failed': 50,
            'config_values': 3000, 'resets': 200, 'cli': 20}
DESIGN = ('Each case has a model of the settings in force. A recording '
          'subclass of the real compiler shows the settings it ended with; '
          'the template text after each change contains live and dead forms '
          'of every token, so its rendering shows what was in force where.')

VARS = ['$', '@', '~', '&&', '?:']
DSTART = ['#', '%%', '!!', '|>']
DEND = ['#', '|', '%%', '|#']
COMM = ['##', '//', '%#', '--']
MLC = [('#*', '*#'), ('/*', '*/'), ('(:', ':)')]
SLURP = ['#', '^^', ';;', None]
PSP = [('<%', '%>'), ('<?', '?>'), ('{{', '}}')]
FLAGS = ['useNameMapper', 'useSearchList', 'useAutocalling', 'useFilters', 'includeRawExprInFilterArgs',
         'alwaysFilterNone', 'allowWhitespaceAfterDirectiveStartToken',
         'gobbleWhitespaceAroundMultiLineComments']
# settings without an effect on the rendering here
OTHER = {'commentOffset': [0, 1, 3], 'outputRowColComments': [True, False],
         'blockMarkerStart': [('<', '>'), ('[', ']')],
         'defDocStrMsg': ['made by hand', "it's"],
         'mainMethodNameForSubclasses': ['writeIt', 'body'],
         'addTimestampsToCompilerOutput': [True, False],
         'enabledDirectives': [[]], 'gettextTokens': [['_'], ['_', 'N_']],
         'allowEmptySingleLineMethods': [True, False],
         'encoding': [None], 'monitorSrcFile': [False],
         'setup__str__method': [False, True],
         'i18NFunctionName': ['self.tr', 'self.i18n'],
         'includeBlockMarkers': [True, False],
         'useStackFrames': [False]}


def FN():
    return 'called'


def ns():
    return {'x': 5, 'fn': FN, 'none': None,
            'inc': "#compiler cheetahVarStartToken = '@'\n[$x]"}


def setup(ctx):
    from Cheetah.Compiler import Compiler, DEFAULT_COMPILER_SETTINGS
    from Cheetah.Filters import Filter
    ctx.state['defaults'] = copy.deepcopy(DEFAULT_COMPILER_SETTINGS)
    ctx.state['live'] = DEFAULT_COMPILER_SETTINGS

    class Recorder(Compiler):
        last = None

        def __init__(self, *a, **k):
            Recorder.last = self
            Compiler.__init__(self, *a, **k)

    class Show(Filter):
        def filter(self, val, **kw):
            return '<%s%s>' % (val, '!' if 'rawExpr' in kw else '')
    ctx.state['Recorder'] = Recorder
    ctx.state['Show'] = Show


def pick(rng, n):
    """some settings, as a list of (name, value)"""
    out = {}
    for _ in range(n):
        k = rng.choice(['var', 'var', 'dstart', 'dend', 'comm', 'mlc', 'slurp',
                        'psp', 'flag', 'flag', 'flag', 'other', 'other'])
        if k == 'var':
            out['cheetahVarStartToken'] = rng.choice(VARS)
        elif k == 'dstart':
            out['directiveStartToken'] = rng.choice(DSTART)
        elif k == 'dend':
            out['directiveEndToken'] = rng.choice(DEND)
        elif k == 'comm':
            out['commentStartToken'] = rng.choice(COMM)
        elif k == 'mlc':
            (out['multiLineCommentStartToken'],
             out['multiLineCommentEndToken']) = rng.choice(MLC)
        elif k == 'slurp':
            out['EOLSlurpToken'] = rng.choice(SLURP)
        elif k == 'psp':
            out['PSPStartToken'], out['PSPEndToken'] = rng.choice(PSP)
        elif k == 'flag':
            out[rng.choice(FLAGS)] = rng.random() < .5
        else:
            n = rng.choice(sorted(OTHER))
            out[n] = rng.choice(OTHER[n])
    items = list(out.items())
    rng.shuffle(items)
    return items


def as_config(rng, v):
    """config text for a value"""
    if v is None:
        return rng.choice(['None', 'none', 'python: None', 'NONE'])
    if v is True:
        return rng.choice(['True', 'true', 'TRUE', 'python:True'])
    if v is False:
        return rng.choice(['False', 'false', 'python: 1 == 2'])
    if isinstance(v, (list, tuple)):
        return rng.choice(['python:', 'Python: ']) + repr(v)
    if isinstance(v, (int, float, complex)):
        return rng.choice([repr(v), ' ' + repr(v) + ' '])
    if rng.random() < .2:
        return 'python: ' + repr(v)
    return v


def directive(rng, how, items, d):
    """directives that set these, written with start token d"""
    if how == 'compiler':
        return ''.join('%scompiler %s%s=%s%r\n' % (
            d, k, rng.choice(['', ' ']), rng.choice(['', ' ']), v)
            for k, v in items)
    if how == 'config':
        body = ''.join('%s %s %s\n' % (k, rng.choice('=:'),
                                       as_config(rng, v)) for k, v in items)
        if rng.random() < .3:
            body = rng.choice(['# note\n', '; note\n', '\n']) + body
        return '%scompiler-settings\n%s%send compiler-settings\n' % (
            d, body, d)
    body = ''.join('%s = %r\n' % (k, v) for k, v in items)
    if rng.random() < .3:
        body = '_tmp = 3\nimport os as _os\n' + body
    return '%scompiler-settings python\n%s%send compiler-settings\n' % (
        d, body, d)


def shown(S, v):
    if callable(v) and S['useAutocalling']:
        v = v()
    if v is None and S['alwaysFilterNone']:
        return ''
    if not S['useFilters']:
        return str(v)
    return '<%s%s>' % (v, '!' if S['includeRawExprInFilterArgs'] else '')


def line(ctx, rng, S):
    """(source, expected) of one line of text under settings S"""
    v, d, e = (S['cheetahVarStartToken'], S['directiveStartToken'],
               S['directiveEndToken'])
    env = ns()
    # without these, names are Python's own
    names = S['useNameMapper'] and S['useSearchList']
    k = rng.random()
    if k < .12:
        return '%s gone %sx\n' % (S['commentStartToken'], v), ''
    if k < .24:
        ms, me = S['multiLineCommentStartToken'], S['multiLineCommentEndToken']
        a, b = rng.choice(['', '  ']), rng.choice(['', ' '])
        src = '%s%s c %sx %s%s\n' % (a, ms, v, me, b)
        if S['gobbleWhitespaceAroundMultiLineComments']:
            return src, ''
        return src, a + b + '\n'
    src, want = 'T ', 'T '
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(['ph', 'ph', 'ph', 'deadph', 'if', 'deadif', 'wsif',
                        'deadc', 'mlc', 'deadmlc', 'psp', 'deadpsp', 'inc'])
        if p == 'ph':
            n = rng.choice(['x', 'fn', 'none']) if names else 'str(7)'
            src += v + rng.choice([n, '{%s}' % n])
            want += shown(S, env.get(n, '7'))
        elif p == 'deadph':
            s = rng.choice([t for t in VARS if t != v]) + 'x'
            src += s
            want += s
        elif p == 'if':
            src += '%sif 1%syes%send if%s' % (d, e, d, e)
            want += 'yes'
        elif p == 'deadif':
            t = rng.choice([t for t in DSTART if t != d])
            s = '%sif 1 ' % t
            src += s
            want += s
        elif p == 'wsif':
            s = '%s if 1%syes%s end if%s' % (d, e, d, e)
            src += s
            want += 'yes' if S['allowWhitespaceAfterDirectiveStartToken'] \
                else s
        elif p == 'deadc':
            s = rng.choice([t for t in COMM
                            if t != S['commentStartToken']]) + ' c'
            src += s
            want += s
        elif p == 'mlc':
            src += 'a%s c %sb' % (S['multiLineCommentStartToken'],
                                  S['multiLineCommentEndToken'])
            want += 'ab'
        elif p == 'deadmlc':
            t = rng.choice([t for t in MLC
                            if t[0] != S['multiLineCommentStartToken']])
            s = t[0] + ' c ' + t[1] + ' '
            src += s
            want += s
        elif p == 'psp':
            src += '%s write("psp") %s' % (S['PSPStartToken'],
                                           S['PSPEndToken'])
            want += 'psp'
        elif p == 'deadpsp':
            t = rng.choice([t for t in PSP if t[0] != S['PSPStartToken']])
            s = t[0] + ' write("psp") ' + t[1]
            src += s
            want += s
        else:
            src += '%sinclude source=%s%s' % (
                d, v + 'inc' if names else "'[\\$x]'", e)
            want += '[$x]'
        ctx.saw((p, v, d, e))
        src += ' '
        want += ' '
    k = rng.random()
    if k < .2 and S['EOLSlurpToken']:
        return src + S['EOLSlurpToken'] + '\n', want
    if k < .4:
        t = rng.choice([t for t in SLURP if t and t != S['EOLSlurpToken']])
        return src + t + '\n', want + t + '\n'
    return src + '.\n', want + '.\n'


def apply_(S, items):
    S.update(copy.deepcopy(dict(items)))


def deliver(rng, how, items, S, defaults):
    """(head of the source, keyword arguments of compile)"""
    if how == 'dict':
        return '', {'compilerSettings': dict(items)}
    if how in ('attr', 'cli'):
        return '', {}
    # directives are read while the earlier ones are in force already
    if how == 'compiler':
        src = ''
        d = S['directiveStartToken']
        for k, v in items:
            src += directive(rng, how, [(k, v)], d)
            if k == 'directiveStartToken':
                d = v
        return src, {}
    return directive(rng, how, items, S['directiveStartToken']), {}


def effective(ctx, S):
    S = dict(S)
    if ctx.mode == 'pure':
        S.pop('useStackFrames')
    return S


def compare_settings(ctx, rec, S, source):
    need(rec is not None, 'the compiler class given was not used', key='hook',
         source=source)
    got = {k: rec.setting(k) for k in effective(ctx, S)}
    for k, v in effective(ctx, S).items():
        ctx.count('settings_compared')
        if got[k] != v or type(got[k]) is not type(v):
            same((k, got[k]), (k, v), 'setting after compilation',
                 key='setting', source=source)


def guard(ctx, source, quick=False):
    """nothing else changed"""
    same(ctx.state['live'], ctx.state['defaults'], 'default settings',
         key='defaults', source=source)
    Show = ctx.state['Show']
    c = compile_('$x @x #if 1#y#end if# %%if // c\n  #* c *#\nz#\n.')
    same(str(c(searchList=[ns()], filter=Show)),
         '<5!> @x y %%if // c\nz.', 'a template with default settings',
         key='canary', after=source)


def cli_compile(ctx, src, items):
    from Cheetah.CheetahWrapper import CheetahWrapper
    base = ctx.tmp('cli')
    name = 'clit%d' % ctx.index
    path = os.path.join(base, name + '.tmpl')
    write(path, src)
    arg = ', '.join('%s=%r' % kv for kv in items)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        CheetahWrapper().main(
            ['cheetah', 'compile', '--nobackup', '--settings=' + arg,
             os.path.join(base, name)])
    g = {'__name__': name}
    with open(os.path.join(base, name + '.py'), 'rb') as f:
        code = f.read()
    exec(compile(code, name, 'exec'), g)
    for e in ('.py', '.tmpl'):
        os.remove(os.path.join(base, name + e))
    ctx.count('cli')
    return g[name]


def sources(ctx, rng):
    from Cheetah.Template import Template
    from Cheetah.Parser import ParseError
    defaults = ctx.state['defaults']
    Recorder = ctx.state['Recorder']
    S = copy.deepcopy(defaults)
    how = rng.choice(['dict', 'dict', 'attr', 'cli', 'compiler', 'config',
                      'python', 'none'])
    items = pick(rng, rng.randint(1, 5)) if how != 'none' else []
    src, kw = deliver(rng, how, items, S, defaults) if items else ('', {})
    apply_(S, items)
    want = ''
    history = [(how, [k for k, v in items])]
    for part in range(rng.randint(1, 4)):
        for _ in range(rng.randint(1, 4)):
            s, w = line(ctx, rng, S)
            src += s
            want += w
            ctx.count('lines')
        k = rng.random()
        d = S['directiveStartToken']
        if src.endswith('\n') and want and not want.endswith('\n'):
            src += 'E\n'
            want += 'E\n'
        if k < .25:
            src += d + rng.choice(['compiler reset', 'compiler-settings reset',
                                   'compiler Reset']) + '\n'
            S = copy.deepcopy(defaults)
            ctx.count('resets')
            history.append(('reset',))
        elif k < .8:
            h = rng.choice(['compiler', 'config', 'python'])
            it = pick(rng, rng.randint(1, 3))
            s, _ = deliver(rng, h, it, S, defaults)
            src += s
            apply_(S, it)
            history.append((h, [n for n, v in it]))
        elif k < .9:
            # a list changed in place, by the code of a python directive
            n = 'disabledDirectiveHooks'
            src += ('%scompiler-settings python\n'
                    'self.setting(%r).append(%d)\n'
                    '%send compiler-settings\n' % (d, n, part, d))
            S[n] = S[n] + [part]
            history.append(('inplace', [n]))
    for h in history:
        for n in h[1] if len(h) > 1 else ['-']:
            ctx.saw(('source', h[0], n))
    fails = rng.random() < .12
    if fails:
        src += S['directiveStartToken'] + 'if 1\nunclosed\n'
    if how == 'cli' and not fails:
        cls = cli_compile(ctx, src, items)
        got = str(cls(searchList=[ns()], filter=ctx.state['Show']))
        same(got, want, 'rendering under settings', key='render', source=src,
             how=how, settings=items)
        guard(ctx, src)
        return
    keep = copy.deepcopy(kw)
    klass = Template
    if how in ('attr', 'cli'):
        own = dict(items)
        klass = type('Tmpl', (Template,), {'_CHEETAH_compilerSettings': own})
    Recorder.last = None
    try:
        cls = klass.compile(src, compilerClass=Recorder,
                            cacheCompilationResults=False, **kw)
    except ParseError as e:
        need(fails, 'compilation failed: %s' % e, key='compile', source=src,
             how=how, settings=items)
        ctx.count('failed')
    else:
        need(not fails, 'an unclosed directive was accepted', key='compile',
             source=src)
        compare_settings(ctx, Recorder.last, S, src)
        got = str(cls(searchList=[ns()], filter=ctx.state['Show']))
        same(got, want, 'rendering under settings', key='render', source=src,
             how=how, settings=items)
    same(kw, keep, 'the caller\'s dictionary', key='dict', source=src)
    if how == 'attr':
        same(own, dict(items), 'the class attribute', key='attr', source=src)
        # the next template of that class starts from the attribute again
        Recorder.last = None
        klass.compile('text', compilerClass=Recorder,
                      cacheCompilationResults=False)
        S = copy.deepcopy(defaults)
        apply_(S, items)
        compare_settings(ctx, Recorder.last, S, 'text')
    guard(ctx, src)


# -- the settings manager itself

def value(rng):
    """(config text, value)"""
    k = rng.choice(['int', 'float', 'hex', 'neg', 'cplx', 'none', 'bool',
                    'py', 'str', 'str', 'empty', 'numlike'])
    if k == 'int':
        n = rng.choice([0, 1, 7, 10 ** 20, 42])
        return k, str(n), n
    if k == 'float':
        s = rng.choice(['1.5', '0.25', '1e3', '2.5E-3', '.5', '3.'])
        return k, s, float(s)
    if k == 'hex':
        s = rng.choice(['0x1F', '0b101', '0o17', '1_000'])
        return k, s, int(s.replace('_', ''), 0)
    if k == 'neg':
        s = rng.choice(['-5', '+7', '-2.5', '-0x10'])
        return k, s, eval(s)
    if k == 'cplx':
        s = rng.choice(['2j', '1+2j', '(1+2j)', '1.5 + 0.5j'])
        return k, s, eval(s)
    if k == 'none':
        return k, rng.choice(['None', 'none']), None
    if k == 'bool':
        b = rng.random() < .5
        return k, str(b) if rng.random() < .5 else str(b).lower(), b
    if k == 'py':
        v = rng.choice([[1, 'a'], {'k': (1, 2)}, 'text', None, 5, '7',
                        'True', [], {'a': {'b': []}}])
        return k, rng.choice(['python:', 'Python: ', 'PYTHON:']) + repr(v), v
    if k == 'empty':
        return k, '', ''
    if k == 'numlike':
        s = rng.choice(['1.2.3', '5px', '0x', '--5', '1e', '-', '+', 'e5',
                        '1 2', 'nan', '12:30', '5%', '0x1G', '1,000'])
        return k, s, s
    s = rng.choice(['#', '$', '%%', 'a b', 'Nonesuch', 'trueish', 'pythonic',
                    '"quoted"', "it's", '\xe9\u4e2d', 'a=b', 'a: b', '[x]',
                    'x ; y', 'x # y', '5 apples', '50%', '*#', 'self.i18n'])
    return k, s, s


def key(rng):
    return rng.choice(['alpha', 'Beta', 'bETA', 'gamma.delta', 'x1', 'Y',
                       'with space', 'k-1', '_under', 'omega'])


def config(ctx, rng):
    """text in, values out"""
    from Cheetah.SettingsManager import SettingsManager
    m = SettingsManager()
    convert = rng.random() < .8
    model = {}
    text = ''
    style = rng.choice(['flat', 'file'])
    sects = ['globals'] if style == 'flat' else rng.sample(
        ['Globals', 'one', 'Two', 'three.four'], rng.randint(1, 4))
    for s in sects:
        if style == 'file':
            text += '[%s]\n' % s
        mine = {}
        for _ in range(rng.randint(0, 5)):
            k = key(rng)
            if k in mine:
                continue
            sort, t, v = value(rng)
            text += '%s%s%s%s\n' % (k, rng.choice([' = ', '=', ' : ', ': ']),
                                    t, rng.choice(['', ' ', '']))
            mine[k] = v if convert else t
            ctx.saw(('config', sort, convert, style))
            ctx.count('config_values')
            if rng.random() < .15:
                text += rng.choice(['# c = 1\n', '; c = 1\n', '\n'])
        if s.lower() == 'globals':
            model.update(mine)
        else:
            model[s] = mine
    if style == 'flat':
        m.updateSettingsFromConfigStr(text, convert=convert)
    else:
        m.updateSettingsFromConfigFileObj(io.StringIO(text), convert=convert)
    got = m.settings()
    same({k: repr(v) for k, v in got.items()},
         {k: repr(v) for k, v in model.items()} if style == 'flat' else
         {k: repr(v) for k, v in model.items()},
         'settings read from config text', key='config', text=text)


def rand_dict(rng, depth):
    d = {}
    for _ in range(rng.randint(0, 4)):
        k = rng.choice('abcde')
        if depth and rng.random() < .5:
            d[k] = rand_dict(rng, depth - 1)
        else:
            d[k] = rng.choice([0, 1, None, 'v', [1], False, ''])
    return d


def model_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = model_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def merge(ctx, rng):
    """histories of updates, each source its own dictionary"""
    from Cheetah.SettingsManager import SettingsManager, \
        mergeNestedDictionaries
    m = SettingsManager()
    model = {}
    given = []
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(['merge', 'merge', 'over', 'set', 'py', 'snap', 'fun'])
        if k in ('merge', 'over'):
            d = rand_dict(rng, 3)
            given.append((d, copy.deepcopy(d)))
            m.updateSettings(d, merge=k == 'merge')
            if k == 'merge':
                model = model_merge(model, d)
            else:
                model = dict(model)
                model.update(copy.deepcopy(d))
            if k == 'over':
                # documented as overwritten, not copied
                given.pop()
        elif k == 'set':
            n, v = rng.choice('abcde'), rng.choice([1, 'x', None])
            m.setSetting(n, v)
            model = dict(model)
            model[n] = v
        elif k == 'py':
            d = rand_dict(rng, 2)
            m.updateSettingsFromPySrcStr(''.join(
                '%s = %r\n' % kv for kv in d.items()) + '_private = 1\n')
            model = model_merge(model, d)
        elif k == 'snap':
            c = m.deepcopySettings()
            same(c, model, 'copied settings', key='merge')
            for v in c.values():
                if isinstance(v, dict):
                    v['zz'] = 1
                if isinstance(v, list):
                    v.append(9)
            c['zz'] = 2
            c = m.copySettings()
            c['zz'] = 3
        else:
            a, b = rand_dict(rng, 3), rand_dict(rng, 3)
            a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
            r = mergeNestedDictionaries(a, b, deepcopy=True)
            same(r, model_merge(a0, b0), 'merged dictionaries', key='fun')
            same((a, b), (a0, b0), 'the arguments of a copying merge',
                 key='fun')
        ctx.saw(('merge', k, len(model)))
        same(m.settings(), model, 'merged settings', key='merge')
        for n in 'abcdez':
            same(m.hasSetting(n), n in model, 'hasSetting', key='merge')
            same(m.setting(n, 'dflt'), model.get(n, 'dflt'), 'setting',
                 key='merge')
        for d, d0 in given:
            same(d, d0, 'a dictionary given earlier', key='alias')
        ctx.count('settings_compared')


SCENARIOS = [('sources', sources, 5000, 60000),
             ('config', config, 6000, 80000), ('merge', merge, 4000, 60000)]
