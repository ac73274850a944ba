"""C25: macros, preprocessors and hooks transform the source exactly once."""
import io
import os

from vlib.core import need, same
from vlib.t import compile_, write

RULE = ('Random templates with calls of macros (functions, methods, callable '
        'objects, classes, inline definitions, translation) in block, inline '
        'and one-line form, nested, repeated, producing further calls; random '
        'chains of preprocessors given in every documented form. Distinct: '
        'macro kind and form and depth; preprocessor form and position.')
TECHNIQUE = ('metamorphic monitor: the rendering is compared with that of the '
             'source expanded by an independent textual expander; online log '
             'of each macro and preprocessor call with its text, arguments '
             'and position')
LEVEL_NOTE = ('A macro\'s block ends at the first end tag of its name, so '
              'calls of one macro are not nested in one another\'s text. PSP tags have one '
              'syntax for all stages and run in the first; not generated.')
REQUIRED = {'macro_calls': 8000, 'nested': 1000, 'stages': 4000,
            'renderings': 2000,
            'hook_calls': 5000}
DESIGN = ('The expander knows the exact text of every call it wrote. It '
          'replaces calls by the result of a second, plain-Python copy of the '
          'macro, recursively and in source order, keeping a log. The real '
          'template must log the same calls and render like the expansion. '
          'Preprocessors are interleaved with recorders that compare every '
          'intermediate source with the model, character by character.')


def ns():
    return {'x': 'X&', 'flag': True, 'off': False, 'n': 3, 'l': [1, 2],
            'glob': 'runtime'}


# -- macros: name -> function of (src, args), shared text, own logs

def out_wrap(src, a):
    return a.get('pre', '<') + src + a.get('post', '>')


def out_line(src, a):
    return 'top %s\n' % a.get('pre', '') + src + 'bottom $x\n'


def out_if(src, a):
    return '#if $flag\nthen\n%s#else\nno\n#end if\n' % src


def out_twice(src, a):
    return src * a.get('n', 2)


def out_for(src, a):
    return '#for $i in $l\n$i:\n%s#end for\n' % src


def out_drop(src, a):
    return ''


def out_set(src, a):
    return '#set $v = %r\n%s$v\n' % (a.get('pre', 'p'), src)


def out_ident(src, a):
    return src


# name: (kind, forms, function)
MACROS = {
    'mwrap': ('function', 'i', out_wrap), 'mline': ('method', 'bs', out_line),
    'mif': ('object', 'bs', out_if), 'mtwice': ('class', 'bsi', out_twice),
    'mfor': ('function', 'bs', out_for), 'mdrop': ('kwargs', 'bs', out_drop),
    'mset': ('object', 'bs', out_set), 'i18n': ('builtin', 'bs', out_ident),
    'mcall': ('function', 'b', None),
}
# inline definitions: name: (forms, source, function)
DEFS = {
    'dwrap': ('i', "#defmacro dwrap(pre='(', post=')'): @pre@src@post\n",
              lambda s, a: a.get('pre', '(') + s + a.get('post', ')')),
    'dline': ('b', "#defmacro dline(pre='p', n=1)\nbegin @pre\n"
              "%for q in range(@n)\n@src%end for\n%if @n > 1\n"
              "$x many @glob\n%end if\n#end defmacro\n",
              lambda s, a: 'begin %s\n' % a.get('pre', 'p')
              + s * a.get('n', 1) + '\n'
              + ('$x many G\n' if a.get('n', 1) > 1 else '')),
    'dif': ('b', "#defmacro dif(n=0)\n#if $n == @n\nthen\n@src#else\n"
            "%% a comment\n$n\n#end if\n#end defmacro\n",
            lambda s, a: '#if $n == %d\nthen\n%s#else\n$n\n#end if\n'
            % (a.get('n', 0), s)),
    'dchain': ('b', "#defmacro dchain\n#mline pre='c'\n@src#end mline\n"
               "#end defmacro\n",
               lambda s, a: "#mline pre='c'\n%s#end mline\n" % s),
}
NAMES = sorted(MACROS) + sorted(DEFS)
ORDER = ['dchain', 'mcall', 'dif', 'dline', 'mfor', 'mif', 'mset', 'mdrop',
         'i18n', 'mtwice', 'mline', 'dwrap', 'mwrap']


class Model(object):
    """the textual expander"""

    def __init__(self):
        self.calls = {}         # text of a call: (name, args, src, form)
        self.log = []

    def expand(self, text, depth=0):
        out = ''
        while True:
            best = None
            for c in self.calls:
                i = text.find(c)
                if i >= 0 and (best is None or (i, -len(c)) < best[:2]):
                    best = (i, -len(c), c)
            if best is None:
                return out + text
            i, _, c = best
            name, args, src, form = self.calls[c]
            out += text[:i]
            self.log.append((name, sorted(args.items()), src, form,
                             c.strip()))
            if name == 'mcall':
                res = call_text(self, 'mset', 'b', {'pre': 'made'}, src)
            elif name == 'dchain':
                call_text(self, 'mline', 'b', {'pre': 'c'}, src)
                res = DEFS[name][2](src, args)
            else:
                fn = MACROS[name][2] if name in MACROS else DEFS[name][2]
                res = fn(src + ('\n' if form == 's' else ''), args)
            out += self.expand(res, depth + 1)
            text = text[i + len(c):]


def argtext(args):
    return ', '.join('%s=%r' % kv for kv in sorted(args.items()))


def call_text(model, name, form, args, body, ws='', ws2=''):
    a = argtext(args)
    tag = '#' + name + (' ' + a if a else '')
    if form == 'b':
        text = '%s%s\n%s#end %s\n' % (tag, ws2, body, name)
    elif form == 's':
        text = '%s: %s\n' % (tag, body)
    else:
        text = '%s#%s#end %s#' % (tag, body, name)
    model.calls[text] = (name, args, body, form)
    return text


class Gen(object):
    def __init__(self, ctx, rng, model, defs):
        self.ctx, self.r, self.m = ctx, rng, model
        self.defs = defs
        self.n = 0

    def args(self, name):
        r = self.r
        a = {}
        if name in ('mwrap', 'dwrap') and r.random() < .7:
            a['pre'] = r.choice(['[', '<b>', '${x}', 'a\\\\b', '"q"', "it's"])
            a['post'] = r.choice([']', '</b>', '\xe9\u4e2d', '@x %if'])
        elif name in ('mline', 'mset', 'dline') and r.random() < .7:
            a['pre'] = r.choice(['one', 'two words', 'a:b', '(', '\xe9'])
        if name in ('mtwice', 'dline', 'dif') and r.random() < .7:
            a['n'] = r.choice([0, 1, 2, 3])
        return a

    def inline(self, level):
        """text without a line break, that starts and ends with text"""
        r = self.r
        s = 't'
        for _ in range(r.randint(1, 3)):
            k = r.choice(['text', 'ph', 'esc', 'odd', 'macro', 'macro', 'if'])
            if k == 'text':
                s += r.choice([' text ', ' a b ', '.'])
            elif k == 'ph':
                s += r.choice([' $x ', ' ${x} ', ' $n.real ', ' ${n, a=1} '])
            elif k == 'esc':
                s += r.choice([' \\$x ', ' \\#if ', ' \\\\n '])
            elif k == 'odd':
                s += r.choice([' @x ', ' %if ', ' @src ', " ''' ", ' """ ',
                               ' \xe9\u4e2d ', ' % ', ' {} '])
            elif k == 'if':
                s += '#if $flag#y#end if#'
            else:
                names = [n for n in ORDER[level:] if n in ('mwrap', 'dwrap',
                                                           'mtwice')
                         and (n in MACROS or n in self.defs)]
                if names:
                    n = r.choice(names)
                    s += 'q' + call_text(
                        self.m, n, 'i', self.args(n),
                        self.inline(ORDER.index(n) + 1)) + 'z'
                    self.ctx.saw(('macro', n, 'i', level > 0))
        return s + '.'

    def lines(self, level, depth):
        r = self.r
        s = ''
        for _ in range(r.randint(1, 3)):
            k = r.choice(['text', 'text', 'if', 'comment', 'set', 'macro',
                          'oneline',
                          'macro', 'macro', 'blank', 'setting'])
            ws = r.choice(['', '', '  ', '\t'])
            if k == 'text':
                s += ws + self.inline(level) + '\n'
            elif k == 'blank':
                s += r.choice(['\n', '   \n'])
            elif k == 'if':
                s += '%s#if $off\nhidden\n%s#else\n%s%s#end if\n' % (
                    ws, ws, ws + self.inline(level) + '\n', ws)
            elif k == 'oneline':
                s += '#if $%s: %s\nafter it\n' % (
                    r.choice(['off', 'flag']), self.inline(level))
            elif k == 'comment':
                s += ws + '## $comment #if\n'
            elif k == 'set':
                s += ws + '#set $w = $n\n$w\n'
            elif k == 'setting':
                # configures the parser anew
                s += '#compiler commentOffset = 2\n'
            elif depth:
                names = [n for n in ORDER[level:]
                         if n in MACROS or n in self.defs]
                if not names:
                    continue
                n = r.choice(names)
                forms = (MACROS[n][1] if n in MACROS else DEFS[n][0])
                f = r.choice(forms)
                lv = ORDER.index(n) + 1
                if f == 'i':
                    s += 'q' + call_text(self.m, n, 'i', self.args(n),
                                         self.inline(lv)) + 'z\n'
                elif f == 's':
                    s += call_text(self.m, n, 's', self.args(n),
                                   self.inline(lv))
                else:
                    # the macros it produces come later in the order
                    lv = max(lv, {'mcall': ORDER.index('mset'),
                                  'dchain': ORDER.index('mline')}.get(n, 0)
                             + (n in ('mcall', 'dchain')))
                    s += call_text(self.m, n, 'b', self.args(n),
                                   self.lines(lv, depth - 1), ws,
                                   r.choice(['', ' ']))
                self.ctx.saw(('macro', n, f, level > 0))
                if level:
                    self.ctx.count('nested')
        return s


def real_macros(ctx, log, rng):
    """the macros as the library is given them"""
    def record(name, src, args, kw):
        parser = kw['parser']
        short = kw.get('isShortForm')
        text = parser[kw['startPos']:kw['endPos']]
        args = {k: v for k, v in args.items() if v is not None}
        eol = kw.get('EOLCharsInShortForm')
        if short:
            same(eol, '\n', 'line end told to a one-line macro', key='eol')
        form = 's' if short else 'b' if text.rstrip(' ').endswith('\n') \
            else 'i'
        log.append((name, sorted(args.items()), src, form, text.strip()))
        need(kw['macros'][name] is not None, 'macros', key='macros')
        src += '\n' if short else ''
        if name == 'mcall':
            return "#mset pre='made'\n%s#end mset\n" % src
        return MACROS[name][2](src, args)

    def mwrap(src, pre=None, post=None, parser=None, macros=None,
              isShortForm=None, startPos=None, endPos=None):
        return record('mwrap', src, {'pre': pre, 'post': post}, locals())

    def mfor(src, parser=None, macros=None, isShortForm=None,
             EOLCharsInShortForm=None, startPos=None, endPos=None):
        return record('mfor', src, {}, locals())

    def mcall(src, parser=None, macros=None, isShortForm=None,
              EOLCharsInShortForm=None, startPos=None, endPos=None):
        return record('mcall', src, {}, locals())

    def mdrop(src, parser, macros, startPos, endPos, isShortForm,
              EOLCharsInShortForm=None, **more):
        same(more, {}, 'extra arguments', key='kwargs')
        return record('mdrop', src, more, locals())

    class Holder(object):
        def mline(self, src, pre=None, parser=None, macros=None,
                  isShortForm=None, EOLCharsInShortForm=None, startPos=None,
                  endPos=None):
            return record('mline', src, {'pre': pre}, locals())

    class Callable(object):
        def __init__(self, name):
            self.name = name

        def __call__(self, src, pre=None, parser=None, macros=None,
                     isShortForm=None, EOLCharsInShortForm=None,
                     startPos=None, endPos=None):
            return record(self.name, src, {'pre': pre}, locals())

    class MTwice(object):
        def __init__(self, parser):
            self.parser = parser

        def __call__(self, src, n=None, parser=None, macros=None,
                     isShortForm=None, EOLCharsInShortForm=None,
                     startPos=None, endPos=None):
            need(self.parser is parser, 'parser of a macro class',
                 key='parser')
            return record('mtwice', src, {'n': n}, locals())
    return {'mwrap': mwrap, 'mfor': mfor, 'mdrop': mdrop, 'mcall': mcall,
            'mline': Holder().mline, 'mif': Callable('mif'),
            'mset': Callable('mset'), 'mtwice': MTwice}


LOGGED = [n for n in MACROS if n != 'i18n']


def macros(ctx, rng):
    model = Model()
    defs = [n for n in sorted(DEFS) if rng.random() < .5]
    rng.shuffle(defs)
    g = Gen(ctx, rng, model, defs)
    src = g.lines(0, 3) + g.lines(0, 2) + 'end\n'
    expanded = model.expand(src)
    head = ''.join(DEFS[n][1] for n in defs)
    log = []
    table = real_macros(ctx, log, rng)
    settings = {'macroDirectives': table,
                'searchListForDefMacro': [{'glob': 'G'}]}
    keep = dict(table)
    cls = compile_(head + src, compilerSettings=settings)
    want = [e for e in model.log if e[0] in LOGGED]
    same(log, want, 'macro calls', key='calls', source=head + src)
    same(table, keep, 'the table of macros given', key='table')
    got = str(cls(searchList=[ns()]))
    ref = str(compile_(expanded)(searchList=[ns()]))
    same(got, ref, 'rendering of a template with macros', key='render',
         source=head + src, expanded=expanded)
    ctx.count('macro_calls', len(model.log))
    ctx.count('renderings')


# -- preprocessors

TOKENS = [('@', '%'), ('&&', '??'), ('~', '!!')]


class Pre(object):
    """one stage: (given to the library, model: text -> text)"""


def source_for(rng, tokens):
    """template text with directives of the given token pairs in it"""
    parts = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(['text', 'final', 'final', 'pre', 'pre', 'predir'])
        if k == 'text':
            parts.append(rng.choice(
                ['plain\n', ' x \\$x \\#if \n', '\xe9\u4e2d\n', "'''\"\"\"\n",
                 '\\n \\\\ \n', '  \n', 'a&b<c>\n', 'C:\\\\dir\\n\n', '\n']))
        elif k == 'final':
            parts.append(rng.choice(
                ['$x\n', '  #if $flag\n yes\n  #else\nno\n  #end if\n',
                 '## comment\n', '#for $i in $l\n$i \n#end for\n', '${n}\n',
                 'slurp#\n', '#* multi\nline *#\n', '#raw\n$x\n#end raw\n',
                 '$x $n.real ${x, a=1}\n']))
        elif k == 'pre' and tokens:
            parts.append(('ph', rng.choice(tokens), rng.choice(
                ['y', 'name', 'z.k'])))
        elif tokens:
            parts.append((rng.choice(['if', 'if', 'slurp', 'comment', 'multi',
                                      'inline']), rng.choice(tokens),
                          rng.choice('01')))
            if parts[-1][0] == 'slurp' and len(tokens) > 1:
                # what an earlier stage joins is not alone on its line later
                parts.append('after it\n')
    return parts


PRENS = {'y': '$x', 'name': 'literal', 'z': {'k': '#if 1#in#end if#'}}
PREVAL = {'y': '$x', 'name': 'literal', 'z.k': '#if 1#in#end if#'}


def flat(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'ph':
            out.append('v %s%s.\n' % (p[1][0], p[2]))
        elif p[0] == 'slurp':
            out.append('joined %s\n' % p[1][1])
        elif p[0] == 'comment':
            out.append('  %s note $x\n' % (p[1][1] * 2))
        elif p[0] == 'multi':
            out.append('a%s* note\n$x #if *%sb\n' % (p[1][1], p[1][1]))
        elif p[0] == 'inline':
            d = p[1][1]
            out.append('[%sif %s%s#echo 1#%send if%s]\n' % (d, p[2], d, d, d))
        else:
            d = p[1][1]
            out.append('%sif %s\ninside $x\n%send if\n' % (d, p[2], d))
    return ''.join(out)


def resolve(parts, tok):
    """what a token preprocessor makes of it"""
    out = []
    for p in parts:
        if isinstance(p, str) or p[1] != tok:
            out.append(p)
        elif p[0] == 'ph':
            out.append('v %s.\n' % PREVAL[p[2]])
        elif p[0] == 'slurp':
            out.append('joined ')
        elif p[0] == 'comment':
            pass
        elif p[0] == 'multi':
            out.append('ab\n')
        elif p[0] == 'inline':
            out.append('[#echo 1#]\n' if p[2] == '1' else '[]\n')
        elif p[2] == '1':
            out.append('inside $x\n')
    return out


def preprocess(ctx, rng):
    from Cheetah.Template import Template
    tokens = rng.sample(TOKENS, rng.randint(0, 2))
    parts = source_for(rng, tokens)
    src = flat(parts)
    seen, want = [], []
    chain = []
    todo = list(tokens)
    extra = []

    def recorder(n):
        def rec(source, file):
            seen.append((n, source, file))
            return source, file
        return rec

    class Obj(object):
        def __init__(self, n):
            self.n = n

        def preprocess(self, source, file):
            seen.append((self.n, source, file))
            return source + 'added%d\n' % self.n, file
    steps = ['rec'] * rng.randint(0, 2) + ['add'] * rng.randint(0, 2) + \
        ['tok'] * len(todo)
    rng.shuffle(steps)
    steps.append('rec')
    keep = []
    for i, s in enumerate(steps):
        ctx.count('stages')
        if s == 'rec':
            chain.append(recorder(i))
            want.append((i, flat(parts)))
        elif s == 'add':
            chain.append(Obj(i))
            want.append((i, flat(parts)))
            parts = parts + ['added%d\n' % i]
        else:
            tok = todo.pop()
            form = rng.choice(['dict', 'dict2', 'obj', 'str', 'tuple',
                               'transform'])
            used = any(not isinstance(p, str) and p[1] == tok
                       and p[0] == 'ph' for p in parts)
            if form in ('str', 'tuple') and used:
                form = 'dict'
            if form == 'dict':
                arg = {'tokens': ' '.join(tok), 'searchList': [dict(PRENS)]}
            elif form == 'dict2':
                arg = {'tokens': tok, 'namespaces': dict(PRENS),
                       'compilerSettings': {'useNameMapper': True}}
            elif form == 'obj':
                class Settings(object):
                    pass
                arg = Settings()
                arg.tokens = list(tok)
                arg.templateInitArgs = {'searchList': dict(PRENS)}
            elif form == 'transform':
                arg = {'placeholderToken': tok[0], 'directiveToken': tok[1],
                       'searchList': [PRENS],
                       'outputTransformer': lambda t: str(t) + 'tail\n'}
            elif form == 'str':
                arg = ' '.join(tok)
            else:
                arg = [' '.join(tok)][0]
            if isinstance(arg, dict):
                keep.append((arg, dict(arg)))
            chain.append(arg)
            parts = resolve(parts, tok)
            if form == 'transform':
                parts = parts + ['tail\n']
            ctx.saw(('pre', form, i, tok[0]))
    given = rng.choice(['source', 'file', 'fileobj', 'attr'])
    klass, kw = Template, {}
    if given == 'attr':
        klass = type('P', (Template,), {'_CHEETAH_preprocessors': chain})
    else:
        kw['preprocessors'] = chain if len(chain) > 1 or rng.random() < .5 \
            else chain[0]
    ctx.saw(('given', given, len(chain)))
    isfile = given in ('file', 'fileobj') and steps[0] == 'tok' \
        and src.isascii()
    if isfile:
        path = os.path.join(ctx.tmp('pre'), 'p%d.tmpl' % ctx.index)
        write(path, src)
        if given == 'file':
            cls = klass.compile(file=path, cacheCompilationResults=False, **kw)
        else:
            cls = klass.compile(file=io.StringIO(src),
                                cacheCompilationResults=False, **kw)
        os.remove(path)
    else:
        cls = klass.compile(src, cacheCompilationResults=False, **kw)
    same([s[:2] for s in seen], want, 'intermediate sources', key='stages',
         source=src, given=given)
    need(all(s[2] is None for s in seen), 'file passed along', key='file')
    for a, b in keep:
        same(a, b, 'a dictionary given as preprocessor', key='dict')
    left = flat(parts)
    # tokens of a pair that was not a preprocessor stay text
    ref = str(compile_(left)(searchList=[ns()]))
    same(str(cls(searchList=[ns()])), ref, 'rendering of a preprocessed '
         'template', key='pre-render', source=src, final=left)
    ctx.count('renderings')


# -- parser hooks

HOOKED = [
    # text, directive and placeholder events
    ('plain text\n', []), ('## $comment\n', []), ('\\$x \\#if\n', []),
    ('$x\n', ['p:$x']), ('a ${x}b\n', ['p:${x}']),
    ('$n.real $x.\n', ['p:$n.real', 'p:$x']),
    ('#set $w = 1\n', ['d:set']), ('${n, a=1}\n', ['p:${n, a=1}']),
    ('#if $flag\n$x\n#else\nq\n#end if\n',
     ['d:if', 'p:$x', 'd:else', 'd:end']),
    ('#for $i in $l\n$i\n#end for\n', ['d:for', 'p:$i', 'd:end']),
    ('#silent $n\n', ['d:silent']), ('#echo 1\n', ['d:echo']),
    ('#raw\n$x #if\n#end raw\n', ['d:raw']),
    ('t #slurp\n', ['d:slurp']), ('#* $x #if *#\n', []),
    ('#filter None\n$x\n#end filter\n', ['d:filter', 'p:$x', 'd:end']),
    ('#capture c\n$x\n#end capture\n', ['d:capture', 'p:$x', 'd:end']),
    ('$!x $*n\n', ['p:$!x', 'p:$*n']), ('${1 + 1}\n', ['p:${1 + 1}']),
    ('#try\n$x\n#except\n$n\n#end try\n',
     ['d:try', 'p:$x', 'd:except', 'p:$n', 'd:end']),
]


def hooks(ctx, rng):
    src, want = '', []
    for _ in range(rng.randint(1, 8)):
        s, ev = rng.choice(HOOKED)
        src += s
        want += ev
    log = []
    exprs = []

    def pre_d(n):
        def hook(parser, directiveName):
            need(src[parser.pos():].startswith('#'), 'place of a '
                 'directive hook', key='place', source=src)
            log.append((n, 'pre', 'd:' + directiveName))
        return hook

    def post_d(n):
        return lambda parser, directiveName: log.append(
            (n, 'post', 'd:' + directiveName))

    def pre_p(n):
        def hook(parser):
            rest = src[parser.pos():]
            log.append((n, 'pre', rest))
        return hook

    def post_p(n):
        return lambda parser: log.append((n, 'post', parser.pos()))

    def filt(n):
        def hook(parser, expr, exprType, rawExpr=None, startPos=None):
            if exprType == 'placeholder' and rawExpr:
                exprs.append((n, rawExpr))
            return expr
        return hook
    k = rng.randint(1, 2)
    settings = {'preparseDirectiveHooks': [pre_d(i) for i in range(k)],
                'postparseDirectiveHooks': [post_d(i) for i in range(k)],
                'preparsePlaceholderHooks': [pre_p(i) for i in range(k)],
                'postparsePlaceholderHooks': [post_p(i) for i in range(k)],
                'expressionFilterHooks': [filt(i) for i in range(k)]}
    keep = {n: list(v) for n, v in settings.items()}
    cls = compile_(src, compilerSettings=settings)
    same(settings, keep, 'hook lists', key='hooks')
    # each event begins and ends once, hooks of a list in their order
    model = []
    for e in want:
        for when in ('pre', 'post'):
            for i in range(k):
                model.append((i, when, e))
    got = log
    need(len(got) == len(model), 'number of hook calls', key='hooks',
         got=[g if len(str(g[2])) < 30 else (g[0], g[1], g[2][:30])
              for g in got], want=model, source=src)
    for g, m in zip(got, model):
        if m[2][:2] == 'd:':
            same(g, m, 'hook calls', key='hooks', source=src)
        elif m[1] == 'pre':
            need(g[:2] == m[:2] and g[2].startswith(m[2][2:]),
                 'placeholder hook', key='hooks', got=g, want=m, source=src)
        else:
            need(g[:2] == m[:2] and
                 src[:g[2]].endswith(m[2][2:].split('\n')[-1]),
                 'placeholder hook afterwards', key='hooks', got=g, want=m,
                 source=src)
        ctx.count('hook_calls')
    same([e for e in exprs if e[0] == 0],
         [(0, m[2:]) for m in want if m[:2] == 'p:'],
         'expressions shown to the filter hook', key='exprs', source=src)
    same(str(cls(searchList=[ns()])),
         str(compile_(src)(searchList=[ns()])),
         'rendering with idle hooks', key='hook-render', source=src)
    for w in want:
        ctx.saw(('hook', w, k))


SCENARIOS = [('macros', macros, 5000, 50000),
             ('preprocess', preprocess, 3000, 30000),
             ('hooks', hooks, 2000, 20000)]
