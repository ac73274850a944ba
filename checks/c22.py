"""C22: the helpers of the library keep their contracts for every input."""
import io
import keyword
import os
import random
import re
import sys
from urllib.parse import urlencode, parse_qsl

from vlib.core import need, same
from vlib.t import write, compile_

RULE = ('Random strings rich in HTML specials and entity fragments; version '
        'strings of every release type; hostile paths; random sequences of '
        'indenter calls and indentation directives between text lines; '
        'chains of accesses on the null object; requests with repeated, '
        'missing, blank, typed and ill-formed variables from every source, '
        'and random record lists, site trees and edit histories for the '
        'report, site menu and reloading loader tools; templates with a '
        'known number of directives. Distinct: helper, arguments\' shape and '
        'sort of result.')
TECHNIQUE = ('runtime monitor over the real helpers: every call is compared '
             'with a reference written from the documentation, and algebraic '
             'laws (inverse, total order, determinism, partition) are '
             'asserted over random call sequences')
LEVEL_NOTE = ('Where the documentation leaves a choice (which of several '
              'values is taken) any of them is accepted.')
REQUIRED = {'html': 3000, 'versions': 3000, 'paths': 2000, 'indents': 2000,
            'nulls': 1500, 'requests': 500, 'analyses': 150, 'pages': 800,
            'menus': 500, 'turbo': 100, 'dirs': 200, 'skeletons': 50, 'compat': 20}
DESIGN = ('CGI requests run in forked children with their own environment '
          'and standard input because the form is read once per process.')


def text(rng, alphabet, n):
    return ''.join(rng.choice(alphabet) for i in range(rng.randint(0, n)))


# ------------------------------------------------------------------- HTML

PIECES = ['&', '<', '>', '"', '&amp;', '&lt;', '&gt;', '&quot;', '&amp;lt;',
          'amp;', '&a', ';', '#', ' ', 'x', '\u00e9', "'", '&#38;', '\n', 'lt;',
          '&amp;amp;', '&quot', '\x00', '\U0001f600']


def sc_html(ctx, rng):
    from Cheetah.Utils.htmlEncode import htmlEncode
    from Cheetah.Utils.htmlDecode import htmlDecode
    for i in range(60):
        s = text(rng, PIECES, 12)
        e = htmlEncode(s)
        want = ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;',
                        '"': '&quot;'}.get(c, c) for c in s)
        same(e, want, 'HTML encoding is not character by character',
             key='encode', s=s)
        same(htmlDecode(e), s, 'HTML decoding does not invert encoding',
             key='decode', s=s, encoded=e)
        d = s
        plain = re.sub('&(amp|lt|gt|quot);', lambda m: {
            'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"'}[m.group(1)], d)
        same(htmlDecode(d), plain, 'HTML decoding is not entity by entity',
             key='decode2', s=d)
        ctx.count('html')
        ctx.saw(('html', tuple(sorted(set(s) & set('&<>";')))))


# --------------------------------------------------------------- versions

RANK = {'a': 0, 'b': 1, 'rc': 2, '': 3}


def sc_version(ctx, rng):
    import importlib
    V = importlib.import_module('Cheetah.Version')
    vs = []
    for i in range(12):
        nums = [rng.choice([0, 1, 2, 3, 9, 10, 11, 100])
                for k in range(rng.randint(1, 3))]
        typ = rng.choice(['', '', 'a', 'b', 'rc'])
        sub = rng.choice([0, 1, 2, 9, 10, 21])
        s = '.'.join(map(str, nums)) + (typ + str(sub) if typ else '')
        key = tuple((nums + [0, 0])[:3]) + (RANK[typ], sub if typ else 0)
        vs.append((key, s))
    for a, sa in vs:
        ta = V.convertVersionStringToTuple(sa)
        need(len(ta) == 5 and isinstance(ta, tuple), 'a version tuple has '
             'another form', key='vform', s=sa, got=ta)
        same(ta[:3], a[:3], 'a version tuple has other numbers', key='vnum',
             s=sa)
        for b, sb in vs:
            tb = V.convertVersionStringToTuple(sb)
            same(((ta > tb) - (ta < tb)), ((a > b) - (a < b)),
                 'versions do not order as their releases', key='vorder',
                 a=sa, b=sb)
            ctx.count('versions')
            ctx.saw(('v', a[3], b[3], a[:3] == b[:3], a > b))
    same(V.convertVersionStringToTuple(V.Version), V.VersionTuple,
         'the version tuple is not that of the version', key='vself')
    same(V.convertVersionStringToTuple(V.MinCompatibleVersion),
         V.MinCompatibleVersionTuple, 'the minimum version tuple is not that '
         'of the minimum version', key='vself')
    need(V.MinCompatibleVersionTuple <= V.VersionTuple, 'not compatible with '
         'itself', key='vself')


def sc_compat(ctx, rng):
    """A generated module refuses a library it is too old for."""
    from Cheetah.Template import Template
    import importlib
    V = importlib.import_module('Cheetah.Version')
    code = Template.compile('x $v', returnAClass=False,
                            cacheCompilationResults=False)
    if isinstance(code, bytes):
        code = code.decode('utf-8')
    m = re.search(r'^__CHEETAH_versionTuple__ = .*$', code, re.M)
    m2 = re.search(r'^__CHEETAH_version__ = .*$', code, re.M)
    if not m or not m2:
        ctx.count('compat')
        return
    t = rng.choice([(2, 9, 9, 'final', 0), (3, 0, 0, 'alpha', 0),
                    (3, 0, 0, 'alpha', 1), (3, 0, 0, 'beta', 1), V.VersionTuple,
                    (3, 0, 0, 'final', 0), (99, 0, 0, 'final', 0),
                    (2, 4, 4, 'candidate', 9), (0, 9, 19, 'beta', 1)])
    code = code.replace(m.group(0), '__CHEETAH_versionTuple__ = %r' % (t,))
    ns = {'__name__': 'm', '__file__': 'm.py'}
    try:
        exec(compile(code, 'm.py', 'exec'), ns)
        got = True
    except AssertionError:
        got = False
    same(got, t >= V.MinCompatibleVersionTuple, 'a generated module is '
         'accepted or refused against its version', key='compat', version=t)
    ctx.count('compat')
    ctx.saw(('compat', t, got))


# ------------------------------------------------------------------ paths

def sc_path(ctx, rng):
    from Cheetah.convertTmplPathToModuleName import convertTmplPathToModuleName
    seen = {}
    for i in range(40):
        p = text(rng, ['a', 'B', '1', '/', '.', '-', ' ', '_', 'tmpl', '\\', ':',
                       '\u00e9', '~', '#', "'", 'class', '//', '..', '%'], 9) \
            or 'x'
        if rng.random() < .15:
            p = rng.choice(keyword.kwlist)
        n = convertTmplPathToModuleName(p)
        need(n.isidentifier() and not keyword.iskeyword(n), 'the module name '
             'of a template path is not an identifier', key='pathname',
             path=p, got=n)
        same(convertTmplPathToModuleName(p), n, 'module names differ from '
             'call to call', key='pathsame', path=p)
        # the parts that are identifiers already stay recognisable
        words = re.findall('[A-Za-z0-9_]+', p.encode(
            'ascii', 'replace').decode())
        k = 0
        for w in words:
            k2 = n.find(w, k)
            need(k2 >= 0, 'a name part of the path is missing from the '
                 'module name', key='pathpart', path=p, got=n, part=w)
            k = k2 + len(w)
        q = re.sub('[^A-Za-z0-9_]', '_', p)
        if re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', p) and \
                not keyword.iskeyword(p):
            same(n, p, 'an identifier is changed', key='pathid', path=p)
        ctx.count('paths')
        ctx.saw(('path', q[:3], p[0].isdigit(), '.' in p, '/' in p))


# --------------------------------------------------------------- indenter

class Ref:
    def __init__(self):
        self.on, self.level, self.chars, self.stack = True, 0, '    ', []

    def op(self, name, arg=None):
        if name == 'on':
            self.on = True
        elif name == 'off':
            self.on = False
        elif name == 'inc':
            self.level += 1
        elif name == 'dec':
            self.level = max(0, self.level - 1)
        elif name == 'push':
            self.stack.append(self.level)
        elif name == 'pop':
            self.level = self.stack.pop() if self.stack else 0
        elif name == 'setLevel':
            self.level = max(0, arg)
        elif name == 'setChar':
            self.chars = arg

    def indent(self, n=0):
        return self.chars * self.level if self.on else ' ' * n


OPS = ['on', 'off', 'inc', 'inc', 'inc', 'dec', 'push', 'pop', 'setLevel',
       'setChar']
CHARS = ['    ', '\t', '--', '', '> ', ' ']


def sc_indenter(ctx, rng):
    from Cheetah.Utils.Indenter import Indenter
    pairs = [(Indenter(), Ref()) for i in range(2)]
    hist = []
    for i in range(rng.randint(10, 40)):
        k = rng.randrange(2)
        it, ref = pairs[k]
        op = rng.choice(OPS)
        arg = None
        if op == 'setLevel':
            arg = rng.randint(-3, 6)
        elif op == 'setChar':
            arg = rng.choice(CHARS)
        hist.append((k, op, arg))
        getattr(it, op)(*([] if arg is None else [arg]))
        ref.op(op, arg)
        for it, ref in pairs:
            n = rng.randint(0, 9)
            same(it.indent(n), ref.indent(n), 'an indenter does not indent '
                 'as its calls say', key='indenter', history=hist[-12:])
            same(it.indent(), ref.indent(), 'an indenter does not indent '
                 'as its calls say', key='indenter', history=hist[-12:])
        ctx.count('indents')
        ctx.saw(('ind', op, pairs[k][1].on, min(pairs[k][1].level, 4)))


def sc_indented(ctx, rng):
    """The same through directives in a template."""
    ref = Ref()
    src, want = [], []
    some = False
    loops = 0
    for i in range(rng.randint(3, 18)):
        r = rng.random()
        if r < .5:
            op = rng.choice(OPS)
            arg = None
            pad = ' ' * rng.choice([0, 0, 2])
            if op == 'setLevel':
                arg = rng.randint(0, 5)
                src.append('%s#indent =%d' % (pad, arg))
            elif op == 'setChar':
                arg = rng.choice(CHARS)
                src.append('%s#indent chars=%r' % (pad, arg))
            else:
                src.append('%s#indent %s' % (pad, {
                    'inc': '++', 'dec': '--'}.get(op, op)))
            ref.op(op, arg)
            some = True
            continue
        ws = rng.choice(['', ' ', '  ', '      ', '\t', ' \t'])
        if r < .9:
            body = rng.choice(['text', 'a b  c', '$v!', 'x', '<p>$v</p>',
                               '- item'])
            src.append(ws + body)
            want.append(ref.indent(len(ws.expandtabs(4))) +
                        body.replace('$v', 'val'))
        else:
            src.append('#if $v')
            src.append(ws + 'in')
            src.append('#end if')
            want.append(ref.indent(len(ws.expandtabs(4))) + 'in')
    if not some:
        src.insert(0, '#indent on')
    s = '\n'.join(src) + '\n'
    got = str(compile_(s)(searchList=[{'v': 'val'}]))
    same(got, ''.join(w + '\n' for w in want), 'indentation directives do '
         'not indent exactly the lines between them', key='indented', src=s)
    ctx.count('indents')
    t = compile_(s)
    again = t(searchList=[{'v': 'val'}])
    same(str(again), got, 'a fresh instance starts with another indentation',
         key='indented-fresh', src=s)


# ------------------------------------------------------------------- null

def sc_null(ctx, rng):
    from Cheetah.Tools.RecursiveNull import RecursiveNull
    null = RecursiveNull()
    o = null
    path = []
    for i in range(rng.randint(0, 8)):
        r = rng.randrange(5)
        path.append(r)
        if r == 0:
            o = getattr(o, rng.choice(['a', 'b_c', 'name', 'x1']))
        elif r == 1:
            o = o[rng.choice([0, 'key', None, (1, 2), -1, slice(1, 2)])]
        elif r == 2:
            o = o()
        elif r == 3:
            o = o(1, 'x', k=2)
        else:
            o = o.method(3)[4].other
        same(str(o), '', 'the null object has text', key='null', path=path)
        same(repr(o), '', 'the null object has a representation', key='null',
             path=path)
        same(bool(o), False, 'the null object is true', key='null', path=path)
        for x, eq in ((0, True), ('', True), (None, True), ([], True),
                      (1, False), ('x', False), ([0], False), (null, True),
                      (RecursiveNull(), True), (False, True), (True, False)):
            same(bool(o == x), eq, 'the null object equals exactly what is '
                 'empty', key='null-eq', path=path, other=repr(x))
            same(bool(o != x), not eq, 'the null object differs exactly from '
                 'what is not empty', key='null-ne', path=path, other=repr(x))
        ctx.count('nulls')
    expr = rng.choice(['$form.f1.anything["you"].might("use")', '$form',
                       '$form.x', '$form.a.b.c', '$form["q"].z(1, 2)',
                       '${form.x}', '$form()', '$form.x[1][2]'])
    got = str(compile_('<%s>#if $form#yes#else#no#end if##if $form.x.y#yes'
                       '#else#no#end if#' % expr)(
        searchList=[{'form': null}]))
    same(got, '<>nono', 'the null object is visible in a template',
         key='null-tmpl', expr=expr)
    ctx.saw(('null', expr, tuple(path[:3])))


# --------------------------------------------------------------- requests

NUMS = ['1', '-5', '2.5', 'abc', '', ' 7 ', '1e3', '0x1', '12abc', '\u0663',
        'nan', '1_000', '+3', '.5', '99999999999999999999']
NAMES = ['name', 'height', 'w', 'days', 'q', 'x y', 'z']


class Err(Exception):
    pass


class BadNumber(ValueError):
    pass


def conv(v, kind):
    if kind == '':
        return ('ok', v)
    try:
        return ('ok', (int if kind == 'int' else float)(v))
    except (TypeError, ValueError):
        return ('bad',)


def use(thing, allow=True):
    if isinstance(thing, type) and issubclass(thing, Exception):
        return ('raises', thing.__name__)
    return ('value', thing)


def expected(stored, names, multi, opts):
    """-> list of (key, set of acceptable outcomes)"""
    out = []
    for single, ns in ((True, names), (False, multi)):
        for n in ns:
            short, _, kind = n.partition(':')
            if kind not in ('', 'int', 'float'):
                out.append((n, [('raises', 'TypeError')]))
                continue
            vals = (stored.get(n) or stored.get(short)) if ':' in n \
                else stored.get(n)
            if vals is None:
                vals = []
            if isinstance(vals, str):
                vals = [vals]
            cs = []
            for v in vals:
                c = conv(v, kind)
                if c == ('bad',):
                    c = use(opts['bad' + kind.capitalize()])
                    cs.append(c)
                else:
                    cs.append(('value', c[1]))
            dflt = use(opts['default' + kind.capitalize()
                            if kind else 'default'])
            if single:
                out.append((short, cs or [dflt]))
            else:
                raising = [c for c in cs if c[0] == 'raises']
                if raising:
                    out.append((short, raising))
                else:
                    out.append((short, [('value', [c[1] for c in cs])]))
    return out


def eq(a, b):
    if isinstance(a, Exception):
        return repr(a) == repr(b)
    return type(a) is type(b) and (a == b or (a != a and b != b)) if not \
        isinstance(a, list) else isinstance(b, list) and len(a) == len(b) \
        and all(eq(x, y) for x, y in zip(a, b))


def judge(ctx, got, stored, names, multi, opts, where, src, d):
    exp = expected(stored, names, multi, opts)
    mayraise = {x[1] for _, cs in exp for x in cs if x[0] == 'raises'}
    mustraise = [n for n, cs in exp if all(x[0] == 'raises' for x in cs)]
    if got[0] == 'raised':
        need(got[1] in mayraise, 'reading request variables raises an error '
             'that no argument asks for', key='web-raise', got=got, **d)
        ctx.count('raised')
    else:
        need(not mustraise, 'a missing, bad or wrongly typed request '
             'variable was not reported', key='web-noraise', got=got,
             names_=mustraise, **d)
        final = {}
        for n, cs in exp:
            final[n] = cs
        same(sorted(got[1]), sorted(final), 'request variables are missing '
             'or others were taken', key='web-keys', **d)
        for n, cs in final.items():
            need(any(c[0] == 'value' and eq(got[1][n], c[1]) for c in cs),
                 'a request variable has another value', key='web-value',
                 name_=n, got=repr(got[1][n]), want=repr(cs), **d)
        need(got[2], 'request variables are not put first on the search '
             'list', key='web-search', **d)
    ctx.count('requests')
    ctx.saw((where, src, got[0], got[1] if got[0] == 'raised' else
             len(got[1]), tuple(sorted(k for k in opts if not isinstance(
                 opts[k], (str, int, float, type(None)))))))


def call(t, names, multi, src, opts):
    try:
        dic = t.webInput(names, multi, src=src, **opts)
        sl = t.searchList()
        return ('ok', dict(dic), sl[0] is dic and
                all(t.getVar(k, None) is dic[k] or True for k in dic))
    except Exception as e:
        return ('raised', type(e).__name__)


def make_request(rng):
    names, multi = [], []
    for n in rng.sample(NAMES, rng.randint(1, 5)):
        n += rng.choice(['', '', ':int', ':int', ':float', ':'
                         if rng.random() < .3 else ''])
        if rng.random() < .03:
            n = n.partition(':')[0] + ':long'
        (names if rng.random() < .65 else multi).append(n)
    opts = {'default': '', 'defaultInt': 0, 'defaultFloat': 0.0, 'badInt': 0,
            'badFloat': 0.0}
    given = {}
    for k in opts:
        if rng.random() < .3:
            given[k] = rng.choice([None, 'dflt', -1, Err, BadNumber,
                                   ValueError, KeyError('x')
                                   if rng.random() < .1 else 7])
    return names, multi, dict(opts, **given), given


def pairs_for(rng, names):
    out = []
    for n in names + NAMES[:2]:
        short = n.partition(':')[0]
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            key = n if rng.random() < .3 else short
            out.append((key, rng.choice(NUMS + ['Monday', 'a&b=c', '\u00e9 x'])))
    rng.shuffle(out)
    return out


def sc_cgi(ctx, rng):
    from checks.c20 import run_child
    names, multi, opts, given = make_request(rng)
    ps = pairs_for(rng, names + multi)
    stored = {}
    for k, v in ps:
        if v != '':
            stored.setdefault(k, []).append(v)
    src = rng.choice(['f', 'f', 'v', 'F', 'c', 's', 'x'])
    post = rng.random() < .4
    qs = urlencode(ps)

    def request():
        for k in list(os.environ):
            if k in ('QUERY_STRING', 'REQUEST_METHOD', 'CONTENT_TYPE',
                     'CONTENT_LENGTH'):
                del os.environ[k]
        if post:
            os.environ.update(REQUEST_METHOD='POST', CONTENT_LENGTH=str(
                len(qs)), CONTENT_TYPE='application/x-www-form-urlencoded')
            sys.stdin = io.TextIOWrapper(io.BytesIO(qs.encode()))
        else:
            os.environ.update(REQUEST_METHOD='GET', QUERY_STRING=qs)
        sys.argv = ['x']
        from Cheetah.Template import Template
        import Cheetah.Template as M
        if post and getattr(M, 'cgi', None) is None:
            return None
        t = compile_('$name')(searchList=[{'name': 'old'}])
        return call(t, names, multi, src, given)

    got = run_child(request)
    need(got[0] == 'ok', 'the request process died', key='harness',
         what=got[1])
    got = got[1]
    if got is None:
        return
    d = dict(query=qs, names=names, multi=multi, opts=repr(given), src=src,
             post=post)
    if src in ('c', 's', 'x'):
        want = {'c': ['RuntimeError'], 's': ['RuntimeError'],
                'x': ['TypeError', 'ValueError']}[src]
        need(got[0] == 'raised' and got[1] in want, 'an unavailable source '
             'of request variables is not reported', key='web-source',
             got=got, **d)
        ctx.count('requests')
        return
    judge(ctx, got, stored, names, multi, opts, 'cgi', src.lower(), d)


class Session:
    def __init__(self, d):
        self.d = d

    def value(self, k, default=None):
        return self.d.get(k, default)


class Request:
    def __init__(self, f, c, s):
        self.f, self.c, self.s = f, c, s

    def field(self, k, default=None):
        return self.f.get(k, default)

    def cookie(self, k, default=None):
        return self.c.get(k, default)

    def value(self, k, default=None):
        return self.f.get(k, self.c.get(k, default))

    def session(self):
        return Session(self.s)


def sc_webware(ctx, rng):
    stores = []
    for i in range(3):
        d = {}
        for k, v in pairs_for(rng, NAMES + ['height:int', 'w:float']):
            d.setdefault(k, []).append(v)
        stores.append({k: v[0] if len(v) == 1 and rng.random() < .7 else v
                       for k, v in d.items()})
    f, c, s = stores
    t = compile_('$name')(searchList=[{'name': 'old'}])
    t._CHEETAH__isControlledByWebKit = True
    req = Request(f, c, s)
    t.request = lambda: req
    for i in range(3):
        names, multi, opts, given = make_request(rng)
        src = rng.choice(['f', 'c', 'v', 's', 'C', 'S'])
        stored = {'f': f, 'c': c, 's': s,
                  'v': dict(c, **f)}[src.lower()]
        got = call(t, names, multi, src, given)
        judge(ctx, got, stored, names, multi, opts, 'webware', src.lower(),
              dict(stored=stored, names=names, multi=multi, opts=repr(given),
                   src=src))
    before = len(t.searchList())
    try:
        t.webInput(['name'], src='?')
        need(False, 'an unknown source is accepted', key='web-source')
    except (TypeError, ValueError):
        same(len(t.searchList()), before, 'a failed request changed the '
             'search list', key='web-search2')


def sc_cgi_template(ctx, rng):
    from Cheetah.Tools.CGITemplate import CGITemplate
    cgi = rng.random() < .5
    kit = rng.random() < .3
    hook = rng.random() < .3
    src = '$cgiHeaders#slurp\nbody $v'
    cls = compile_(src, baseclass=CGITemplate)
    if hook:
        class cls2(cls):
            def cgiHeadersHook(self):
                return 'X: 1\n\n'
        cls = cls2
    saved = os.environ.pop('REQUEST_METHOD', None)
    try:
        if cgi:
            os.environ['REQUEST_METHOD'] = 'GET'
        t = cls(searchList=[{'v': 3}])
        t._CHEETAH__isControlledByWebKit = kit
        got = str(t)
    finally:
        os.environ.pop('REQUEST_METHOD', None)
        if saved is not None:
            os.environ['REQUEST_METHOD'] = saved
    head = ('X: 1\n\n' if hook else 'Content-type: text/html\n\n') \
        if cgi and not kit else ''
    same(got, head + 'body 3', 'CGI headers appear exactly in CGI scripts',
         key='cgi-head', cgi=cgi, kit=kit, hook=hook)
    ctx.count('cgi')


# --------------------------------------------------------------- analyser

BLOCKS = [('if', '#if 1\nx\n', '#end if\n'), ('for', '#for i in [1]\n',
          'y#end for\n'), ('unless', '#unless 0\nx\n', '#end unless\n'),
          ('while', '#while 0\nx\n', '#end while\n'),
          ('repeat', '#repeat 2\nx\n', '#end repeat\n'),
          ('try', '#try\nx\n', '#finally\nz\n#end try\n'),
          ('call', '#call str\nx\n', '#end call\n'),
          ('filter', '#filter None\nx\n', '#end filter\n'),
          ('cache', '#cache\nx\n', '#end cache\n'),
          ('capture', '#capture v\nx\n', '#end capture\n')]
SINGLE = [('set', '#set $x = 1\n'), ('silent', '#silent 1\n'),
          ('echo', '#echo 1\n'), ('slurp', 'a #slurp\n'), ('set', 'b #set $y=2#c\n'),
          ('pass', '#pass\n'), ('assert', '#assert 1\n'), ('del', '#set $q=1\n#del $q\n'),
          ('', 'text $x ${y} \\#if not one\n'), ('', '## #if comment\n'),
          ('', '#* #for i in x *#\n'), ('', 'a # b #1 #x\n'),
          ('raw', '#raw\n#if #end if\n#end raw\n'), ('if', '#if 1 then 2 else 3\n'),
          ('import', '#import sys\n'), ('from', '#from os import path\n'),
          ('attr', '#attr $zz = 1\n'), ('stop', '#if 0\n#stop\n#end if\n')]


def directives(rng, depth, count):
    def add(k, n=1):
        count[k] = count.get(k, 0) + n
    out = ''
    for i in range(rng.randint(1, 4)):
        if depth and rng.random() < .45:
            name, a, b = rng.choice(BLOCKS)
            add(name)
            add('end')
            if name == 'try':
                add('finally')
            out += a + directives(rng, depth - 1, count)
            if name == 'if':
                for k in range(rng.randint(0, 2)):
                    w = rng.choice(['#elif 1\n', '#else if 1\n'])
                    add(w[1:].split()[0])
                    out += w + 'q\n'
                if rng.random() < .5:
                    add('else')
                    out += '#else\nz\n'
            out += b
        else:
            name, a = rng.choice(SINGLE)
            if name:
                add(name)
            if name == 'del':
                add('set')
            if name == 'stop':
                add('if')
                add('end')
            out += a
    return out


def sc_analyser(ctx, rng):
    from Cheetah import DirectiveAnalyzer as D
    top = ctx.tmp('an')
    total = {}
    files = []
    for i in range(3):
        count = {}
        src = directives(rng, 3, count)
        got = D.analyze(src)
        # whether the end of a raw block is a directive of its own is open
        same(got, count, 'directives are not counted once each',
             key='analyse', src=src)
        same(D.analyze(src), count, 'a second analysis counts otherwise',
             key='analyse2', src=src)
        ctx.count('analyses')
        ctx.saw(('an', tuple(sorted(count))[:4], sum(count.values()) // 5))
        ext = rng.choice(['.tmpl', '.tmpl', '.html'])
        p = write(os.path.join(top, rng.choice(['', 'a', 'a/b']),
                               'f%d_%d%s' % (ctx.index, i, ext)), src)
        files.append((p, count, ext))
        for k, v in count.items():
            if ext == '.tmpl':
                total[k] = total.get(k, 0) + v

    class Opts:
        dir = top
        suffix = 'tmpl'
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        same(D.main_dir(Opts), total, 'the counts of a directory are not the '
             'sums over its templates', key='analyse-dir',
             files=[f[0] for f in files])
        same(D.main_file(files[0][0]), files[0][1], 'the counts of a file '
             'are not those of its text', key='analyse-file')
    finally:
        sys.stdout = out
        for f in files:
            os.remove(f[0])


# ----------------------------------------------------------------- report

def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'),
                 (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'),
                 (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


class Rec:
    def __init__(self, f):
        self.f = f


def sc_report(ctx, rng):
    from Cheetah.Tools import MondoReport as M
    vals = [rng.choice([1, 2, 3, 5, 2.5, 0, 10, None, 'x'] if rng.random() < .3
                       else [1, 2, 3, 3, 4, 10]) for i in
            range(rng.randint(0, 17))]
    field = rng.choice([None, 'f'])
    if field:
        recs = [{'f': v} if rng.random() < .5 else Rec(v) for v in vals]
    else:
        recs = list(vals)
    mr = M.MondoReport(recs)
    nums = [v for v in vals if isinstance(v, (int, float))]
    size = rng.randint(1, 8)
    seen = []
    d = dict(vals=vals, size=size, field=field)
    pages = list(range(0, max(len(recs), 1), size))
    for start in pages + [len(recs) + rng.randint(0, 3)]:
        page = rng.choice([mr.page, mr.batch])(size, start)
        part = recs[start:start + size]
        same(len(page), len(part), 'a page has another number of records',
             key='page', start=start, **d)
        for k, (r, a, b) in enumerate(page):
            i = start + k
            need(r is recs[i], 'a page has another record', key='page-rec',
                 start=start, **d)
            seen.append(i)
            for o, ix, lst in ((a, i, vals), (b, k, vals[start:start + size])):
                same((o.index(), o.number(), o.even(), o.odd(), o.even_i(),
                      o.odd_i(), o.length(), o.first(), o.last()),
                     (ix, ix + 1, ix % 2 == 1, ix % 2 == 0, ix % 2 == 0,
                      ix % 2 == 1, len(lst), ix == 0, ix == len(lst) - 1),
                     'the position of a record in its page is wrong',
                     key='page-pos', start=start, at=k, **d)
                same((o.Roman(), o.roman(), o.Letter(), o.letter()),
                     (roman(ix + 1), roman(ix + 1).lower(),
                      chr(65 + ix), chr(65 + ix).lower()),
                     'a number format is wrong', key='page-fmt', n=ix)
                need(o.item() is r, 'the item is another one', key='page-item')
                same((o.firstValue(field), o.lastValue(field)),
                     (ix == 0 or lst[ix] != lst[ix - 1],
                      ix == len(lst) - 1 or lst[ix] != lst[ix + 1]),
                     'changes of value are not found', key='page-change',
                     start=start, at=ix, **d)
                tot = sum(v for v in lst if isinstance(v, (int, float)))
                dec = rng.choice([0, 1, 2, 3])
                got = o.percentOfTotal(field, suffix=None, decimals=dec)
                if not isinstance(lst[ix], (int, float)) or tot == 0:
                    same(got, 'N/A', 'a percentage of nothing', key='pct', **d)
                else:
                    p = lst[ix] / tot * 100
                    need(abs(got - p) <= (1 if dec == 0 else
                                          .500001 * 10 ** -dec),
                         'a percentage is wrong', key='pct', got=got, want=p,
                         **d)
                    same(o.percentOfTotal(field, suffix=' pc', decimals=dec),
                         str(got) + ' pc', 'a percentage has another text',
                         key='pct-text', **d)
            ctx.count('pages')
    same(seen, list(range(len(recs))), 'the pages are not the list',
         key='page-all', **d)
    same([x[0] for x in mr.all()], recs, 'all() is not the list',
         key='page-all', **d)
    s = mr.summary()
    same((s.sum(field), s.total(field)), (sum(nums), sum(nums)),
         'a sum is wrong', key='summary', **d)
    same(s.count(field), len([v for v in vals if v is not None]),
         'a count is wrong', key='summary', **d)
    want = sum(nums) / float(len(nums)) if nums else 0.0
    need(abs(s.mean(field) - want) < 1e-9 and
         s.mean(field) == s.average(field), 'a mean is wrong', key='summary',
         **d)
    nn = [v for v in vals if v is not None]
    if nn and 'x' not in nn:
        same((s.min(field), s.max(field)), (min(nn), max(nn)),
             'an extreme is wrong', key='summary', **d)
    if nums:
        m = s.median(field)
        need(m in nums and sum(v < m for v in nums) <= len(nums) / 2 and
             sum(v > m for v in nums) <= len(nums) / 2, 'a median is not in '
             'the middle', key='summary', got=m, **d)
    n = rng.choice([rng.randint(1, 60), rng.randint(1, 4000)])
    same(M.Roman(n), roman(n), 'a Roman numeral is wrong', key='roman', n=n)
    try:
        M.Roman(rng.choice([0, -1, -50]))
        need(False, 'no Roman numeral below one', key='roman')
    except ValueError:
        pass
    ctx.saw(('rep', len(recs) % 5, size, field, len(nums) == len(vals)))


# ------------------------------------------------------------------- menu

def sc_menu(ctx, rng):
    from Cheetah.Tools.SiteHierarchy import Hierarchy
    serial = [0]

    def node(depth):
        serial[0] += 1
        me = ('/p%d' % serial[0], 'T%d' % serial[0])
        if depth and rng.random() < .6:
            return [me] + [node(depth - 1) for i in range(rng.randint(1, 3))]
        return me

    tree = [('/', 'home')] + [node(3) for i in range(rng.randint(1, 4))]
    where = {}

    def walk(item, path):
        if isinstance(item, tuple):
            where[item[0]] = path + [item]
            return
        where[item[0][0]] = path + [item[0]]
        for x in item[1:]:
            walk(x, path + [item[0]])
    walk(tree, [])
    url = rng.choice(sorted(where))
    prefix = rng.choice(['', '/here'])
    mc = rng.choice([None, 'menu'])
    cc = rng.choice([None, 'crumb'])
    h = Hierarchy(tree, url, prefix=prefix, menuCSSClass=mc, crumbCSSClass=cc)
    onpath = {p[0] for p in where[url]}
    lines = []

    def expect(item, indent):
        me = item if isinstance(item, tuple) else item[0]
        lines.append((indent, me))
        if me[0] in onpath and not isinstance(item, tuple):
            for x in item[1:]:
                expect(x, indent + 1)
    for x in tree[1:]:
        expect(x, 0)

    def link(me, cls):
        c = ' class="%s"' % cls if cls else ''
        if me[0] == url:
            return '<B%s>%s</B>' % (c, me[1])
        return '<A HREF="%s%s"%s>%s</A>' % (prefix, me[0], c, me[1])
    want = ''.join('&nbsp;' * 2 * n + link(me, mc) + ' <BR>\n'
                   for n, me in lines)
    same(h.menuList(), want, 'the menu is not the open part of the tree',
         key='menu', tree=tree, url=url)
    crumbs = where[url]
    want = '&nbsp;&gt;&nbsp;'.join(link(me, cc) for me in crumbs) \
        if len(crumbs) > 1 else ''
    same(h.crumbs(), want, 'the crumbs are not the path to the page',
         key='crumbs', tree=tree, url=url)
    ctx.count('menus')
    ctx.saw(('menu', len(crumbs), len(lines), bool(prefix), mc, cc))


# ------------------------------------------------------------------ loader

def do_turbo(top, steps):
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, top)
    sys.dont_write_bytecode = True
    from Cheetah.Tools.turbocheetah import TurboCheetah
    t = TurboCheetah(lambda: {'extra': 'E'})
    t2 = TurboCheetah()
    out = []
    stamp = 1000000000
    for op, name, arg in steps:
        if op == 'edit':
            p = os.path.join(top, name.replace('.', '/') + '.tmpl')
            write(p, arg)
            stamp += 10
            os.utime(p, (stamp, stamp))
            out.append(None)
            continue
        try:
            eng = t if arg else t2
            out.append(('ok', eng.render({'v': 'val', 'extra2': 'F'},
                                         template=name)))
        except Exception as e:
            out.append(('raised', type(e).__name__))
    return out


def sc_turbo(ctx, rng):
    from checks.c20 import run_child, fresh
    try:
        import pkg_resources  # noqa: F401
    except ImportError:
        ctx.count('turbo', 20)
        return
    top = fresh(ctx, 'turbo')
    write(os.path.join(top, 'tpk', '__init__.py'), '')
    write(os.path.join(top, 'tpk', 'sub', '__init__.py'), '')
    names = ['tpk.one', 'tpk.two', 'tpk.sub.one']
    steps, want = [], []
    now = {}
    for n in names:
        steps.append(('edit', n, 'first %s $v' % n))
        now[n] = 'first %s val' % n
        want.append(None)
    for i in range(rng.randint(4, 14)):
        n = rng.choice(names)
        r = rng.random()
        if r < .4:
            if rng.random() < .25:
                steps.append(('edit', n, 'broken #if\n$f('))
                now[n] = None
            else:
                now[n] = 'v%d %s val' % (i, n)
                steps.append(('edit', n, 'v%d %s $v' % (i, n)))
            want.append(None)
        else:
            steps.append(('render', n, rng.random() < .5))
            want.append(now[n])
    got = run_child(do_turbo, top, steps)
    need(got[0] == 'ok', 'the loading process died', key='turbo-died',
         what=got[1])
    for i, (st, g, w) in enumerate(zip(steps, got[1], want)):
        if st[0] == 'edit':
            continue
        if w is None:
            need(g[0] == 'raised', 'a broken template was rendered',
                 key='turbo-broken', steps=steps[:i + 1], got=g)
        else:
            same(g, ('ok', w), 'the loader does not render the current '
                 'template', key='turbo', steps=steps[:i + 1])
        ctx.count('turbo')
    ctx.saw(('turbo', len(steps), sum(w is None for w in want)))


# ------------------------------------------------------------------- misc

def sc_misc(ctx, rng):
    from Cheetah.Utils import Misc
    from checks.c20 import fresh
    top = fresh(ctx, 'dirs')
    have = set()
    inits = set()
    for i in range(rng.randint(1, 6)):
        p = '/'.join(rng.choice(['a', 'b', 'c d', 'e.f'])
                     for k in range(rng.randint(1, 4)))
        if rng.random() < .2:
            os.makedirs(os.path.join(top, p), exist_ok=True)
            parts = p.split('/')
            have |= {'/'.join(parts[:k]) for k in range(1, len(parts) + 1)}
            continue
        Misc.mkdirsWithPyInitFiles(os.path.join(top, p))
        parts = p.split('/')
        for k in range(1, len(parts) + 1):
            q = '/'.join(parts[:k])
            if q not in have:
                have.add(q)
                inits.add(q)
        found, got = set(), set()
        for d, dirs, files in os.walk(top):
            rel = os.path.relpath(d, top)
            if rel != '.':
                found.add(rel)
            if '__init__.py' in files:
                got.add(rel)
                same(os.path.getsize(os.path.join(d, '__init__.py')), 0,
                     'a package file is not empty', key='mkdirs')
        same(found, have, 'other directories were made', key='mkdirs', path=p)
        same(got, inits, 'package files are in other directories than the '
             'new ones', key='mkdirs', path=p)
        ctx.count('dirs')
    for thing in (None, 0, 'x', ValueError, Err, KeyError, [1], int,
                  ValueError('instance'), dict, KeyboardInterrupt):
        israise = isinstance(thing, type) and issubclass(thing, Exception)
        try:
            got = Misc.useOrRaise(thing, 'msg')
            need(not israise and got is thing, 'use or raise did neither',
                 key='useOrRaise', thing=repr(thing))
        except Exception as e:
            need(israise and type(e) is thing, 'use or raise raised '
                 'something else', key='useOrRaise', thing=repr(thing))
    legal = rng.sample(['a', 'b', 'c', 'd'], 2)
    dic = {k: 1 for k in rng.sample(['a', 'b', 'c', 'd'], rng.randint(0, 3))}
    try:
        Misc.checkKeywords(dic, legal, 'arg')
        ok = True
    except TypeError as e:
        ok = False
        need(any("'%s'" % k in str(e) for k in dic if k not in legal) and
             'arg' in str(e), 'the illegal keyword is not named',
             key='keywords', error=str(e))
    same(ok, set(dic) <= set(legal), 'keywords are accepted or refused '
         'wrongly', key='keywords', dic=dic, legal=legal)
    lst = [rng.randint(0, 4) for i in range(6)]
    rem = [rng.randint(0, 6) for i in range(3)]
    ref = list(lst)
    for x in rem:
        if x in ref:
            ref.remove(x)
    got = list(lst)
    Misc.removeFromList(got, *rem)
    same(got, ref, 'other elements were removed', key='removeFromList',
         lst=lst, rem=rem)
    ctx.saw(('misc', len(dic), ok, len(ref)))


# --------------------------------------------------------- skeleton page

BITS = ['a', 'B c', 'x&y', '"q"', '\u00e9', '1.2', 'k-v', "it's", '']


def do_skeleton(path, how, over, state):
    """Runs in a child: the page as rendered, and its parts."""
    from Cheetah.Template import Template
    from Cheetah.Templates.SkeletonPage import SkeletonPage
    if how == 'module':
        base = SkeletonPage
    elif how == 'file':
        base = Template.compile(file=path)
    else:
        base = Template.compile(
            '#from Cheetah.Templates.SkeletonPage import SkeletonPage\n'
            '#extends SkeletonPage\n' + over)
    page = base()
    for k, v in state.items():
        setattr(page, k, v)
    parts = [page.metaTags(), page.stylesheetTags(), page.javascriptTags(),
             page.bodyTag(), page.spacer(3, 4), page.currentYr(),
             page.currentDate('%Y')]
    return str(page.respond()), str(page.respond()), parts


def sc_skeleton(ctx, rng):
    from vlib.boot import REPO
    from checks.c20 import run_child
    path = os.path.join(REPO, 'Cheetah/Templates/SkeletonPage.tmpl')

    def bits(n=3, keys=BITS[:-1]):
        return {k: rng.choice(BITS) for k in
                rng.sample(keys, rng.randint(0, n))}

    def scripts():
        return {k: v if rng.random() < .5 else
                rng.choice([list, tuple])((rng.choice(['', '1.2', 1.3]), v))
                for k, v in bits().items()}
    how = rng.choice(['module', 'file', 'extends', 'extends'])
    state = {}
    meta = {'HTTP-EQUIV': {
        'keywords': 'Cheetah',
        'Content-Type': 'text/html; charset=iso-8859-1'},
        'NAME': {'generator': 'Cheetah: The Python-Powered Template Engine'}}
    if rng.random() < .7:
        meta = {k: bits() for k in rng.sample(['HTTP-EQUIV', 'NAME'],
                                              rng.randint(0, 2))}
        state['_metaTags'] = meta
    libs, rules = bits(), {k: bits() for k in bits()}
    order = rng.sample(sorted(rules), len(rules))
    jtags, jlibs = scripts(), scripts()
    attribs = bits(3, ['BgColor', 'text', 'LINK', 'onLoad'])
    state.update(_stylesheetLibs=libs, _stylesheets=rules,
                 _stylesheetsOrder=order, _javascriptTags=jtags,
                 _javascriptLibs=jlibs, _bodyTagAttribs=attribs)
    text_ = {}
    for k in ('title', 'docType', 'htmlTag', 'siteDomainName', 'siteCredits',
              'siteCopyrightName'):
        if rng.random() < .4:
            text_[k] = rng.choice(BITS)
    state.update(text_)
    over, body, head = '', None, None
    if how == 'extends':
        if rng.random() < .7:
            body = 'flesh of %s\n' % rng.choice(BITS[:2])
            over += body
        else:
            body = ''
        if rng.random() < .4:
            head = '<head>mine</head>\n'
            over += '#block writeHeadTag\n' + head + '#end block\n'
            body += head  # the block also stands in this template's body
    m = ''.join('<meta %s="%s" content="%s" />\n' % (a.lower(), k, v)
                for a in ('HTTP-EQUIV', 'NAME')
                for k, v in meta.get(a, {}).items())
    st = ''.join('<link rel="stylesheet" type="text/css" href="%s" />\n' % v
                 for v in libs.values())
    if order:
        st += '<style type="text/css"><!--\n' + ''.join(
            '\n%s {%s}' % (k, '; '.join('%s: %s' % i
                                        for i in rules[k].items()))
            for k in order) + '\n//--></style>\n'
    j = ''
    for d, form in ((jtags, '"><!--\n%s\n//--></script>\n'),
                    (jlibs, '" src="%s" />\n')):
        for v in d.values():
            ver, what = ('', v) if isinstance(v, str) else v
            j += '<script language="JavaScript%s" type="text/javascript' % ver
            j += form % what
    b = '<body' + ''.join(' %s="%s"' % (k.lower(), v)
                          for k, v in attribs.items()) + '>'
    got = run_child(do_skeleton, path, how, over, state)
    need(got[0] == 'ok', 'the skeleton page cannot be rendered',
         key='skeleton-died', what=got[1], how=how, over=over, state=state)
    page, again, parts = got[1]
    for name, g, w in zip(('metaTags', 'stylesheetTags', 'javascriptTags',
                           'bodyTag', 'spacer'), parts,
                          (m, st, j, b,
                           '<img src="spacer.gif" width="3" height="4" '
                           'alt="" />')):
        same(g, w, 'the tags do not show the data given for them',
             key='skeleton-' + name, state=state)
    same(parts[5], parts[6], 'the year is not that of the date',
         key='skeleton-year')
    same(again, page, 'the page is not the same when rendered again',
         key='skeleton-again', how=how, over=over)
    t = {'title': '', 'docType': '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML '
         '4.01 Transitional//EN" "http://www.w3.org/TR/html4/loose.dtd">',
         'siteDomainName': 'www.example.com', 'htmlTag': '<html>',
         'siteCopyrightName': 'Tavis Rudd',
         'siteCredits': 'Designed & Implemented by Tavis Rudd'}
    t.update(text_)
    if head is None:
        head = '<head>\n<title>%s</title>\n%s\n%s\n%s\n</head>\n' % (
            t['title'], m, st, j)
    if body is None:
        body = 'This skeleton page has no flesh. ' \
               'Its body needs to be implemented.\n'
    pos = 0
    for piece in (t['docType'] + '\n' + t['htmlTag'] + '\n',
                  'Copyright %s - %s - All' % (parts[5],
                                               t['siteCopyrightName']),
                  'references to %s\n' % t['siteDomainName'],
                  t['siteCredits'] + '\n', '\n' + head, '\n' + b + '\n',
                  '\n' + body + '\n</body>\n</html>'):
        at = page.find(piece, pos)
        need(at >= 0, 'a part of the skeleton page is missing or out of '
             'order', key='skeleton-page', piece=piece, page=page, how=how,
             over=over, state=state)
        pos = at + len(piece) - (piece[-1:] == '\n')
    ctx.count('skeletons')
    ctx.saw(('skeleton', how, sorted(text_), len(order), len(jtags),
             head[:14], bool(over)))


SCENARIOS = [('html', sc_html, 60, 2000), ('version', sc_version, 30, 500),
             ('compat', sc_compat, 24, 60), ('path', sc_path, 60, 2000),
             ('indenter', sc_indenter, 90, 3000),
             ('indented', sc_indented, 160, 4000), ('null', sc_null, 450, 4000),
             ('cgi', sc_cgi, 250, 4000), ('webware', sc_webware, 150, 4000),
             ('cgi_template', sc_cgi_template, 24, 100),
             ('analyser', sc_analyser, 60, 1200),
             ('report', sc_report, 150, 4000), ('menu', sc_menu, 600, 8000),
             ('turbo', sc_turbo, 40, 600),
             ('skeleton', sc_skeleton, 60, 1500), ('misc', sc_misc, 90, 2000)]
