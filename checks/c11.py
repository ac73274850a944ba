"""C11: compilation caching is invisible except in speed."""
import os
import re
from vlib.core import same, need
from vlib.t import write

RULE = ('Histories of 12-40 compile requests drawn from a small universe of '
        'near-identical parameters (values equal under ==, hash or string '
        'concatenation, subclasses with their own defaults, files edited in '
        'between), each followed by rendering and compared with the same '
        'request compiled afresh without any cache. Distinct: parameter '
        'difference between a request and the nearest earlier one, and '
        'whether the class came from the cache.')
TECHNIQUE = ('history checker: each response of the compile cache compared '
             'with an uncached twin and with the requested names, over '
             'recorded request histories with file edits and recording '
             'preprocessors')
LEVEL_NOTE = ('Sampled request histories; containers passed as module '
              'globals are not mutated by the caller between requests.')
ASSUMPTIONS = ['an edit of a file changes its modification time']
CPU = 60
REQUIRED = {'fresh': 50, 'file edits': 20, 'forbidden cache': 20}
DESIGN = ('Every response is fingerprinted (class and module name, bases, '
          'main method, module globals with types, rendered text of every '
          'public method, generated code without stamps) and compared with '
          'the fingerprint of a fresh uncached compilation of the same '
          'request and with the names the request asked for.')


class Same(object):
    """All instances hash alike; unequal."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o

    def __str__(self):
        return 'Same%d' % self.n
    __repr__ = __str__


class Bag(object):
    """Unhashable."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Bag) and o.n == self.n

    def __str__(self):
        return 'Bag%d' % self.n
    __repr__ = __str__


SAME = [Same(i) for i in range(3)]
BAGS = [Bag(i) for i in range(2)]
VALUES = [-1, -2, 1, True, 1.0, '1', b'1', 0, False, 0.0, -0.0, '', None, [],
          {}, (), [1], [True], (1,), (True,), {'a': 1}, {'a': True},
          {'b': 1}, [[1]], [(1,)], 'ab', 'a', 'None', 2 ** 61 - 1, 2 ** 61,
          0j] + SAME + BAGS
SOURCES = ['v=$g', 'v=$g ', 'v=@g', 'v=$g|$getattr($self,"h","-")',
           '#def m\nM=$g\n#end def\n$m', '%if 1%x%end if%', 'v=$g\xe9',
           '#if 1#v=$g#end if#', '#attr z = 1\n$z$g', 'v=$g#slurp\n',
           'v=$varExists("g") ## c']
SETTINGS = [{}, {'useStackFrames': False}, {'useStackFrames': True},
            {'useStackFrames': 0}, {'cheetahVarStartToken': '@'},
            {'cheetahVarStartToken': '$'}, {'directiveStartToken': '%',
                                            'directiveEndToken': '%'},
            {'commentStartToken': '//'}, {'useNameMapper': False},
            {'disabledDirectives': ['set']}, {'disabledDirectives': []},
            {'mainMethodName': 'mmm'}, {'useAutocalling': False},
            {'useAutocalling': True, 'useStackFrames': False},
            {'commentStartToken': '', }, {'EOLSlurpToken': '~'},
            {'defaultAttr': -1}, {'defaultAttr': -2},
            {'useSearchList': False}]
NAMES = [('', ''), ('ab', 'c'), ('a', 'bc'), ('A', 'B'), ('A', ''),
         ('', 'A'), ('AB', ''), ('Mod1', 'Mod'), ('Mod', '1Mod'[1:]),
         ('None', ''), ('X', 'XNone')]
STAMP = re.compile(
    r"(?m)^.*(__CHEETAH_(gen)?[tT]ime\w*__|__CHEETAH_src__|"
    r"__CHEETAH_srcLastModified__).*$|^# Cheetah.*$|\d{6,}_\d+|_\d{6,}|"
    r"^CHEETAH_\w*= .*$")
MODS = []


class Base0(object):
    tag = 'b0'


def universe():
    """Built once per worker: objects must be shared between requests."""
    from Cheetah.Template import Template
    from Cheetah.Compiler import Compiler

    class B1(Template):
        tag = 'B1'

        def h(self):
            return 'hB1'

    class B2(Template):
        tag = 'B2'

        def h(self):
            return 'hB2'

    class C1(Compiler):
        def __init__(self, source=None, *a, **k):
            Compiler.__init__(self, source and source + '!C1', *a, **k)

    class C2(Compiler):
        def __init__(self, source=None, *a, **k):
            Compiler.__init__(self, source and source + '!C2', *a, **k)

    class Sub1(Template):
        _CHEETAH_compilerSettings = {'cheetahVarStartToken': '@'}

    class Sub2(Template):
        _CHEETAH_defaultBaseclassForTemplates = B1
        _CHEETAH_defaultClassNameForTemplates = 'Dflt'

    class Sub3(Template):
        _CHEETAH_defaultModuleGlobalsForTemplates = {'g': 'dg'}
        _CHEETAH_defaultMainMethodNameForTemplates = 'dmain'
        _CHEETAH_defaultModuleNameForTemplates = 'DfltMod'

    class Sub4(Template):
        _CHEETAH_useCompilationCache = False

    class Sub5(Template):
        _CHEETAH_cacheCompilationResults = False

    return {'api': [Template, Template, Template, Sub1, Sub2, Sub3, Sub4,
                    Sub5],
            'base': [None, B1, B2, Template, 'object', 'Template'],
            'compiler': [Compiler, C1, C2]}


DEFAULTS = {'Sub1': {'settings': {'cheetahVarStartToken': '@'}},
            'Sub2': {'base': 'B1', 'cls': 'Dflt'},
            'Sub3': {'globals': {'g': 'dg'}, 'main': 'dmain',
                     'mod': 'DfltMod'}}


class Pre(object):
    """Stateful preprocessor: each call yields something new."""

    def __init__(self):
        self.n = 0
        self.seen = []

    def preprocess(self, source, file):
        self.n += 1
        if source is None:
            with open(file, encoding='utf-8') as f:
                source = f.read()
        self.seen.append(source)
        return source + '<%d>' % self.n, None


def gen_request(rng, U, files, prev):
    if prev and rng.random() < .75:
        # vary one or two parameters of an earlier request
        r = dict(rng.choice(prev))
        r.pop('flags', None)
        n = rng.choice([0, 1, 1, 1, 2])
        what = rng.sample(['src', 'names', 'main', 'base', 'compiler',
                           'settings', 'globals', 'api', 'dir'], n)
        delta = tuple(sorted(what))
    else:
        r = {}
        what = ['src', 'names', 'main', 'base', 'compiler', 'settings',
                'globals', 'api', 'dir']
        delta = 'new'
    for w in what:
        if w == 'src':
            r['src'] = (('file', rng.choice(files)) if rng.random() < .35
                        else ('src', rng.choice(SOURCES)))
        elif w == 'names':
            r['names'] = rng.choice(NAMES)
        elif w == 'main':
            r['main'] = rng.choice([None, None, 'mm', 'm2', 'respond'])
        elif w == 'base':
            r['base'] = rng.choice([0, 0, 0, 1, 2, 3])
        elif w == 'compiler':
            r['compiler'] = rng.choice([None, None, 0, 1, 2])
        elif w == 'settings':
            r['settings'] = rng.choice([None, rng.randrange(len(SETTINGS))])
        elif w == 'globals':
            k = rng.choice(['g', 'g', 'g', 'h', 'gh'])
            r['globals'] = (None if rng.random() < .15 else
                            [(c, rng.randrange(len(VALUES))) for c in k])
        elif w == 'api':
            r['api'] = rng.randrange(len(U['api'])) if rng.random() < .3 \
                else 0
        elif w == 'dir':
            r['dir'] = rng.random() < .1
    f = {}
    if rng.random() < .12:
        f['useCache'] = False
    if rng.random() < .12:
        f['cacheCompilationResults'] = False
    if rng.random() < .1:
        f['keepRefToGeneratedCode'] = rng.random() < .5
    if rng.random() < .12:
        f['pre'] = True
    if rng.random() < .12:
        f['returnAClass'] = False
    r['flags'] = f
    return r, delta


def build(r, U, tmp, pre):
    api = U['api'][r['api']]
    kw = {}
    if r['src'][0] == 'src':
        kw['source'] = r['src'][1]
    else:
        kw['file'] = r['src'][1]
    c, m = r['names']
    if c:
        kw['className'] = c
    if m:
        kw['moduleName'] = m
    if r['main']:
        kw['mainMethodName'] = r['main']
    if r['base']:
        kw['baseclass'] = U['base'][r['base']]
    if r['compiler'] is not None:
        kw['compilerClass'] = U['compiler'][r['compiler']]
    if r['settings'] is not None:
        kw['compilerSettings'] = dict(SETTINGS[r['settings']])
    if r['globals'] is not None:
        kw['moduleGlobals'] = dict((k, VALUES[i]) for k, i in r['globals'])
    if r['dir']:
        kw['cacheModuleFilesForTracebacks'] = True
        kw['cacheDirForModuleFiles'] = tmp
    for k in ('useCache', 'cacheCompilationResults',
              'keepRefToGeneratedCode', 'returnAClass'):
        if k in r['flags']:
            kw[k] = r['flags'][k]
    if r['flags'].get('pre'):
        kw['preprocessors'] = pre
    return api, kw


def clean(code):
    if isinstance(code, bytes):
        code = code.decode('utf-8')
    return STAMP.sub('', code)


def finger(k, kw):
    import sys
    mod = sys.modules[k.__module__]
    g = kw.get('moduleGlobals')
    if g is None:
        g = {'g': 0, 'h': 0}
    d = {'name': k.__name__,
         'bases': [b.__name__ for b in k.__mro__[1:]],
         'baseids': [id(b) for b in k.__mro__[1:]],
         'globals': [(n, type(getattr(mod, n, None)).__name__,
                      repr(getattr(mod, n, None))) for n in sorted(g)]}
    t = k(searchList=[{'q': 1}])
    outs = []
    for n in ['respond', '__str__', 'mm', 'm2', 'mmm', 'dmain', 'm', 'h',
              'writeBody']:
        if n not in k.__dict__ and n != '__str__':
            continue
        try:
            outs.append((n, getattr(t, n)()))
        except Exception as e:
            outs.append((n, type(e).__name__, str(e)))
    d['outs'] = [tuple(re.sub(r'<\S+\.(\w+) object at 0x\w+>', r'<\1>', x)
                       if isinstance(x, str) else x for x in o)
                 for o in outs]
    return d


def compare(ctx, a, b, r, delta):
    for f in a:
        same(a[f], b[f], 'a request answered by the cache differs from the '
             'same request compiled afresh', key='twin:' + f,
             request=repr(r), delta=repr(delta))


def history(ctx, rng):
    U = ctx.state.get('U')
    if U is None:
        U = ctx.state['U'] = universe()
    from Cheetah.Template import Template
    tmp = ctx.tmp('d%d' % ctx.index)
    sub = os.path.join(tmp, 'sub')
    os.makedirs(sub, exist_ok=True)
    files = []
    clock = [1000000000]
    for n in ('a.tmpl', 'b.tmpl', 'sub/a.tmpl', 'A_tmpl'):
        p = write(os.path.join(tmp, n), rng.choice(SOURCES))
        os.utime(p, (clock[0], clock[0]))
        files.append(p)
    prev = []
    classes = ctx.state.setdefault('classes', {})
    forbidden = ctx.state.setdefault('forbidden', {})
    pre = Pre()
    for step in range(rng.choice([12, 20, 40])):
        if rng.random() < .2:
            p = rng.choice(files)
            old = open(p, encoding='utf-8').read()
            write(p, rng.choice(SOURCES))
            t = rng.choice([clock[0] + 1, clock[0] - 1,
                            clock[0] + rng.choice([.5, .001, 3600])])
            if os.path.getmtime(p) == t:
                t += 7
            clock[0] += 10
            os.utime(p, (t, t))
            if rng.random() < .2:
                # a rename over the file, with another time
                write(p + '.new', old)
                os.utime(p + '.new', (t + 3, t + 3))
                os.rename(p + '.new', p)
            ctx.count('file edits')
        r, delta = gen_request(rng, U, files, prev)
        prev.append(r)
        api, kw = build(r, U, tmp, pre)
        n0 = pre.n
        ctx.count('requests')

        def go(kw):
            try:
                return 'ok', api.compile(**kw)
            except Exception as e:
                return 'raised', type(e).__name__, str(e).split('\n')[0]
        got = go(kw)
        twin = dict(kw, useCache=False, cacheCompilationResults=False)
        if 'pre' in r['flags']:
            need(pre.n == n0 + 1, 'the preprocessor was not run exactly once',
                 key='preprocessor', request=repr(r))
            # the twin must see the same count
            pre.n = n0
        fresh = go(twin)
        if got[0] == 'raised':
            got = got[:2] + (re.sub('[0-9]+', '', got[2]),)
        if fresh[0] == 'raised':
            fresh = fresh[:2] + (re.sub('[0-9]+', '', fresh[2]),)
        same(got[0], fresh[0], 'outcome differs from an uncached compilation',
             key='outcome', got=repr(got), fresh=repr(fresh), request=repr(r),
             delta=repr(delta))
        if got[0] == 'raised':
            ctx.saw(('raised', got[1]))
            same(got, fresh, 'error differs from an uncached compilation',
                 key='error', request=repr(r))
            continue
        if kw.get('returnAClass') is False:
            need(isinstance(got[1], bytes), 'source is not bytes',
                 key='returnAClass')
            same(clean(got[1]), clean(fresh[1]), 'module source from the '
                 'cache differs from a fresh compilation',
                 key='source', request=repr(r), delta=repr(delta))
            ctx.saw(('source', delta))
            continue
        k = got[1]
        hit = id(k) in classes
        ctx.count('from cache' if hit else 'fresh')
        nocache = kw.get('useCache') is False or (
            'useCache' not in kw and api.__name__ == 'Sub4')
        nostore = kw.get('cacheCompilationResults') is False or (
            'cacheCompilationResults' not in kw and api.__name__ == 'Sub5')
        if nocache:
            need(not hit, 'a request forbidding the cache was answered from '
                 'it', key='useCache', request=repr(r))
            ctx.count('forbidden cache')
        need(id(k) not in forbidden, 'a class whose request '
             'forbade caching was handed out again', key='nostore',
             request=repr(r), delta=repr(delta))
        if nostore and not hit:
            forbidden[id(k)] = k
            need(not k._CHEETAH_isInCompilationCache,
                 'marked as cached', key='nostore-mark')
            ctx.count('forbidden cache')
            if kw.get('keepRefToGeneratedCode') is False:
                need(not k().generatedModuleCode(), 'kept the generated '
                     'code', key='keepref')
        classes[id(k)] = k
        # names as requested
        d = DEFAULTS.get(api.__name__, {})
        cls = kw.get('className') or d.get('cls')
        modname = kw.get('moduleName')
        if not modname and 'file' in kw:
            modname = re.sub('[^0-9A-Za-z]', '_', kw['file'])
        if not modname:
            modname = d.get('mod') or \
                Template._CHEETAH_defaultModuleNameForTemplates
        if not cls:
            cls = re.sub('^_+([^0-9])', r'\1', modname)
        same(k.__name__, cls, 'class name not as requested', key='classname',
             request=repr(r), delta=repr(delta))
        need(k.__module__ == modname
             or k.__module__.startswith('cheetah_%s_' % modname),
             'module name not as requested', key='modname', request=repr(r),
             module=k.__module__, want=modname, delta=repr(delta))
        main = kw.get('mainMethodName') or d.get('main')
        if main:
            need(main in k.__dict__, 'main method missing', key='main',
                 request=repr(r), delta=repr(delta))
        base = kw.get('baseclass')
        if isinstance(base, type):
            need(issubclass(k, base), 'base class missing', key='base',
                 request=repr(r), delta=repr(delta))
        fa, fb = finger(k, kw), finger(fresh[1], kw)
        compare(ctx, fa, fb, r, delta)
        g = kw.get('moduleGlobals')
        if g is None:
            g = d.get('globals') or {}
        same(fa['globals'], [(n, type(g.get(n)).__name__, repr(g.get(n)))
                             for n, _, _ in fa['globals']],
             'module globals not as requested', key='globals',
             request=repr(r), delta=repr(delta))
        code = k().generatedModuleCode()
        if code and kw.get('keepRefToGeneratedCode') is not False:
            same(clean(code), clean(fresh[1]().generatedModuleCode() or code),
                 'generated code differs', key='code', request=repr(r))
        ctx.saw((delta, hit, tuple(sorted(r['flags']))))
    ctx.sample({'requests': len(prev), 'last': repr(prev[-1])[:200]})


def relative(ctx, rng):
    """Relative file names in different directories with equal stamps."""
    from Cheetah.Template import Template
    tmp = ctx.tmp('rel%d' % ctx.index)
    cwd = os.getcwd()
    n = rng.choice(['x.tmpl', 'y/x.tmpl'])
    dirs = []
    for i in range(3):
        d = os.path.join(tmp, 'd%d' % i)
        p = write(os.path.join(d, n), 'dir %d $q' % i)
        os.utime(p, (10 ** 9, 10 ** 9))
        dirs.append(d)
    try:
        for i in [rng.randrange(3) for _ in range(6)]:
            os.chdir(dirs[i])
            k = Template.compile(file=n)
            same(str(k(searchList=[{'q': 5}])), 'dir %d 5' % i,
                 'a file of the same relative name in another directory was '
                 'used', key='relative')
            ctx.count('relative')
            ctx.saw(('relative', n, i))
    finally:
        os.chdir(cwd)


def edits(ctx, rng):
    """One file edited again and again, asked for in every way."""
    from Cheetah.Template import Template
    tmp = ctx.tmp('ed%d' % ctx.index)
    p = os.path.join(tmp, 'e.tmpl')
    t, used = 1e9, set()
    n = None
    for step in range(15):
        if n is None or rng.random() < .7:
            n = rng.randrange(1000)
            write(p, 'edit %03d $q' % n)
            d = rng.choice([.5, -.5, .001, -.001, 1, -1, 3600, -86400, .25])
            t = t + d
            while t in used:
                t += .125
            used.add(t)
            os.utime(p, (t, t))
        else:
            d = 'same'
        want = 'edit %03d 7' % n
        how = rng.choice(['class', 'instance', 'code', 'sub', 'include'])
        sl = [{'q': 7, 'p': p}]
        if how == 'class':
            got = str(Template.compile(file=p)(searchList=sl))
        elif how == 'instance':
            got = str(Template(file=p, searchList=sl))
        elif how == 'sub':
            got = str(Template.subclass(file=p)(searchList=sl))
        elif how == 'include':
            got = str(Template.compile('#include $p')(searchList=sl))
        else:
            code = Template.compile(file=p, returnAClass=False).decode()
            ns = {'__name__': 'x'}
            exec(compile(code, 'x', 'exec'), ns)
            cls = [v for k, v in ns.items() if isinstance(v, type)
                   and v.__module__ == 'x']
            got = str(cls[0](searchList=sl))
        same(got, want, 'an edited file was not recompiled', key='edit',
             how=how, delta=d)
        ctx.count('edits of one file')
        ctx.saw(('edit', how, d))


def recycled(ctx, rng):
    """Short-lived classes and globals: a later object may reuse an address."""
    import gc
    from Cheetah.Template import Template
    for i in range(20):
        kind = rng.choice(['base', 'globals', 'compiler'])
        if kind == 'base':
            b = type('Tmp', (Template,), {'v': lambda self, i=i: 'n%d' % i})
            k = Template.compile('$v', baseclass=b, className='Rec')
            want = 'n%d' % i
        elif kind == 'globals':
            k = Template.compile('$fn()', className='Rec', moduleGlobals={
                'fn': (lambda i: lambda: 'g%d' % i)(i)})
            want = 'g%d' % i
        else:
            from Cheetah.Compiler import Compiler
            c = type('TC', (Compiler,), {
                '__init__': lambda self, source=None, *a, i=i, **k:
                Compiler.__init__(self, source + str(i), *a, **k)})
            k = Template.compile('c', className='Rec', compilerClass=c)
            want = 'c%d' % i
        same(str(k()), want, 'class of an earlier, discarded object was '
             'returned', key='recycled:' + kind)
        b = c = None
        # drop what may be dropped, as an application with weak caches would
        k = None
        if i % 7 == 6:
            gc.collect()
        ctx.count('recycled')
    ctx.saw(('recycled',))


SCENARIOS = [
    ('history', history, 240, 2500),
    ('edits', edits, 40, 400),
    ('relative', relative, 10, 60),
    ('recycled', recycled, 6, 40),
]
