"""C24: error catchers and silent placeholders hide exactly the right errors."""
from vlib.core import need, same
from vlib.t import compile_

RULE = ('Random templates of text, placeholders that succeed, miss a name or '
        'raise, catcher switches, loops, conditions, methods, closures, '
        'filters and try blocks, in plain, silent and cached form. '
        'Distinct: placeholder form, catcher, surroundings, how it ended.')
TECHNIQUE = ('reference-model monitor: expected output, propagated exception, '
             'evaluation log and catcher reports predicted independently and '
             'compared for each rendering, twice per instance')
LEVEL_NOTE = ('A catcher governs the rest of the method its directive is in; '
              'which catcher is active is a property of the instance.')
REQUIRED = {'caught': 1500, 'propagated': 500, 'silenced': 500,
            'placeholders': 10000, 'listed': 200}
DESIGN = ('Each placeholder carries a Python function giving its value or '
          'error. The model applies the documented catcher rules and the '
          'filter in force, and keeps the log of evaluations; rendering '
          'must agree in output, exception, log and listErrors() contents.')


class NF(Exception):
    """the reference notion of a name that is not found"""


class Odd(Exception):
    pass


def make_ns(log):
    class O(object):
        attr = 'at<r'
        Attr = 'At<r'

        def meth(self, x=1):
            log.append(('meth', x))
            return 'm%s' % x

    def f(x=0, y=0):
        log.append(('f', repr(x), repr(y)))
        return x

    def boom(kind='v'):
        log.append(('boom', kind))
        raise {'v': ValueError, 'o': Odd, 'k': KeyError, 'l': LookupError,
               't': TypeError, 'a': AttributeError,
               'n': NameError}[kind]('boom ' + kind)
    return {'a': 'A&', 'n': 7, 'o': O(), 'f': f, 'boom': boom, 'l': [1, 2],
            'd': {'k': 'v', 'e': {'z': 0}}, 'none': None, 'q': 'outer',
            'i': 'outer i', 'A': 'other A', 'N': 8, 'F': lambda: 'ef'}


# (source behind the start token, value from namespace), by sort
def nf(*a):
    raise NF()


GOOD = [
    ('a', lambda e: e['a']), ('{a}', lambda e: e['a']),
    ('(n)', lambda e: 7), ('[n]', lambda e: 7),
    ('o.attr', lambda e: e['o'].attr), ('o.meth', lambda e: e['o'].meth()),
    ('o.meth(4)', lambda e: e['o'].meth(4)),
    ('{o.meth(x=$n)}', lambda e: e['o'].meth(7)),
    ('f', lambda e: e['f']()), ('f(1)', lambda e: e['f'](1)),
    ('f($a)', lambda e: e['f'](e['a'])),
    ("f('t\\tn\\n')", lambda e: e['f']('t\tn\n')),
    ("f('''it's''')", lambda e: e['f']("it's")),
    ('f("""a\'\'\'b""")', lambda e: e['f']("a'''b")),
    ("f('\\\\')", lambda e: e['f']('\\')),
    ('f("\\x41\\u00e9")', lambda e: e['f']('A\xe9')),
    ("f(r'\\d')", lambda e: e['f']('\\d')),
    ('f("\xe9\u4e2d")', lambda e: e['f']('\xe9\u4e2d')),
    ('{a, mark=1}', lambda e: e['a']),
    ('{1 + $n}', lambda e: 8),
    ('{f([x for x in $l])}', lambda e: e['f']([1, 2])),
    ('{[$f(x) for x in (1, 2)]}', lambda e: [e['f'](1), e['f'](2)]),
    ('{list($f(x) for x in (1, 2))}', lambda e: [e['f'](1), e['f'](2)]),
    ('{(lambda: $a)()}', lambda e: e['a']),
    ('{sum(x for x in $l)}', lambda e: 3),
    ('l[0]', lambda e: 1), ('l[$l[0]]', lambda e: 2),
    ('d.k', lambda e: 'v'), ('d.e.z', lambda e: 0), ('d["k"]',
                                                     lambda e: 'v'),
    ('none', lambda e: None), ('l.__len__', lambda e: 2),
    ('f($f)', lambda e: e['f'](e['f']())),
    ('f(\n1)', lambda e: e['f'](1)),
    # these differ from others in letter case or blanks only
    ('A', lambda e: 'other A'), ('{A}', lambda e: 'other A'),
    ('(N)', lambda e: 8), ('o.Attr', lambda e: 'At<r'),
    ('F', lambda e: 'ef'), ('f($A)', lambda e: e['f']('other A')),
    ("f('a b')", lambda e: e['f']('a b')),
    ("f('a  b')", lambda e: e['f']('a  b')),
    ("f('ab')", lambda e: e['f']('ab')), ("f('AB')", lambda e: e['f']('AB')),
    ("f('\\t')", lambda e: e['f']('\t')),
    ("f('\\\\t')", lambda e: e['f']('\\t')),
    ('str($n)', lambda e: '7'), ('len($l)', lambda e: 2),
]
MISS = [
    ('nope', nf), ('{nope}', nf), ('Nope', nf), ('d.K', nf), ('(nope)', nf), ('o.nope', nf),
    ('o.attr.nope', nf), ('f($nope)', lambda e: nf()),
    ('f(1).nope', lambda e: nf(e['f'](1))),
    ('f($f(2), $nope)', lambda e: (e['f'](2), nf())),
    ('nope.a.b', nf), ('nope[0]', nf), ('nope()', nf), ('d.nope', nf),
    ('d.e.nope', nf), ('l.nope', nf), ('{1 + $nope}', nf),
    ('{nope, mark=1}', nf), ("f('\\n', $nope)", nf),
    ('{f("\'\'\'", $nope)}', nf), ('{(lambda: $nope)()}', nf),
    ('{[$nope for x in (1, 2)]}', nf), ('o.meth.nope', lambda e:
                                        nf(e['o'].meth())),
    ('none.nope', nf), 
    ('{"x" if $n else $nope}', lambda e: 'x'),
    ('f(x=$nope)', nf), ('nope["a b"]', nf),
]
FAIL = [
    ('boom', lambda e: e['boom']()), ("boom('o')", lambda e: e['boom']('o')),
    ("boom('k')", lambda e: e['boom']('k')),
    ("boom('l')", lambda e: e['boom']('l')),
    ("boom('t')", lambda e: e['boom']('t')),
    ("boom('a')", lambda e: e['boom']('a')),
    ("boom('n')", lambda e: e['boom']('n')),
    ('f($boom)', lambda e: e['boom']()),
    ('f($f(3), $boom)', lambda e: (e['f'](3), e['boom']())),
    ('l[9]', lambda e: [1, 2][9]), ('{1 // 0}', lambda e: 1 // 0),
    ("d['zz']", lambda e: {}['zz']), ('{int("x")}', lambda e: int('x')),
    ('boom.x', lambda e: e['boom']()),
    ('{[$boom for x in (1, 2)]}', lambda e: e['boom']()),
]


def install():
    """catchers of our own, beside the library's"""
    from Cheetah import ErrorCatchers as EC

    class VCatchValue(EC.ErrorCatcher):
        _exceptionsToCatch = (ValueError, IndexError)

        def warn(self, exc_val, code, rawCode, lineCol):
            return '<%s|%s|%s,%s>' % (type(exc_val).__name__, rawCode,
                                      lineCol[0], lineCol[1])

    class VCatchAll(EC.ErrorCatcher):
        def __init__(self, templateObj):
            EC.ErrorCatcher.__init__(self, templateObj)
            self.t = templateObj
            self.n = 0

        def exceptions(self):
            return (Exception,)

        def warn(self, exc_val, code, rawCode, lineCol):
            self.n += 1
            return None

    class VCatchNone(EC.ErrorCatcher):
        _exceptionsToCatch = ()
    EC.VCatchValue, EC.VCatchAll, EC.VCatchNone = \
        VCatchValue, VCatchAll, VCatchNone


def setup(ctx):
    install()


def replacement(name, exc, raw, pos, reports):
    """(caught?, what the placeholder renders as); may raise"""
    isnf = isinstance(exc, NF)
    if name in ('Echo', 'ErrorCatcher', 'ListErrors'):
        if isnf:
            if name == 'ListErrors':
                reports.append((raw, pos))
            return True, raw
    elif name == 'BigEcho':
        if isnf:
            return True, '=' * 15 + '&lt;' + raw + \
                ' could not be found&gt;' + '=' * 15
    elif name == 'KeyError':
        if isnf:
            raise KeyError("no '%s' in this Template Object's Search List"
                           % raw)
    elif name == 'VCatchValue':
        if isinstance(exc, (ValueError, IndexError)):
            return True, '<%s|%s|%s,%s>' % ((type(exc).__name__, raw) + pos)
    elif name == 'VCatchAll':
        return True, None
    return False, None


def failed(st, on, silent, e, raw, pos):
    if on and st.cur:
        ok, rep = replacement(st.cur, e, raw, pos, st.reports)
        if ok:
            st.stat.append('caught')
            return st.out(rep)
    if silent and isinstance(e, NF):
        st.stat.append('silenced')
        return ''
    raise e


CATCHERS = ['Echo', 'BigEcho', 'KeyError', 'ListErrors', 'VCatchValue',
            'VCatchAll', 'VCatchNone', 'ErrorCatcher']


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;')


class State(object):
    def __init__(self, env, log):
        self.env = self.base = env
        self.log = log
        self.cur = None         # active catcher, of the instance
        self.reports = []
        self.filter = str
        self.stat = []

    def out(self, v):
        return '' if v is None else self.filter(v)


class Build(object):
    """source text and a model that runs along"""

    def __init__(self, rng, eol):
        self.r = rng
        self.src = ''
        self.eol = eol
        self.n = 0
        self.defs = []          # (name, model of the body)
        self.feat = set()

    def pos(self):
        s = self.src.replace('\r\n', '\n').replace('\r', '\n')
        i = s.rfind('\n')
        return s.count('\n') + 1, len(s) - i

    def ph(self, on, scope, silent=None):
        """one placeholder: on = is a catcher in force lexically"""
        r = self.r
        sort = r.choice(['good'] * 5 + ['miss'] * 5 + ['fail'])
        table = {'good': GOOD, 'miss': MISS, 'fail': FAIL}[sort]
        body, fn = r.choice(table)
        if silent is None:
            silent = r.random() < (.1 if on else .35)
        if scope and r.random() < .3:
            # a name of an inner scope
            v = r.choice(scope)
            body = r.choice([v, '{%s}' % v, '[%s]' % v])
            fn = (lambda v: lambda e: e[v])(v)
            sort = 'scope'
        pre = ''
        if body[0] == '{' and (body[1].isdigit() or body[1] in '[("'):
            silent = False      # expression placeholders have no silent form
        elif silent:
            pre = '!'
        body = body.replace('\n', self.eol)
        pos = self.pos()
        raw = '$' + pre + body
        self.src += raw
        self.feat.add((sort, body[:1], bool(silent), bool(on)))

        def run(st):
            st.stat.append('placeholders')
            try:
                v = fn(st.env)
            except Exception as e:
                return failed(st, on, silent, e, raw, pos)
            return st.out(v)
        return run

    def call(self, on):
        name, body = self.r.choice(self.defs)
        silent = self.r.random() < .2
        pos = self.pos()
        raw = '$' + '!' * silent + self.r.choice(['%s', '%s()', '{%s}']) % name
        self.src += raw + ' '
        self.feat.add(('call', silent, bool(on)))

        def run(st):
            env, st.env = st.env, st.base
            try:
                v = body(st)
            except Cut as c:
                # the output of a method that failed is lost
                rep = failed(st, on, silent, c.exc, raw, pos)
                return rep + ' '
            finally:
                st.env = env
            return st.out(v) + ' '
        return run

    def text(self):
        s = self.r.choice(['x', ' y ', '.', 'text, ', '<i>', ' % ', "'"])
        if self.src[-1:].isalnum() or self.src[-1:] in '])}':
            s = ' ' + s
        self.src += s
        return lambda st: s

    def nl(self):
        if self.src and not self.src.endswith(self.eol):
            self.src += ' ' + self.eol
            e = ' ' + self.eol
            return lambda st: e
        return lambda st: ''

    def tag(self, s):
        """a directive on its own line; returns model of the line end"""
        run = self.nl()
        self.src += '#' + s + self.eol
        return run

    def items(self, on, scope, depth, least=1, top=False, cur=None):
        out = []
        names = ['text', 'ph', 'ph', 'ph', 'ph']
        if depth:
            names += ['for', 'if', 'try', 'filter', 'closure']
        names += ['switch'] * (2 if top else self.r.random() < .3)
        names += ['call'] * len(self.defs)
        for _ in range(self.r.randint(least, least + 4)):
            k = self.r.choice(names)
            if k == 'ph':
                out.append(self.ph(on, scope))
                s = self.r.choice([' ', ' , ', ';'])
                self.src += s
                out.append(lambda st, s=s: s)
            elif k == 'call':
                out.append(self.call(on))
            elif k == 'switch':
                n = self.r.choice(CATCHERS)
                out.append(self.tag('errorCatcher ' + n))
                on = True
                self.feat.add(('switch', n))

                def run(st, n=n):
                    st.cur = n
                    return ''
                out.append(run)
            elif k == 'text':
                out.append(self.text())
            else:
                self.on = on
                out.append(getattr(self, 'g_' + k)(on, scope, depth))
                on = self.on    # lexical: the rest of the method
        self.on = on
        out.append(self.nl())

        return lambda st: run_parts(out, st)

    def g_for(self, on, scope, depth):
        v = 'ijk'[depth]
        p = self.tag('for $%s in (1, 2)' % v)
        b = self.items(on, scope + [v], depth - 1)
        self.tag('end for')

        def run(st):
            buf = p(st)
            old = st.env
            st.env = dict(old)
            for i in (1, 2):
                st.env[v] = i
                try:
                    buf += b(st)
                except Cut as c:
                    st.env = old
                    raise Cut(buf + c.text, c.exc)
            st.env = old
            return buf
        return run

    def g_if(self, on, scope, depth):
        c = self.r.choice([0, 1, 1])
        p = self.tag('if %d' % c)
        b = self.items(on, scope, depth - 1)
        self.tag('else')
        b2 = self.items(self.on, scope, depth - 1)
        self.tag('end if')

        def run(st):
            buf = p(st)
            try:
                return buf + (b(st) if c else b2(st))
            except Cut as x:
                raise Cut(buf + x.text, x.exc)
        return run

    def g_filter(self, on, scope, depth):
        p = self.tag('filter WebSafe')
        b = self.items(on, scope, depth - 1)
        self.tag('end filter')

        def run(st):
            buf = p(st)
            old = st.filter
            st.filter = lambda v: esc(str(v))
            try:
                return buf + b(st)
            except Cut as c:
                raise Cut(buf + c.text, c.exc)
            finally:
                st.filter = old
        return run

    def g_closure(self, on, scope, depth):
        """parameters only: closures do not see the searchList"""
        self.n += 1
        name = 'clo%d' % self.n
        p = self.tag('closure %s(q, i=5)' % name)
        inner = []
        for _ in range(self.r.randint(1, 3)):
            raw = self.r.choice(['$q', '${q}', '$i', '$[i]', '$str(q)'])
            v = 'i' if 'i' in raw else 'q'
            self.src += raw + ' '
            inner.append(v)
        self.src += self.eol
        self.tag('end closure')
        arg = self.r.choice(['1', "'z'", '$n', '$a'])
        val = {'1': 1, "'z'": 'z', '$n': 7}.get(arg)
        call = '$%s(%s)' % (name, arg)
        self.src += call + ' '
        eol = self.eol

        def run(st):
            buf = p(st)
            a = st.env['a'] if arg == '$a' else val
            s = ''.join(st.out({'q': a, 'i': 5}[v]) + ' ' for v in inner)
            return buf + s + eol + ' '      # closures write, return None
        return run

    def g_try(self, on, scope, depth):
        kind = self.r.choice(['nf', 'value', 'any', 'lookup', 'finally'])
        p = self.tag('try')
        b = self.items(on, scope, depth - 1)
        if kind == 'finally':
            self.tag('finally')
            h = self.items(self.on, [], 0)
        else:
            self.tag({'nf': 'except NotFound', 'value': 'except ValueError',
                      'any': 'except Exception as e',
                      'lookup': 'except LookupError'}[kind])
            h = self.items(self.on, scope, 0)
        self.tag('end try')

        def matches(e):
            return kind == 'any' or isinstance(e, {
                'nf': NF, 'value': ValueError,
                'lookup': (LookupError, NF)}[kind])

        def run(st):
            buf = p(st)
            env, flt = st.env, st.filter
            if kind == 'finally':
                try:
                    s = b(st)
                except Cut as c:
                    st.env, st.filter = env, flt
                    try:
                        t = h(st)
                    except Cut as c2:
                        raise Cut(buf + c.text + c2.text, c2.exc)
                    raise Cut(buf + c.text + t, c.exc)
                try:
                    return buf + s + h(st)
                except Cut as c:
                    raise Cut(buf + s + c.text, c.exc)
            try:
                return buf + b(st)
            except Cut as c:
                st.env, st.filter = env, flt
                if not matches(c.exc):
                    raise Cut(buf + c.text, c.exc)
                try:
                    return buf + c.text + h(st)
                except Cut as c2:
                    raise Cut(buf + c.text + c2.text, c2.exc)
        return run


class Cut(Exception):
    """an error, and the output before it"""

    def __init__(self, text, exc):
        Exception.__init__(self)
        self.text, self.exc = text, exc


def run_parts(parts, st):
    buf = ''
    for f in parts:
        try:
            buf += f(st)
        except Cut as c:
            raise Cut(buf + c.text, c.exc)
        except Exception as e:
            raise Cut(buf, e)
    return buf


def observe(t):
    """('ok', output) or ('err', sort, message)"""
    from Cheetah.NameMapper import NotFound
    try:
        return ('ok', t.respond())
    except NotFound:
        return ('err', 'NotFound')
    except Exception as e:
        return ('err', type(e).__name__, str(e))


def expect(block, st):
    try:
        return ('ok', block(st))
    except Cut as c:
        if isinstance(c.exc, NF):
            return ('err', 'NotFound')
        return ('err', type(c.exc).__name__, str(c.exc))


def tally(ctx, st, want):
    for s in st.stat:
        ctx.count(s)
    if want[0] == 'err':
        ctx.count('propagated')


def drive(ctx, t, parts, st, logs, source):
    log, mlog = logs
    for turn in (1, 2):
        del log[:], mlog[:]
        st.env, st.filter = st.base, str
        got = observe(t)
        want = expect(lambda s: run_parts(parts, s), st)
        same(got, want, 'rendering under error catchers', key='render',
             source=source, turn=turn)
        same(log, mlog, 'evaluations', key='log', source=source, turn=turn)
        tally(ctx, st, want)
        st.stat = []
        if st.cur == 'ListErrors':
            # the catcher of that name lives as long as the instance
            now = [(e['rawCode'], tuple(e['lineCol']))
                   for e in t.errorCatcher().listErrors()]
            same(now, st.reports, 'reported errors', key='listed',
                 source=source)
            ctx.count('listed', len(now))
    ctx.saw(('end', want[:2] if want[0] == 'err' else 'ok', st.cur))


def switch(b, rng):
    n = rng.choice(CATCHERS)
    p = b.tag('errorCatcher ' + n)

    def run(st):
        st.cur = n
        return p(st)
    return run


def body(b, rng, depth, least):
    on = rng.random() < .5
    head = [switch(b, rng)] if on else []
    return head + [b.items(on, [], depth, least=least, top=True)]


def catch(ctx, rng):
    """one method"""
    b = Build(rng, rng.choice(['\n', '\n', '\r\n']))
    parts = body(b, rng, 2, 4)
    log, mlog = [], []
    t = compile_(b.src)(searchList=[make_ns(log)])
    drive(ctx, t, parts, State(make_ns(mlog), mlog), (log, mlog), b.src)
    for f in b.feat:
        ctx.saw(('f',) + f)


def methods(ctx, rng):
    """methods calling one another, in a class and its subclasses"""
    b = Build(rng, '\n')
    source, cls = [], None
    for level in range(rng.randint(1, 3)):
        for k in range(rng.randint(1, 2)):
            name = 'm%d_%d' % (level, k)
            b.src += '#def %s\n' % name
            parts = body(b, rng, 1, 1)
            b.src += '#end def\n'
            b.defs.append((name, lambda st, p=parts: run_parts(p, st)))
        parts = body(b, rng, 1, 2)
        source.append(b.src)
        # all levels bear the same class name
        kw = {'className': 'Same', 'moduleName': 'Same'} \
            if rng.random() < .6 else {}
        cls = compile_(b.src, **kw) if cls is None else cls.subclass(
            b.src, cacheCompilationResults=False, **kw)
        b.src = ''
    log, mlog = [], []
    t = cls(searchList=[make_ns(log)])
    drive(ctx, t, parts, State(make_ns(mlog), mlog), (log, mlog), source)
    for f in b.feat:
        ctx.saw(('m', level) + f)


SCENARIOS = [('catch', catch, 2500, 40000), ('methods', methods, 2500, 40000)]
