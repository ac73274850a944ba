"""Random templates together with an independent reference interpreter.

Template source is produced left to right into a Writer; every construct also
returns a closure that performs, in plain Python, what the construct means.
Nothing here imports Cheetah: the reference knows the documented language only.
"""
import re
import types

UNI = 'éßжλ中א€\U0001f600\u2028\x85\xa0'
WORDS = ['alpha', 'Beta', 'g_1', 'x', 'Zed9', 'if', 'end', 'self', 'None',
         'def', '_v', 'write', 'a.b', '%s', '%(x)s', '{}', '[1]', '(y)',
         "it's", '"q"', "'''", '"""', '\\n', '\\', '\\\\', '\\x41', '\\u0041',
         '\\0', 'r"', "u'", '<b>', '</b>', '&amp;', '&', '%>', '*', '*/', '@',
         '!', ':', ';', ',', '=', '==', '->', '`', '~', '^', '|', '?', '--',
         '$5', '$ ', '$.', '$$ ', '$,', '# 1', '#1', '#.', '#-', '# -',
         '$1.50', '$)', '#(', '\t', '\x0b', '\x0c', '\x00', '\x7f', '\x1b']


class Frame(object):
    """Scopes the way the documentation describes them."""

    def __init__(self, world, locals_=None):
        self.w = world
        self.l = {} if locals_ is None else locals_

    def scopes(self):
        w = self.w
        return [self.l, w.gset, w.selfns] + w.sl + [w.modns, w.builtins]

    def raw(self, name):
        for s in self.scopes():
            if isinstance(s, dict):
                if name in s:
                    return s[name]
            elif hasattr(s, name):
                return getattr(s, name)
        raise RefNotFound(name)


class RefNotFound(LookupError):
    pass


class World(object):
    def __init__(self, sl, selfns=None, modns=None):
        import builtins
        self.sl = sl
        self.gset = {}
        self.selfns = selfns if selfns is not None else {}
        self.modns = modns if modns is not None else {}
        self.builtins = vars(builtins)
        self.methods = {}


_AUTO = (types.FunctionType, types.MethodType, types.BuiltinFunctionType,
         types.BuiltinMethodType)


def auto(v):
    if isinstance(v, _AUTO):
        return v()
    return v


def step(obj, key):
    if isinstance(obj, dict) and key in obj:
        return obj[key]
    try:
        return getattr(obj, key)
    except AttributeError:
        raise RefNotFound(key)


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ data

class Obj(object):
    """A plain instance with attributes, methods and item access methods."""

    def __init__(self, log, **kw):
        self._log = log
        self.__dict__.update(kw)

    def meth(self, a=1, b=2):
        self._log.append(('meth', a, b))
        return '%s-%s' % (a, b)

    def chain(self):
        self._log.append(('chain',))
        return self

    def __repr__(self):
        return '<Obj %s>' % getattr(self, 'tag', '')

    __str__ = __repr__


class CallObj(object):
    """A callable instance: never called implicitly."""
    tag = 'callobj'

    def __call__(self, a=0):
        return 'called%s' % a

    def __str__(self):
        return 'CALLOBJ'


class Klass(object):
    tag = 'klass'


def make_data(rng):
    """A factory of equal but independent namespaces; each has its own log."""
    spec = {
        'n': [rng.randint(-3, 6) for _ in range(4)],
        's': [rng.choice(['', 'a', 'bc', 'x<y', '&', 'é', "q'", '"', 'T\n',
                          ' sp ', '$n1', '#if', '\\n', '0'])
              for _ in range(4)],
        'l': [[rng.randint(0, 9) for _ in range(rng.randint(1, 4))]
              for _ in range(3)],
        'split': rng.randint(0, 2),
    }

    def factory():
        log = []

        def tr(tag, val=None):
            log.append(('tr', tag, repr(val)))
            return val

        def f0():
            log.append(('f0',))
            return 'F0'

        def f1(a=1, b=2, *rest, **kw):
            log.append(('f1', a, b, rest, tuple(sorted(kw.items()))))
            return '%s|%s|%s|%s' % (a, b, len(rest), ','.join(sorted(kw)))

        def num(a=0, b=0):
            log.append(('num', a, b))
            return a + b

        def lst():
            log.append(('lst',))
            return [1, 2, 3]

        def boom(kind='ValueError'):
            log.append(('boom', kind))
            raise {'ValueError': ValueError, 'KeyError': KeyError,
                   'ZeroDivisionError': ZeroDivisionError}[kind]('boom')
        ns = {}
        for i, v in enumerate(spec['n']):
            ns['n%d' % (i + 1)] = v
        for i, v in enumerate(spec['s']):
            ns['s%d' % (i + 1)] = v
        for i, v in enumerate(spec['l']):
            ns['l%d' % (i + 1)] = list(v)
        inner = Obj(log, tag='in', num=spec['n'][0], txt=spec['s'][0],
                    d={'k': spec['n'][1], 'items': 'ITEMS'})
        ns.update({
            'tr': tr, 'f0': f0, 'f1': f1, 'num': num, 'lst': lst,
            'boom': boom, 'none': None, 'yes': True, 'no': False,
            'd1': {'a': 1, 'b': {'c': spec['s'][1], 'f': f0}, 'num': 5,
                   'keys': 'KEYS', 'fn': num},
            'd2': {'x': spec['l'][0], 'o': inner},
            'o1': Obj(log, tag='o', num=7, txt=spec['s'][2], inner=inner,
                      lst=[10, 20, 30], fn=f0),
            'cob': CallObj(), 'Kls': Klass,
            'pairs': [('a', 1), ('b', 2), ('c', 3)],
            'recs': [{'name': 'r1', 'v': 1, 'sub': [1, 2]},
                     {'name': 'r2', 'v': 0, 'sub': []},
                     {'name': 'r3', 'v': 5, 'sub': [7]}],
        })
        # spread over two namespaces; the second one is shadowed by the first
        a, b = {}, {}
        for i, k in enumerate(sorted(ns)):
            (a if i % 3 != spec['split'] else b)[k] = ns[k]
        for k in sorted(a):
            if hash_(k) % 4 == 0:
                b[k] = 'SHADOWED-' + k
        return [a, b], log
    return factory


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xffffff
    return h


# ----------------------------------------------------------- expressions

class Expr(object):
    """Cheetah source and an equivalent Python expression (see evalx)."""
    __slots__ = ('c', 'p', 'atom')

    def __init__(self, c, p, atom=False):
        self.c, self.p, self.atom = c, p, atom


def evalx(e, frame):
    world = frame.w

    def V(name, call=True):
        v = frame.raw(name)
        return auto(v) if call else v

    def S(obj, key, call=True):
        v = step(obj, key)
        return auto(v) if call else v
    g = {'V': V, 'S': S, '__builtins__': world.builtins}
    return eval(e.p, g)


class XGen(object):
    """Typed random expressions."""

    def __init__(self, rng, var='$', trace=True, features=None):
        self.r = rng
        self.var = var
        self.trace = trace
        self.tick = 0
        self.locals_int = []     # names known to hold ints
        self.locals_str = []
        self.features = features
        self.used = {}

    def note(self, f):
        self.used[f] = self.used.get(f, 0) + 1

    # a $name with optional dotted / subscripted rest
    def ref(self, name, *rest):
        """rest: items are ('.', key) | ('()', [args]) | ('[]', expr)"""
        v = self.var
        chunks = []
        c = v + name
        # Python side: autocall unless an argument list follows
        seq = [('.', name)] + list(rest)
        p = None
        i = 0
        while i < len(seq):
            kind, x = seq[i]
            if kind == '.':
                call = not (i + 1 < len(seq) and seq[i + 1][0] == '()')
                if p is None:
                    p = 'V(%r, %r)' % (x, call)
                else:
                    p = 'S(%s, %r, %r)' % (p, x, call)
                    c += '.' + x
            elif kind == '()':
                c += '(' + x[0] + ')'
                p += '(' + x[1] + ')'
            else:
                c += '[' + x.c + ']'
                p += '[' + x.p + ']'
            i += 1
        del chunks
        return Expr(c, p, True)

    def args(self, *exprs, **kw):
        cs = [e.c for e in exprs]
        ps = [e.p for e in exprs]
        for k, e in kw.items():
            key = (self.var + k) if self.r.random() < .3 else k
            cs.append('%s%s%s' % (key, self.r.choice(['=', ' = ']), e.c))
            ps.append('%s=%s' % (k, e.p))
        sep = self.r.choice([', ', ',', ' , '])
        return (sep.join(cs), ', '.join(ps))

    def tr(self, e):
        if not self.trace or self.r.random() < .6:
            return e
        self.tick += 1
        self.note('trace')
        return self.ref('tr', ('()', self.args(Expr(str(self.tick),
                                                    str(self.tick)), e)))

    def lit(self, v):
        return Expr(repr(v), repr(v), True)

    def strlit(self):
        r = self.r
        v = r.choice(['', 'a', 'b c', '#x', '$n1', 'x:y', ')', ']}', '##',
                      '#if 1', '#end if', "it's", 'say "q"', '\\', 'é', '%d',
                      'a#b', ':', 'then', 'else if', '<%', '$*', '#*'])
        form = r.randint(0, 3)
        if form == 0 or '"' in v or "'" in v or '\\' in v or not v:
            s = repr(v)
        elif form == 1:
            s = '"%s"' % v
        elif form == 2:
            s = "'%s'" % v
        else:
            s = '"""%s"""' % v
        return Expr(s, repr(v), True)

    def paren(self, e):
        if e.atom and self.r.random() < .8:
            return e
        sp = self.r.choice(['', '', ' '])
        return Expr('(' + sp + e.c + sp + ')', '(' + e.p + ')', True)

    def int_(self, d=2):
        r = self.r
        k = r.randint(0, 13 if d > 0 else 5)
        if k in (0, 1):
            return self.lit(r.randint(0, 9)) if r.random() < .9 else \
                Expr('0x1f', '0x1f', True)
        if k in (2, 3):
            if self.locals_int and r.random() < .6:
                return self.ref(r.choice(self.locals_int))
            return self.ref('n%d' % r.randint(1, 4))
        if k == 4:
            self.note('attr')
            return r.choice([
                lambda: self.ref('o1', ('.', 'num')),
                lambda: self.ref('d1', ('.', 'num')),
                lambda: self.ref('d1', ('[]', self.lit('num'))),
                lambda: self.ref('o1', ('.', 'inner'), ('.', 'num')),
                lambda: self.ref('o1', ('.', 'inner'), ('.', 'd'), ('.', 'k')),
                lambda: self.ref('d2', ('.', 'o'), ('.', 'num')),
                lambda: self.ref('o1', ('.', 'chain'), ('.', 'chain'),
                                 ('.', 'num')),
                lambda: self.ref('o1', ('.', 'chain'), ('()', ('', '')),
                                 ('.', 'lst'), ('[]', self.lit(1))),
            ])()
        if k == 5:
            self.note('index')
            return self.ref('l%d' % r.randint(1, 3), ('[]', self.lit(0)))
        if k in (6, 7):
            op = r.choice(['+', '-', '*', '%', '//'])
            a = self.paren(self.int_(d - 1))
            if op in ('%', '//'):
                b = self.lit(r.randint(1, 4))
            else:
                b = self.paren(self.int_(d - 1))
            sp = r.choice(['', ' '])
            self.note('arith')
            return Expr(a.c + sp + op + sp + b.c,
                        '%s %s %s' % (a.p, op, b.p))
        if k == 8:
            self.note('call')
            return self.ref('num', ('()', self.args(self.int_(d - 1),
                                                    self.int_(d - 1))))
        if k == 9:
            self.note('kwcall')
            return self.ref('num', ('()', self.args(b=self.int_(d - 1),
                                                    a=self.int_(d - 1))))
        if k == 10:
            l = self.list_(d - 1)
            self.note('builtin')
            nm = r.choice(['len', self.var + 'len'])
            return Expr('%s(%s)' % (nm, l.c), 'len(%s)' % l.p, True)
        if k == 11:
            c, a, b = self.cond(d - 1), self.int_(d - 1), self.int_(d - 1)
            self.note('condexpr')
            return Expr('(%s if %s else %s)' % (a.c, c.c, b.c),
                        '(%s if %s else %s)' % (a.p, c.p, b.p), True)
        if k == 12:
            self.note('lambda')
            a = self.int_(d - 1)
            return Expr('(lambda q: q + 1)(%s)' % a.c,
                        '(lambda q: q + 1)(%s)' % a.p, True)
        return self.tr(self.int_(d - 1))

    def list_(self, d=1):
        r = self.r
        k = r.randint(0, 7 if d > 0 else 2)
        if k <= 1:
            return self.ref('l%d' % r.randint(1, 3))
        if k == 2:
            self.note('autocall')
            return self.ref('lst')
        if k == 3:
            es = [self.int_(d - 1) for _ in range(r.randint(0, 3))]
            self.note('listlit')
            nl = r.choice(['', '', ' '])
            return Expr('[' + nl + ', '.join(e.c for e in es) + ']',
                        '[' + ', '.join(e.p for e in es) + ']', True)
        if k == 4:
            a = self.list_(d - 1)
            self.note('listcomp')
            return Expr('[q * 2 for q in %s]' % a.c,
                        '[q * 2 for q in %s]' % a.p, True)
        if k == 5:
            a = self.list_(d - 1)
            c = self.int_(0)
            self.note('listcomp-if')
            return Expr('[q for q in %s if q != %s]' % (a.c, c.c),
                        '[q for q in %s if q != %s]' % (a.p, c.p), True)
        if k == 6:
            self.note('slice')
            s = r.choice(['1:', ':2', '::-1', '0:1'])
            n = 'l%d' % r.randint(1, 3)
            return self.ref(n, ('[]', Expr(s, s)))
        a = r.randint(0, 4)
        nm = r.choice(['range', self.var + 'range'])
        return Expr('list(%s(%d))' % (nm, a), 'list(range(%d))' % a, True)

    def str_(self, d=2):
        r = self.r
        k = r.randint(0, 13 if d > 0 else 3)
        if k <= 1:
            if self.locals_str and r.random() < .6:
                return self.ref(r.choice(self.locals_str))
            return self.ref('s%d' % r.randint(1, 4))
        if k in (2, 3):
            return self.strlit()
        if k == 4:
            self.note('autocall')
            return r.choice([
                lambda: self.ref('f0'),
                lambda: self.ref('f0', ('()', ('', ''))),
                lambda: self.ref('f1'),
                lambda: self.ref('o1', ('.', 'meth')),
                lambda: self.ref('d1', ('.', 'b'), ('.', 'f')),
                lambda: self.ref('o1', ('.', 'fn')),
                lambda: self.ref('d1', ('.', 'keys')),
                lambda: self.ref('d2', ('.', 'o'), ('.', 'd'),
                                 ('.', 'items')),
            ])()
        if k == 5:
            self.note('attr')
            return r.choice([
                lambda: self.ref('o1', ('.', 'txt')),
                lambda: self.ref('o1', ('.', 'inner'), ('.', 'txt')),
                lambda: self.ref('d1', ('.', 'b'), ('.', 'c')),
                lambda: self.ref('d1', ('[]', self.lit('b')),
                                 ('[]', self.lit('c'))),
                lambda: self.ref('d1', ('.', 'b'), ('[]', self.lit('c'))),
                lambda: self.ref('Kls', ('.', 'tag')),
                lambda: self.ref('cob', ('.', 'tag')),
            ])()
        if k in (6, 7):
            self.note('call')
            a = [self.int_(d - 1) for _ in range(r.randint(0, 3))]
            kw = {}
            if r.random() < .4:
                kw['kk'] = self.str_(d - 1)
            return self.ref('f1', ('()', self.args(*a, **kw)))
        if k == 8:
            self.note('starargs')
            l = self.list_(0)
            return self.ref('f1', ('()', ('*' + l.c, '*' + l.p)))
        if k == 9:
            a, b = self.paren(self.str_(d - 1)), self.paren(self.str_(d - 1))
            self.note('concat')
            return Expr(a.c + ' + ' + b.c, a.p + ' + ' + b.p)
        if k == 10:
            a = self.int_(d - 1)
            self.note('format')
            return Expr("'%%s' %% (%s,)" % a.c, "'%%s' %% (%s,)" % a.p)
        if k == 11:
            self.note('strmethod')
            n = 's%d' % r.randint(1, 4)
            return self.ref(n, ('.', 'upper'), ('()', ('', ''))) \
                if r.random() < .5 else self.ref(n, ('.', 'upper'))
        if k == 12:
            self.note('join')
            l = self.list_(d - 1)
            return Expr("','.join([str(q) for q in %s])" % l.c,
                        "','.join([str(q) for q in %s])" % l.p, True)
        return self.tr(self.str_(d - 1))

    def cond(self, d=2):
        r = self.r
        k = r.randint(0, 9 if d > 0 else 3)
        if k == 0:
            return r.choice([self.ref('yes'), self.ref('no'),
                             self.ref('none'), Expr('True', 'True', True),
                             Expr('None', 'None', True)])
        if k in (1, 2):
            op = r.choice(['==', '!=', '<', '<=', '>', '>='])
            a, b = self.int_(d - 1), self.int_(d - 1)
            sp = r.choice(['', ' '])
            self.note('compare')
            a, b = self.paren(a), self.paren(b)
            return Expr(a.c + sp + op + sp + b.c, '%s %s %s' % (a.p, op, b.p))
        if k == 3:
            return r.choice([self.str_(0), self.int_(0), self.list_(0)])
        if k in (4, 5):
            op = r.choice(['and', 'or'])
            a, b = self.paren(self.cond(d - 1)), self.paren(self.cond(d - 1))
            self.note('boolop')
            return Expr('%s %s %s' % (a.c, op, b.c),
                        '%s %s %s' % (a.p, op, b.p))
        if k == 6:
            a = self.paren(self.cond(d - 1))
            self.note('not')
            return Expr('not ' + a.c, 'not ' + a.p)
        if k == 7:
            a, l = self.paren(self.int_(d - 1)), self.list_(d - 1)
            op = r.choice(['in', 'not in'])
            self.note('in')
            return Expr('%s %s %s' % (a.c, op, l.c),
                        '%s %s %s' % (a.p, op, l.p))
        if k == 8:
            a = self.ref(r.choice(['none', 'n1', 's1']))
            op = r.choice(['is', 'is not'])
            return Expr('%s %s None' % (a.c, op), '%s %s None' % (a.p, op))
        return self.tr(self.cond(d - 1))

    def any_(self, d=2):
        r = self.r
        k = r.randint(0, 11)
        if k <= 4:
            return self.str_(d)
        if k <= 7:
            return self.int_(d)
        if k == 8:
            return self.list_(d)
        if k == 9:
            return self.cond(d)
        return r.choice([
            lambda: self.ref('none'), lambda: self.ref('cob'),
            lambda: self.ref('o1'), lambda: self.ref('Kls', ('.', 'tag')),
            lambda: self.ref('o1', ('.', 'inner')),
            lambda: self.ref('d1', ('.', 'b'), ('.', 'c'))])()


# ---------------------------------------------------------------- writer

class Tokens(object):
    def __init__(self, var='$', ds='#', de='#', cs='##', ms='#*', me='*#',
                 ps='<%', pe='%>', slurp='#'):
        self.var, self.ds, self.de, self.cs = var, ds, de, cs
        self.ms, self.me, self.ps, self.pe, self.slurp = ms, me, ps, pe, slurp

    def settings(self):
        return {'cheetahVarStartToken': self.var,
                'directiveStartToken': self.ds,
                'directiveEndToken': self.de,
                'commentStartToken': self.cs,
                'multiLineCommentStartToken': self.ms,
                'multiLineCommentEndToken': self.me,
                'PSPStartToken': self.ps, 'PSPEndToken': self.pe,
                'EOLSlurpToken': self.slurp}


class Writer(object):
    def __init__(self, rng, eol='\n', tok=None):
        self.r = rng
        self.eol = eol
        self.tok = tok or Tokens()
        self.parts = []
        self.bol = True           # at the beginning of a source line
        self.clear = True         # only whitespace so far on this line
        self.guard = ''           # 'short': after $name; 'tag': after #..#
        self.marks = set()

    def raw(self, s):
        if not s:
            return
        self.parts.append(s)
        tail = s.replace('\r\n', '\n').replace('\r', '\n').rsplit('\n', 1)
        if len(tail) == 2:
            self.bol = tail[1] == ''
            self.clear = tail[1].strip() == ''
        else:
            self.bol = False
            self.clear = self.clear and s.strip() == ''

    def src(self):
        return ''.join(self.parts)

    # text that no scanner may take for a tag
    def text(self, s):
        t = self.tok
        if not s:
            return ''
        prev = self.src_tail()
        if self.guard == 'short' and (s[0].isalnum() or s[0] in '_.([' or
                                      not s[0].isascii()):
            s = ' ' + s
        if self.guard == 'tag' and s[0] in (t.ds[0] + t.cs[0] + t.de[0]):
            s = '.' + s
        if prev.endswith('\r') and s.startswith('\n'):
            s = ' ' + s
        s2 = self.defuse(prev, s)
        self.guard = ''
        self.raw(s2)
        return s2

    def src_tail(self):
        out, n = [], 0
        for p in reversed(self.parts):
            out.append(p)
            n += len(p)
            if n > 4:
                break
        return ''.join(reversed(out))[-4:]

    def defuse(self, prev, s):
        """Rewrite s so that none of its characters start or escape a tag,
        alone or with what precedes it or may follow it."""
        t = self.tok
        starts = (t.var, t.ds, t.cs, t.ms, t.ps, t.slurp)
        out = []
        full = prev
        i = 0
        while i < len(s):
            c = s[i]
            hit = False
            for st in (t.cs, t.ms, t.ps):
                if len(st) > 1 and (full + c).endswith(st):
                    out.append('.')
                    full += '.'
            for st in starts:
                if st and (full + c).endswith(st):
                    hit = True
            out.append(c)
            full += c
            if hit:
                # what follows a start-token look-alike must be inert
                nxt = s[i + 1:i + 2]
                if nxt == '' or not (nxt in ' .,;-)1234567890'
                                     and self._inert(s, i + 1)):
                    out.append('.')
                    full += '.'
            elif c == '\\':
                nxt = s[i + 1:i + 2]
                if nxt == '' or any(st.startswith(nxt) for st in starts if st):
                    out.append('.')
                    full += '.'
            i += 1
        return ''.join(out)

    def _inert(self, s, i):
        """blank run after a look-alike must not reach the end of line/text"""
        while i < len(s) and s[i] in ' \t\f':
            i += 1
        return i < len(s) and s[i] not in '\r\n' and \
            (i == 0 or s[i] in '.,;-)1234567890' or s[i - 1] in ' ' and
             s[i].isalnum() is False and s[i] not in '@_{([*!#$')

    # ---- tags
    def can_line(self):
        return self.bol

    def tag(self, text, style):
        t, r = self.tok, self.r
        if style == 'line':
            assert self.bol
            ind = r.choice(['', '', '', ' ', '    ', '\t', ' \t '])
            trail = r.choice(['', '', '', '', ' ', '  \t'])
            com = ''
            if r.random() < .08 and text != 'end raw' and \
                    t.cs.startswith(t.de):
                com = ' ' + t.cs + r.choice([' note', ' é "x"', '-', ' $y z'])
            self.raw(ind + t.ds + text + trail + com)
            self.raw(self.eol)
            self.guard = ''
        else:
            self.raw(t.ds + text + r.choice(['', '', ' ']) + t.de)
            self.clear = False
            self.bol = False
            self.guard = 'tag'


def text_run(rng, eol, n=None):
    n = n if n is not None else rng.randint(1, 5)
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .5:
            out.append(rng.choice(WORDS))
        elif k < .6:
            out.append(rng.choice(UNI))
        elif k < .7:
            out.append(eol)
        elif k < .8:
            out.append(rng.choice([' ', '  ', '\t']))
        else:
            out.append(rng.choice('abcXYZ019 -_'))
        if rng.random() < .4:
            out.append(' ')
    return ''.join(out)


# ------------------------------------------------------------- templates

class TGen(object):
    """Generates a template body; returns closures run(frame, out)."""

    def __init__(self, rng, tok=None, eol=None, weights=None, trace=True,
                 maxdepth=3, budget=24, text=text_run, inline=.35):
        self.r = rng
        self.tok = tok or Tokens()
        self.eol = eol or rng.choice(['\n'] * 6 + ['\r\n', '\r'])
        self.w = Writer(rng, self.eol, self.tok)
        self.x = XGen(rng, self.tok.var, trace)
        self.maxdepth = maxdepth
        self.budget = budget
        self.text_run = text
        self.inline = inline
        self.vars = 0
        self.weights = dict(text=6, ph=6, echo=1.2, silent=.8, iff=2, unless=.6,
                            ternary=.6, forr=2, repeat=.7, whil=.5, sett=1.5,
                            setg=.4, tryy=.8, comment=.8, mlcomment=.6,
                            slurp=.7, raw=.5, psp=.6, colonif=.6, escape=.6,
                            stop=.05, brk=.4, passs=.2, delt=.2, asrt=.2,
                            pspblock=.2, cap=0, call=0, filt=0, meth=0)
        if weights:
            self.weights.update(weights)
        self.in_loop = 0
        self.nolocal = 0
        self.features = {}
        self.methods = []        # (name, params) callable from here

    def note(self, f):
        self.features[f] = self.features.get(f, 0) + 1

    def newvar(self, p='v'):
        self.vars += 1
        return '%s%d' % (p, self.vars)

    # -- pieces -----------------------------------------------------------
    def style(self):
        """layout of the next tag; may first end the line with text"""
        if self.w.bol:
            return 'inline' if self.r.random() < self.inline * .6 else 'line'
        return 'inline'

    def nl_if(self):
        """with some probability finish the line inside the current body"""
        if not self.w.bol and self.r.random() < .6:
            s = self.w.text(self.eol) if not self._cr() else ''
            return s
        return ''

    def _cr(self):
        return self.eol == '\n' and self.w.src_tail().endswith('\r')

    def close(self, text):
        """an end-type tag; returns text that belongs to the body before it"""
        pre = self.nl_if()
        self.w.tag(text, self.style())
        return pre

    def block(self, depth, least=0):
        """a sequence of constructs -> closure"""
        runs = []
        n = self.r.randint(max(least, 1), 4) if self.budget > 0 else 1
        solid = False
        for _ in range(n):
            self.budget -= 1
            runs.append(self.item(depth))
            solid = solid or self.kind not in ('comment', 'mlcomment', 'slurp')
        if not solid:
            # Python needs a statement in every suite
            runs.append(self.g_ph(depth))

        def run(fr, out):
            for x in runs:
                x(fr, out)
        return run

    def item(self, depth):
        names = [k for k in self.weights if self.weights[k] > 0]
        if depth <= 0 or self.budget < 0:
            names = [k for k in names if k in (
                'text', 'ph', 'echo', 'silent', 'sett', 'setg', 'comment',
                'slurp', 'ternary', 'escape', 'mlcomment', 'brk', 'passs',
                'asrt')]
        k = self.r.choices(names, [self.weights[x] for x in names])[0]
        run = getattr(self, 'g_' + k)(depth)
        self.kind = k
        self.note(k)
        return run

    @staticmethod
    def lit(s):
        def run(fr, out):
            out.append(s)
        return run

    def g_text(self, depth):
        s = self.w.text(self.text_run(self.r, self.eol))
        return self.lit(s)

    def emit_ph(self, e, silent=False, cache='', fargs=''):
        """writes a placeholder for expression e (which must be a reference
        for the short form)"""
        t, r = self.tok, self.r
        ref = e.c.startswith(t.var) and e.atom
        if ref and not fargs and r.random() < .55:
            self.w.raw(t.var + cache + e.c[len(t.var):])
            self.w.guard = 'short'
        else:
            o, c = r.choice(['{}', '{}', '{}', '()', '[]'])
            if o == '[' and not ref:
                o, c = '{}'
            sp = r.choice(['', '', ' '])
            if ref:
                self.w.raw(t.var + cache + o + sp + e.c[len(t.var):]
                           + fargs + sp + c)
            else:
                self.w.raw(t.var + cache + o + sp + e.c + sp + c)
            self.w.guard = 'ph'
        self.w.clear = self.w.bol = False

    def g_ph(self, depth):
        r = self.r
        if r.random() < .7:
            while True:
                e = r.choice([self.x.str_, self.x.int_, self.x.any_])(1)
                if e.atom and e.c.startswith(self.tok.var):
                    break
        else:
            e = self.x.any_(2)
            if not self.ok_expr_ph(e):
                e = self.x.ref('n1')
        self.emit_ph(e)

        def run(fr, out):
            v = evalx(e, fr)
            if v is not None:
                out.append(str(v))
        return run

    def ok_expr_ph(self, e):
        # ${expr}: must not look like ${name, filterarg} or start a placeholder
        c = e.c
        if c[:1] in ('}', ')', ']'):
            return False
        if c.startswith(self.tok.var) and e.atom:
            return True
        # an expression starting with an identifier is resolved by name
        if c[:1].isalpha() or c[:1] == '_':
            return False
        if c.startswith(self.tok.var):
            return False
        return True

    def g_echo(self, depth):
        e = self.x.any_(2)
        self.w_tag_expr('echo ' + e.c)

        def run(fr, out):
            v = evalx(e, fr)
            if v is not None:
                out.append(str(v))
        return run

    def w_tag_expr(self, text):
        self.w.tag(text, self.style())

    def g_silent(self, depth):
        e = self.x.any_(2)
        self.w_tag_expr('silent ' + e.c)

        def run(fr, out):
            evalx(e, fr)
        return run

    def g_ternary(self, depth):
        c, a, b = self.x.cond(1), self.x.any_(1), self.x.any_(1)
        for e in (c, a, b):
            bare = re.sub(r"'[^'\\]*'|\"[^\"\\]*\"", '', e.c)
            if re.search(r'then|else|if|[\'\\"]', bare):
                return self.g_text(depth)
        self.w_tag_expr('if %s then %s else %s' % (c.c, a.c, b.c))

        def run(fr, out):
            v = evalx(a, fr) if evalx(c, fr) else evalx(b, fr)
            if v is not None:
                out.append(str(v))
        return run

    def saved(self):
        return (list(self.x.locals_int), list(self.x.locals_str))

    def restore(self, s):
        self.x.locals_int, self.x.locals_str = s

    def g_iff(self, depth):
        r = self.r
        arms = []
        cond = self.x.cond(2)
        colon = r.choice(['', '', ':'])
        st = self.style()
        self.w.tag('if %s%s' % (cond.c, colon if st == 'line' else ''), st)
        s = self.saved()
        body = self.block(depth - 1)
        extra = []
        n = r.choice([0, 0, 0, 1, 1, 2])
        cur = [cond, body]
        for _ in range(n):
            self.restore(s)
            c2 = self.x.cond(1)
            kw = r.choice(['elif', 'else if', 'else  if'])
            extra.append(self.close('%s %s' % (kw, c2.c)))
            arms.append(cur)
            cur = [c2, self.block(depth - 1)]
        arms.append(cur)
        els = None
        if r.random() < .5:
            extra.append(self.close('else'))
            self.restore(s)
            els = self.block(depth - 1)
        extra.append(self.close('end if' + r.choice(['', '', ' ', ' $x'])
                                if False else 'end if'))
        self.restore(s)

        def run(fr, out):
            for i, (c, b) in enumerate(arms):
                if evalx(c, fr):
                    b(fr, out)
                    out.append(extra[i])
                    return
            if els:
                els(fr, out)
                out.append(extra[len(arms)])
        return run

    def g_unless(self, depth):
        c = self.x.cond(2)
        self.w.tag('unless ' + c.c, self.style())
        s = self.saved()
        body = self.block(depth - 1)
        pre = self.close('end unless')
        self.restore(s)

        def run(fr, out):
            if not evalx(c, fr):
                body(fr, out)
                out.append(pre)
        return run

    def g_colonif(self, depth):
        """#if cond: rest of the line (the line ending belongs to the body)"""
        r = self.r
        kw = r.choice(['if', 'if', 'unless'])
        c = self.x.cond(1)
        pre = self.lit('')
        if not self.w.bol:
            pre = self.lit(self.w.text(self.eol) if not self._cr() else '')
            if not self.w.bol:
                return pre
        ind = r.choice(['', '', '  '])
        sp = r.choice([' ', ''])
        self.w.raw(ind + self.tok.ds + kw + ' ' + c.c + ':' + sp)
        self.w.guard = 'ph'
        self.w.clear = self.w.bol = False
        t = self.w.text('t' + text_run(r, ' ', 1).replace('\n', ' ')
                        .replace('\r', ' ').replace('\x0b', ' ')
                        .replace('\x0c', ' ').replace('\u2028', ' ')
                        .replace('\x85', ' '))
        inner = [self.lit(t)]
        if r.random() < .6:
            inner.append(self.g_ph(depth))
        e = self.w.text(self.eol)
        if r.random() < .3 and kw == 'if' and e == self.eol:
            # an #else: on the following line continues the construct
            t2 = 'u'
            self.w.raw(self.tok.ds + 'else: ' + t2 + self.eol)
            els = t2 + self.eol
        else:
            els = ''

        def run(fr, out):
            pre(fr, out)
            out.append(ind)
            v = bool(evalx(c, fr))
            if v == (kw == 'if'):
                for x in inner:
                    x(fr, out)
                out.append(e)
            else:
                out.append(els)
        return run

    def loop_body(self, depth):
        self.in_loop += 1
        s = self.saved()
        body = self.block(depth - 1)
        self.in_loop -= 1
        self.restore(s)
        return body

    def g_forr(self, depth):
        r = self.r
        k = r.randint(0, 4)
        d = self.tok.var
        if k == 0:
            v = self.newvar('i')
            l = self.x.list_(1)
            lhs, names, it = d + v, [v], l
            ints = [v]
            bind = lambda fr, x: fr.l.__setitem__(v, x)   # noqa: E731
        elif k == 1:
            a, b = self.newvar('k'), self.newvar('i')
            l = self.x.ref('pairs')
            lhs = '%s%s, %s%s' % (d, a, d, b) if r.random() < .7 else \
                '(%s%s, %s%s)' % (d, a, d, b)
            it, ints = l, [b]

            def bind(fr, x):
                fr.l[a], fr.l[b] = x
        elif k == 2:
            v = self.newvar('rec')
            l = self.x.ref('recs')
            lhs, it, ints = d + v, l, []

            def bind(fr, x):
                fr.l[v] = x
        elif k == 3:
            a, b = self.newvar('i'), self.newvar('i')
            l0 = self.x.list_(0)
            it = Expr('enumerate(%s)' % l0.c, 'enumerate(%s)' % l0.p)
            lhs, ints = '%s%s, %s%s' % (d, a, d, b), [a, b]

            def bind(fr, x):
                fr.l[a], fr.l[b] = x
        else:
            v = self.newvar('i')
            n = r.randint(0, 4)
            it = Expr('%srange(%d)' % (d, n), 'range(%d)' % n)
            lhs, ints = d + v, [v]

            def bind(fr, x):
                fr.l[v] = x
        st = self.style()
        self.w.tag('for %s in %s%s' % (
            lhs, it.c, ':' if st == 'line' and r.random() < .15 else ''), st)
        s = self.saved()
        self.x.locals_int = self.x.locals_int + ints
        self.in_loop += 1
        body = self.block(depth - 1)
        if k == 2 and r.random() < .7:
            f = self.x.ref(v, ('.', r.choice(['name', 'v'])))
            self.emit_ph(f)
            b0 = body

            def body(fr, out):
                b0(fr, out)
                out.append(str(evalx(f, fr)))
        self.in_loop -= 1
        pre = self.close('end for')
        self.restore(s)

        def run(fr, out):
            for x in evalx(it, fr):
                bind(fr, x)
                try:
                    body(fr, out)
                    out.append(pre)
                except Brk:
                    break
                except Cont:
                    continue
        return run

    def g_repeat(self, depth):
        n = self.x.int_(0) if self.r.random() < .5 else \
            self.x.lit(self.r.randint(0, 3))
        self.w.tag('repeat ' + n.c, self.style())
        body = self.loop_body(depth)
        pre = self.close('end repeat')

        def run(fr, out):
            for _ in range(evalx(n, fr)):
                try:
                    body(fr, out)
                    out.append(pre)
                except Brk:
                    break
                except Cont:
                    continue
        return run

    def g_whil(self, depth):
        v = self.newvar('w')
        lim = self.r.randint(0, 3)
        d = self.tok.var
        self.w.tag('set %s%s = 0' % (d, v), self.style())
        self.w.tag('while %s%s < %d' % (d, v, lim), self.style())
        self.w.tag(self.r.choice(['set %s%s += 1', 'set %s%s = %s%s + 1'])
                   .replace('%s%s', d + v), self.style())
        body = self.loop_body(depth)
        pre = self.close('end while')

        def run(fr, out):
            fr.l[v] = 0
            while fr.l[v] < lim:
                fr.l[v] += 1
                try:
                    body(fr, out)
                    out.append(pre)
                except Brk:
                    break
                except Cont:
                    continue
        return run

    def g_brk(self, depth):
        if not self.in_loop:
            return self.g_ph(depth)
        kind = self.r.choice(['break', 'continue'])
        c = self.x.cond(1)
        self.w.tag('if ' + c.c, self.style())
        self.w.tag(kind, self.style())
        self.w.tag('end if', self.style())

        def run(fr, out):
            if evalx(c, fr):
                raise (Brk if kind == 'break' else Cont)()
        return run

    def g_passs(self, depth):
        self.w.tag('pass', self.style())
        return self.lit('')

    def g_asrt(self, depth):
        self.w.tag('assert 1 == 1', self.style())
        return self.lit('')

    def g_sett(self, depth):
        r, d = self.r, self.tok.var
        k = r.randint(0, 5)
        if k <= 2:
            if self.x.locals_int and r.random() < .4 and not self.nolocal:
                v = r.choice(self.x.locals_int)
            else:
                v = self.newvar('a')
            e = self.x.int_(2)
            self.w_tag_expr('set %s%s%s%s' % (
                r.choice([d, d, d, '']), v, r.choice([' = ', '=']), e.c))
            self.x.locals_int = self.x.locals_int + [v]
        elif k <= 4:
            v = self.newvar('t')
            e = self.x.str_(2)
            self.w_tag_expr('set %s%s = %s' % (d, v, e.c))
            self.x.locals_str = self.x.locals_str + [v]
        else:
            v, v2 = self.newvar('a'), self.newvar('a')
            e1, e2 = self.x.int_(1), self.x.int_(1)
            self.w_tag_expr('set %s%s, %s%s = %s, %s' % (d, v, d, v2,
                                                         e1.c, e2.c))
            self.x.locals_int = self.x.locals_int + [v, v2]

            def run2(fr, out):
                a, b = evalx(e1, fr), evalx(e2, fr)
                fr.l[v], fr.l[v2] = a, b
            return run2

        def run(fr, out):
            fr.l[v] = evalx(e, fr)
        return run

    def g_setg(self, depth):
        v = self.newvar('g')
        e = self.x.int_(1)
        self.w_tag_expr('set global %s%s = %s' % (self.tok.var, v, e.c))
        self.x.locals_int = self.x.locals_int + [v]

        def run(fr, out):
            fr.w.gset[v] = evalx(e, fr)
        return run

    def g_delt(self, depth):
        v = self.newvar('a')
        d = self.tok.var
        self.w.tag('set %s%s = 1' % (d, v), self.style())
        e = self.x.ref(v)
        self.emit_ph(e)
        self.w.tag('del %s%s' % (r_(self.r, d), v), self.style())
        return self.lit('1')

    def g_tryy(self, depth):
        r = self.r
        kind = r.choice(['except', 'except', 'typed', 'finally', 'else'])
        exc = r.choice(['ValueError', 'KeyError', 'ZeroDivisionError'])
        fails = r.random() < .6
        self.w.tag('try', self.style())
        s = self.saved()
        # loops must not be left from inside (keeps the reference simple)
        il, self.in_loop = self.in_loop, 0
        stop = self.weights['stop']
        if kind == 'finally':
            self.weights['stop'] = 0    # Python evaluates return first
        b1 = self.block(depth - 1)
        self.weights['stop'] = stop
        if fails:
            e = self.x.ref('boom', ('()', self.x.args(self.x.lit(exc))))
            self.emit_ph(e)
            b0 = b1

            def b1(fr, out):
                b0(fr, out)
                evalx(e, fr)
        self.restore(s)
        p2 = p3 = ''
        b2 = b3 = None
        if kind == 'finally' and not fails:
            p1 = self.close('finally')
            b2 = self.block(depth - 1)
            p2 = self.close('end try')
        else:
            if kind == 'typed':
                p1 = self.close('except %s' % exc if r.random() < .5 else
                                'except (%s, TypeError)' % exc)
            else:
                p1 = self.close('except')
            b2 = self.block(depth - 1)
            if kind == 'else':
                p2 = self.close('else')
                self.restore(s)
                b3 = self.block(depth - 1)
                p3 = self.close('end try')
            else:
                p2 = self.close('end try')
        self.restore(s)
        self.in_loop = il

        def run(fr, out):
            if kind == 'finally' and not fails:
                try:
                    b1(fr, out)
                    out.append(p1)
                finally:
                    b2(fr, out)
                    out.append(p2)
                return
            try:
                b1(fr, out)
                out.append(p1)
            except (Stop, Ret, Brk, Cont):
                raise
            except Exception:
                b2(fr, out)
                out.append(p2)
            else:
                if b3:
                    b3(fr, out)
                    out.append(p3)
        return run

    def g_comment(self, depth):
        r, t = self.r, self.tok
        body = r.choice([' a note', '', ' $n1 ${bad', ' #if 1', ' "quote',
                         " it's \\", ' é中', '###', ' #end if', ' doc', '.'])
        if self.w.bol:
            self.w.raw(r.choice(['', '', '  ', '\t']) + t.cs + body)
            self.w.raw(self.eol)
            self.w.guard = ''
            return self.lit('')
        # after text: the comment goes, the line ending stays
        if self.w.guard == 'tag':
            return self.g_text(depth)
        if self.w.clear:
            return self.g_text(depth)
        if self.w.src_tail().endswith((t.cs[0], '\\', t.ds[0])):
            return self.g_text(depth)
        self.w.raw(t.cs + body)
        self.w.raw(self.eol)
        self.w.guard = ''
        return self.lit(self.eol)

    def g_mlcomment(self, depth):
        r, t = self.r, self.tok
        body = r.choice([' a ', '', ' two' + self.eol + ' lines ', ' $x #if ',
                         ' %s in %s ' % (t.ms, t.me), ' é "', "'''", ' ## '])
        if self.w.bol and r.random() < .6:
            self.w.raw(r.choice(['', '  ']) + t.ms + body + t.me
                       + r.choice(['', ' ']))
            self.w.raw(self.eol)
            self.w.guard = ''
            return self.lit('')
        if self.w.clear or self.w.guard == 'tag' or \
                self.w.src_tail().endswith((t.ms[0], '\\', t.ds[0])):
            return self.g_text(depth)
        self.w.raw(t.ms + body + t.me)
        self.w.clear = self.w.bol = False
        self.w.guard = 'ph'
        s = self.w.text('m' + text_run(r, ' ', 1))
        return self.lit(s)

    def g_slurp(self, depth):
        if self.w.clear or self.w.guard == 'tag' or \
                self.w.src_tail().endswith(('\\', self.tok.ds[0],
                                            self.tok.cs[0])):
            return self.g_text(depth)
        self.w.raw(self.tok.ds + 'slurp' + self.r.choice(['', ' ', ' junk']))
        self.w.raw(self.eol)
        self.w.guard = ''
        return self.lit('')

    def g_raw(self, depth):
        r, t = self.r, self.tok
        st = self.style()
        self.w.tag('raw', st)
        s = r.choice(['$n1', '#if $x', '## c', '<% x %>', '${', '\\$x', 'a"b',
                      "'", '#end if', '$$', '#', '\\', '#*', 'é'])
        s = ''.join([s, r.choice(['', self.eol, ' ']),
                     r.choice(['z', '$q', '#silent 1'])])
        s = s.replace('$', t.var).replace('#', t.ds) if t.var != '$' else s
        if st == 'inline' and s[0] == t.ds[0]:
            s = ' ' + s
        self.w.raw(s)
        end = self.eol if r.random() < .7 else ''
        if end:
            self.w.raw(end)
            self.w.tag('end raw', 'line')
        else:
            self.w.raw('.')
            s += '.'
            self.w.tag('end raw', 'inline')
        return self.lit(s + end)

    def g_psp(self, depth):
        t, r = self.tok, self.r
        if self.w.src_tail().endswith(('\\', '<')):
            return self.g_text(depth)
        if r.random() < .6:
            v = r.choice(['1 + 2', "'a' * 3", '[1, 2]', '"<" + ">"',
                          'len("xyz")', '{1: 2}', '3 % 2', 'None'])
            self.w.raw('%s=%s%s' % (t.ps, r.choice(['', ' ']) + v +
                                    r.choice(['', ' ']), t.pe))
            self.w.clear = self.w.bol = False
            self.w.guard = 'ph'
            val = eval(v)
            return self.lit('' if val is None else str(val))
        v = self.newvar(r.choice(['p', 'end', 'endless']))
        n = r.randint(0, 9)
        self.w.raw('%s %s = %d %s' % (t.ps, v, n, t.pe))
        self.w.clear = self.w.bol = False
        self.w.guard = 'ph'
        self.x.locals_int = self.x.locals_int + [v]

        def run(fr, out):
            fr.l[v] = n
        return run

    def g_pspblock(self, depth):
        t, r = self.tok, self.r
        if self.w.src_tail().endswith(('\\', '<')):
            return self.g_text(depth)
        v = self.newvar('p')
        n = r.randint(0, 3)
        self.w.raw('%s for %s in range(%d):%s %s' % (
            t.ps, v, n, r.choice(['', '', '  # $', ' #$', '$']), t.pe))
        self.w.clear = self.w.bol = False
        self.w.guard = 'ph'
        body = self.loop_body(1)
        s = self.w.text('e')
        self.w.raw('%s%s%s' % (t.ps, r.choice([
            ' end ', 'end', ' End ', '\tEND ']), t.pe))
        self.w.clear = self.w.bol = False
        self.w.guard = 'ph'

        def run(fr, out):
            for i in range(n):
                fr.l[v] = i
                try:
                    body(fr, out)
                    out.append(s)
                except Brk:
                    break
                except Cont:
                    continue
        return run

    def g_escape(self, depth):
        t, r = self.tok, self.r
        s = r.choice([t.var + 'n1', t.ds + 'if', t.var + '{n1}',
                      t.ds + 'end if', t.var + 'x.y(1)', t.ds + 'set x = 1',
                      t.cs + ' c', t.var + '*x', t.ds + '@dec'])
        if s.startswith(t.cs) and not t.cs.startswith(t.ds):
            s = t.ds + 'if'     # only the other two tokens are unescaped
        if s == t.ds + '@dec' and t.var[0] == '@':
            s = t.ds + 'if'
        self.w.raw('\\' + s)
        self.w.clear = self.w.bol = False
        self.w.guard = 'ph'
        if s.startswith(t.cs):
            # only the escaped start token matters; rest is inert here
            pass
        q = self.w.text('.')
        return self.lit(s + q)

    def g_stop(self, depth):
        c = self.x.cond(1)
        self.w.tag('if ' + c.c, self.style())
        self.w.tag('stop', self.style())
        self.w.tag('end if', self.style())

        def run(fr, out):
            if evalx(c, fr):
                raise Stop()
        return run

    def finish(self):
        """terminate so that the end of the source is plain text"""
        s = self.w.text('~')
        return self.lit(s)

    def template(self, n=None):
        n = n or self.r.randint(3, 7)
        runs = []
        for _ in range(n):
            self.budget -= 1
            runs.append(self.item(self.maxdepth))
        runs.append(self.finish())

        def run(fr, out):
            try:
                for x in runs:
                    x(fr, out)
            except Stop:
                pass
        return run


def r_(rng, d):
    return rng.choice([d, ''])


def reference(run, world):
    out = []
    run(Frame(world), out)
    return ''.join(out)
