"""C13: rendering leaves no residue."""
import os
import re
import sys
import types
from vlib import gen, pyprog, regions
from vlib.core import same, need
from vlib.t import compile_, outcome, write

RULE = ('Histories over several instances of several classes, rendered in '
        'random order 10-40 times, many renderings ending in an exception, '
        'stop or abandoned region; every rendering is predicted by a model '
        'per instance. Caller-supplied objects, class defaults and sentinel '
        'compilations are snapshotted before and after. Distinct: constructs '
        'in the templates and endings seen in the history; kinds of supplied '
        'objects.')
TECHNIQUE = ('history checker with per-instance models, plus deep-snapshot '
             'monitors over caller-supplied objects, library defaults and '
             'the state of instances not being rendered')
LEVEL_NOTE = ('Snapshots follow dictionaries, lists, sets and instance '
              'attributes; functions, classes and modules are compared by '
              'identity.')
REQUIRED = {'renderings': 500, 'ended raised': 50}
DESIGN = ('Model per instance: what the template language keeps on purpose '
          '(global variables, cached regions) is part of the model; anything '
          'else that crosses renderings or instances is a violation. '
          'Sentinel templates, compiled without cache after every case, must '
          'generate the code they generated first.')
ATOMS = (type(None), bool, int, float, complex, str, bytes, type,
         types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
         types.MethodType, type(re.compile('')))


def snap(v, depth=9, seen=None):
    """A comparable deep copy; identity for opaque things."""
    if seen is None:
        seen = {}
    if isinstance(v, ATOMS):
        return (type(v).__name__, v if not isinstance(
            v, (types.MethodType,)) else repr(type(v)))
    if id(v) in seen:
        return ('seen', seen[id(v)])
    seen[id(v)] = len(seen)
    if depth == 0:
        return ('deep', type(v).__name__)
    if isinstance(v, dict):
        return (type(v).__name__, [(snap(k, depth - 1, seen),
                                    snap(x, depth - 1, seen))
                                   for k, x in list(v.items())])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x, depth - 1, seen) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, sorted(repr(x) for x in v))
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict):
        return (type(v).__name__, id(v), [(k, snap(x, depth - 1, seen))
                                          for k, x in sorted(d.items())])
    return (type(v).__name__, id(v))


STAMP = re.compile(r"(?m)^.*__CHEETAH_(gen|src)\w*__.*$|cheetah_\w+_\d+|"
                   r"_?\d{6,}(_\d+)?|\d+\.\d{4,}|^__CHEETAH_.*$")
SENTINELS = [
    ('a $x #if $y#b#else#c#end if# @x %if 1 ## c\n#* m *#$f(1)[2] <%= 1 %>'
     '#slurp\n', {}),
    ('#def m(a=1)\n$a#end def\n#block b\n$m#end block\n#call $m#x#end call#'
     '#filter WebSafe#$x#end filter##set global $g = 1\n', {}),
    ('@x %if 1%b%end if% $x', {'cheetahVarStartToken': '@',
                               'directiveStartToken': '%',
                               'directiveEndToken': '%'}),
]


def sentinel_codes():
    from Cheetah.Template import Template
    out = []
    for src, st in SENTINELS:
        code = Template.compile(src, compilerSettings=dict(st),
                                returnAClass=False, useCache=False,
                                cacheCompilationResults=False).decode()
        out.append(STAMP.sub('', code))
    return out


def library():
    """State of the library itself that nobody asked to change."""
    from Cheetah import Compiler, Parser, Filters, ErrorCatchers
    from Cheetah.Template import Template
    d = {}
    for k in dir(Template):
        if k.startswith('_CHEETAH_') and k not in (
                '_CHEETAH_compileCache', '_CHEETAH_compileLock'):
            d['Template.' + k] = snap(getattr(Template, k))
    d['compiler settings'] = snap(Compiler.DEFAULT_COMPILER_SETTINGS)
    d['directives'] = snap(Parser.directiveNamesAndParsers)
    d['filters'] = sorted(vars(Filters))
    d['catchers'] = sorted(vars(ErrorCatchers))
    import builtins
    d['builtins'] = sorted(k for k in vars(builtins) if k != '_')
    d['path'] = list(sys.path)
    d['cwd'] = os.getcwd()
    d['environ'] = dict(os.environ)
    d['recursion'] = sys.getrecursionlimit()
    d['meta'] = [id(x) for x in sys.meta_path]
    d['hooks'] = (id(sys.excepthook), id(sys.stdout), id(sys.stderr),
                  id(builtins.__import__))
    return d


def setup(ctx):
    from Cheetah.Template import Template
    # lazily initialised things first
    str(Template.compile('$x')(searchList=[{'x': 1}]))
    ctx.state['lib'] = library()
    ctx.state['codes'] = sentinel_codes()


def residue(ctx, **detail):
    lib = library()
    for k, v in ctx.state['lib'].items():
        same(lib.get(k), v, 'library or process state changed: ' + k,
             key='library:' + k, **detail)
    for i, (a, b) in enumerate(zip(sentinel_codes(), ctx.state['codes'])):
        same(a, b, 'an unrelated template now generates other code',
             key='sentinel:%d' % i, **detail)
    ctx.count('library snapshots')


# --- histories -------------------------------------------------------------

class RegionInst(object):
    def __init__(self, prog, cls, seq):
        self.mlog = []
        self.ns = regions.namespace(seq)
        self.model = regions.Interp(prog, regions.namespace(seq), self.mlog,
                                    initial=None)
        self.ns['sub'] = compile_(regions.SUB)(searchList=[self.ns])
        self.ns.update(K1=None, K2=None)
        self.cls = cls
        self.t = None

    def want(self):
        return outcome(self.model.render)

    def got(self):
        if self.t is None:
            self.t = self.cls(searchList=[self.ns])
        return outcome(lambda: str(self.t))


class PlainInst(object):
    """A template that keeps nothing on purpose: same data, same output."""

    def __init__(self, cls, fac, want):
        self.cls, self.fac, self._want = cls, fac, want
        self.sl = None

    def want(self):
        return self._want

    def got(self):
        # the same instance with the data put back
        fresh, _ = self.fac()
        fresh = fresh if isinstance(fresh, (list, tuple)) else [fresh]
        if self.sl is None:
            self.sl = list(fresh)
            self.t = self.cls(searchList=self.sl)
        else:
            for old, new in zip(self.sl, fresh):
                if isinstance(old, dict):
                    old.clear()
                    old.update(new)
                else:
                    old.__dict__.clear()
                    old.__dict__.update(new.__dict__)
        return outcome(lambda: str(self.t))


def make_group(ctx, rng):
    kind = rng.choice(['region', 'region', 'flow', 'prog'])
    n = rng.randint(2, 4)
    if kind == 'region':
        g = regions.Gen(rng, budget=rng.choice([6, 12, 25]),
                        maxdepth=rng.choice([2, 3, 4]), filters=False)
        prog = g.program()
        cls = compile_(prog[0])
        seqs = [[rng.random() < .4 for _ in range(rng.randint(2, 7))]
                for _ in range(n)]
        return prog[0], g.feat, [RegionInst(prog, cls, s) for s in seqs]
    if kind == 'flow':
        w = {'setg': 0}
        g = gen.TGen(rng, maxdepth=3, budget=15, weights=w)
        g.template()
        src = g.w.src()
        if 'setg' in g.features:
            return make_group(ctx, rng)
        fac = gen.make_data(rng)
        feat = g.features
    else:
        g = pyprog.PGen(rng, budget=25, maxdepth=3)
        src, py = g.program()
        if 'global' in src:
            return make_group(ctx, rng)
        fac = pyprog.data(rng)
        feat = g.feat
    cls = compile_(src)
    sl, _ = fac()
    sl = sl if isinstance(sl, (list, tuple)) else [sl]
    want = outcome(lambda: str(cls(searchList=list(sl))))
    return src, feat, [PlainInst(cls, fac, want) for _ in range(n)]


def idle_state(insts, skip):
    """State of the instances that are not being rendered."""
    out = []
    for i in insts:
        t = getattr(i, 't', None)
        if t is None or t is skip:
            out.append(None)
            continue
        d = dict((k, v) for k, v in t.__dict__.items()
                 if k not in ('_CHEETAH__searchList', 'transaction'))
        out.append(snap(d, 6))
    return out


def history(ctx, rng):
    insts, srcs, feats = [], [], set()
    for _ in range(rng.randint(1, 3)):
        src, feat, more = make_group(ctx, rng)
        srcs.append(src)
        feats |= set(feat)
        insts += [(src, m) for m in more]
    ends = set()
    steps = rng.choice([10, 20, 40])
    for step in range(steps):
        src, m = rng.choice(insts)
        watch = rng.random() < .15
        if watch:
            t = getattr(m, 't', None)
            before = idle_state([x for _, x in insts], t)
        want = m.want()
        got = m.got()
        if watch and t is not None:
            after = idle_state([x for _, x in insts], t)
            same(after, before, 'rendering one instance changed the state of '
                 'another', key='instances', src=src)
            ctx.count('idle instances watched', len(insts) - 1)
        if want[0] == 'raised' and isinstance(m, RegionInst):
            need(got[0] == 'raised' and got[1] == want[1], 'rendering %d of '
                 'the history ends differently' % step, key='ending',
                 src=src, is_=repr(got), should_be=repr(want))
        else:
            same(got, want, 'rendering %d of the history differs from the '
                 'instance\'s own model' % step, key='output', src=src)
        ctx.count('renderings')
        ctx.count('ended ' + want[0])
        ends.add(want[0])
    residue(ctx, srcs=srcs)
    ctx.saw((tuple(sorted(feats))[:12], tuple(sorted(ends)), len(insts)))
    ctx.sample({'templates': len(srcs), 'instances': len(insts),
                'renderings': steps, 'src': srcs[0]}, limit=3)


# --- caller-supplied objects -----------------------------------------------

BODIES = [
    '$a $b.c $d[0] #for $i in $d#$i#end for#',
    '#set $a = 5\n#set global $zz = 6\n$a $zz #for $a in $d#$a#end for#$a',
    '#set $d2 = $d + [9]\n$d2 $d #silent 1\n#del $d2\n',
    '#cache id="q"#$a#end cache# $*b $*3*a #filter WebSafe#$a#end filter#',
    '#include source=$s\n#include $p\n#include raw $p\n#include raw '
    'source=$s\n',
    '#def m(x=1)\n#set $a = $x\n$a$b#end def\n$m(2)#call $m#q#end call#',
    '#capture cap\n$a#end capture\n$cap#try#$nope#except#x#end try#',
    '#errorCatcher Echo\n$nope $a\n',
    '#if $varExists("a")#$getVar("b", 1)$hasVar("d")#end if#$a()',
    '#set $x, $y = $d[0], $a\n$x$y #from math import pi as a\n$a',
    '#stop\n$a', '$nope', '#raise ValueError', '#attr $a = 1\n$a $self.a',
    '#transform $T\n$a', '#extends Cheetah.Tests\n',
    '#set global $a = 1\n#set global $lst = []\n#silent $lst.append(1)\n$lst',
    '#for $k in $sorted($e)#$k $e[$k]#end for##set $e2 = $e\n',
    '#indent ++\n  $a\n#indent push\n#indent pop\n',
    '#compiler-settings\ncheetahVarStartToken = @\n#end compiler-settings\n@a'
    ' $a\n',
    '#defmacro mm\n<@src>\n#end defmacro\n#mm: $a#\n',
    '#mac: $a#\n#mac#$b#end mac#', '@pre $a %if 1%x%end if%',
    '#if $x', '#end if', '$a(', '#i18n: msg #',
]


class Data(object):
    def __init__(self):
        self.c = 'cc'
        self.items = [1, {'k': [2]}]


def caller(ctx, rng):
    from Cheetah.Template import Template
    tmp = ctx.tmp('inc')
    p = write(os.path.join(tmp, 'i.tmpl'), 'inc $a #set global $gg = 1\n')

    class T(object):
        def __init__(self, *a):
            pass

        def filter(self, s, **k):
            return s
    src = ''.join(rng.sample(BODIES, rng.randint(1, 3)))
    if not src.endswith('\n'):
        src += '\n'

    def macro(src):
        return src.upper()

    def macro2(src, parser=None, macros=None, compilerSettings=None):
        return src
    ns = {'a': 'A', 'b': Data(), 'd': [3, 1, 2], 's': 'src $a #set $a = 2\n',
          'p': p, 'T': T, 'e': {'q': 1, 'r': [2]}}
    obj = Data()
    obj.nested = {'x': [1, 2], 'y': {'z': 3}}
    searchList = [ns, obj, {'more': {'deep': [1]}}]
    if rng.random() < .3:
        searchList = tuple(searchList)
    args = {'searchList': searchList}
    settings = rng.choice([
        None, {}, {'macroDirectives': {'mac': macro}},
        {'macroDirectives': {'mac': macro, 'i18n': 'Cheetah.Macros.I18n.I18n'
                             }, 'useStackFrames': False},
        {'compilerSettingsForDefMacro': {'useStackFrames': False},
         'macroDirectives': {'mac': macro2}},
        {'searchListForDefMacro': [{'q': [1]}],
         'compilerSettingsForDefMacro': {}},
        {'directiveNamesAndParsers': {'bar': None}},
        {'disabledDirectives': ['Psp'], 'hookList': [1, [2]],
         'expressionFilterHooks': []},
        {'gettextTokens': ['_', 'N_'], 'preparseDirectiveHooks': [],
         'cheetahVarStartToken': '$'}])
    pre = rng.choice([
        None, None, '@ %', {'tokens': '@ %'}, {'tokens': ['@', '%']},
        {'tokens': '@ %', 'searchList': [{'pre': 'PRE'}]},
        {'tokens': '@ %', 'compilerSettings': {'useStackFrames': False},
         'searchList': [{'pre': 'PRE'}]},
        {'compilerSettings': {'cheetahVarStartToken': '@',
                              'directiveStartToken': '%',
                              'directiveEndToken': '%'},
         'templateInitArgs': {'searchList': [{'pre': 'P'}]}},
        {'tokens': '@ %', 'templateInitArgs': {}, 'namespaces': {'pre': 'P'}},
        ['@ %'], [{'tokens': '@ %', 'namespaces': [{'pre': 'P'}]}]])
    globs = rng.choice([None, {}, {'a2': [1], 'fn': macro},
                        {'a': 'GLOBAL', 'd': {'x': [1]}}])
    kw = {}
    if settings is not None:
        kw['compilerSettings'] = settings
    if pre is not None:
        kw['preprocessors'] = pre
    if globs is not None:
        kw['moduleGlobals'] = globs
    if rng.random() < .5:
        kw['cacheCompilationResults'] = False
    how = rng.choice(['class', 'class', 'instance', 'subclass'])
    supplied = {'searchList': searchList, 'settings': settings, 'pre': pre,
                'globals': globs}
    before = dict((k, snap(v)) for k, v in supplied.items())
    ids = [id(x) for x in searchList]
    results = []
    kept = None
    for n in range(3):
        try:
            if how == 'instance':
                k2 = dict(kw)
                for drop in ('preprocessors', 'moduleGlobals',
                             'cacheCompilationResults'):
                    k2.pop(drop, None)
                kept = Template(src, searchList=searchList, **k2)
            elif how == 'subclass':
                base = Template.compile('#def base\nB#end def\n')
                kept = base.subclass(src, **kw)(searchList=searchList)
            else:
                kept = Template.compile(src, **kw)(searchList=searchList)
            r = ('ok', str(kept))
        except Exception as e:
            r = ('raised', type(e).__name__)
        results.append(r)
    for k, v in supplied.items():
        same(snap(v), before[k], 'caller-supplied %s was modified' % k,
             key='supplied:' + k, src=src, kw=repr(kw)[:400], how=how)
        ctx.count('supplied objects')
    same([id(x) for x in searchList], ids, 'caller-supplied search list was '
         'modified', key='supplied:list', src=src)
    for r in results[1:]:
        same(r, results[0], 'doing the same again gives another result',
             key='again', src=src, kw=repr(kw)[:400], how=how)
    residue(ctx, src=src, kw=repr(kw)[:300])
    ctx.saw(('caller', results[0][0], how, repr(settings)[:40],
             repr(pre)[:40]))
    ctx.count('caller ' + results[0][0])


def pairs(ctx, rng):
    """Two instances of a class, one of them driven hard."""
    src = ('#def m(x=1)\n#set global $g = $x\n$g#end def\n'
           '#block b\n$getVar("g", "none")#end block\n'
           '#cache id="c"#$tick#end cache# $*tick $m($n) '
           '#include source="[$g]"\n'
           '#filter WebSafe#<$lt>#if $n == 3#$boom#end if##end filter#$lt'
           '#set global $l = $getVar("l", []) + [$n]\n$len($l)')
    cls = compile_(src)
    if rng.random() < .4:
        # inherited mutable class attributes stay the class's business
        cls = cls.subclass('#implements dummy\n#def b\nsub$getVar("g", "none")#end def\n',
                           cacheCompilationResults=False)

    def boom():
        raise ValueError('boom')

    def data(n):
        c = [0]

        def tick():
            c[0] += 1
            return 't%d.%d' % (n, c[0])
        return {'n': n, 'tick': tick, 'lt': '<', 'boom': boom}
    sub = cls.__bases__[0].__name__ != 'Template'
    ns = [data(i) for i in range(5)]
    ts = [None] * 5
    counts = [0] * 5
    for _ in range(rng.randint(10, 30)):
        i = rng.randrange(5)
        if ts[i] is None or rng.random() < .1:
            ns[i] = data(i)
            ts[i] = cls(searchList=[ns[i]])
            counts[i] = 0
        got = outcome(lambda: str(ts[i]))
        if i == 3:
            same(got, ('raised', 'ValueError', 'boom'), 'ends differently',
                 key='pair-boom')
        else:
            g = 'none' if counts[i] == 0 else str(i)
            lt = '&lt;'
            want = ('%s\nt%d.1 t%d.2 %d [%d]<%s><%d'
                    % (('sub' if sub else '') + g, i, i, i, i, lt,
                       counts[i] + 1))
            same(got[0], 'ok', 'fails', key='pair-fails', is_=repr(got))
            text = got[1].replace('\n', '')
            same(text, want.replace('\n', ''), 'state of another instance or '
                 'an abandoned rendering shows', key='pair', n=counts[i],
                 history=counts)
            counts[i] += 1
        ctx.count('renderings')
        ctx.count('ended ' + got[0])
    ctx.saw(('pairs', sub, tuple(c > 1 for c in counts)))


SCENARIOS = [
    ('history', history, 400, 6000),
    ('caller', caller, 1200, 15000),
    ('pairs', pairs, 60, 600),
]
