"""C04: the native lookup is memory-safe and leaks nothing."""
import collections
import ctypes
import functools
import gc
import operator
import signal
import sys
import threading
import weakref
from vlib import boot, graph
from vlib.core import Violation, need

RULE = ('Every case drives the extension built from the working tree: half of '
        'the workers load an AddressSanitizer+UBSan build, the others count '
        'references and allocations. Distinct: function, name shape, kinds '
        'of hostile objects met and outcome. Plain successful dictionary '
        'hits count as trivial.')
TECHNIQUE = ('AddressSanitizer/UBSan build of the extension under hostile '
             'lookups, reference and allocation accounting, thread and '
             'signal stress')
LEVEL_NOTE = ('Reached paths only; the interpreter itself is not '
              'instrumented (PYTHONMALLOC=malloc routes object memory '
              'through the sanitizer).')
NEEDS = ('c', 'asan')
MODES = ('asan', 'c')
CPU = 60
ASSUMPTIONS = ['gcc AddressSanitizer/UBSan runtimes are sound for the loaded '
               'shared object', 'CPython 3.12 of the sandbox']


class Trip(Exception):
    pass


def setup(ctx):
    ctx.C = sys.modules['Cheetah._namemapper']
    libc = ctypes.CDLL(None)
    if ctx.mode == 'c':
        class MI(ctypes.Structure):
            _fields_ = [(n, ctypes.c_size_t) for n in (
                'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
                'fsmblks', 'uordblks', 'fordblks', 'keepcost')]
        libc.mallinfo2.restype = MI
        ctx.heap = lambda: (lambda m: m.uordblks + m.hblkhd)(libc.mallinfo2())
    rz = ctypes.PyDLL(None)['raise']
    rz.argtypes = [ctypes.c_int]
    ctx.raise_ = functools.partial(rz, int(signal.SIGUSR1))

    def handler(*a):
        raise Trip()
    signal.signal(signal.SIGUSR1, handler)


# ---------------------------------------------------------------- hostile

class Hostile(object):
    """attribute access that raises, mutates its owner or drops itself"""

    def __init__(self, h, what):
        object.__setattr__(self, 'h', h)
        object.__setattr__(self, 'what', what)

    def __getattr__(self, k):
        return self.h.act(self.what, k)


class HMap(dict):
    def __init__(self, h, what, *a):
        dict.__init__(self, *a)
        self.h, self.what = h, what

    def __getitem__(self, k):
        if self.what == 'vanish':
            dict.clear(self)
            gc.collect()
            raise KeyError(k)
        if self.what == 'once':
            v = dict.__getitem__(self, k)
            dict.pop(self, k)
            return v
        if self.what == 'bad':
            raise ValueError('bad item')
        if self.what == 'base':
            raise self.h.Base('base')
        if self.what == 'fresh':
            return self.h.fresh()
        return dict.__getitem__(self, k)


class Meta(type):
    def __getattr__(cls, k):
        raise RuntimeError('meta ' + k)


class Lying(object):
    """a callable whose introspection raises"""

    def __init__(self, exc):
        self.exc = exc

    def __getattribute__(self, k):
        exc = object.__getattribute__(self, 'exc')
        if k in ('__class__', '__func__', '__code__', '__self__', 'mro'):
            raise exc(k)
        return object.__getattribute__(self, k)

    def __call__(self):
        return 'called'


class ClassLess(object):
    __slots__ = ('__weakref__',)

    def __getattribute__(self, k):
        if k == '__class__':
            raise AttributeError(k)
        if k == '__init__':
            raise AttributeError(k)
        return object.__getattribute__(self, k)

    def __call__(self):
        raise KeyError('classless')


class Base(BaseException):
    pass


class World(object):
    Base = Base

    def __init__(self, ctx, rng):
        self.ctx, self.r = ctx, rng
        self.nss = []
        self.keep = []
        self.depth = 0
        self.alive = weakref.WeakSet()

    def fresh(self):
        o = graph.Plain()
        o.a = o.b = graph.Plain()
        o.f = lambda: graph.Plain()
        self.alive.add(o)
        return o

    def act(self, what, k):
        if what == 'attr':
            raise AttributeError(k)
        if what == 'value':
            raise ValueError('é' * 40 + k)
        if what == 'base':
            raise Base(k)
        if what == 'notfound':
            raise self.ctx.C.NotFound('cannot find \u20ac %s' % k)
        if what == 'wrapped':
            raise self.ctx.C.NotFound('x while searching y')
        if what == 'noargs':
            raise self.ctx.C.NotFound()
        if what == 'oddnf':
            class Odd(self.ctx.C.NotFound):
                def __str__(self):
                    raise ValueError('no str')
            raise Odd()
        if what == 'roargs':
            class Ro(self.ctx.C.NotFound):
                args = property(lambda self: ())
            raise Ro('z')
        if what == 'mutate':
            for ns in list(self.nss):
                if isinstance(ns, dict):
                    dict.clear(ns)
            del self.nss[:]
            del self.keep[:]
            gc.collect()
            return self.fresh()
        if what == 'recurse':
            if self.depth > 3:
                return 'deep'
            self.depth += 1
            try:
                return self.ctx.C.valueFromSearchList(
                    list(self.nss), 'a.b.' + k, True)
            finally:
                self.depth -= 1
        if what == 'stop':
            raise StopIteration(k)
        if what == 'mem':
            raise MemoryError()
        return self.fresh()

    ACTS = ['attr', 'value', 'base', 'notfound', 'wrapped', 'noargs', 'oddnf',
            'roargs', 'mutate', 'recurse', 'stop', 'mem', 'fresh']

    def thing(self, d=2):
        r = self.r
        k = r.randint(0, 16)
        if k < 4 and d:
            return {n: self.thing(d - 1) for n in 'abcdf'}
        if k < 6 and d:
            o = graph.Plain()
            for n in 'abcdf':
                setattr(o, n, self.thing(d - 1))
            return o
        if k < 9:
            return Hostile(self, r.choice(self.ACTS))
        if k < 11:
            return HMap(self, r.choice(['vanish', 'once', 'bad', 'base',
                                        'fresh', 'plain']),
                        {n: self.thing(max(0, d - 1)) for n in 'abcdf'})
        if k == 11:
            w = r.choice(self.ACTS)
            return lambda: self.act(w, 'call')
        if k == 12:
            return Lying(r.choice([AttributeError, ValueError, Base]))
        if k == 13:
            return ClassLess()
        if k == 14:
            return Meta('M', (object,), {'a': 1})
        if k == 15:
            w = r.choice(self.ACTS)
            o = type('Pr', (object,), {
                'a': property(lambda s: self.act(w, 'prop')),
                'b': functools.lru_cache()(lambda s=None: self.act(w, 'lru')),
                'd': classmethod(lambda c: self.act(w, 'cm'))})()
            return o
        return r.choice([None, 1, 'text', b'x', [1], (), len, int, 'q'.upper,
                         collections.defaultdict(dict), sys, ''.join,
                         object(), NotImplemented, Ellipsis, range(3),
                         weakref.ref(graph.Plain), map(str, [1])])


def nasty_name(r):
    k = r.randint(0, 11)
    base = '.'.join(r.choice('abcdf') for _ in range(r.randint(1, 5)))
    if k < 6:
        return base
    return [base + '.', '.' + base, '..', '', '.', 'a..b',
            'a' * r.choice([255, 256, 4096, 70000]),
            '.'.join('a' * r.randint(1, 3) for _ in range(r.randint(10, 40))),
            '.'.join(['f'] * r.choice([13, 14, 15, 16, 17, 100, 3000])),
            '\u20ac.\U0001f600.\u0301' + base, 'a\x01b', '%s%n.%d' + base,
            'a' * 5000 + '.' + 'b' * 5000][r.randint(0, 12)]


def weird_sl(w, r):
    k = r.randint(0, 9)
    if k < 5:
        return lambda: w.nss
    if k == 5:
        return lambda: tuple(w.nss)
    if k == 6:
        def gen_():
            for x in list(w.nss):
                yield x
            if r.random() < .5:
                raise ValueError('iterator failed')
        return gen_
    if k == 7:
        return lambda: (w.fresh() for _ in range(3))
    if k == 8:
        def gen2():
            while w.nss:
                yield w.nss.pop()
        return gen2
    bad = r.choice([5, object(), {'a': 1}, 'ab', iter(())])
    return lambda: bad


def call(C, which, obj, sl, name, ec):
    a, b, c = obj, 1, sl      # locals the frame lookups may find # noqa
    if which == 0:
        return C.valueForKey(obj, name)
    if which == 1:
        return C.valueForName(obj, name, ec)
    if which == 2:
        return C.valueFromSearchList(sl(), name, ec)
    if which == 3:
        return C.valueFromFrameOrSearchList(sl(), name, ec)
    if which == 4:
        return C.valueFromFrame(name, ec)
    if which == 5:
        return C.valueForName(obj=obj, name=name, executeCallables=ec)
    if which == 6:
        return C.valueFromSearchList(searchList=sl(), name=name,
                                     executeCallables=ec)
    return [lambda: C.valueForName(obj), lambda: C.valueForName(obj, 5),
            lambda: C.valueForName(obj, 'a\0b'),
            lambda: C.valueForKey(obj, '\ud800'),
            lambda: C.valueFromFrame(), lambda: C.valueFromSearchList(),
            lambda: C.valueForName(obj, name, 'yes'),
            lambda: C.valueForName(obj, name, 1 << 70),
            lambda: C.valueFromFrameOrSearchList(sl(), name, bogus=1),
            lambda: C.valueFromFrame(None),
            ][len(name) % 10]()


def hostile(ctx, rng):
    w = World(ctx, rng)
    w.nss = [w.thing(2) for _ in range(rng.randint(1, 4))]
    for _ in range(15):
        if not w.nss:
            w.nss = [w.thing(2) for _ in range(rng.randint(1, 3))]
        which = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7])
        obj = rng.choice(w.nss)
        w.keep = [obj]
        sl = weird_sl(w, rng)
        name = nasty_name(rng)
        ec = rng.choice([0, 1, 1, True])
        ctx.saw(None, 1)
        try:
            r = call(ctx.C, which, obj, sl, name, ec)
            out = 'ok:' + type(r).__name__
        except RecursionError:
            out = 'RecursionError'
        except SystemError as e:
            raise Violation('the lookup broke the interpreter protocol: %s'
                            % e, key='systemerror', name=name[:200],
                            function=which)
        except BaseException as e:
            if type(e).__name__ == 'CaseTimeout':
                raise
            out = type(e).__name__
            str(e.args)
            need(sys.exc_info()[1] is e, 'exception state broken',
                 key='excstate')
            e = None
        r = None
        # the interpreter is usable
        need(ctx.C.valueForName({'x': 'é'}, 'x.upper', True) == 'É'
             and ctx.C.valueForName({'x': ctx}, 'x', False) is ctx,
             'a later lookup is wrong', key='later')
        ctx.count('out:' + out.split(':')[0])
        ctx.saw((which, name[:20] if len(name) < 20 else len(name), ec,
                 type(obj).__name__, obj.what if type(obj) in (Hostile, HMap)
                 else None, out), 0)
    ctx.count('lookups', 15)
    ctx.sample({'function': which, 'name': name[:80], 'outcome': out})


# ------------------------------------------------------------- accounting

def steady(C, raise_):
    """(name, factory of (tracked objects, callable)) repeatable lookups"""
    out = []

    def add(tag):
        def deco(fn):
            out.append((tag, fn))
            return fn
        return deco

    class T(object):
        pass

    def obj(**k):
        o = T()
        o.__dict__.update(k)
        return o

    def mk(which, data, name, ec):
        def fac():
            val = obj(v=obj(w=obj()))
            d = data(val)
            sl = [{'zz': 1}, d, {'yy': 2}]
            nm = (name + 'x')[:-1]
            mark = obj()
            loc = {'d': d, 'sl': sl, 'nm': nm, 'val': val, 'mark': mark}

            def go(a=d):
                if which == 0:
                    return C.valueForKey(d, nm)
                if which == 1:
                    return C.valueForName(d, nm, ec)
                if which == 2:
                    return C.valueFromSearchList(sl, nm, ec)
                if which == 3:
                    return C.valueFromFrameOrSearchList(sl, nm, ec)
                if which == 4:
                    return C.valueFromFrame(nm, ec)
                if which == 5:
                    return C.valueFromSearchList((x for x in sl), nm, ec)
                return C.valueFromFrameOrSearchList(iter(sl), nm, ec)
            return loc, go
        return fac

    def raiser(exc):
        cls, args = type(exc), exc.args

        def fn(*a):
            raise cls(*args)
        return fn

    class Prop(object):
        def __init__(self, val):
            self.val = val

        @property
        def a(self):
            return self.val

        @property
        def bad(self):
            raise ValueError('bad')

        @property
        def nf(self):
            raise C.NotFound("cannot find 'inner'")

        def m(self):
            return self.val

        def fail(self):
            raise KeyError('m')

        def failnf(self):
            raise C.NotFound("cannot find 'y' while searching for 'z'")

    class Bad(dict):
        def __getitem__(self, k):
            raise ValueError(k)

    class Once(collections.UserDict):
        n = 0

        def __getitem__(self, k):
            self.n += 1
            if self.n % 2 == 0:
                raise KeyError(k)
            return self.data[k]

    class Own(graph.Own):
        pass

    data = {
        'dict': lambda v: {'a': v, 'f': lambda: v, 'g': {'a': v},
                           'k': raiser(KeyError('k')),
                           'n': raiser(C.NotFound('n')), 'cls': T},
        'obj': lambda v: obj(a=v, f=lambda: v, g=obj(a=v),
                             k=raiser(KeyError('k')),
                             n=raiser(C.NotFound('n')), cls=T),
        'prop': Prop,
        'bad': lambda v: Bad(a=v),
        'once': lambda v: Once(a=v, f=lambda: v),
        'own': lambda v: Own({'a': v, 'f': lambda: v}),
    }
    names = {
        'dict': ['a', 'a.v', 'a.v.w', 'f', 'f.v', 'f.v.w', 'g.a.v', 'k', 'n',
                 'k.x', 'n.x', 'nope', 'a.nope', 'a.v.nope', 'f.nope',
                 'g.nope', 'cls', 'cls.x', 'a.v.w.q.r', 'g.a.v.zz.y',
                 'a..v', 'a.', 'f.v.', '.a', '.'.join(['g'] * 30),
                 'f.' + 'q' * 300, 'q' * 300 + '.a', 'q' * 400,
                 '', 'keys', 'a.__class__'],
        'obj': ['a', 'a.v', 'f.v.w', 'g.a', 'k', 'n.x', 'nope', 'f.nope',
                'g.nope.x', 'cls'],
        'prop': ['a', 'a.v', 'bad', 'bad.x', 'nf', 'nf.x', 'm', 'm.v.w',
                 'fail', 'fail.x', 'failnf', 'failnf.x', 'zip.x',
                 'm.v.nope', 'a.v.w.nope'],
        'bad': ['a', 'a.v', 'b', 'b.c'],
        'once': ['a', 'a.v', 'f.v', 'f.nope', 'b'],
        'own': ['a', 'a.v', 'f.v.w', 'nope', 'f.nope'],
    }
    # only components behind the hostile one, so that values are owned
    for tag in sorted(data):
        for n in names[tag]:
            for which in range(7):
                for ec in (0, 1):
                    add((tag, n[:30], which, ec))(
                        mk(which, data[tag], n, ec))
    for which in (0, 2, 3, 5, 6):
        def iterfail(which=which):
            def fac():
                mark = obj()
                ns = {'q': mark}

                def g():
                    yield ns
                    raise ValueError('stop')

                def go():
                    if which % 2:
                        return C.valueFromFrameOrSearchList(g(), 'nope.x', 1)
                    return C.valueFromSearchList(g(), 'nope.x', 1)
                return {'mark': mark, 'ns': ns}, go
            return fac
        add(('iterfail', '', which, 1))(iterfail())
    for which in (2, 3):
        def badsl(which=which):
            def fac():
                o = obj()

                def go():
                    if which == 3:
                        return C.valueFromFrameOrSearchList(
                            o, 'x' * 300 + '.y', 1)
                    return C.valueFromSearchList(o, 'x' * 300 + '.y', 1)
                return {'o': o}, go
            return fac
        add(('notiterable', '', which, 1))(badsl())
    # a signal handler raising in the middle of a lookup
    for pos, which in [(p, k) for p in (0, 1, 2) for k in (1, 2, 3)]:
        def sig(pos=pos, which=which):
            def fac():
                class S(object):
                    a = property(operator.methodcaller('m'))
                s = S()
                mark = obj(s=s, trip=raise_, real=obj(imag=1))
                # delivers the signal and returns mark, all in C, so that
                # the handler runs at the lookup's own signal check
                s.m = functools.partial(
                    max, [mark], key=operator.methodcaller('trip'))
                root = {'a': mark, 's': s, 'o': obj(mark=mark)}
                nm = ['s.a.real.imag', 'a.s.a.real.imag',
                      'o.mark.s.a.real'][pos]

                def go():
                    if which == 1:
                        return C.valueForName(root, nm, 1)
                    if which == 2:
                        return C.valueFromSearchList([root], nm, 1)
                    return C.valueFromFrameOrSearchList([root], nm, 1)
                return {'mark': mark, 's': s, 'root': root}, go
            return fac
        add(('signal', str(pos), which, 1))(sig())
    return out


def repeat(go, n):
    ok = bad = 0
    last = None
    for _ in range(n):
        try:
            go()
            ok += 1
        except BaseException as e:
            if type(e).__name__ == 'CaseTimeout':
                raise
            last = type(e).__name__
            bad += 1
            e = None
    return ok, bad, last


N = 300


def account(ctx, rng):
    if 'steady' not in ctx.state:
        ctx.state['steady'] = steady(ctx.C, ctx.raise_)
    L = ctx.state['steady']
    i = ctx.index % len(L)
    tag, fac = L[i]
    tracked, go = fac()
    extra = {'NotFound': ctx.C.NotFound, 'builtins': vars(__builtins__)
             if not isinstance(__builtins__, dict) else __builtins__}
    tracked.update(extra)
    worst = None
    for attempt in range(3):
        repeat(go, 20)
        gc.collect()
        refs = {k: sys.getrefcount(v) for k, v in tracked.items()}
        heap0 = ctx.heap()
        blocks0 = sys.getallocatedblocks()
        ok, bad, last = repeat(go, N)
        gc.collect()
        blocks1 = sys.getallocatedblocks()
        heap1 = ctx.heap()
        diff = {k: sys.getrefcount(v) - refs[k] for k, v in tracked.items()}
        off = {k: d for k, d in diff.items() if abs(d) >= N // 4}
        if blocks1 - blocks0 >= N // 2:
            off['blocks'] = blocks1 - blocks0
        if tag[1] and len(tag[1]) >= 30 and heap1 - heap0 >= N * 100:
            off['heap'] = heap1 - heap0
        elif heap1 - heap0 >= N * 16 and 'blocks' not in off:
            off['heap'] = heap1 - heap0
        if not off:
            worst = None
            break
        worst = off
    if worst:
        raise Violation('references or memory are not balanced over %d '
                        'equal lookups: %r' % (N, worst),
                        key='balance:%s' % (','.join(sorted(worst))),
                        lookup=tag, ok=ok, bad=bad, last=last)
    ctx.saw(tag + (last,), 1)
    ctx.count('accounted', N)
    ctx.count('accounted_failing', bad)
    if tag[0] == 'signal':
        need(last == 'Trip', 'the signal handler did not interrupt the '
             'lookup', key='signal', got=last, ok=ok)
        ctx.count('signal_interrupted', bad)


def account_asan(ctx, rng):
    """the same repeatable lookups under the sanitizer"""
    if 'steady' not in ctx.state:
        ctx.state['steady'] = steady(ctx.C, ctx.raise_)
    L = ctx.state['steady']
    tag, fac = L[ctx.index % len(L)]
    tracked, go = fac()
    r = repeat(go, 8)
    del tracked
    gc.collect()
    repeat(go, 2)
    ctx.saw(('asan',) + tag + (r[2],), 1)
    ctx.count('asan_lookups', 10)


# ---------------------------------------------------------------- threads

def threads(ctx, rng):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    C = ctx.C
    shared = {'a': {'b': {'c': 0}}, 'o': graph.Plain(), 'n': 1}
    shared['o'].x = {'y': [0]}
    nss = [shared, {'z': lambda: {'q': object()}}]
    stop = threading.Event()
    problems = []
    counts = [0] * 5
    seeds = [rng.random() for _ in range(5)]

    def mutator(k):
        import random
        r = random.Random(seeds[k])
        while not stop.is_set():
            m = r.randint(0, 5)
            if m == 0:
                shared['a'] = {'b': {'c': object()}}
            elif m == 1:
                shared.pop('a', None)
            elif m == 2:
                shared['o'] = o = graph.Plain()
                o.x = {'y': [object()]}
            elif m == 3:
                nss[:] = nss[::-1]
            elif m == 4:
                d = shared.get('a')
                if isinstance(d, dict):
                    d['b'] = {'c': 1}
            else:
                shared['a'] = lambda: {'b': {'c': 2}}
            counts[k] += 1

    def looker(k):
        import random
        r = random.Random(seeds[k])
        a = {'local': 1}     # noqa
        for _ in range(400):
            nm = r.choice(['a.b.c', 'o.x.y', 'z.q', 'n', 'a.b.c.d', 'len',
                           'nope.x', 'o.x.keys'])
            try:
                if r.random() < .5:
                    C.valueFromSearchList(nss, nm, True)
                else:
                    C.valueFromFrameOrSearchList(nss, nm, True)
            except (C.NotFound, KeyError, TypeError):
                pass
            except BaseException as e:
                problems.append('%s: %s' % (type(e).__name__, e))
            counts[k] += 1
    ts = [threading.Thread(target=mutator, args=(k,)) for k in (0, 1)]
    ls = [threading.Thread(target=looker, args=(k,)) for k in (2, 3, 4)]
    for t in ts + ls:
        t.start()
    for t in ls:
        t.join()
    stop.set()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    need(not problems, 'lookups in threads failed: %s' % problems[:3],
         key='threads')
    ctx.saw(('threads', ctx.mode, tuple(sorted(x // 50 for x in counts))), 1)
    ctx.count('thread_lookups', 1200)


NST = 1050
SCENARIOS = [
    ('hostile', hostile, 3000, 80000),
    ('account', account, NST, 4 * NST, {'modes': ('c',)}),
    ('account_asan', account_asan, NST, 2 * NST, {'modes': ('asan',)}),
    ('threads', threads, 16, 400),
]
REQUIRED = {'lookups': 10000, 'accounted': 50000, 'accounted_failing': 10000,
            'signal_interrupted': 100, 'asan_lookups': 5000,
            'thread_lookups': 1000}
