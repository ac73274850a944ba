"""Random object graphs for name lookup, with a reference resolver.

Every function and method of a graph appends to graph.log when it is called.
"""
import collections
import collections.abc
import functools
import types

NAMES = ['a', 'b', 'c', 'd', 'e', 'keys', 'items', 'get', 'name', 'count',
         'format', '_x', 'mro', 'é', 'Z9', 'update', 'real', 'index']


class Own(collections.abc.Mapping):
    """a mapping of its own, with attributes beside its keys"""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Plain(object):
    pass


class Dyn(object):
    """answers some attributes through __getattr__"""

    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        try:
            return self.__dict__['_d'][k]
        except KeyError:
            raise AttributeError(k)


class CallMe(object):
    def __call__(self, *a):
        raise RuntimeError('an instance was called')


class Ud(collections.UserDict):
    pass


class Graph(object):
    def __init__(self, rng, hostile=True, names=None):
        self.r = rng
        self.log = []
        self.n = 0
        self.hostile = hostile
        self.names = names or NAMES
        self.pool = []

    def tag(self):
        self.n += 1
        return self.n

    def node(self, depth):
        r = self.r
        k = r.randint(0, 19 if depth > 0 else 5)
        if self.pool and r.random() < .15:
            return r.choice(self.pool)
        v = self.make(k, depth)
        self.pool.append(v)
        return v

    def attrs(self, depth):
        return {r: self.node(depth - 1)
                for r in self.r.sample(self.names, self.r.randint(1, 4))}

    def make(self, k, depth):
        r, log, t = self.r, self.log, self.tag()
        if k == 0:
            return r.choice([0, 1, 7, None, True, 2.5, 3j])
        if k == 1:
            return r.choice(['', 'text', 'é<&>', b'bytes'])
        if k == 2:
            return r.choice([[1, 2], (3,), {4}, frozenset([5]), [], range(3)])
        if k == 3:
            return CallMe()
        if k == 4:
            def leaf():
                log.append(('leaf', t))
                return 'L%d' % t
            return leaf
        if k == 5:
            return r.choice([len, abs, 'abc'.upper, [1, 2].count, dict, int,
                             Plain, ValueError, types, functools.partial(int),
                             ''.join])
        if k in (6, 7):
            return self.attrs(depth)
        if k == 8:
            return r.choice([collections.OrderedDict, Ud, Own,
                             types.MappingProxyType])(self.attrs(depth))
        if k in (9, 10):
            o = Plain()
            o.__dict__.update(self.attrs(depth))
            return o
        if k == 11:
            return Dyn(self.attrs(depth))
        if k == 12:
            m = types.ModuleType('m%d' % t)
            m.__dict__.update(self.attrs(depth))
            return m
        if k == 13:
            d = self.attrs(depth)
            return type('K%d' % t, (object,), {
                n: (staticmethod(v) if callable(v) and r.random() < .5 else v)
                for n, v in d.items()})
        if k in (14, 15):
            v = self.node(depth - 1)

            def func(*a, **kw):
                log.append(('func', t, a, tuple(sorted(kw))))
                return v
            return func
        if k == 16:
            v = self.node(depth - 1)
            d = self.attrs(depth)

            class M(object):
                def a(self, *args):
                    log.append(('meth', t, args))
                    return v

                @classmethod
                def b(cls):
                    log.append(('cmeth', t))
                    return v

                @staticmethod
                def c():
                    log.append(('smeth', t))
                    return v

                @property
                def d(self):
                    return v

                def __call__(self):
                    log.append(('wrongcall', t))
                    return 'CALLED'
            o = M()
            for n, x in d.items():
                if n not in 'abcd':
                    setattr(o, n, x)
            return o
        if k == 17:
            exc = r.choice([ValueError, KeyError, AttributeError, TypeError,
                            ZeroDivisionError, LookupError])

            def raiser(*a):
                log.append(('raise', t))
                raise exc('raised %d' % t)
            if r.random() < .4:
                return raiser
            o = type('P%d' % t, (object,), {
                r.choice(self.names): property(raiser)})()
            for n, x in self.attrs(depth).items():
                try:
                    setattr(o, n, x)
                except AttributeError:
                    pass
            return o
        if k == 18:
            def needs(x, y):
                log.append(('needs', t))
                return x
            return needs
        return collections.namedtuple('NT', 'a b c')(
            self.node(depth - 1), self.node(depth - 1), self.node(depth - 1))


# -- the documented rules, independent of Cheetah ----------------------------

class Missing(LookupError):
    pass


def has(obj, key):
    if isinstance(obj, collections.abc.Mapping) and key in obj:
        return True
    return hasattr(obj, key)


def fetch(obj, key):
    if isinstance(obj, collections.abc.Mapping) and key in obj:
        return obj[key]
    try:
        return getattr(obj, key)
    except AttributeError:
        raise Missing(key)


_CALLED = (types.FunctionType, types.MethodType, types.BuiltinFunctionType,
           types.MethodWrapperType)


def autocall(v):
    return v() if isinstance(v, _CALLED) else v


def resolve(scopes, name, call):
    parts = name.split('.')
    for ns in scopes:
        if has(ns, parts[0]):
            v = ns
            for p in parts:
                v = fetch(v, p)
                if call:
                    v = autocall(v)
            return v
    raise Missing(parts[0])


def path(graph, start, rng, maxlen=6):
    """a name that mostly exists below start (a dict of roots)"""
    names = []
    cur = start
    for i in range(rng.randint(1, maxlen)):
        opts = []
        if isinstance(cur, collections.abc.Mapping):
            opts = [k for k in cur if isinstance(k, str)]
        elif isinstance(cur, (Plain, types.ModuleType)):
            opts = [k for k in vars(cur) if not k.startswith('__')]
        elif isinstance(cur, Dyn):
            opts = list(cur._d)
        elif isinstance(cur, type):
            opts = [k for k in vars(cur) if k in NAMES]
        elif isinstance(cur, tuple) and hasattr(cur, '_fields'):
            opts = list(cur._fields)
        elif hasattr(cur, '__dict__'):
            opts = [k for k in vars(cur)] + list('abcd')
        if not opts or rng.random() < .12:
            names.append(rng.choice(NAMES + ['upper', 'keys', 'real',
                                             '__class__', '__doc__', 'zzz']))
            if rng.random() < .7:
                break
            cur = None
            continue
        k = rng.choice(sorted(opts))
        names.append(k)
        try:
            saved = list(graph.log)
            cur = autocall(fetch(cur, k))
            graph.log[:] = saved
        except Exception:
            graph.log[:] = saved
            cur = None
    return '.'.join(names)
