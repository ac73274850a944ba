"""C10: cache stores keep the set/add/replace/get/delete protocol."""
import sys
import threading
import types
from vlib.clock import Clock
from vlib.core import same, need

RULE = ('Random operation histories (set, add, replace, get, delete, clear, '
        'passing time) over few keys against a model map with expiry, on the '
        'memory store, the memcached store over a protocol-level fake '
        'client, and region wrappers sharing one store; threads hammer one '
        'memory store with values that carry their key. Distinct: store, '
        'multiset of (operation, outcome) in the history.')
TECHNIQUE = ('history checker: every operation result compared with a '
             'sequential specification; threaded runs checked for values '
             'never stored under the key')
LEVEL_NOTE = 'Bounded by generated histories; the memcached side is a fake client.'
ASSUMPTIONS = ['time.time is the clock of the stores; it is replaced by a '
               'controlled one', 'the fake memcached client implements the '
               'documented return values of python-memcached']
KEYS = ['a', 'b', 'ab', 'a:b', '', 'k\xe9', 'A']
VALUES = ['x', '', 'long ' * 9, '\u4e2d', '0', b'bytes', 0, False, ('t', 1),
          [], {'d': 1}]


class FakeClient(object):
    """python-memcached semantics: 1/True on success, 0/False on refusal."""
    world = {}

    def __init__(self, servers, debug=0):
        self.d = self.world

    def _live(self, k):
        import time
        e = self.d.get(k)
        if e is not None and e[1] and time.time() > e[1]:
            del self.d[k]
            e = None
        return e

    def set(self, k, v, time=0, *a):
        self.d[k] = (v, time)
        return True

    def add(self, k, v, time=0, *a):
        if self._live(k) is not None:
            return False
        self.d[k] = (v, time)
        return True

    def replace(self, k, v, time=0, *a):
        if self._live(k) is None:
            return 0
        self.d[k] = (v, time)
        return 1

    def delete(self, k, time=0):
        if self._live(k) is None:
            return 0
        del self.d[k]
        return 1

    def get(self, k):
        e = self._live(k)
        return None if e is None else e[0]

    def flush_all(self):
        self.d.clear()


class Model(object):
    def __init__(self, clock):
        self.d = {}
        self.c = clock

    def live(self, k):
        return k in self.d and not (self.d[k][1] and
                                    self.c.t > self.d[k][1])

    def stale(self, k):
        return k in self.d and not self.live(k)


def attempt(f, *a, **k):
    from Cheetah.CacheStore import Error
    try:
        return ('ok', f(*a, **k))
    except KeyError:
        return ('KeyError',)
    except Error:
        return ('Error',)


def history(ctx, rng):
    from Cheetah import CacheStore
    kind = rng.choice(['memory', 'memory', 'memcached'])
    ops = []
    with Clock() as clock:
        if kind == 'memory':
            st = CacheStore.MemoryCacheStore()
            other = CacheStore.MemoryCacheStore()
        else:
            FakeClient.world = {}
            fake = types.ModuleType('memcache')
            fake.Client = FakeClient
            sys.modules['memcache'] = fake
            st = CacheStore.MemcachedCacheStore(
                *([] if rng.random() < .5 else [['h:1']]))
            other = None
        m = Model(clock)
        keys = rng.sample(KEYS, rng.randint(1, 4))
        seen = set()
        for _ in range(rng.choice([10, 30, 60])):
            clock.t += rng.choice([0, 0, .5, 3, 20])
            k = rng.choice(keys)
            v = rng.choice(VALUES)
            op = rng.choice(['set', 'add', 'replace', 'get', 'get', 'get',
                             'delete', 'clear'] if rng.random() < .3 else
                            ['set', 'add', 'replace', 'get', 'get', 'delete'])
            tm = rng.choice([0, 0, clock.t + 1.25, clock.t + 10.25,
                             clock.t - 5.25])
            args = {'set': (k, v), 'add': (k, v), 'replace': (k, v),
                    'get': (k,), 'delete': (k,), 'clear': ()}[op]
            kw = {}
            if op in ('set', 'add', 'replace'):
                if rng.random() < .5:
                    kw['time'] = tm
                else:
                    tm = 0
            live, stale = m.live(k), m.stale(k)
            got = attempt(getattr(st, op), *args, **kw)
            ops.append('%s%r %r -> %r' % (op, args, kw, got))
            if op == 'get':
                want = ('ok', m.d[k][0]) if live else ('KeyError',)
            elif op == 'set':
                want = ('ok', got[-1])
                m.d[k] = (v, tm)
            elif op == 'add':
                want = ('Error',) if live else ('ok', got[-1])
                if not live:
                    m.d[k] = (v, tm)
            elif op == 'replace':
                want = ('ok', got[-1]) if live else ('Error',)
                if live:
                    m.d[k] = (v, tm)
            elif op == 'delete':
                if stale and got[0] in ('ok', 'KeyError'):
                    want = got      # an expired key: either is documented
                else:
                    want = ('ok', got[-1]) if live else ('KeyError',)
                m.d.pop(k, None)
            else:
                want = ('ok', got[-1])
                m.d.clear()
            same(got, want, '%s store: %s' % (kind, op), key=kind + ':' + op,
                 history='\n'.join(ops))
            seen.add((op, got[0], live, stale))
            ctx.count('ops')
            ctx.count('op:%s:%s' % (op, got[0]))
        for k in KEYS:
            got = attempt(st.get, k)
            want = ('ok', m.d[k][0]) if m.live(k) else ('KeyError',)
            same(got, want, 'final content', key=kind + ':final',
                 history='\n'.join(ops))
            if other is not None:
                same(attempt(other.get, k), ('KeyError',), 'stores share '
                     'data', key='shared')
    ctx.saw((kind, tuple(sorted(seen))))
    ctx.sample({'store': kind, 'history': ops[:8]})


def wrapped(ctx, rng):
    """Regions and instances with their own prefix share one store."""
    from Cheetah import CacheStore, CacheRegion
    st = CacheStore.MemoryCacheStore()
    regs, model = {}, {}
    for p in ['', 'p', 'p:r', 'q']:
        for r in ['r', 's', 'r:s']:
            regs[p, r] = CacheRegion.CacheRegion(
                r, templateCacheIdPrefix=p, cacheStore=st)
    # prefix and region joined must differ for them to be different regions
    names = {}
    for p, r in list(regs):
        j = p + ':' + r
        if j in names:
            del regs[p, r]
        names[j] = 1
    with Clock() as clock:
        for _ in range(60):
            clock.t += rng.choice([0, 1, 5])
            key = rng.choice(sorted(regs))
            item = rng.choice(['i', 'j', 1, '\xe9', None, (1, 'x')])
            ci = regs[key].getCacheItem(item)
            full = key + (str(item),)
            what = rng.choice(['set', 'set', 'get', 'get', 'clear', 'expire'])
            if what == 'set':
                v = 'v%d' % rng.randint(0, 99)
                ci.setExpiryTime(0)
                ci.setData(v)
                model[full] = v
            elif what == 'expire':
                ci.setExpiryTime(clock.t + 2)
                ci.setData('soon')
                model[full] = ('soon', clock.t + 2)
            elif what == 'clear':
                ci.clear()
                model.pop(full, None)
                same(ci.getRefreshTime(), None, 'cleared item', key='clear')
            v = model.get(full)
            if isinstance(v, tuple):
                v = v[0] if clock.t <= v[1] else None
                if v is None:
                    need(ci.hasExpired(), 'item does not expire',
                         key='expire')
            if v is not None and ci.getRefreshTime():
                same(ci.renderOutput(), v, 'an item of another region or '
                     'value shows through', key='mixed', item=repr(full))
                ctx.saw(('wrapped', what, key))
            ctx.count('wrapped')
        key = rng.choice(sorted(regs))
        regs[key].clear()
        for full, v in model.items():
            if full[:2] != key and not isinstance(v, tuple):
                it = {'1': 1, 'None': None, "(1, 'x')": (1, 'x')}.get(
                    full[2], full[2])
                same(regs[full[:2]].getCacheItem(it).renderOutput(), v,
                     'clearing a region touched another', key='clearother')


def threads(ctx, rng):
    from Cheetah import CacheStore
    st = CacheStore.MemoryCacheStore()
    bad = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    import random
    import time
    stop = []
    counts = [0] * 4

    def work(n, seed):
        r = random.Random(seed)
        for i in range(400):
            k = r.choice('abc')
            op = r.choice(['set', 'add', 'replace', 'get', 'get', 'delete'])
            try:
                if op == 'get':
                    v = st.get(k)
                    if v[0] != k:
                        bad.append((k, v))
                elif op == 'delete':
                    st.delete(k)
                else:
                    getattr(st, op)(k, (k, n, i), r.choice(
                        [0, 0, time.time() + .001]))
            except (KeyError, CacheStore.Error):
                pass
            except BaseException as e:
                bad.append((op, repr(e)))
            counts[n] += 1
    ts = [threading.Thread(target=work, args=(n, rng.random()))
          for n in range(4)]
    try:
        [t.start() for t in ts]
        [t.join(60) for t in ts]
    finally:
        sys.setswitchinterval(old)
    need(not bad, 'concurrent use', key='threads', is_=repr(bad[:3]))
    ctx.count('concurrent_ops', sum(counts))
    ctx.saw(('threads', ctx.index))


SCENARIOS = [
    ('history', history, 20000, 200000),
    ('wrapped', wrapped, 400, 6000),
    ('threads', threads, 40, 600),
]
REQUIRED = {'ops': 100000, 'op:add:Error': 2000, 'op:replace:ok': 2000,
            'op:replace:Error': 2000, 'op:delete:KeyError': 2000,
            'wrapped': 10000, 'concurrent_ops': 20000}
DESIGN = '''Every operation of random histories is compared with a sequential
specification (a map with expiry times under a controlled clock), for the
memory store and for the memcached store over a fake client that keeps the
documented return values. Region wrappers with different prefixes share one
store and must not see each other. Threads with a tiny switch interval use one
store; each value carries its key, so a value never stored there is noticed.'''
