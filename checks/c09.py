"""C09: cached regions and placeholders refresh exactly when due."""
from vlib.clock import Clock
from vlib.core import same, need
from vlib.t import compile_

RULE = ('Templates with nested #cache regions (timer, test, id, varyBy), '
        'cached placeholders, loops and methods are rendered again and again '
        'by several instances while a controlled clock advances, tests '
        'toggle, items are refreshed, evaluations fail and the store loses '
        'data. Every evaluation is counted and every text predicted by a '
        'model. Distinct: constructs of the template x kinds of step before '
        'the rendering x number of evaluations (0, 1, more).')
TECHNIQUE = ('trace monitor: evaluation counters inside the regions and the '
             'rendered text are compared with a model of the cache under '
             'virtual time and injected faults')
LEVEL_NOTE = 'Bounded by generated templates and clock schedules; no exhaustive exploration.'
ASSUMPTIONS = ['time.time is the only clock', 'vary-by values are the same '
               'when their str() is']
UNITS = {'': 60, 's': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800}


class Fail(Exception):
    pass


class Gen(object):
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.budget = 9
        self.feat = set()
        self.ids = []
        self.depth = 0

    def tick(self, static=False):
        self.n += 1
        return 't%d' % self.n

    def body(self, depth):
        src, nodes = '', []
        for _ in range(self.r.randint(1, 3)):
            s, n = self.node(depth)
            src += s
            nodes.append(n)
        return src, nodes

    def timer(self):
        n = self.r.choice(['1', '2', '10', '0.5', '1.5', '90'])
        u = self.r.choice(sorted(UNITS))
        return n + u, float(n) * UNITS[u]

    def node(self, depth):
        r = self.r
        self.budget -= 1
        k = r.random()
        if depth <= 0 or self.budget < 0 or k < .25:
            t = self.tick()
            if r.random() < .25:
                return '${fail("%s")}' % t, ('fail', t)
            return '${tick("%s")};' % t, ('tick', t, ';')
        if k < .4:
            t = self.tick()
            self.feat.add('ph')
            if r.random() < .5:
                return '$*tick("%s"); ' % t, (
                    'cache', t, None, None, None, [('tick', t, '')], '; ')
            ts, secs = self.timer()
            self.feat.add('phtimer')
            if r.random() < .5:
                s = '$*%s*tick("%s"); ' % (ts, t)
            else:
                s = '$*%s*{tick("%s")}; ' % (ts, t)
            return s, ('cache', t, secs, None, None, [('tick', t, '')], '; ')
        if k < .5:
            s, b = self.body(depth - 1)
            vals = [r.choice(['a', 'b', 1, 'b']) for _ in range(3)]
            self.feat.add('for')
            return '#for $i in %r#%s#end for#' % (vals, s), ('for', vals, b)
        self.n += 1
        args, secs, test, vary = [], None, None, None
        rid = 'r%d' % self.n
        named = r.random() < .8
        if named:
            args.append(r.choice(['id="%s"', "id='%s'"]) % rid)
            self.ids.append(rid)
        else:
            rid = 'anon%d' % self.n
        if r.random() < .5:
            ts, secs = self.timer()
            args.append(r.choice(['timer="%s"', "timer='%s'"]) % ts)
            self.feat.add('timer')
        if r.random() < .35:
            test = r.choice(['flag', 'eq', 'not'])
            args.append(r.choice({
                'flag': ['test=$flag', 'test=($flag)', 'test=[0, $flag][1]'],
                'eq': ['test=$num == 2', 'test="2" == str($num)',
                       "test='$num' and $num == 2", 'test=2 == $num'],
                'not': ['test=not $flag', 'test=$flag is False']}[test]))
            self.feat.add('test')
        if r.random() < .45:
            vary = r.choice(['vb', 'i'])
            args.append(r.choice([
                'varyBy=$%s', 'varyBy=$%s', 'varyBy="" + str($%s)',
                'varyBy=("%%s" %% $%s)', 'varyBy=str($%s)+""']) % vary)
            self.feat.add('vary')
        r.shuffle(args)
        s, b = self.body(depth - 1)
        tag = '#cache ' + ', '.join(args)
        self.feat.add('region%d' % min(depth, 3))
        if r.random() < .2 and '#' not in s:
            return '\n%s: <%s\n' % (tag, s), ('one', (
                'cache', rid, secs, test, vary, b, ''), )
        return '%s#<%s>#end cache#' % (tag, s), (
            'cache', rid, secs, test, vary, b, '', '<>')


class LossyStore(object):
    def __init__(self):
        self.d = {}

    def set(self, k, v, time=0):
        self.d[k] = v

    def add(self, k, v, time=0):
        self.d[k] = v

    def replace(self, k, v, time=0):
        self.d[k] = v

    def get(self, k):
        return self.d[k]

    def delete(self, k):
        del self.d[k]


class Item(object):
    text = None
    expiry = 0


class Model(object):
    def __init__(self, prog, ns, clock):
        self.prog, self.ns, self.c = prog, ns, clock
        self.items = {}
        self.counts = {}

    def tick(self, t):
        self.counts[t] = self.counts.get(t, 0) + 1
        return '%s:%d' % (t, self.counts[t])

    def render(self):
        out = []
        self.env = {'i': 'outer'}
        self.run(self.prog, out)
        return ''.join(out)

    def run(self, nodes, out):
        for n in nodes:
            if n[0] == 'text':
                out.append(n[1])
            elif n[0] == 'tick':
                out.append(self.tick(n[1]) + n[2])
            elif n[0] == 'fail':
                if self.ns['failing'] == n[1]:
                    raise Fail()
                out.append(self.tick(n[1]))
            elif n[0] == 'for':
                for v in n[1]:
                    self.env['i'] = v
                    self.run(n[2], out)
            elif n[0] == 'one':
                # the one-line form caches its line ending, too
                out.append('\n')
                self.cache(n[1], out, '<', '\n')
            else:
                self.cache(n, out, *(('<', '>') if len(n) > 7 else ('', '')))
                out.append(n[6])

    def cache(self, n, out, a, z):
        _, rid, secs, test, vary, body = n[:6]
        if vary is None:
            vb = ''
        elif vary == 'i':
            vb = str(self.env['i'])
        else:
            vb = str(self.ns['vb'])
        it = self.items.setdefault((rid, vb), Item())
        due = it.text is None or (it.expiry and self.c.t > it.expiry)
        if test == 'flag':
            due = due or self.ns['flag']
        elif test == 'eq':
            due = due or self.ns['num'] == 2
        elif test == 'not':
            due = due or not self.ns['flag']
        if due:
            exp = self.c.t + secs if secs else None
            sub = [a]
            self.run(body, sub)
            it.text = ''.join(sub) + z
            if exp:
                it.expiry = exp
        out.append(it.text)

    def refresh(self, rid=None, vb=None):
        for (r, v), it in self.items.items():
            if rid is None or r == rid and (vb is None or v == str(vb)):
                it.text = None


def life(ctx, rng):
    g = Gen(rng)
    src, prog = '', []
    for _ in range(rng.randint(1, 3)):
        s, n = g.node(3)
        if rng.random() < .15:
            g.n += 1
            m = 'm%d' % g.n
            src += '#def %s#%s#end def#${%s}${%s}' % (m, s, m, m)
            prog += [n, n]
            g.feat.add('def')
            if n[0] == 'one' or "#for" in s or '$i' in s:
                # a method does not see the caller's loop variable
                return
        else:
            src += s
            prog.append(n)
    if '$i' in src:
        # (a loop variable outlives its loop in the method)
        src = '#set $i = "outer"#' + src
    VB = ['v1', 'v2', 1, '1', '\xe9', None, 'v 3', 2.5]
    if rng.random() < .3:
        # they differ in little
        VB = ['v1', 'v1 ', ' v1', 'V1', 'v1\n', 'v1\x00', 'v11', '']
    store = LossyStore() if rng.random() < .4 else None
    with Clock() as clock:
        cls = compile_(src)
        if store is not None:
            cls._CHEETAH_cacheStore = store
            if rng.random() < .5:
                cls._CHEETAH_cacheStoreIdPrefix = None
        insts = []
        for _ in range(rng.choice([1, 1, 2])):
            ns = {'flag': False, 'num': 0, 'vb': 'v1', 'failing': None}
            model = Model(prog, ns, clock)
            counts = {}

            def tick(t, counts=counts):
                counts[t] = counts.get(t, 0) + 1
                return '%s:%d' % (t, counts[t])

            def fail(t, ns=ns, tick=tick):
                if ns['failing'] == t:
                    raise Fail()
                return tick(t)
            ns2 = dict(tick=tick, fail=fail)
            insts.append((cls(searchList=[ns2, ns]), ns, model, counts))
        hist = []
        lossy = store is not None
        for step in range(rng.choice([3, 6, 12])):
            t, ns, model, counts = rng.choice(insts)
            kinds = set()
            for _ in range(rng.randint(0, 2)):
                k = rng.choice(['time', 'time', 'flag', 'vb', 'vb', 'num',
                                'refresh', 'refreshid', 'refreshitem',
                                'fail', 'lose'])
                if k == 'time':
                    clock.t += rng.choice([.25, 1.25, 29.25, 59.75, 60.25,
                                           91.25, 3601.25, 90000.25, 7e5])
                elif k == 'flag':
                    ns['flag'] = not ns['flag']
                elif k == 'num':
                    ns['num'] = rng.choice([0, 2, 2])
                elif k == 'vb':
                    ns['vb'] = rng.choice(VB)
                elif k == 'refresh':
                    t.refreshCache()
                    model.refresh()
                elif k == 'refreshid' and g.ids:
                    i = rng.choice(g.ids + ['nosuch'])
                    t.refreshCache(i)
                    model.refresh(i)
                elif k == 'refreshitem' and g.ids and 'vary' in g.feat:
                    i, v = rng.choice(g.ids), rng.choice(
                        ['v1', 'v2', 1, '\xe9', 'a', 'b', 'unseen'])
                    t.refreshCache(i, v)
                    # regions without varyBy have one item of their own name
                    if any(r == i and vb != '' for r, vb in model.items):
                        model.refresh(i, v)
                elif k == 'fail':
                    ns['failing'] = rng.choice(['t%d' % i for i in
                                                range(1, g.n + 1)])
                elif k == 'lose' and lossy:
                    store.d.clear()
                    for _, _, m, _ in insts:
                        m.refresh()
                else:
                    continue
                kinds.add(k)
                hist.append((k, clock.t, dict(ns)))
            before = sum(model.counts.values())
            try:
                want = ('ok', model.render())
            except Fail:
                want = ('fail',)
            try:
                got = ('ok', str(t))
            except Fail:
                got = ('fail',)
            hist.append(got)
            same(got, want, 'the rendering shows other text than the cache '
                 'is due to', key='text', src=src, history=repr(hist[-12:]))
            same(counts, model.counts, 'what was evaluated', key='evaluated',
                 src=src, history=repr(hist[-12:]))
            n = sum(model.counts.values()) - before
            ns['failing'] = None
            ctx.count('renderings')
            ctx.count('evaluations', n)
            ctx.count('all_from_cache' if n == 0 else 'some_evaluated')
            for k in kinds:
                ctx.count('step:' + k)
            if got == ('fail',):
                ctx.count('failed_evaluations')
            ctx.saw((tuple(sorted(g.feat)), tuple(sorted(kinds)),
                     min(n, 2), len(insts)) if g.feat else None)
    ctx.sample({'src': src, 'history': repr(hist[:6])})


def boundary(ctx, rng):
    """One region, one timer, times on both sides of the limit."""
    n = rng.choice(['1', '3', '0.25', '2.5', '100'])
    u = rng.choice(sorted(UNITS))
    secs = float(n) * UNITS[u]
    form = rng.randint(0, 3)
    src = ['#cache timer="%s"#$tick#end cache#', '$*%s*tick',
           '#cache timer=\'%s\': $tick', '#cache id="q", timer="%s"\n'
           '$tick#slurp\n#end cache'][form] % (n + u)
    with Clock(rng.choice([5.0, 1e9])) as clock:
        cnt = [0]

        def tick():
            cnt[0] += 1
            return cnt[0]
        t = compile_(src)(searchList=[{'tick': tick}])
        t0, n_eval = None, 0
        for _ in range(12):
            if t0 is not None and rng.random() < .7:
                clock.t = t0 + secs * rng.choice([.5, .999, 1.001, 1.5, 40])\
                    if clock.t <= t0 + secs * .5 else clock.t
            clock.t += secs * rng.choice([0, .0005, .01])
            if t0 is None or clock.t > t0 + secs:
                t0 = clock.t
                n_eval += 1
            same(str(t).strip(), str(n_eval), 'timed region', key='timer',
                 src=src, elapsed=repr(clock.t - t0), interval=secs)
            ctx.count('boundary')
        ctx.saw(('boundary', form, n, u, n_eval))


SCENARIOS = [
    ('life', life, 6000, 80000),
    ('boundary', boundary, 200, 3000),
]
REQUIRED = {'renderings': 10000, 'all_from_cache': 1500,
            'some_evaluated': 3000, 'failed_evaluations': 100,
            'step:lose': 100, 'step:refreshitem': 200, 'boundary': 1000}
DESIGN = '''Evaluation counters sit inside cached regions; a controlled clock
replaces time.time. Histories interleave renderings by several instances (own
or shared store) with passing time, toggled tests, changed vary-by values,
explicit refreshes, failing evaluations and a store that loses its data. A
model of the documented rules predicts every text and every evaluation; a
sweep around each timer's limit covers all time units and forms.'''
