"""Templates full of nested output regions, with an explicit model of where
every piece of output goes and which filter every value meets.

Nodes are tuples; emit() writes template source, Interp runs the node tree by
the documented meaning. Nothing here imports Cheetah.
"""

WORDS = ['w%d ', 'q%d.', '(%d)', 'x%d, ', "it's %d ", '%d\n', 'z%d\n', '-%d-']


class Boom(Exception):
    pass


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Gen(object):
    def __init__(self, rng, budget=25, maxdepth=4, filters=True, exits=True,
                 returns=True, caches=True, includes=True, nested=True,
                 defs=None, boom=True, stop=True):
        self.r = rng
        self.budget = budget
        self.maxdepth = maxdepth
        self.f = dict(filters=filters, exits=exits, returns=returns,
                      caches=caches, includes=includes, nested=nested,
                      boom=boom, stop=stop)
        self.src = []
        self.n = 0
        self.feat = set()
        self.captured = []
        self.closures = []
        self.ndefs = rng.randint(0, 3) if defs is None else defs
        self.callable = []
        self.in_def = False
        self.loop = 0           # loops open that a break may leave
        self.inregion = []      # regions open inside the innermost loop
        self.tail = '\n'
        self.blocks = 0
        self.collect = 0        # call/capture regions open in this method
        self.nocap = 0

    # ---- source
    def out(self, s):
        if s:
            self.src.append(s)
            self.tail = s[-1]

    def tag(self, s):
        if self.tail == '\n' and self.r.random() < .5:
            self.out(self.r.choice(['', '', '  ']) + s + '\n')
        else:
            self.out(s + '#')

    def word(self):
        self.n += 1
        return self.r.choice(WORDS) % self.n

    def text(self):
        s = self.word()
        self.out(s)
        return ('text', s)

    # ---- nodes
    def body(self, depth, least=1):
        nodes = [self.text()]
        for _ in range(self.r.randint(0, 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            n = self.node(depth)
            if n:
                nodes.append(n)
        if self.r.random() < .3:
            nodes.append(self.text())
        return nodes

    def value(self):
        """(source of an expression, model expression)"""
        r = self.r
        k = r.randint(0, 9)
        if k < 5:
            v = r.choice(['v0', 'v1', 'v2', 'num', 'none', 'uni', 'zero',
                          'empty', 'flt'])
            return '$' + v, ('ns', v)
        if k == 5:
            v = r.choice(['at', 'call'])
            return '$obj.' + v, ('obj', v)
        if k == 6 and self.captured and not self.nocap:
            v = r.choice(self.captured)
            return '$' + v, ('var', v)
        if k == 7 and self.callable:
            m, arg = r.choice(self.callable)
            if arg:
                return '$%s($v1)' % m, ('meth', m, ('ns', 'v1'))
            return r.choice(['$%s', '$%s()']) % m, ('meth', m, None)
        v = r.choice(['v0', 'v1', 'num'])
        return '$ident($%s)' % v, ('ns', v)

    def ph(self):
        r = self.r
        src, e = self.value()
        k = r.randint(0, 9)
        kw = {}
        if k < 3:
            raw = src
            self.out(raw)
            w = r.choice([' ', ';', '\n', '<'])
            self.out(w)
            return ('seq', [('ph', e, kw, raw), ('text', w)])
        if k < 5:
            raw = '${%s}' % r.choice([src, src[1:]])
        elif k < 7:
            kw = {'a': r.randint(0, 9)}
            if r.random() < .5:
                kw['b'] = 'vee one'
            raw = '${%s, %s}' % (src[1:], ', '.join(
                '%s=%s' % (n, '$v1' if n == 'b' else v)
                for n, v in sorted(kw.items())))
            self.feat.add('fargs')
        elif k < 8:
            if r.random() < .4:
                src2, e2 = self.value()
                t = r.choice(['$tick()', '$tock()', '1'])
                self.tag('#if %s then %s else %s' % (t, src, src2))
                self.feat.add('ternary')
                return ('tern', t, e, e2)
            self.tag('#echo ' + src)
            self.feat.add('echo')
            return ('ph', e, {}, None)
        elif k < 9 and e[0] == 'ns' and e[1] not in ('none',) \
                and src.startswith('$v'):
            self.out('<%%= self.getVar(%r) %%>' % e[1])
            self.feat.add('psp')
            return ('ph', e, {}, None)
        else:
            raw = '$[%s]' % src[1:] if e[0] == 'ns' and '(' not in src \
                else '${%s}' % src
        self.out(raw)
        self.feat.add('ph')
        return ('ph', e, kw, raw)

    def node(self, depth):
        r = self.r
        if depth <= 0:
            return self.ph()
        k = r.random()
        f = self.f
        if k < .25:
            return self.ph()
        if k < .45 and f['filters']:
            return self.g_filter(depth)
        if k < .55:
            return self.g_call(depth)
        if k < .63:
            return self.g_capture(depth)
        if k < .70:
            return self.g_for(depth)
        if k < .78 and f['boom']:
            return self.g_try(depth)
        if k < .82 and f['caches']:
            return self.g_cache(depth)
        if k < .86:
            return self.g_block(depth)
        if k < .90:
            return self.g_closure(depth)
        if k < .93 and f['includes']:
            return self.g_include()
        if k < .95 and f['nested']:
            self.out('${sub}')
            self.feat.add('nested')
            return ('ph', ('sub',), {}, '${sub}')
        return self.exit() or self.ph()

    def exit(self):
        """leaves the enclosing loop, method or template"""
        r = self.r
        if not self.f['exits']:
            return None
        opts = []
        if self.loop:
            opts += ['break', 'continue'] * 2
        if self.in_def and self.f['returns'] and not self.nocap:
            opts += ['return']
        if not self.collect and self.f['stop'] and not self.nocap:
            opts += ['stop']
        if not opts:
            return None
        k = r.choice(opts)
        t = r.choice(['$tick()', '$tick()', '1'])
        self.tag('#if ' + t)
        self.feat.add(k)
        a = self.text()
        v = None
        if k == 'return':
            src, v = r.choice([('$v0', ('ns', 'v0')),
                               ('$none', ('ns', 'none')),
                               ('$num', ('ns', 'num'))])
            self.tag('#return ' + src)
        else:
            self.tag('#' + k)
        self.tag('#end if')
        return ('if', t, [a, (k, v)])

    def g_filter(self, depth):
        r = self.r
        n = r.choice(['F1', 'F2', 'F3', 'None', 'none', '$K1', '$K2'])
        self.feat.add('filter')
        f = n.lower() if n.lower() == 'none' else n.lstrip('$')
        if r.random() < .15 and depth > 1 and not self.nocap:
            if self.tail != '\n':
                self.out('\n')
                lead = [('text', '\n')]
            else:
                lead = []
            self.out('#filter %s: ' % n)
            w = self.word().rstrip('\n')
            self.out(w)
            src, e = self.value()
            raw = '${%s}' % src
            self.out(raw + '\n')
            self.feat.add('filter1')
            return ('seq', lead + [('filter', f, [
                ('text', w), ('ph', e, {}, raw)]), ('text', '\n')])
        self.tag('#filter ' + n)
        b = self.body(depth - 1)
        self.tag('#end filter')
        return ('filter', f, b)

    def oneline(self):
        """the body of a one-line form: nodes that stay on the line"""
        w = self.word().rstrip('\n')
        src, e = self.value()
        raw = '${%s}' % src
        self.out(w + raw)
        return [('text', w), ('ph', e, {}, raw)]

    def g_line(self, depth):
        r = self.r
        lead = []
        if self.tail != '\n':
            self.out('\n')
            lead = [('text', '\n')]
        self.collect += 1
        if r.random() < .5:
            self.out('#call $%s:%s' % (
                r.choice(['wrap "t"', 'wrap tail="t"', 'wrap', 'ident']),
                r.choice(['', ' '])))
            f = self.src[-1]
            b = self.oneline()
            name = 'ident' if 'ident' in f else 'wrap'
            node = ('call', name, b, 't' if '"t"' in f else '')
        else:
            self.n += 1
            self.out('#capture c%d:%s' % (self.n, r.choice(['', ' '])))
            node = ('capture', 'c%d' % self.n, self.oneline())
        self.collect -= 1
        self.out('\n')
        self.feat.add('line')
        return ('seq', lead + [node, ('text', '\n')])

    def g_call(self, depth):
        r = self.r
        k = r.randint(0, 3)
        self.feat.add('call%d' % k)
        if k == 1 and r.random() < .4 and not self.nocap:
            return self.g_line(depth)
        self.collect += 1
        if k == 3:
            pre = r.random() < .3
            self.src.append('#call $pre $v0#' if pre else '#call $pair#')
            self.src.append('#arg left#')
            self.tail = '#'
            args = ['left']
            bs = [self.body(depth - 1)]
            for i in range(r.choice([1, 1, 1, 2, 3])):
                # an argument given again replaces the former one
                args.append('right' if 'right' not in args else
                            r.choice(['left', 'right']))
                self.tag('#arg ' + args[-1])
                bs.append(self.body(depth - 1))
            if len(args) > 2:
                self.feat.add('rearg')
            node = ('call2', args, bs, pre)
        elif k == 2 and any(a for m, a in self.callable):
            m = r.choice([m for m, a in self.callable if a])
            self.tag('#call $' + m)
            node = ('callm', m, self.body(depth - 1))
        elif k == 1:
            self.tag('#call $wrap tail=$v0')
            node = ('call', 'wrap', self.body(depth - 1))
        else:
            self.tag('#call $ident')
            node = ('call', 'ident', self.body(depth - 1))
        self.collect -= 1
        self.tag('#end call')
        return node

    def g_capture(self, depth):
        self.n += 1
        c = 'c%d' % self.n
        self.feat.add('capture')
        self.tag('#capture ' + c)
        self.collect += 1
        b = self.body(depth - 1)
        self.collect -= 1
        self.tag('#end capture')
        use = []
        if self.r.random() < .7:
            self.out('${%s}' % c)
            use = [('ph', ('var', c), {}, '${%s}' % c)]
        return ('seq', [('capture', c, b)] + use)

    def g_for(self, depth):
        self.n += 1
        k = self.r.randint(1, 3)
        self.tag('#for $i%d in range(%d)' % (self.n, k))
        self.feat.add('for')
        self.loop += 1
        b = self.body(depth - 1)
        self.loop -= 1
        self.tag('#end for')
        return ('for', k, b)

    def g_try(self, depth):
        r = self.r
        self.tag('#try')
        self.feat.add('try')
        b = self.body(depth - 1)
        if r.random() < .8:
            t = r.choice(['$tick()', '$tock()', '1'])
            # raised somewhere deep
            d = r.randint(0, 2)
            regs = []
            if d and self.f['filters']:
                regs.append('filter')
            if d > 1:
                regs.append(r.choice(['capture', 'call', 'cache']
                                     if self.f['caches'] else
                                     ['capture', 'call']))
            r.shuffle(regs)
            inner = []
            opened = []
            for g in regs:
                self.n += 1
                if g == 'filter':
                    n = r.choice(['F1', 'F2', '$K1'])
                    self.tag('#filter ' + n)
                    opened.append((g, n.lstrip('$')))
                elif g == 'capture':
                    self.tag('#capture c%d' % self.n)
                    opened.append((g, 'c%d' % self.n))
                elif g == 'cache':
                    self.tag('#cache id="r%d"' % self.n)
                    opened.append((g, 'r%d' % self.n))
                else:
                    self.tag('#call $ident')
                    opened.append((g, 'ident'))
                opened[-1] += ([self.text()],)
            kind = r.choice(['exc', 'exc', 'call', 'raise'])
            if kind == 'call':
                self.out('${boom(%s)}' % t)
            elif kind == 'raise':
                self.tag('#if ' + t)
                self.tag('#raise $Boom')
                self.tag('#end if')
            else:
                self.tag('#silent $boom(%s)' % t)
            inner = [('boom', t, kind == 'call')]
            if r.random() < .5:
                inner.append(self.text())
            for g, a, pre in reversed(opened):
                self.tag('#end ' + g)
                inner = [(g, a, pre + inner)]
            b += inner
            self.feat.add('boom:' + '+'.join(regs))
        self.tag('#except $Boom')
        h = self.body(depth - 1)
        self.tag('#end try')
        return ('try', b, h)

    def g_cache(self, depth):
        self.n += 1
        rid = 'r%d' % self.n
        self.feat.add('cache')
        self.tag('#cache id="%s"' % rid)
        self.collect += 1
        b = self.body(depth - 1)
        self.collect -= 1
        self.tag('#end cache')
        return ('cache', rid, b)

    def g_block(self, depth):
        if self.in_def or self.nocap:
            return self.ph()
        self.n += 1
        self.feat.add('block')
        self.tag('#block b%d' % self.n)
        s = (self.captured, self.loop, self.in_def, self.closures,
             self.collect)
        self.captured, self.loop, self.closures = [], 0, []
        # leaving a block ends the block's method only
        ex, self.f['exits'] = self.f['exits'], False
        self.collect = 0
        b = self.body(depth - 1)
        self.f['exits'] = ex
        (self.captured, self.loop, self.in_def, self.closures,
         self.collect) = s
        self.tag('#end block')
        return ('block', b)

    def g_closure(self, depth):
        if self.nocap:
            return self.ph()
        self.n += 1
        c = 'k%d' % self.n
        self.feat.add('closure')
        self.tag('#closure %s(q="d")' % c)
        t = self.text()
        self.out('${q}')
        t2 = self.text()
        self.tag('#end closure')
        uses = []
        for _ in range(self.r.randint(1, 2)):
            a, m = self.r.choice([('', 'd'), ('"e"', 'e'), ('$v1', None)])
            raw = '${%s(%s)}' % (c, a)
            self.out(raw)
            uses.append(('clcall', m if m else ('ns', 'v1'),
                         [t, ('q',), t2]))
        return ('seq', uses)

    def g_include(self):
        r = self.r
        if r.random() < .4:
            self.tag('#include raw source=$inc')
            self.feat.add('incraw')
            return ('text', INC)
        self.tag('#include source=$inc')
        self.feat.add('include')
        return ('include',)

    def method(self, name, arg):
        self.in_def = True
        self.captured, self.closures, self.loop = [], [], 0
        self.collect = 0
        self.tag('#def %s%s' % (name, '($p)' if arg else
                                self.r.choice(['', '()'])))
        b = self.body(self.maxdepth - 1)
        if arg:
            self.out('${p}')
            b.append(('ph', ('p',), {}, '${p}'))
        self.tag('#end def')
        self.in_def = False
        return b

    def program(self):
        defs = {}
        for i in range(self.ndefs):
            name, arg = 'm%d' % i, self.r.random() < .5
            self.budget += 5
            defs[name] = self.method(name, arg)
            self.callable.append((name, arg))
            if self.tail != '\n':
                # text between definitions belongs to the main method
                pass
        self.captured, self.closures, self.loop = [], [], 0
        main = []
        for _ in range(self.r.randint(1, 5)):
            main += self.body(self.maxdepth)
        return ''.join(self.src), defs, main


INC = '[$v0|${v1, a=3}]'
SUB = '{$v1}'


class Interp(object):
    """One template instance."""

    def __init__(self, prog, ns, log, initial='FI', marks=True):
        self.src, self.defs, self.main = prog
        self.ns = ns
        self.log = log
        self.init = self.cur = initial
        self.cache = {}
        self.marks = marks

    def apply(self, f, v, kw, raw):
        if v is None:
            return ''
        kw = dict(kw)
        if raw is not None:
            kw['rawExpr'] = raw
        if f is None:
            return v if isinstance(v, str) else str(v)
        self.log.append((f, v if not isinstance(v, SubT) else 'SUB',
                         sorted(kw.items())))
        return mark(f, v)

    def render(self):
        fr = Fr(self.cur)
        try:
            self.run(self.main, fr)
        except Stop:
            pass
        return ''.join(fr.out)

    def val(self, e, fr):
        k = e[0]
        if k == 'ns':
            return self.ns[e[1]]
        if k == 'obj':
            return 'obj.' + e[1]
        if k == 'var':
            if e[1] not in fr.vars:
                raise NameMissing(e[1])
            return fr.vars[e[1]]
        if k == 'p':
            return fr.p
        if k == 'sub':
            return SubT()
        if k == 'meth':
            return self.method(e[1], None if e[2] is None
                               else self.val(e[2], fr))
        raise AssertionError(e)

    def method(self, m, p):
        fr = Fr(self.cur)
        fr.p = p
        try:
            self.run(self.defs[m], fr)
        except Stop:
            pass
        except Ret as e:
            return e.v
        return ''.join(fr.out)

    def run(self, nodes, fr):
        for n in nodes:
            getattr(self, 'x_' + n[0])(n, fr)

    def x_seq(self, n, fr):
        self.run(n[1], fr)

    def x_text(self, n, fr):
        fr.out.append(n[1])

    def x_ph(self, n, fr):
        v = self.val(n[1], fr)
        fr.out.append(self.apply(fr.f, v, n[2], n[3]))

    def x_tern(self, n, fr):
        v = self.val(n[2] if self.tick(n[1]) else n[3], fr)
        fr.out.append(self.apply(fr.f, v, {}, None))

    def x_q(self, n, fr):
        fr.out.append(self.apply(fr.f, fr.q, {}, '${q}'))

    def x_clcall(self, n, fr):
        fr.q = n[1] if isinstance(n[1], str) else self.val(n[1], fr)
        self.run(n[2], fr)

    def tick(self, t):
        if t == '1':
            return True
        return self.ns[t.strip('$()')]()

    def x_if(self, n, fr):
        if self.tick(n[1]):
            self.run(n[2], fr)

    def x_break(self, n, fr):
        raise Brk()

    def x_continue(self, n, fr):
        raise Cont()

    def x_stop(self, n, fr):
        raise Stop()

    def x_return(self, n, fr):
        raise Ret(self.val(n[1], fr))

    def x_boom(self, n, fr):
        if self.tick(n[1]):
            raise Boom()
        if n[2]:
            fr.out.append(self.apply(fr.f, 'fine', {}, '${boom(%s)}' % n[1]))

    def x_for(self, n, fr):
        for _ in range(n[1]):
            try:
                self.run(n[2], fr)
            except Brk:
                break
            except Cont:
                continue

    def x_try(self, n, fr):
        try:
            self.run(n[1], fr)
        except Boom:
            self.run(n[2], fr)

    def x_filter(self, n, fr):
        old = fr.f
        fr.f = self.cur = self.init if n[1] == 'none' else n[1]
        try:
            self.run(n[2], fr)
        finally:
            fr.f = self.cur = old

    def collect(self, body, fr):
        old, fr.out = fr.out, []
        try:
            self.run(body, fr)
            return ''.join(fr.out)
        finally:
            fr.out = old

    def x_capture(self, n, fr):
        fr.vars[n[1]] = self.collect(n[2], fr)

    def x_call(self, n, fr):
        s = self.collect(n[2], fr)
        if n[1] == 'wrap':
            s = '[' + s + (self.ns['v0'] if len(n) < 4 else n[3]) + ']'
        fr.out.append(self.apply(fr.f, s, {}, None))

    def x_callm(self, n, fr):
        s = self.collect(n[2], fr)
        fr.out.append(self.apply(fr.f, self.method(n[1], s), {}, None))

    def x_call2(self, n, fr):
        # all arguments are collected before the call
        kw = {}
        for a, b in zip(n[1], n[2]):
            kw[a] = self.collect(b, fr)
        fr.out.append(self.apply(
            fr.f, (self.ns['v0'] + '/' if n[3] else '') + kw['left'] + '|'
            + kw['right'], {}, None))

    def x_cache(self, n, fr):
        if n[1] not in self.cache:
            self.cache[n[1]] = self.collect(n[2], fr)
        fr.out.append(self.cache[n[1]])

    def x_block(self, n, fr):
        b = Fr(self.cur)
        b.out = fr.out
        self.run(n[1], b)

    def x_include(self, n, fr):
        fr.out.append('[')
        fr.out.append(self.apply(self.init, self.ns['v0'], {}, '$v0'))
        fr.out.append('|')
        fr.out.append(self.apply(self.init, self.ns['v1'], {'a': 3},
                                 '${v1, a=3}'))
        fr.out.append(']')


class NameMissing(Exception):
    pass


class SubT(object):
    """stands for a nested template instance"""

    def __str__(self):
        return '{vee one}'


class Fr(object):
    def __init__(self, f):
        self.f = f
        self.out = []
        self.vars = {}
        self.p = self.q = None


def mark(f, v):
    return '<%s %s>' % (f, v)


class Obj(object):
    at = 'obj.at'

    def call(self):
        return 'obj.call'


def namespace(seq, Boom=Boom):
    """a fresh namespace; seq decides the ticks"""
    st = {'t': 0, 'u': 0}

    def tick():
        st['t'] += 1
        return seq[st['t'] % len(seq)]

    def tock():
        st['u'] += 1
        return seq[(st['u'] * 7 + 3) % len(seq)]

    def boom(x):
        if x:
            raise Boom()
        return 'fine'
    return {'v0': 'v-zero', 'v1': 'vee one', 'v2': '<&>"', 'num': 42,
            'none': None, 'uni': '\xe9\u4e2d', 'zero': 0, 'empty': '',
            'flt': 1.5, 'tick': tick, 'tock': tock, 'boom': boom,
            'Boom': Boom, 'obj': Obj(), 'inc': INC,
            'ident': lambda x='': x,
            'wrap': lambda s, tail='': '[' + s + tail + ']',
            'pre': lambda p, left, right: p + '/' + left + '|' + right,
            'pair': lambda left, right: left + '|' + right}


def filters(log):
    """a filters library recording every call, and filter classes"""
    from Cheetah.Filters import Filter
    import types
    lib = types.ModuleType('reclib')

    def make(name):
        def filter(self, val, **kw):
            shown = val if isinstance(val, (str, int, float)) else 'SUB'
            log.append((name, shown, sorted(kw.items())))
            return mark(name, str(val))
        return type(name, (Filter,), {'filter': filter})
    for n in ('FI', 'F1', 'F2', 'F3'):
        setattr(lib, n, make(n))
    from Cheetah import Filters
    lib.RawOrEncodedUnicode = Filters.RawOrEncodedUnicode
    return lib, {'K1': make('K1'), 'K2': make('K2')}
