"""C28: imports in templates are the Python statements; #extends finds what
they name."""
import importlib
import os
import shutil
import sys
from vlib.core import Violation, same
from vlib.t import compile_, write

RULE = ('A tree of modules that log their execution is generated twice, with '
        'a template that imports and extends from one copy and the Python '
        'module it stands for from the other; both are loaded and run twice. '
        'Distinct: the set of (import form, place, use) with the outcome.')
TECHNIQUE = ('differential monitor of module executions and of the names '
             'bound, against the equivalent Python module')
QUICK_SCALE = 2
LEVEL_NOTE = 'Sampled module trees and templates; the reference is CPython.'


class Tree(object):
    """modules (dotted names below a prefix), the same under two prefixes"""

    def __init__(self, rng, prefix):
        self.prefix = prefix
        self.mods = []
        self.bad = []
        n = rng.randint(4, 7)
        for i in range(n):
            k = rng.random()
            if k < .5:
                self.mods.append(rng.choice(['m%d', 'm%d', 'import_m%d']) % i)
            elif k < .9:
                self.mods.append('p%d.s%d' % (i, i))
            else:
                self.mods.append('p%d.q%d.s%d' % (i, i, i))
            if rng.random() < .08:
                self.bad.append(self.mods[-1])
        self.all_ = {m: rng.random() < .3 for m in self.mods}

    def write(self, root):
        log = self.prefix + 'log'
        write('%s/%s.py' % (root, log), 'EVENTS = []\n')
        for m in self.mods:
            parts = (self.prefix + m).split('.')
            for i in range(1, len(parts)):
                d = os.path.join(root, *parts[:i])
                write(d + '/__init__.py',
                      'import %s\n%s.EVENTS.append(__name__)\n' % (log, log))
            b = parts[-1] if len(parts) > 1 else m
            t = 'import %s\n%s.EVENTS.append(__name__)\n' % (log, log)
            if m in self.bad:
                t += 'raise ValueError("boom")\n'
            i = m[-1]
            t += ('v%s = %s0\n_u%s = "u"\nw%s = "w%s"\n'
                  'def f%s(x=1):\n    return "f%s-%%s" %% x\n'
                  'def deco%s(fn):\n    %s.EVENTS.append("deco %s")\n'
                  '    return fn\n'
                  'class K%s(object):\n    def who(self): return "K%s"\n'
                  'class %s(object):\n    def who(self): return "same%s"\n'
                  % (i, i, i, i, i, i, i, i, log, i, i, i, parts[-1], i))
            del b
            if self.all_[m]:
                t += '__all__ = ["v%s", "_u%s"]\n' % (i, i)
            write(os.path.join(root, *parts) + '.py', t)


class Gen(object):
    def __init__(self, rng, tree, legacy):
        self.r, self.tree, self.legacy = rng, tree, legacy
        self.free = list(tree.mods)
        rng.shuffle(self.free)
        self.feats = set()
        self.n = 0

    def statement(self, top=True):
        """-> (statement with @ for the prefix, [expressions], imported
        classes)"""
        r = self.r
        m = self.free.pop()
        i = m[-1]
        self.n += 1
        a = 'al%d' % self.n
        M = '@' + m
        form = r.choice(['import', 'import as', 'from', 'from as', 'from many',
                         'from paren', 'from *', 'from module', 'two',
                         'missing'] if r.random() < .9 else ['missing'])
        if form == 'from *' and not (top or self.legacy):
            form = 'from'
        if form == 'from module' and '.' not in m:
            form = 'import as'
        if form == 'two' and not self.free:
            form = 'import'
        if form == 'missing' and r.random() < .7:
            form = 'from as'
        sp = r.choice([' ', ' ', '  '])
        cm = r.choice([', ', ',', ' , '])
        classes = []
        if form == 'import':
            st, ex = 'import%s%s' % (sp, M), ['%s.v%s' % (M, i)]
        elif form == 'import as':
            st = 'import%s%s%sas %s' % (sp, M, sp, a)
            ex = ['%s.v%s' % (a, i), '%s.f%s(3)' % (a, i)]
        elif form == 'two':
            m2 = self.free.pop()
            st = 'import%s%s%s@%s as %s' % (sp, M, cm, m2, a)
            ex = ['%s.v%s' % (M, i), '%s.f%s(3)' % (a, m2[-1])]
        elif form == 'from':
            x = r.choice(['v', 'f', '_u', 'K'])
            st = 'from %s%simport %s%s' % (M, sp, x, i)
            ex = [x + i + {'f': '(2)', 'K': '().who()'}.get(x, '')]
            if x == 'K':
                classes = ['K' + i]
        elif form == 'from as':
            x = r.choice(['v', 'f', 'K'])
            st = 'from %s import %s%s%sas %s' % (M, x, i, sp, a)
            ex = [a + {'f': '(2)', 'K': '().who()'}.get(x, '')]
            if x == 'K':
                classes = [a]
        elif form == 'from many':
            st = 'from %s import v%s%sf%s as %s%sK%s' % (
                M, i, cm, i, a, cm, i)
            ex = ['v' + i, a + '(5)', 'K%s().who()' % i]
            classes = ['K' + i]
        elif form == 'from paren':
            sep = r.choice([', ', ',\n      '])
            st = 'from %s import (K%s%sf%s as %s)' % (M, i, sep, i, a)
            ex = ['K%s().who()' % i, a + '(5)']
            classes = ['K' + i]
        elif form == 'from *':
            st = 'from %s import *' % M
            ex = ['v' + i, '_u' + i, 'w' + i]
        elif form == 'from module':
            p, s = M.rsplit('.', 1)
            st, ex = 'from %s import %s as %s' % (p, s, a), \
                ['%s.v%s' % (a, i), '%s.w%s' % (a, i)]
        else:
            st = r.choice(['import %s_no', 'from %s import nothing_at_all',
                           'from %s_no import x']) % M
            ex = []
        self.feats.add(form)
        return st, ex, classes

    def use(self, e):
        """-> (template lines, python lines)"""
        return (['#try', '${%s}]' % e, '#except NotFound', 'missing',
                 '#end try'],
                ['try:', '    out.append("%%s]\\n" %% (%s,))' % e,
                 'except NameError:', '    out.append("missing\\n")'])

    def block(self, exprs):
        """some lines of a method: imports in blocks and uses"""
        r = self.r
        t, p, hoist = ['#silent 0'], [], []
        for _ in range(r.randint(1, 4)):
            k = r.choice(['import', 'use', 'use'])
            if k == 'use' and exprs:
                a, b = self.use(r.choice(exprs))
                t += a
                p += b
            elif k == 'import' and self.free and r.random() < .6:
                st, ex, _ = self.statement(top=False)
                exprs.extend(ex)
                ctl = r.choice(['', 'if 1', 'if 0', 'for', 'try',
                                'nested'])
                self.feats.add(('inline', ctl))
                line = '#' + st
                pl = ['pass'] if self.legacy else st.split('\n')
                if len(pl) > 1:
                    pl = [' '.join(x.strip() for x in pl)]
                if self.legacy:
                    hoist.append(st)
                if ctl == '':
                    t.append(line)
                    p += pl
                elif ctl == 'for':
                    t += ['#for $i in (1, 2)', 'i', line, '#end for']
                    p += ['for i in (1, 2):', '    out.append("i\\n")'] + \
                        ['    ' + x for x in pl]
                elif ctl == 'nested':
                    t += ['#for $i in (0, 1)', '#if $i', 'i', '#try', 'j',
                          line, '#except OSError', 'k', '#end try', '#end if',
                          '#end for']
                    p += ['for i in (0, 1):', '  if i:',
                          '    out.append("i\\n")', '    try:',
                          '        out.append("j\\n")'] + \
                        ['        ' + x for x in pl] + \
                        ['    except OSError:', '        out.append("k\\n")']
                elif ctl == 'try':
                    t += ['#try', 'i', line, '#except (ImportError, '
                          'ValueError)', 'failed', '#end try']
                    p += ['try:', '    out.append("i\\n")'] + \
                        ['    ' + x for x in pl] + \
                        ['except (ImportError, ValueError):',
                         '    out.append("failed\\n")']
                else:
                    t += ['#' + ctl, 'i', line, '#end if']
                    p += [ctl + ':', '    out.append("i\\n")'] + \
                        ['    ' + x for x in pl]
        return t, p, hoist


def imports(ctx, rng):
    uid = 'i%d_%d' % (os.getpid(), ctx.index)
    tree = Tree(rng, '')
    root = ctx.tmp('imports')
    pre = {'t': uid + 'a', 'r': uid + 'b'}
    for x in pre.values():
        tree.prefix = x
        tree.write(root)
    legacy = rng.random() < .6
    g = Gen(rng, tree, legacy)
    top, classes, exprs = [], [], []
    pytop = []
    for _ in range(rng.randint(0, 3)):
        if g.free:
            st, ex, cl = g.statement()
            top.append(st)
            pytop.append(st)
            exprs += ex
            classes += cl
    src = ['#' + s for s in top]
    base = None
    bad = [m[-1] for m in tree.bad]
    if rng.random() < .5:
        if classes and rng.random() < .6:
            base = rng.choice(classes)
            src.append('#extends ' + base)
            g.feats.add('extends imported')
        elif g.free:
            m = g.free.pop()
            src.append('#extends @' + m)
            c = ('@' + m).split('.')[-1]
            # a class is named as its module
            pytop.append('from @%s import %s' % (m, c))
            base = c
            g.feats.add('extends implicit')
        if base:
            src.append('#implements respond')
    del bad
    bodies = []
    hoisted = []
    if rng.random() < .5:
        # a method may come first; names imported later are global then
        t, p, h = g.block(exprs)
        bodies.append((t, p))
        hoisted += h
    t, p, h = g.block(exprs)
    hoisted += h
    py = []
    defs = []
    decos = [e[:-len('.v0')] + '.deco' + e[-1] for e in exprs
             if e.startswith('al') and '.v' in e] if legacy else []
    for n, (bt, bp) in enumerate(bodies):
        d = []
        if decos and rng.random() < .5 and not hoisted:
            d = [rng.choice(decos)]
            g.feats.add('decorator')
        src += ['#@' + x for x in d] + ['#def meth%d' % n] + bt + ['#end def']
        defs += ['    @' + x for x in d] + ['    def meth%d(self):' % n,
                                            '        out = []'] + \
            ['        ' + x for x in bp] + ['        return "".join(out)']
    src += t
    for n in range(len(bodies)):
        src.append('<$meth%d>' % n)
    # what the class body may use
    plain = [e for e in exprs if e.startswith('v') and e[1:].isdigit()]
    if plain and legacy and rng.random() < .5 and not hoisted:
        e = rng.choice(plain)
        src.append('#attr $att = %s' % e)
        defs.append('    att = %s' % e)
        g.feats.add('attr')
    py += pytop + hoisted
    py += ['class Ref(%s):' % (base or 'object')] + defs + \
        ['    def respond(self):', '        out = []'] + \
        ['        ' + x for x in p]
    for n in range(len(bodies)):
        py.append('        out.append("<" + self.meth%d() + ">\\n")' % n)
    if base:
        src.append('$who()')
        py.append('        out.append(self.who() + "\\n")')
    py.append('        return "".join(out)')
    text = '\n'.join(src) + '\n'
    code = '\n'.join(py) + '\n'
    tt = text.replace('@' + 'al', '\0').replace('#@', '\1') \
        .replace('@', pre['t']).replace('\1', '#@').replace('\0', '@al')
    rc = '\n'.join(ln if ln.strip().startswith('@al') else
                   ln.replace('@', pre['r']) for ln in code.split('\n'))
    settings = {} if legacy else {'useLegacyImportMode': False}
    if legacy and rng.random() < .3:
        settings = {'useLegacyImportMode': True}
    sys.path.insert(0, root)
    importlib.invalidate_caches()
    try:
        logs = {k: __import__(x + 'log').EVENTS for k, x in pre.items()}

        def events(k):
            return [e.replace(pre[k], '@') for e in logs[k]]

        def load_ref():
            ns = {'__name__': 'ref'}
            exec(rc, ns)
            return ns['Ref']

        def attempt(fn):
            try:
                return 'ok', fn()
            except Exception as e:
                return 'raised', type(e).__name__
        got = attempt(lambda: compile_(tt, compilerSettings=settings))
        want = attempt(load_ref)
        info = dict(source=text, python=code, settings=settings, bad=tree.bad)
        if got[0] != want[0] or (got[0] == 'raised' and got[1] != want[1]):
            raise Violation('loading differs from the Python module',
                            key='load', got=repr(got), want=repr(want), **info)
        same(events('t'), events('r'), 'modules executed while loading',
             key='events', **info)
        outs = ()
        if got[0] == 'ok':
            cls, Ref = got[1], want[1]
            if base:
                same([c.__name__.replace(pre['t'], '@')
                      for c in cls.__bases__],
                     [c.__name__.replace(pre['r'], '@')
                      for c in Ref.__bases__], 'base classes', key='bases',
                     **info)
            if hasattr(Ref, 'att'):
                same(getattr(cls, 'att', None), Ref.att, 'class attribute',
                     key='attr', **info)
            for _ in range(2):
                a = attempt(lambda: str(cls().respond()))
                b = attempt(lambda: Ref().respond())
                outs += (a[0],)
                same(a, b, 'rendering differs from the Python module',
                     key='output', **info)
                same(events('t'), events('r'), 'modules executed while '
                     'rendering', key='events', **info)
        ctx.count('modules_executed', len(logs['t']))
        ctx.count('load:' + got[0])
        for o in outs:
            ctx.count('render:' + o)
        ctx.saw((legacy, tuple(sorted(map(repr, g.feats))), got[0], outs))
        ctx.sample({'source': text, 'python': code}, limit=3)
    finally:
        sys.path.remove(root)
        for k in list(sys.modules):
            if k.startswith(uid):
                del sys.modules[k]
        for n in os.listdir(root):
            if n.startswith(uid):
                q = os.path.join(root, n)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        sys.path_importer_cache.pop(root, None)


SCENARIOS = [('imports', imports, 5000, 50000)]
REQUIRED = {'modules_executed': 1000, 'load:ok': 500, 'load:raised': 50,
            'render:ok': 500}
