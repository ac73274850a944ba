"""C14: template inheritance overrides methods and blocks as Python does."""
import importlib
import os
import sys
from vlib.core import same, need
from vlib.t import outcome, write

RULE = ('Chains of 2-6 classes, each a template or a pure Python class, with '
        'methods, blocks, attributes, main methods and super calls drawn at '
        'random; connected by subclass(), baseclass=, or extends directives '
        'over generated modules on disk. Every class of the chain is '
        'rendered and every method called. Distinct: chain of link kinds and '
        'which members are overridden or reached by super.')
TECHNIQUE = ('reference monitor: the chain is mirrored as plain Python '
             'classes, and every member of every class gives the same text '
             'in both')
LEVEL_NOTE = ('Single inheritance, as documented; class bodies are sampled.')
REQUIRED = {'members compared': 2000, 'super reached': 200}
DESIGN = ('The mirror builds each class with type(name, (previous,), '
          'members), where a member concatenates the same pieces (text, '
          'calls through self, attribute reads, super calls with arguments) '
          'that the template source spells; blocks are a call plus a '
          'method; the main method is the text outside definitions.')
METHODS = ['m0', 'm1', 'm2', 'm3', 'm4']
BLOCKS = ['b0', 'b1', 'b2']
ATTRS = ['a0', 'a1', 'a2']
ORDER = dict((n, i) for i, n in enumerate(
    ['respond', 'writeBody', 'page', 'm0', 'm1', 'm2', 'm3', 'm4', 'b0',
     'b1', 'b2']))
SIG = {'m0': [], 'm1': ['x'], 'm2': ['x', 'y'], 'm3': [], 'm4': ['x']}


class Link(object):
    pass


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.feat = set()

    def word(self):
        self.n += 1
        return 'w%d' % self.n

    def pieces(self, name, known, depth=0):
        """body of a member; known: names of members callable"""
        out = []
        args = SIG.get(name, [])
        for _ in range(self.rng.randint(1, 4)):
            k = self.rng.random()
            if k < .35:
                out.append(('text', self.word()))
            elif k < .6:
                c = [m for m in known['m'] if ORDER[m] > ORDER.get(name, -1)]
                if c:
                    m = self.rng.choice(c)
                    out.append(('call', m, self.args(m, args)))
            elif k < .72 and known['a']:
                out.append(('attr', self.rng.choice(sorted(known['a']))))
            elif k < .85 and args:
                out.append(('arg', self.rng.choice(args)))
            elif name in known['sup']:
                style, a = self.args(name, args)
                if any(v[0] == 'lit' for _, v in a):
                    # the directive takes literals by keyword only
                    style = 'kw'
                out.append(('super', name, (style, a)))
                self.feat.add('super')
        return out

    def args(self, m, mine):
        a = []
        for p in SIG.get(m, []):
            r = self.rng.random()
            if r < .3:
                break       # the rest take their defaults
            if mine and r < .6:
                a.append((p, ('arg', self.rng.choice(mine))))
            else:
                a.append((p, ('lit', self.word())))
        style = self.rng.choice(['pos', 'kw'])
        return style, a

    def link(self, i, kind, inherited, main_avail):
        rng = self.rng
        ln = Link()
        ln.i, ln.kind = i, kind
        ln.members, ln.attrs, ln.main, ln.mainpieces = [], [], None, []
        pool = METHODS + (BLOCKS if kind == 'tmpl' else [])
        mine = [m for m in pool if rng.random() < .4]
        known = {'m': sorted(set(inherited['m']) | set(mine)),
                 'a': set(inherited['a']), 'sup': set(inherited['m'])}
        for a in ATTRS:
            if rng.random() < .35:
                ln.attrs.append((a, self.word()))
                known['a'].add(a)
        if ln.attrs and rng.random() < .2:
            # given twice: the last one counts, as in a class body
            ln.attrs.append((rng.choice(ln.attrs)[0], self.word()))
            self.feat.add('attr-twice')
        asdef = [b for b in mine if b in BLOCKS and b in inherited['m']
                 and rng.random() < .5]
        for m in mine:
            if m in BLOCKS and m not in asdef:
                continue
            d = [(p, self.word()) for p in SIG.get(m, [])]
            ln.members.append((m, d, self.pieces(m, known)))
            if m in inherited['m']:
                self.feat.add('override-' + ('t' if kind == 'tmpl' else 'p'))
        if kind == 'tmpl':
            ln.blocks = []
            body = self.pieces('main', known)
            for b in mine:
                if b in BLOCKS and b not in asdef:
                    bp = [p for p in self.pieces(b, known)]
                    ln.blocks.append((b, bp))
                    body.insert(rng.randint(0, len(body)), ('block', b, bp))
                    if b in inherited['m']:
                        self.feat.add('override-block')
            ln.mainpieces = body
        ln.known = known
        ln.doc = rng.random() < .2
        return ln


# --- mirror in plain Python ------------------------------------------------

def mirror(cls_box, name, defaults, pieces, tail):
    def fn(self, *pos, **kw):
        vals = dict(defaults)
        for (p, _), v in zip(defaults, pos):
            vals[p] = v
        vals.update(kw)
        vals.pop('trans', None)
        return ev(self, cls_box[0], vals, pieces) + tail
    fn.__name__ = name
    return fn


def ev(self, cls, vals, pieces):
    out = []
    for p in pieces:
        if p[0] == 'text':
            out.append(p[1])
        elif p[0] == 'arg':
            out.append(str(vals[p[1]]))
        elif p[0] == 'attr':
            out.append(str(getattr(self, p[1])))
        elif p[0] in ('call', 'super'):
            style, a = p[2]
            av = [(n, vals[v[1]] if v[0] == 'arg' else v[1]) for n, v in a]
            obj = self if p[0] == 'call' else super(cls, self)
            if style == 'pos':
                out.append(getattr(obj, p[1])(*[v for _, v in av]))
            else:
                out.append(getattr(obj, p[1])(**dict(av)))
        elif p[0] == 'block':
            out.append(getattr(self, p[1])())
    return ''.join(out)


def members_of(ln, box, template):
    d = {}
    for a, v in ln.attrs:
        d[a] = v
    for m, defaults, pieces in ln.members:
        d[m] = mirror(box, m, defaults, pieces, '\n' if template else '')
    if template:
        for b, pieces in ln.blocks:
            d[b] = mirror(box, b, [], pieces, '\n')
        d[ln.main] = mirror(box, ln.main, [], ln.mainpieces, '\n')
    return d


# --- template source -------------------------------------------------------

def argsrc(style, a):
    out = []
    for n, v in a:
        s = '$' + v[1] if v[0] == 'arg' else repr(v[1])
        out.append(s if style == 'pos' else '%s=%s' % (n, s))
    return ', '.join(out)


def source(ln, rng):
    blocks = dict(ln.blocks)

    def render(pieces):
        out = []
        for p in pieces:
            if p[0] == 'text':
                out.append(p[1])
            elif p[0] in ('arg', 'attr'):
                out.append(rng.choice(['${%s}', '${self.%s}'])
                           % p[1] if p[0] == 'attr' else '${%s}' % p[1])
            elif p[0] == 'call':
                a = argsrc(*p[2])
                if a or rng.random() < .5:
                    a = '(%s)' % a
                out.append('${%s%s%s}' % (rng.choice(['', 'self.']), p[1], a))
            elif p[0] == 'super':
                out.append('#super(%s)#' % argsrc(*p[2]))
            elif p[0] == 'block':
                # content ends with its own newline
                out.append('#block %s#%s\n#end block#' % (
                    p[1], render(blocks[p[1]])))
        return ''.join(out)
    parts = []
    for a, v in ln.attrs:
        parts.append('#attr %s = %r\n' % (a, v))
    for m, defaults, pieces in ln.members:
        sig = ', '.join('%s%s=%r' % (rng.choice(['', '$']), p, v)
                        for p, v in defaults)
        parts.append('#def %s%s\n%s\n#end def\n' % (
            m, '(%s)' % sig if sig or rng.random() < .5 else '',
            render(pieces)))
    rng.shuffle(parts)
    at = [i for i, q in enumerate(parts) if q.startswith('#attr ')]
    for i, (a, v) in zip(at, ln.attrs):     # the attributes keep their order
        parts[i] = '#attr %s = %r\n' % (a, v)
    # definitions may stand before, or after the text outside them
    cut = rng.randint(0, len(parts))
    body = render(ln.mainpieces) + '\n'
    return ''.join(parts[:cut]) + body + ''.join(parts[cut:])


def pysource(ln, name, base, imports):
    """a pure Python link as a module"""
    out = [imports, 'class %s(%s):' % (name, base)]
    for a, v in ln.attrs:
        out.append('    %s = %r' % (a, v))

    def expr(p):
        if p[0] == 'text':
            return repr(p[1])
        if p[0] == 'arg':
            return 'str(%s)' % p[1]
        if p[0] == 'attr':
            return 'str(self.%s)' % p[1]
        style, a = p[2]
        av = ', '.join(('' if style == 'pos' else n + '=')
                       + (v[1] if v[0] == 'arg' else repr(v[1]))
                       for n, v in a)
        obj = 'self' if p[0] == 'call' else 'super(%s, self)' % name
        return '%s.%s(%s)' % (obj, p[1], av)
    for m, defaults, pieces in ln.members:
        out.append('    def %s(self%s, trans=None):' % (m, ''.join(
            ', %s=%r' % d for d in defaults)))
        out.append('        return "".join([%s])' % ', '.join(
            expr(p) for p in pieces))
    out.append('    pass')
    return '\n'.join(out) + '\n'


def chain(ctx, rng, disk):
    from Cheetah.Template import Template
    g = Gen(rng)
    n = rng.randint(2, 6)
    uid = 'c14_%d_%d_%d_' % (os.getpid(), ctx.index, disk)
    tmp = ctx.tmp('mods%d' % ctx.index) if disk else None
    kinds = []
    inherited = {'m': [], 'a': set()}
    real, mir = Template, object
    mirrors, reals, srcs, mains = [], [], [], []
    rootmain = None
    added = False
    try:
        for i in range(n):
            kind = 'tmpl' if i == n - 1 and 'tmpl' not in kinds else \
                rng.choice(['tmpl', 'tmpl', 'py'])
            ln = g.link(i, kind, inherited, mains)
            cname = uid + 'K%d' % i
            box = [None]
            if kind == 'py':
                if disk:
                    base = ('Template' if i == 0 else uid + 'K%d' % (i - 1))
                    imp = ('from Cheetah.Template import Template'
                           if i == 0 else 'from %s import %s' % (base, base))
                    src = pysource(ln, cname, base, imp)
                    write(os.path.join(tmp, cname + '.py'), src)
                else:
                    src = pysource(ln, cname, 'Base', '')
                    ns = {'Base': real}
                    exec(src, ns)
                    real = ns[cname]
                how = 'py'
            else:
                kw = {'className': cname}
                body = source(ln, rng)
                want_main = rng.choice([None, None, None, 'arg', 'impl'])
                if disk:
                    how = rng.choice(['extends', 'from']) if i else 'root'
                    ln.main = 'writeBody' if i else 'respond'
                    b = uid + 'K%d' % (i - 1)
                    head = ''
                    if how == 'extends':
                        head = '#extends %s\n' % b
                    elif how == 'from':
                        head = '#from %s import %s\n#extends %s\n' % (b, b, b)
                    if how != 'root':
                        body = head + body
                else:
                    how = rng.choice(['subclass', 'baseclass']) if i \
                        else 'root'
                    ln.main = 'respond'
                if want_main:
                    ln.main = rng.choice(['page', 'respond', 'writeBody'])
                    if want_main == 'arg':
                        kw['mainMethodName'] = ln.main
                    else:
                        body = '#implements %s\n' % ln.main + body \
                            if not disk or not i else \
                            head + '#implements %s\n' % ln.main \
                            + body[len(head):]
                src = body
                if rng.random() < .3:
                    kw['cacheCompilationResults'] = False
                if disk:
                    code = Template.compile(
                        src, moduleName=cname, returnAClass=False, **kw)
                    write(os.path.join(tmp, cname + '.py'), code)
                elif how == 'root':
                    real = Template.compile(src, **kw)
                elif how == 'subclass' and hasattr(real, 'subclass'):
                    real = real.subclass(src, **kw)
                else:
                    real = Template.compile(src, baseclass=real, **kw)
                if rootmain is None:
                    rootmain = ln.main
            if disk:
                if not added:
                    sys.path.insert(0, tmp)
                    added = True
                importlib.invalidate_caches()
                real = getattr(importlib.import_module(cname), cname)
            kinds.append(kind)
            d = members_of(ln, box, kind == 'tmpl')
            mir = type(cname, (mir,), d)
            box[0] = mir
            srcs.append((how, src))
            inherited['m'] = sorted(set(inherited['m']) | set(
                m for m in d if m in ORDER and m[0] in 'mb'))
            inherited['a'] |= set(a for a, _ in ln.attrs)
            reals.append(real)
            mirrors.append((mir, rootmain))
        # every class is checked after the whole chain exists
        order = list(range(n))
        rng.shuffle(order)
        for i in order:
            mcls, rm = mirrors[i]
            t, m = reals[i](), mcls()
            need(isinstance(t, Template), 'not a template', key='isinstance')
            same(reals[i].__name__, mcls.__name__, 'class name', key='name')
            if i:
                need(issubclass(reals[i], reals[i - 1]), 'the chain is '
                     'broken', key='issubclass')
            if rm:
                same(outcome(lambda: str(t)),
                     outcome(lambda: getattr(m, rm)()),
                     'class %d of the chain renders differently' % i,
                     key='main', chain=kinds, srcs=srcs)
                ctx.count('classes rendered')
            for name in sorted(set(dir(m)) & set(ORDER)):
                args = [g.word() for _ in range(rng.randint(
                    0, len(SIG.get(name, []))))]
                same(outcome(lambda: getattr(t, name)(*args)),
                     outcome(lambda: getattr(m, name)(*args)),
                     'member %s of class %d differs' % (name, i),
                     key='member', chain=kinds, srcs=srcs)
                ctx.count('members compared')
            for a in ATTRS:
                same(getattr(t, a, None), getattr(m, a, None),
                     'attribute %s of class %d' % (a, i), key='attr',
                     srcs=srcs)
    finally:
        if added:
            sys.path.remove(tmp)
    ctx.count('super reached', 1 if 'super' in g.feat else 0)
    ctx.saw((disk, tuple(kinds), tuple(sorted(g.feat)),
             tuple(h for h, _ in srcs)))
    ctx.sample({'chain': kinds, 'how': [h for h, _ in srcs],
                'last': srcs[-1][1]}, limit=3)


def dynamic(ctx, rng):
    chain(ctx, rng, 0)


def modules(ctx, rng):
    chain(ctx, rng, 1)


STARTS = [('[', '>'), ('<!-- ', ' -->'), ('', ''), ('\n<s ', '>\n'),
          ('${', '}'), ("'", '"'), ('#', '\\')]


def marked(ctx, rng):
    """includeBlockMarkers: each block, wherever it is rendered from, is
    between the markers of the template that defines it"""
    from Cheetah.Template import Template
    names = ['b%d' % i for i in range(rng.randint(1, 5))]
    feats = set()

    def block(pool, depth):
        name = pool.pop()
        if rng.random() < .3:
            body = rng.choice(['x', '$a y', 'é', '"q"'])
            feats.add(('line', depth))
            return (name, '#block %s: %s\n' % (name, body),
                    [body.replace('$a', 'A')])
        src, out = '', []
        for i in range(rng.randint(0, 3)):
            if pool and depth < 3 and rng.random() < .5:
                n, s, o = block(pool, depth + 1)
                defs[n] = o
                src += s
                out.append((n,))
                feats.add(('in', depth))
            else:
                w = rng.choice(['w', '$a', '%'])
                src += w + '\n'
                out.append(w.replace('$a', 'A') + '\n')
        src = '#block %s\n%s#end block%s\n' % (
            name, src, rng.choice(['', ' ' + name]))
        return name, src, out

    meaning, cls, srcs = {}, None, []
    main = None
    for level in range(rng.choice([1, 1, 2, 3])):
        on = rng.random() < .8
        start, end = rng.choice(STARTS), rng.choice(STARTS)
        cs = {'includeBlockMarkers': on}
        if rng.random() < .7:
            cs.update(blockMarkerStart=start, blockMarkerEnd=end)
        else:
            start = ('\n<!-- START BLOCK: ', ' -->\n')
            end = ('\n<!-- END BLOCK: ', ' -->\n')
        defs = {}
        pool = rng.sample(names, rng.randint(1, len(names)))
        src, out = '', []
        while pool:
            if level and rng.random() < .3:
                # an ordinary method in place of a block has no markers
                n = pool.pop()
                src += '#def %s\nD\n#end def\n' % n
                meaning[n] = (['D\n'], ('', ''), ('', ''), '', '')
                feats.add('def')
                continue
            n, s, o = block(pool, 0)
            defs[n] = o
            src += s
            out.append((n,))
        for n, o in defs.items():
            if on:
                meaning[n] = (o, start, end, n, n)
            else:
                meaning[n] = (o, ('', ''), ('', ''), '', '')
        main = out
        cls = (Template.compile(src, compilerSettings=cs) if not level else
               cls.subclass(src, compilerSettings=cs))
        srcs.append((src, cs))

    def text(parts):
        r = ''
        for q in parts:
            if isinstance(q, tuple):
                o, a, b, n1, n2 = meaning[q[0]]
                q = a[0] + n1 + a[1] + text(o) + b[0] + n2 + b[1]
            r += q
        return r

    same(outcome(lambda: str(cls(searchList=[{'a': 'A'}]))),
         ('ok', text(main)), 'block markers', key='markers', srcs=srcs)
    ctx.count('marked templates')
    ctx.saw(('marked', len(srcs), tuple(sorted(map(str, feats))),
             srcs[-1][0]))


SCENARIOS = [
    ('dynamic', dynamic, 1500, 20000),
    ('marked', marked, 600, 10000),
    ('modules', modules, 400, 4000),
]
