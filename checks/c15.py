"""C15: includes insert exactly the included content."""
import os
from vlib.core import same
from vlib.t import compile_, outcome, write

RULE = ('Random trees of documents (files in several directories, strings, '
        'raw or parsed, chosen by literal, variable, loop variable, call or '
        'expression) with local and global assignments on both sides of '
        'every include, rendered repeatedly with changing arguments. '
        'Distinct: include forms, the regions they stand in, and endings.')
TECHNIQUE = ('reference-interpreter monitor over include trees, checked '
             'against the contents written to disk, along several '
             'renderings of one instance')
LEVEL_NOTE = ('A file is not edited between renderings of one instance (an '
              'instance keeps the include it has already resolved).')
REQUIRED = {'includes executed': 3000, 'raw includes': 300}
DESIGN = ('The model interprets the same document trees: an include '
          'evaluates with a fresh local scope, the includer\'s global '
          'variables and search list; raw content is copied; stop ends only '
          'the document it stands in; exceptions propagate.')
NAMES = ['n0', 'n1', 'n2', 'n3']
RAWS = ['raw $n0 #if 1#x#end if# ## c\n', '$nope #end for\n', '', '\\$x\n',
        '#include "zzz"\n', 'caf\xe9 <&> \u4e2d $n0', '  lead\n trail  ',
        '#slurp\nx', "'''\"\"\"\\n", '${', '#* open']


class Stop(Exception):
    pass


class Boom(Exception):
    pass


class Gen(object):
    def __init__(self, rng, tmp, ndocs):
        self.rng, self.tmp = rng, tmp
        self.docs = []
        self.feat = set()
        self.words = 0
        for i in range(ndocs):
            self.docs.append(None)
        # later documents first, so that earlier ones may include them
        for i in reversed(range(ndocs)):
            self.docs[i] = self.doc(i)

    def word(self):
        self.words += 1
        return 'w%d' % self.words

    def doc(self, i):
        rng = self.rng
        d = {'i': i}
        if i and rng.random() < .25:
            d['raw'] = rng.choice(RAWS)
            src = d['raw']
            d['rawonly'] = True
        else:
            d['rawonly'] = False
            d['defs'] = []
            nodes = self.body(i, 2, False)
            if rng.random() < .3:
                name = 'd%d' % i
                d['defs'].append((name, self.body(i, 1, True)))
                nodes.insert(rng.randint(0, len(nodes)), ('calldef', name))
            d['nodes'] = nodes
            src = ''
            for name, body in d['defs']:
                src += '#def %s\n%s#end def\n' % (name, self.src(body))
            src += self.src(nodes)
            if rng.random() < .4:
                src += 'END%d' % i
                d['nodes'] = nodes + [('text', 'END%d' % i)]
        d['src'] = src
        n = rng.choice(['f%d.tmpl', 'sub/f%d.inc', 'sub/../f%d.txt',
                        'with space %d.tmpl', 'n\xe9m\u4e2d%d.tmpl',
                        'raw%d.tmpl', 'source%d'])
        p = os.path.join(self.tmp, n % i)
        if 'sub/' in n:
            os.makedirs(os.path.join(self.tmp, 'sub'), exist_ok=True)
        write(p, src)
        # a relative spelling of the same file
        d['paths'] = [p, p, os.path.relpath(p), p.replace('/', '\\')
                      if rng.random() < .2 else p]
        return d

    def body(self, i, depth, indef):
        return [self.node(i, depth, indef)
                for _ in range(self.rng.randint(1, 4))]

    def node(self, i, depth, indef):
        rng = self.rng
        r = rng.random()
        last = len(self.docs) - 1
        if r < .3 and i < last:
            return self.inc(i)
        if r < .42:
            return ('text', self.word() + '\n')
        if r < .55:
            return ('var', rng.choice(NAMES))
        if r < .65:
            return ('set', rng.choice(NAMES), '<' + self.word())
        if r < .76:
            return ('setg', rng.choice(NAMES), '&' + self.word())
        if r < .78 and not indef:
            return ('stopif', rng.choice([True, False]))
        if r < .8:
            return ('boomif', rng.random() < .4)
        if depth:
            k = rng.choice(['for', 'if', 'capture', 'call', 'filter', 'try',
                            'cacheless'])
            self.feat.add('in-' + k)
            if k == 'for':
                # the loop variable selects what is included
                if i < last:
                    js = [rng.randint(i + 1, last)
                          for _ in range(rng.randint(1, 3))]
                    raw = any(self.docs[j]['rawonly'] for j in js) or \
                        rng.random() < .2
                    kind = rng.choice(['p', 's'])
                    self.feat.add('loopvar-' + kind + ('r' if raw else ''))
                    return ('forinc', js, raw, kind)
            return (k, self.body(i, depth - 1, indef))
        return ('text', self.word() + '\n')

    def inc(self, i):
        rng = self.rng
        j = rng.randint(i + 1, len(self.docs) - 1)
        d = self.docs[j]
        raw = d['rawonly'] or rng.random() < .2
        src = d['src']
        form = rng.choice(['file-var', 'file-lit', 'src-var', 'src-lit',
                           'file-expr', 'src-expr', 'file-call', 'src-call',
                           'file-obj'])
        if form == 'src-lit' and ('\n' in src or not src or '\r' in src):
            form = 'src-var'
        if src == '' and form.startswith('src') and not raw:
            form = 'file-var'
        if raw and form == 'file-obj':
            form = 'file-var'
        inline = rng.random() < .4
        self.feat.add(form + ('-raw' if raw else '')
                      + ('-inline' if inline else ''))
        return ('inc', j, raw, form, inline, rng.randrange(4))

    # source text
    def incsrc(self, n):
        _, j, raw, form, inline, v = n
        d = self.docs[j]
        p = d['paths'][v]
        e = {'file-var': '$p%d' % j, 'file-lit': repr(p),
             'src-var': '$s%d' % j, 'src-lit': repr(d['src']),
             'file-expr': '$p%d[:3] + $p%d[3:]' % (j, j),
             'src-expr': '("%%s" %% $s%d)' % j,
             'file-call': '$pathOf(%d)' % j, 'src-call': '$srcOf(%d)' % j,
             'file-obj': '$fileObj(%d)' % j}[form]
        sp = self.rng.choice(['', ' '])
        if form.startswith('src'):
            e = 'source%s=%s%s' % (sp, sp, e)
        tag = '#include %s%s' % ('raw ' if raw else '', e)
        return '<%s#>' % tag if inline else tag + '\n'

    def src(self, nodes):
        out = []
        for n in nodes:
            k = n[0]
            if k == 'text':
                out.append(n[1])
            elif k == 'var':
                out.append('[$%s]\n' % n[1])
            elif k == 'set':
                out.append("#set $%s = '%s'\n" % (n[1], n[2]))
            elif k == 'setg':
                out.append("#set global $%s = '%s'\n" % (n[1], n[2]))
            elif k == 'inc':
                out.append(self.incsrc(n))
                if n[4]:
                    out.append('\n')
            elif k == 'forinc':
                _, js, raw, kind = n
                lst = ', '.join('$%s%d' % (kind, j) for j in js)
                out.append('#for $it in [%s]\n#include %s%s$it\n#end for\n' % (
                    lst, 'raw ' if raw else '', 'source=' if kind == 's'
                    else ''))
            elif k == 'calldef':
                out.append('$%s\n' % n[1])
            elif k == 'stopif':
                out.append('#if %r\n#stop\n#end if\n' % n[1])
            elif k == 'boomif':
                out.append('#if %r and $armed\n#silent $boom()\n#end if\n'
                           % n[1])
            elif k in ('if', 'cacheless'):
                out.append('#if 1\n%s#end if\n' % self.src(n[1]))
            elif k == 'for':
                out.append('#for $it in (1, 2)\n%s#end for\n'
                           % self.src(n[1]))
            elif k == 'capture':
                out.append('#capture cap\n%s#end capture\n{$cap}\n'
                           % self.src(n[1]))
            elif k == 'call':
                out.append('#call $wrap\n%s#end call\n' % self.src(n[1]))
            elif k == 'filter':
                out.append('#filter WebSafe\n%s#end filter\n'
                           % self.src(n[1]))
            elif k == 'try':
                out.append('#try\n%s#except $Boom\nCAUGHT\n#end try\n'
                           % self.src(n[1]))
        return ''.join(out)


def websafe(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


class Model(object):
    def __init__(self, g, sl, initial):
        self.initial = initial
        self.g, self.sl = g, sl
        self.globals = {}
        self.armed = False
        self.flt = initial
        self.n = self.nraw = 0

    def look(self, loc, name):
        if name in loc:
            return loc[name]
        if name in self.globals:
            return self.globals[name]
        return self.sl[name]

    def doc(self, i):
        d = self.g.docs[i]
        out = []
        try:
            self.run(d['nodes'], {}, out, d)
        except Stop:
            pass
        except Boom as e:
            e.out = out + getattr(e, 'out', [])
            raise
        return out

    def include(self, j, raw, out):
        d = self.g.docs[j]
        self.n += 1
        if raw:
            self.nraw += 1
            out.append(d['src'])
        else:
            # what an included document wrote before failing stays
            sub = []
            old, self.flt = self.flt, self.initial
            try:
                self.run(d['nodes'], {}, sub, d)
            except Stop:
                pass
            finally:
                self.flt = old
                out.extend(sub)

    def run(self, nodes, loc, out, d):
        for n in nodes:
            k = n[0]
            if k == 'text':
                out.append(n[1])
            elif k == 'var':
                out.append('[%s]\n' % self.flt(self.look(loc, n[1])))
            elif k == 'set':
                loc[n[1]] = n[2]
            elif k == 'setg':
                self.globals[n[1]] = n[2]
            elif k == 'inc':
                if n[4]:
                    out.append('<')
                self.include(n[1], n[2], out)
                if n[4]:
                    out.append('>\n')
            elif k == 'forinc':
                for j in n[1]:
                    self.include(j, n[2], out)
            elif k == 'calldef':
                sub = []
                self.run(dict(d['defs'])[n[1]], {}, sub, d)
                out.append(self.flt(''.join(sub)) + '\n')
            elif k == 'stopif':
                if n[1]:
                    raise Stop()
            elif k == 'boomif':
                if n[1] and self.armed:
                    raise Boom()
            elif k in ('if', 'cacheless'):
                self.run(n[1], loc, out, d)
            elif k == 'filter':
                # placeholders and call results are filtered, includes not
                old, self.flt = self.flt, websafe
                try:
                    self.run(n[1], loc, out, d)
                finally:
                    self.flt = old
            elif k == 'for':
                for _ in (1, 2):
                    self.run(n[1], loc, out, d)
            elif k == 'capture':
                sub = []
                self.run(n[1], loc, sub, d)
                out.append('{%s}\n' % self.flt(''.join(sub)))
            elif k == 'call':
                sub = []
                self.run(n[1], loc, sub, d)
                out.append('(%s)' % self.flt(''.join(sub)))
            elif k == 'try':
                try:
                    self.run(n[1], loc, out, d)
                except Boom:
                    out.append('CAUGHT\n')


def has_stop_in(nodes, inside=False):
    """#stop inside a capture or call body is a known finding of C08"""
    for n in nodes:
        if n[0] == 'stopif' and n[1] and inside:
            return True
        if n[0] in ('if', 'cacheless', 'filter', 'for', 'try') and \
                has_stop_in(n[1], inside):
            return True
        if n[0] in ('capture', 'call') and has_stop_in(n[1], True):
            return True
    return False


def tree(ctx, rng):
    tmp = ctx.tmp('d%d' % ctx.index)
    g = Gen(rng, tmp, rng.randint(2, 6))
    docs = g.docs
    if docs[0]['rawonly'] or any(
            not d['rawonly'] and (has_stop_in(d['nodes']) or any(
                has_stop_in(b) for _, b in d['defs'])) for d in docs):
        ctx.saw()
        return
    base = dict((n, 'S' + n) for n in NAMES)

    def boom():
        raise Boom()
    ns = dict(base, boom=boom, armed=False, Boom=Boom,
              wrap=lambda s: '(' + s + ')',
              pathOf=lambda j: docs[j]['paths'][0],
              srcOf=lambda j: docs[j]['src'],
              fileObj=lambda j: open(docs[j]['paths'][0],
                                     encoding='utf-8', newline=''))
    for d in docs:
        ns['p%d' % d['i']] = rng.choice(d['paths'])
        ns['s%d' % d['i']] = d['src']
    safe = rng.random() < .3
    model = Model(g, base, websafe if safe else str)
    kw = {'filter': 'WebSafe'} if safe else {}
    cls = compile_(docs[0]['src']) if rng.random() < .7 else None
    if cls is None:
        from Cheetah.Template import Template
        t = Template(file=docs[0]['paths'][0], searchList=[ns],
                     **kw)
    else:
        t = cls(searchList=[ns], **kw)
    for n in range(3):
        model.armed = ns['armed'] = rng.random() < .3
        want = outcome(lambda: ''.join(model.doc(0)))
        got = outcome(lambda: str(t))
        if want[0] == 'raised':
            same(got[:2], want[:2], 'rendering %d ends differently' % n,
                 key='ending', src=docs[0]['src'])
        else:
            same(got, want, 'rendering %d of the include tree differs' % n,
                 key='output', docs=[(d['paths'][0], d['src'])
                                     for d in docs], form=sorted(g.feat))
        ctx.count('ended ' + want[0])
    ctx.count('includes executed', model.n)
    ctx.count('raw includes', model.nraw)
    for f in g.feat:
        ctx.count('form:' + f)
    ctx.saw((tuple(sorted(g.feat)), want[0]) if model.n else None)
    ctx.sample({'docs': [d['src'] for d in docs]}, limit=3)


def arguments(ctx, rng):
    """One include site, other arguments on every rendering."""
    tmp = ctx.tmp('a%d' % ctx.index)
    k = 5
    paths, srcs = [], []
    if rng.random() < .4:
        # long names with everything but the end in common
        tmp = os.path.join(tmp, 'd' * 100)
        os.makedirs(tmp, exist_ok=True)
    pad = rng.choice(['', '', 'p' * 300])
    for i in range(k):
        srcs.append(pad + '%d:$x %s' % (i, rng.choice(['', '#if 1#q#end if#',
                                                 '$m'])) + ' ' + pad)
        paths.append(write(os.path.join(tmp, 'f%d' % i), srcs[-1]))
    # a string naming a file, and a file holding that name
    srcs.append(paths[0])
    paths.append(write(os.path.join(tmp, 'names'), paths[1]))
    site = rng.choice(['#include $a', '#include source=$a',
                       '#include raw $a', '#include raw source=$a',
                       '#include $a\n#include raw $a\n#include source=$a\n'
                       '#include raw source=$a'])
    form = rng.choice(['main', 'def', 'for'])
    src = {'main': site, 'def': '#def q\n%s\n#end def\n$q' % site,
           'for': '#for $i in (1, 2)\n%s\n#end for' % site}[form]
    ns = {'x': 1, 'm': 'M'}
    t = compile_(src)(searchList=[ns])

    def text(i, kind):
        s = srcs[i] if kind.startswith('s') else \
            open(paths[i]).read()
        if kind.endswith('r'):
            return s
        return s.replace('$x', str(ns['x'])).replace(
            '#if 1#q#end if#', 'q').replace('$m', 'M')
    for n in range(8):
        i = rng.randrange(len(paths))
        ns['x'] = n
        if 'raw $a\n' in site:
            # the same argument as file name and as source
            ns['a'] = paths[i]
            want = text(i, 'f') + text(i, 'fr') + paths[i] + paths[i]
        else:
            src_ = 'source' in site
            ns['a'] = srcs[i] if src_ else paths[i]
            want = text(i, ('s' if src_ else 'f')
                        + ('r' if 'raw' in site else ''))
        if form == 'for':
            want *= 2
        got = str(t)
        same(got, want, 'an include was not resolved from its own arguments',
             key='argument', site=site, form=form, n=n)
        ctx.count('includes executed')
        ctx.saw((site, form, i, n))


def recursion(ctx, rng):
    tmp = ctx.tmp('r%d' % ctx.index)
    p = os.path.join(tmp, 'self.tmpl')
    depth = rng.randint(1, 12)
    write(p, '#set global $lvl = $lvl + 1\n<$lvl#if $lvl < $max#'
          '#include $me##end if#>')
    t = compile_('#set global $lvl = 0\n#include $me\n$lvl')(
        searchList=[{'me': p, 'max': depth}])
    # the level is global: closing parts see the last one
    want = ''.join('<%d' % (i + 1) for i in range(depth)) + '>' * depth
    for _ in range(2):
        same(str(t).replace('\n', ''), want + str(depth), 'a file including '
             'itself', key='recursion', depth=depth)
    ctx.saw(('rec', depth))
    ctx.count('includes executed', depth)


def sees(ctx, rng):
    """What crosses an include, and what does not."""
    inc = ('$a|$self.tag|$getVar("g","-")|$varExists("loc")|'
           '#set $loc = 9\n#set global $g = $a + "!"\n#set $a = "in"\n$a')
    src = ('#attr tag = "outer"\n#set $loc = 1\n#set $a = "local"\n'
           '$helper|#include source=$inc\n|$a|$loc|$g|'
           '#def helper\nH#end def\n#include source="$helper"\n')
    sl = [{'a': 'sl', 'inc': inc}]
    t = compile_(src)(searchList=sl)
    a = outcome(lambda: str(t))
    from Cheetah.Template import Template
    # the included template has its own self; the includer's attributes are
    # reached by name
    want = None
    need_ok = a[0] == 'raised' and a[1] in ('AttributeError', 'NotFound')
    same(need_ok, True, 'the included template sees the local or class '
         'scope of the includer', key='self', is_=repr(a))
    inc = inc.replace('$self.tag', '$tag')
    t = compile_(src)(searchList=[{'a': 'sl', 'inc': inc}])
    for n in range(2):
        want = ('H|sl|outer|%s|False|in|local|1|sl!|H'
                % ('-' if n == 0 else 'sl!'))
        same(str(t).replace('\n', ''), want, 'scopes of an include',
             key='scope', n=n)
    # class-level settings of the template API class reach includes

    class Api(Template):
        _CHEETAH_compilerSettings = {'cheetahVarStartToken': '@'}
    k = Api.compile('@a #include source="@a $a"', cacheCompilationResults=rng
                    .random() < .5)
    ctx.saw(('sees', str(k(searchList=[{'a': 1}]))[:1]))


SCENARIOS = [
    ('tree', tree, 2500, 30000),
    ('arguments', arguments, 300, 2000),
    ('recursion', recursion, 12, 24),
    ('sees', sees, 4, 8),
]
