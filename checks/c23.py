"""C23: a generated module is a faithful form of the template."""
import ast
import importlib
import json
import os
import pickle
import random
import re
import subprocess
import sys
import types

from vlib.core import need, same
from vlib.t import compile_, write, outcome
from vlib import gen, pyprog

RULE = ('Random programs of the C05 grammars and of a feature grammar '
        '(methods, blocks, attributes, filters, caches, inheritance between '
        'generated modules, imports, module variables, docstrings, closures), '
        'compiled to module text with random names, base classes, main '
        'methods, interpreter lines and encodings, then imported in child '
        'processes with other hash seeds; the module command line with random '
        'option sequences and data files. Distinct: features, options.')
TECHNIQUE = ('differential monitor: dynamically compiled class in this process '
             'against the imported module in a child, output and evaluation '
             'log; reference model for the module command line')
LEVEL_NOTE = ('Error values are compared by type and message. Generated code '
              'is compared after masking numbers of five or more digits and '
              'dates, which is where timestamps and identifiers appear.')
REQUIRED = {'child_renders': 800, 'same_code': 800, 'names': 600,
            'cmdline': 40, 'docs': 300}
DESIGN = ('The child regenerates the data from the case\'s seed, imports the '
          'module from the file, fills it and sends back outcome, log and '
          'the code it gets by compiling the definition itself, which must '
          'equal the parent\'s. Names, bases, main method, docstrings and '
          'attributes are read from the imported module, never from its text.')
CPU = 40

MASK = re.compile(r'\d{5,}(?:\.\d+)?|(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z]{2} +\d+ '
                  r'\d+:\d+:\d+ \d{4}')


def mask(code):
    code = code.decode('utf-8', 'replace') if isinstance(code, bytes) else code
    return MASK.sub('N', code)


# --------------------------------------------------- a grammar of features

class Feature(object):
    """A template that uses many kinds of definitions; no oracle needed."""

    def __init__(self, rng, prefix=''):
        self.r = rng
        self.top, self.body = [], []
        self.n = 0
        self.kinds = set()
        self.prefix = prefix

    def name(self, p):
        self.n += 1
        return '%s%s%d' % (self.prefix, p, self.n)

    def word(self):
        return ''.join(self.r.choice('abcXYZ 019_-.>&"\'\\é漢%{}') for _ in
                       range(self.r.randint(1, 8))).replace('\\', '/').replace('<%', '<')

    def expr(self):
        return self.r.choice(['$n1', '$s1', '$d1.a', '$d1["b"].c', '$f0',
                              '$num(2, 3)', '$o1.txt', '$o1.meth(5)', '$cob',
                              "$str('%s')" % self.word().replace("'", ''),
                              '$len($l1)', '${n2 + 1}', '$none', '$l1[0]'])

    def inner(self):
        # no ${} inside an expression
        return self.r.choice(['$n1', '$s1', '$d1.a', '$f0', '$num(2, 3)',
                              '[$n1, $n2]', '$n2 + 1', '$none'])

    def line(self):
        return '%s%s %s\n' % (self.word().strip() or 'x', ' ', self.expr())

    def lines(self):
        return ''.join(self.line() for _ in range(self.r.randint(1, 3)))

    def add(self):
        k = self.r.choice(['def', 'def', 'block', 'attr', 'filter', 'cache',
                           'capture', 'import', 'from', 'module', 'setg',
                           'text', 'for', 'if', 'closure', 'defsig', 'try',
                           'doc', 'comment', 'psp', 'raw', 'include', 'static',
                           'klass', 'call', 'errc', 'decor', 'i18n', 'ret',
                           'chararg', 'pct', 'special'])
        self.kinds.add(k)
        n = self.name(k[:3])
        b = self.body.append
        if k == 'def':
            b('#def %s\n%s#end def\n[$%s]\n' % (n, self.lines(), n))
        elif k == 'defsig':
            b('#def %s($a, $b="%s", *c, **d)\n$a|$b|$len($c)|$sorted($d)\n'
              '#end def\n$%s(1)$%s($n1, 2, 3, 4, k=5)\n' % (
                  n, self.word().replace('"', '').replace('\\', ''), n, n))
        elif k == 'block':
            b('#block %s\n%s#end block\n' % (n, self.lines()))
        elif k == 'attr':
            v = repr(self.r.choice([1, 'text', 'é"\'', [1, (2,)], None,
                                    {'a': 1}]))
            b('#attr $%s = %s\n$%s\n' % (n, v, n))
        elif k == 'filter':
            b('#filter WebSafe\n%s#end filter\n' % self.lines())
        elif k == 'cache':
            b('#cache%s\n%s#end cache\n' % (self.r.choice(
                ['', " id='%s'" % n, ' timer=1m', ' test=$n1']), self.lines()))
        elif k == 'capture':
            b('#capture %s\n%s#end capture\n<$%s>\n' % (n, self.lines(), n))
        elif k == 'import':
            m, e = self.r.choice([('math', 'math.pi'), ('string', 'string.digits'),
                                  ('os.path', 'os.path.sep'),
                                  ('math as mm', 'mm.e')])
            b('#import %s\n$%s\n' % (m, e))
        elif k == 'from':
            b('#from math import floor as fl%s\n$fl%s(2.5)\n' % (n, n))
        elif k == 'module':
            b('#set module $%s = %r\n$%s\n' % (n, self.word(), n))
        elif k == 'setg':
            b('#set global $%s = %s\n$%s\n' % (n, self.inner(), n))
        elif k == 'for':
            b('#for $i in $l1\n$i:%s#end for\n' % self.line())
        elif k == 'if':
            b('#if $n1 > 1\n%s#elif $n2\n%s#else\n%s#end if\n' % (
                self.line(), self.line(), self.line()))
        elif k == 'closure':
            b('#closure %s($a)\n<$a>\n#end closure\n$%s($n1)\n' % (n, n))
        elif k == 'try':
            b('#try\n$boom\n#except ValueError as e\ncaught $e\n#end try\n')
        elif k == 'doc':
            b('##doc: %s\n' % self.word())
        elif k == 'comment':
            b('## %s\n#* %s\n %s *#\n' % (self.word(), self.word(),
                                          self.word()))
        elif k == 'psp':
            b('<%% %s = 1 + 2 %%>[<%%= %s %%>]\n' % (n, n))
        elif k == 'raw':
            b('#raw\n$%s #if\n#end raw\n' % n)
        elif k == 'include':
            b('#include source="in $n1 %s"\n' % self.r.choice(['', '$s1']))
        elif k == 'static':
            b('#@staticmethod\n#def %s($x=1)\n<$x>\n#end def\n$%s(4)\n'
              % (n, n))
        elif k == 'decor':
            b('#@classmethod\n#def %s($x=1)\n#return $x\n#end def\n$%s(4)\n'
              % (n, n))
        elif k == 'klass':
            b('$self.__class__.__name__ $self.__class__.__module__\n')
        elif k == 'call':
            b('#call $str\n%s#end call\n' % self.line())
        elif k == 'errc':
            b('#errorCatcher Echo\n$nothing.here\n')
        elif k == 'i18n':
            b('%s\n' % self.word())
        elif k == 'ret':
            b('#def %s\n#return %s\n#end def\n$%s\n' % (n, self.inner(), n))
        elif k == 'chararg':
            b('$str("%s")\n' % self.r.choice(['\\t', '\\n', "'", '\\\\',
                                              '\\x41', '\u20ac', '#', '$x']))
        elif k == 'pct':
            b("#set $%s = '%%s %%%%' %% $n1\n$%s 100%% %%s %%(x)s\n" % (n, n))
        elif k == 'special':
            for v in self.r.sample(['author', 'license', 'owner', 'title',
                                    'remark'], 3):
                b('##%s@ %s\n' % (v, self.word()))
        else:
            b(self.line())

    def source(self):
        for _ in range(self.r.randint(3, 9)):
            self.add()
        return ''.join(self.top) + ''.join(self.body)


def make(kind, rng):
    """(template source, factory of search lists, features)"""
    if kind == 'flow':
        g = gen.TGen(rng, maxdepth=2, budget=14)
        g.template()
        return g.w.src(), gen.make_data(rng), g.features
    if kind == 'prog':
        g = pyprog.PGen(rng, budget=25, maxdepth=3)
        src, py = g.program()
        return src, pyprog.data(rng), g.feat
    g = Feature(rng)
    return g.source(), gen.make_data(rng), g.kinds


def run(cls, fac):
    sl, log = fac()
    sl = list(sl) if isinstance(sl, (list, tuple)) else [sl]
    res = outcome(lambda: str(cls(searchList=sl)))
    if res[0] == 'raised':
        # an address or a generated name may be part of the message
        res = (res[0], res[1], re.sub(r'0x[0-9a-f]+|\d{5,}', 'N', res[2]))
    return list(res), repr(log)


def child_job(job):
    rng = random.Random(job['rng'])
    src, fac, feat = make(job['kind'], rng)
    res = {'src': src}
    code = compile_(src, returnAClass=False, **job['kw'])
    res['code'] = mask(code)
    try:
        mod = importlib.import_module(job['module'])
    except Exception as e:
        res['import'] = '%s: %s' % (type(e).__name__, e)
        return res
    cls = getattr(mod, job['cls'])
    res['run'] = run(cls, fac)
    res['again'] = run(cls, fac)
    res['name'] = cls.__name__
    res['mod'] = cls.__module__
    return res


def run_child(ctx, here, jobs):
    import Cheetah
    repo = os.path.dirname(os.path.dirname(os.path.abspath(Cheetah.__file__)))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    path = os.path.join(here, 'jobs.json')
    with open(path, 'w') as f:
        json.dump(jobs, f)
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.index % 1000 + 1),
               PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore',
                        os.path.join(verif, 'vlib', 'modchild.py'), here,
                        verif, repo, path], env=env, cwd=here,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=120)
    out = p.stdout.decode('utf-8')
    need('@@RESULT@@' in out, 'child process failed', key='child',
         err=p.stderr.decode('utf-8', 'replace')[-2000:])
    return json.loads(out.split('@@RESULT@@')[1])


def imported(ctx, rng):
    here = ctx.tmp('mods%d' % ctx.index)
    jobs, wants = [], []
    for i in range(25):
        kind = rng.choice(['flow', 'prog', 'feature', 'feature'])
        seed = rng.randrange(1 << 60)
        src, fac, feat = make(kind, random.Random(seed))
        module = 'm%d_%d' % (ctx.index, i)
        cls = rng.choice([module, module, 'Page', 'T%d' % i])
        kw = {'moduleName': module}
        if cls != module:
            kw['className'] = cls
        code = compile_(src, returnAClass=False, **kw)
        write(os.path.join(here, module + '.py'), code)
        jobs.append({'module': module, 'cls': cls, 'kind': kind, 'rng': seed,
                     'kw': kw})
        # the dynamic class has a module name of its own
        dyn = compile_(src, className=cls, moduleName=module)
        wants.append((src, code, run(dyn, fac), run(dyn, fac), dyn.__module__))
        ctx.saw((kind, tuple(sorted(feat))))
    for job, want, got in zip(jobs, wants, run_child(ctx, here, jobs)):
        src, code, first, second, dynmod = want
        d = {'src': src}
        same(got['src'], src, 'generator is not reproducible', key='harness')
        diff = [x for x in zip(got['code'].split('\n'),
                               mask(code).split('\n')) if x[0] != x[1]]
        # without the C extension the compiler writes other lookups
        need(got['code'] == mask(code) or ctx.mode != 'c', 'the same definition gives other code',
             key='code', diff=diff[:3], **d)
        ctx.count('same_code')
        need('import' not in got, 'the module cannot be imported',
             key='import', err=got.get('import'), **d)

        def fix(r):
            # $self.__class__.__module__ is the one true difference
            return json.loads(json.dumps(r).replace(dynmod, job['module']))
        same(got['run'], fix(first), 'the imported module renders differently',
             key='render', **d)
        same(got['again'], fix(second), 'the second rendering differs',
             key='render2', **d)
        same((got['name'], got['mod']), (job['cls'], job['module']),
             'class and module name', key='name', **d)
        ctx.count('child_renders')


def load(code, name, **globs):
    mod = types.ModuleType(name)
    mod.__file__ = '/nowhere/%s.py' % name
    mod.__dict__.update(globs)
    sys.modules[name] = mod
    exec(compile(code, name + '.py', 'exec'), mod.__dict__)
    return mod


class Opts(object):
    def __init__(self, shbang):
        self.shbang = shbang


IDENT = ['Page', 'page', 'P_', 'Klass9', 'aB_c', 'Template2', 'T', 'respond_',
         'os_', 'Main', 'x' * 60]


def names(ctx, rng):
    """names, base class, main method, interpreter line, attributes"""
    modname = 'gm%d_%d' % (ctx.index, rng.randrange(10**6))
    cls = rng.choice(IDENT + [None])
    kw = {'moduleName': modname}
    if cls:
        kw['className'] = cls
    cls = cls or modname
    main = rng.choice([None, None, 'respond', 'writeOut', 'go', 'render'])
    how = rng.choice(['arg', 'set', 'impl'])
    head = ''
    base = rng.choice([None, None, 'module', 'sibling', 'arg', 'argname'])
    made = []
    globs = {}
    expect_main = 'respond'
    basecls = None
    basename = modname + 'base'
    if base:
        src = '#attr $inherited = "base attr"\n#def part\nbase part\n#end def\n' \
            '#def other\nbase other\n#end def\nBASE $part\n'
        bclass = rng.choice([basename, 'Base'])
        bmod = load(compile_(src, returnAClass=False, moduleName=basename,
                             className=bclass), basename)
        made.append(basename)
        basecls = getattr(bmod, bclass)
        if base == 'module' and bclass == basename:
            head += '#extends %s\n' % basename
        elif base in ('module', 'sibling'):
            head += '#from %s import %s\n#extends %s\n' % (
                basename, bclass, bclass)
        elif base == 'arg':
            # a class cannot be named in the text of a module; the module is
            # given it, as the dynamic class is
            kw['baseclass'] = basecls
            globs['CHEETAH_dynamicallyAssignedBaseClass_' + bclass] = basecls
        else:
            kw['baseclass'] = bclass
            head += '#from %s import %s\n' % (basename, bclass)
    if base in ('module', 'sibling'):
        expect_main = 'writeBody'
    if main:
        expect_main = main
        if how == 'arg':
            kw['mainMethodName'] = main
        elif how == 'set':
            kw['compilerSettings'] = {'mainMethodName': main}
            if base in ('module', 'sibling'):
                expect_main = 'writeBody'   # that of subclasses
        else:
            head += '#implements %s\n' % main
    shbang = rng.choice([None, '#!/usr/bin/python3', '#!/opt/x y -u',
                         '#! /usr/bin/env python3'])
    if shbang:
        kw['commandlineopts'] = Opts(shbang)
    attrs = {}
    for i in range(rng.randint(0, 3)):
        v = rng.choice([1, -2.5, 'te"x\'t', 'é漢', [1, [2]], {'a': (1,)}, None,
                        True])
        attrs['at%d' % i] = v
        head += '#attr $at%d = %r\n' % (i, v)
    modvars = {}
    if rng.random() < .4:
        modvars['mv'] = rng.choice(['text', 5, 'é'])
        head += '#set module $mv = %r\n' % modvars['mv']
    special = {}
    if rng.random() < .4:
        special['author'] = rng.choice([' Me', ' "q" \\n', ' é', ''])
        head += '##author@%s\n' % special['author']
        special['author'] = special['author'].strip()
    body = 'body $x $at0\n' if attrs else 'body $x\n'
    src = head + '#def part\nmine $x\n#end def\n' + body
    d = {'src': src, 'kw': repr(kw)}
    ctx.saw(('names', base, main, how if main else None, bool(shbang),
             cls == modname, len(attrs)))
    ctx.count('names')
    code = compile_(src, returnAClass=False, **kw)
    need(isinstance(code, bytes), 'module code is not bytes', key='type', **d)
    first = code.decode('utf-8', 'replace').split('\n')[0]
    if shbang:
        same(first, shbang,
             'interpreter line', key='shbang', **d)
    else:
        need(first.startswith('#!'), 'interpreter line', key='shbang', **d)
    sl = [{'x': 'X'}]
    kw2 = dict(kw)
    kw2.pop('commandlineopts', None)
    dyn = compile_(src, **kw2)
    try:
        mod = load(code, modname, **globs)
        made.append(modname)
        need(hasattr(mod, cls), 'class name', key='class', **d)
        k = getattr(mod, cls)
        same((k.__name__, k.__module__), (cls, modname), 'class and module',
             key='class', **d)
        same(dyn.__name__, cls, 'dynamic class', key='class', **d)
        for c in (k, dyn):
            if basecls:
                same(c.__bases__, (basecls,), 'base class', key='base', **d)
            need(expect_main in vars(c), 'main method %s' % expect_main,
                 key='main', have=sorted(vars(c)), **d)
            for a in attrs:
                same(getattr(c, a), attrs[a], 'attribute', key='attr', **d)
            m = sys.modules[c.__module__]
            for a in modvars:
                same(getattr(m, a), modvars[a], 'module variable',
                     key='modvar', **d)
            for a in special:
                same(getattr(m, '__%s__' % a), special[a],
                     'special variable', key='special', **d)
            if base:
                same(c.inherited, 'base attr', 'inherited', key='base', **d)
        outs = []
        for c in (k, dyn):
            t = c(searchList=sl)
            outs.append([getattr(t, expect_main)(), str(t), t.part(),
                         t.other() if base else None])
        same(outs[0], outs[1], 'module and class render differently',
             key='render', **d)
        same(outs[0][0], 'body X %s\n' % (attrs['at0'] if attrs['at0'] is not
                                          None else '')
             if attrs else 'body X\n', 'main method', key='main', **d)
        same(outs[0][2], 'mine X\n', 'method', key='meth', **d)
        wantstr = outs[0][0]
        if base in ('module', 'sibling') and expect_main != 'respond':
            wantstr = 'BASE mine X\n\n'
        elif base and expect_main != 'respond':
            wantstr = outs[0][1]
        same(outs[0][1], wantstr, 'rendering', key='str', **d)
    finally:
        for m in made:
            sys.modules.pop(m, None)


def docs(ctx, rng):
    """documentation comments"""
    chars = 'ab .,\'"\\%{}$#@é漢\t'
    want = {'module': [], 'class': [], 'method': []}
    src = []
    for i in range(rng.randint(1, 6)):
        where = rng.choice(['module', 'class', 'method', 'doc', 'header', ''])
        t = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 14)))
        t = t + rng.choice(['', '"""', "'''", '\\', '%s', '\\n', '\\N{x}'])
        multi = rng.random() < .4
        if multi:
            t = t.replace('*#', '').replace('#*', '')
            if rng.random() < .5:
                t += '\n  second "' + t
            text = t
        else:
            text = t
        tag = {'doc': 'doc', 'header': 'header', '': ' '}.get(
            where, 'doc-' + where)
        if where == '':
            tag = ' plain'
        if multi:
            text += ' '
            t += ' '
            src.append('#*%s: %s*#\n' % (tag, text))
        else:
            src.append('##%s: %s\n' % (tag, text))
        k = {'doc': 'method'}.get(where, where)
        if k in want:
            want[k].extend(t.strip().splitlines())
    src = ''.join(src) + 'body\n'
    d = {'src': src}
    ctx.saw(('docs',) + tuple(sorted((k, len(v)) for k, v in want.items())))
    ctx.count('docs')
    code = compile_(src, returnAClass=False, moduleName='docm')
    made = load(code, 'docm')
    sys.modules.pop('docm')
    for mod, cls in ((made, made.docm), (None, compile_(src))):
        mod = mod or sys.modules[cls.__module__]
        for where, doc in (('module', mod.__doc__), ('class', cls.__doc__),
                           ('method', cls.respond.__doc__)):
            lines = [x.strip() for x in (doc or '').split('\n')]
            w = [x.strip() for x in want[where]]
            same([x for x in lines if x], [x for x in w if x],
                 '%s docstring' % where, key='doc', **d)
        same(str(cls()), 'body\n', 'documented template', key='docrender', **d)


def value(rng):
    return rng.choice(['v', 'é', 5, '<x>', [1, 2], 'a b', ''])


def cmdline(ctx, rng):
    """a generated module run as a program"""
    here = ctx.tmp('cmd%d' % ctx.index)
    keys = ['alpha', 'beta', 'gamma', 'delta']
    src = '#attr $delta = "own"\n' + ''.join(
        '%s=$getVar("%s", "unset")\n' % (k, k) for k in keys[:3]) + \
        'delta=$delta\n'
    code = compile_(src, returnAClass=False, moduleName='prog')
    write(os.path.join(here, 'prog.py'), code)
    env = {k: v for k, v in os.environ.items() if k not in keys}
    import Cheetah
    env.update(PYTHONPATH=os.path.dirname(os.path.dirname(
        os.path.abspath(Cheetah.__file__))), PYTHONUTF8='1',
        PYTHONDONTWRITEBYTECODE='1')
    envdata = {k: 'env-' + k for k in keys if rng.random() < .5}
    env.update(envdata)
    args, stdin, ns = [], b'', []
    used_stdin = False
    bad = rng.random() < .15
    for i in range(rng.randint(0, 4)):
        o = rng.choice(['env', 'pickle', 'json'])
        if o == 'env':
            args.append('--env')
            ns.insert(0, envdata)
            continue
        data = {k: value(rng) for k in keys if rng.random() < .5}
        raw = pickle.dumps(data) if o == 'pickle' else \
            json.dumps(data, ensure_ascii=rng.random() < .5).encode('utf-8')
        if not used_stdin and rng.random() < .4:
            used_stdin = True
            stdin = raw
            name = '-'
        else:
            name = 'data%d' % i
            write(os.path.join(here, name), raw)
        args.extend(['--' + o, name] if rng.random() < .6
                    else ['--%s=%s' % (o, name)])
        ns.insert(0, data)
    if bad:
        which = rng.choice(['option', 'missing', 'corrupt', 'help'])
        if which == 'option':
            args.append('--nonsense')
        elif which == 'missing':
            args.extend([rng.choice(['--pickle', '--json']), 'nofile'])
        elif which == 'corrupt':
            write(os.path.join(here, 'corrupt'), b'\x00garbage{')
            args.extend([rng.choice(['--pickle', '--json']), 'corrupt'])
        else:
            args.insert(0, rng.choice(['-h', '--help']))
    p = subprocess.run([sys.executable, '-W', 'ignore', 'prog.py'] + args,
                       cwd=here, env=env, input=stdin, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60)
    out = p.stdout.decode('utf-8')
    d = {'args': args, 'err': p.stderr.decode('utf-8', 'replace')[-600:]}
    ctx.saw(('cmdline', tuple(a.split('=')[0] for a in args
                              if a.startswith('-')), bad and which))
    ctx.count('cmdline')
    if bad and which != 'help':
        need(p.returncode != 0, 'bad arguments are not reported',
             key='badargs', out=out, **d)
        need('alpha=' not in out, 'output in spite of bad arguments',
             key='badout', out=out, **d)
        return
    same(p.returncode, 0, 'exit status', key='status', out=out, **d)
    if bad:
        need('--pickle' in out and '--env' in out and 'alpha=' not in out,
             'help', key='help', out=out, **d)
        return

    def find(k, default):
        for n in ns:
            if k in n:
                return str(n[k])
        return default
    # what was put in front wins over the module's own attributes
    want = ''.join('%s=%s\n' % (k, find(k, 'unset')) for k in keys[:3])
    want += 'delta=%s\n' % find('delta', 'own')
    same(out, want + '\n', 'filled from the command line', key='filled', **d)


SCENARIOS = [('imported', imported, 40, 400, {'modes': ('c', 'pure')}),
             ('names', names, 900, 9000), ('docs', docs, 500, 5000),
             ('cmdline', cmdline, 60, 600, {'modes': ('c',)})]
