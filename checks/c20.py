"""C20: importing templates gives what compiling them gives, reversibly."""
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import traceback

from vlib.core import need, same
from vlib.t import write, read

RULE = ('Random trees of packages, Python modules and templates on one or two '
        'path entries, whose bodies import one another absolutely, relatively '
        'at several levels, with star, alias and cycles, extend one another, '
        'use namespace packages, coding cookies, stdlib and extension '
        'modules, and fail at compile or execution; histories of fresh '
        'processes with edits, deletions, read-only directories, file size '
        'limits, cache directories, several processes at once and install '
        'and uninstall calls in between; loader calls with every path form. '
        'Distinct: statement form, sort of target, outcome, faults in force.')
TECHNIQUE = ('differential trace monitor: every import statement runs in a '
             'forked process under the hooks and in one under the normal '
             'import system on a tree where the templates were compiled to '
             'modules through the API; bindings, rendering, execution order, '
             'errors, module table and parent attributes are compared, and '
             'the files left behind are inspected')
QUICK_SCALE = 1.5
LEVEL_NOTE = ('Documented lookup order: a package, then byte-compiled or '
              'Python module, then template; edits to a template show once '
              'the module generated beside it is removed, at once with a '
              'cache directory. Module specs, importlib calls and imports of '
              'one module from several threads are outside of the check.')
REQUIRED = {'statements': 1500, 'templates': 700, 'failed': 400, 'relative': 300,
            'processes': 400, 'loads': 300, 'restored': 60, 'readonly': 15,
            'limited': 15, 'racing': 40}
DESIGN = ('Bodies append to a trace so that the order and number of module '
          'executions is compared too. Faults are real: a child that gave up '
          'root in a directory it may not write, and a child with a file '
          'size limit in the middle of the generated module.')
CPU = 120

TOPS = ['alpha', 'beta', 'gamma', 'delta']
SUBS = ['one', 'two', 'three', 'inner', 'page', 'base', 'mixed']
WATCHED = TOPS + SUBS + ['MARK', 'TXT', 'LAST', 'al', 'other', 'second',
                         'renamed', 'builtins']
STDLIB = ['colorsys', 'sndhdr', 'wsgiref.util', 'xml.dom.minidom', 'json.tool',
          'mailcap', 'Cheetah.Tools.MondoReport', 'rlcompleter', 'this_is_not',
          'email.mime.audio', 'xmlrpc.server', 'curses.ascii', 'os.path', 'sys',
          'builtins', '_crypt', 'termios', 'nis', 'resource', 'syslog', 'zipapp']


# ------------------------------------------------------------------ children

def child(fn, *args, **kw):
    """fn(*args) in a forked process; its result, or the traceback."""
    import Cheetah.ImportHooks  # noqa: F401 loaded before
    import Cheetah.LoadTemplate  # noqa: F401
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                res = ('ok', fn(*args, **kw))
            except BaseException:
                res = ('died', traceback.format_exc())
            data = pickle.dumps(res)
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(job):
    pid, r = job
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return ('died', 'no answer')
    return pickle.loads(data)


def run_child(fn, *args, **kw):
    return collect(child(fn, *args, **kw))


def describe(obj, depth=0):
    import types
    if isinstance(obj, types.ModuleType):
        out = ['module', obj.__name__, getattr(obj, 'MARK', None),
               getattr(obj, 'TXT', None)]
        cls = getattr(obj, obj.__name__.rpartition('.')[2], None)
        if isinstance(cls, type):
            out.append(describe(cls))
        return out
    if isinstance(obj, type):
        out = ['class', obj.__name__, obj.__module__]
        if hasattr(obj, 'respond'):
            try:
                out.append(str(obj(searchList=[{'v': 'data', 'n': 3}])))
            except Exception as e:
                out.append([type(e).__name__, str(e)])
        return out
    if isinstance(obj, (str, int, list, tuple, float, type(None))):
        return ['value', obj if isinstance(obj, (str, int)) else repr(obj)]
    return ['object', type(obj).__name__]


def run_statements(pyc, roots, stmts, hooks, extra=None, tops=TOPS):
    """Executed in the child."""
    import builtins
    # never into the directories of Python itself
    sys.pycache_prefix = pyc
    if extra:
        extra()
    if hooks:
        import Cheetah.ImportHooks as H
        for k in hooks.get('before', ()):
            getattr(H, k)()
        if hooks.get('cache'):
            H.setCacheDir(hooks['cache'])
        if hooks.get('ext'):
            H.install(hooks['ext'])
        else:
            H.install()
    else:
        sys.dont_write_bytecode = True
    sys.path[:0] = roots
    builtins.TRACE = trace = []
    results = []
    for st in stmts:
        ns = {'__name__': '__main__'}
        del trace[:]
        try:
            exec(st, ns)
            for k in [k for k in ns if k.startswith('__')]:
                del ns[k]
            got = ('bound', sorted((k, describe(v)) for k, v in ns.items()
                                   if '*' not in st or k in WATCHED))
        except ImportError:
            got = ('raised', 'ImportError')
        except Exception as e:
            got = ('raised', type(e).__name__,
                   '' if isinstance(e, (SyntaxError, AttributeError)) else str(e))
        table = []
        for name in sorted(sys.modules):
            if name.partition('.')[0] in tops:
                m = sys.modules[name]
                parent, _, last = name.rpartition('.')
                p = sys.modules.get(parent)
                table.append((name, getattr(m, '__name__', None),
                              parent == '' or p is None or
                              getattr(p, last, None) is m))
        # attributes of packages which are modules not in the table
        lost = []
        for name, _, _ in table:
            m = sys.modules[name]
            for k, v in list(vars(m).items() if m is not None else ()):
                if isinstance(v, type(sys)) and \
                        v.__name__ == name + '.' + k and \
                        v.__name__ not in sys.modules:
                    lost.append(v.__name__)
        results.append((got, list(trace), table, sorted(lost)))
    return results


# ------------------------------------------------------------------ the tree

class Node:
    def __init__(self, root, dotted, kind):
        self.root, self.dotted, self.kind = root, dotted, kind
        self.version = 0
        self.text = None

    @property
    def path(self):
        p = self.dotted.replace('.', '/')
        return {'pkg': p + '/__init__.py', 'py': p + '.py',
                'tmpl': p + '.tmpl', 'html': p + '.html'}[self.kind]


class Tree:
    """Modules of a random tree and their texts."""

    def __init__(self, rng, failures=True, tmpl='tmpl'):
        self.rng = rng
        self.failures = failures
        self.tmpl = tmpl
        self.nodes = []
        self.spaces = set()
        nroots = rng.choice([1, 1, 2])
        self.nroots = nroots
        used = set()

        def add(root, dotted, kind):
            if (root, dotted, kind) in used:
                return None
            used.add((root, dotted, kind))
            n = Node(root, dotted, kind)
            self.nodes.append(n)
            return n

        for root in range(nroots):
            for top in rng.sample(TOPS, rng.randint(1, 3)):
                kind = rng.choice(['pkg', 'pkg', 'pkg', 'py', tmpl])
                if any(n.dotted == top and n.kind == 'pkg'
                       for n in self.nodes) and kind == 'pkg':
                    kind = tmpl
                add(root, top, kind)
                if kind == 'pkg':
                    self.fill(root, top, add, 2)
                if rng.random() < .1:       # shadowed neighbours
                    add(root, top, tmpl)
                    if rng.random() < .5:
                        add(root, top, 'py')
        if rng.random() < .35:
            taken = {n.dotted.partition('.')[0] for n in self.nodes}
            free = [t for t in TOPS if t not in taken]
            if free:
                s = free[0]
                self.spaces.add(s)
                for x in rng.sample(SUBS, 2):
                    add(0, s + '.' + x, 'py')
        for n in self.nodes:
            self.compose(n)

    def fill(self, root, pkg, add, depth):
        rng = self.rng
        for x in rng.sample(SUBS, rng.randint(1, 4)):
            kind = rng.choice(['py', 'py', self.tmpl, self.tmpl, self.tmpl]
                              + ['pkg'] * (2 * (depth > 0)))
            add(root, pkg + '.' + x, kind)
            if kind == 'pkg':
                self.fill(root, pkg + '.' + x, add, depth - 1)
            if rng.random() < .08:
                add(root, pkg + '.' + x, self.rng.choice(['py', self.tmpl]))

    def target(self, notin=None):
        rng = self.rng
        c = [n for n in self.nodes if n.dotted != notin]
        if not c or rng.random() < .08:
            return rng.choice(['nowhere', 'alpha.nowhere', 'alpha.nowhere.x',
                               'beta.one.nothing'])
        return rng.choice(c).dotted

    def import_line(self, me=None, ispkg=False):
        """One import statement as seen from module me."""
        rng = self.rng
        t = self.target(me)
        parent, _, last = t.rpartition('.')
        r = rng.random()
        if me and r < .45 and ('.' in me or ispkg):
            # relative
            pkg = me if ispkg else me.rpartition('.')[0]
            parts = pkg.split('.')
            level = rng.randint(1, len(parts))
            if rng.random() < .04:
                level = len(parts) + 1      # beyond the top
            base = '.'.join(parts[:len(parts) - level + 1]) if \
                level <= len(parts) else ''
            sub = [n.dotted[len(base) + 1:] for n in self.nodes
                   if n.dotted.startswith(base + '.') and n.dotted != me]
            if not sub or rng.random() < .07:
                sub = ['absent']
            s = rng.choice(sub)
            p, _, x = s.rpartition('.')
            form = rng.random()
            if form < .2 and p:
                return 'from %s%s import *' % ('.' * level, p)
            tail = ' as al' if form > .7 else ''
            return 'from %s%s import %s%s' % ('.' * level, p, x, tail)
        if r < .55:
            m = rng.choice(STDLIB)
            if m == 'Cheetah.Tools.MondoReport' and rng.random() < .5:
                return 'from Cheetah.Tools import MondoReport'
            return 'import ' + m
        if parent and r < .7:
            return 'from %s import %s' % (parent, last)
        if parent and r < .78:
            return 'from %s import %s as renamed' % (parent, last)
        if r < .84:
            return 'import %s as other' % t
        if r < .9:
            return 'from %s import MARK' % t
        if r < .94 and parent:
            return 'from %s import *' % parent
        if r < .97:
            u = self.target(me)
            return 'import %s, %s as second' % (t, u)
        return 'import ' + t

    def compose(self, n):
        rng = self.rng
        n.version += 1
        mark = '%s#%d#%d%s' % (n.dotted, n.root, n.version, 'x' * rng.randint(0, 9))
        if n.kind in ('tmpl', 'html'):
            lines = []
            for i in range(rng.choice([0, 0, 1, 1, 2])):
                ln = self.import_line(n.dotted)
                if not ln.endswith('*'):
                    lines.append('#' + ln)
            if rng.random() < .3:
                bases = [m.dotted for m in self.nodes
                         if m.kind == n.kind and m is not n and
                         m.dotted < n.dotted]
                if bases:
                    b = rng.choice(bases)
                    lines.append('#extends ' + b)
                    lines.append('#attr $MARK = %r' % mark)
                    lines.append('#def blk\nchild %s\n#end def' % mark)
                    n.text = '\n'.join(lines) + '\n'
                    return
            bad = self.failures and rng.random() < .1
            lines.append('T %s $v \u00e9\u20ac' % mark)
            lines.append('#block blk\nbody $n\n#end block')
            if rng.random() < .3:
                lines.append('#for i in range(2)\n$i;\n#end for')
            if bad:
                lines.append(rng.choice(['#if', '#for x in', '$x(', '#end for',
                                         '#set 1 = 2', '#nodirective ${']))
            n.text = '\n'.join(lines) + '\n'
            r = rng.random()
            if r < .6:
                n.text = '#encoding utf-8\n' + n.text
            elif r < .8:
                n.text = ('#encoding latin-1\n' + n.text.replace(
                    '\u20ac', '\u00fc')).encode('latin-1')
            else:
                n.text = n.text.replace('\u00e9\u20ac', '')
            return
        enc = 'utf-8'
        lines = []
        if rng.random() < .12:
            enc = 'latin-1'
            lines.append('# -*- coding: latin-1 -*-')
        lines.append('import builtins')
        lines.append('builtins.TRACE.append(%r)' % mark)
        lines.append('MARK = %r' % mark)
        lines.append("TXT = '\u00e9\u00fc'" if rng.random() < .5 else 'TXT = 1')
        where = len(lines)
        for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
            ln = self.import_line(n.dotted, n.kind == 'pkg')
            if rng.random() < .2:
                ln = 'try:\n    %s\nexcept ImportError:\n    TXT = "none"' % ln
            lines.insert(rng.choice([where, len(lines)]), ln)
        if n.kind == 'pkg' and rng.random() < .3:
            subs = sorted({m.dotted.rpartition('.')[2] for m in self.nodes
                           if m.dotted.rpartition('.')[0] == n.dotted})
            if subs:
                lines.append('__all__ = %r' % (['MARK'] + rng.sample(
                    subs, rng.randint(1, len(subs))),))
        if self.failures and rng.random() < .14:
            lines.append(rng.choice([
                "raise ValueError('boom %s')" % mark, '1 / 0',
                "raise ImportError('own')", 'def broken(:', 'undefined_name',
                "raise KeyboardInterrupt" if False else "raise OSError(5, 'x')"]))
        lines.append('LAST = MARK + "."')
        n.text = ('\n'.join(lines) + rng.choice(['\n', '', '\n\n'])).encode(enc)


def lay(tree, top, n):
    write(os.path.join(top, 'r%d' % n.root, n.path), n.text)


def compiled(n):
    """The reference: the module text of a template through the API."""
    from Cheetah.Template import Template
    name = n.dotted.rpartition('.')[2]
    d = tempfile.mkdtemp(prefix='c20ref')
    try:
        p = write(os.path.join(d, name + '.tmpl'), n.text)
        try:
            code = Template.compile(file=p, returnAClass=False, moduleName=name,
                                    className=name,
                                    cacheCompilationResults=False)
        except Exception:
            return b'raise ImportError("does not compile")\n'
        return code if isinstance(code, bytes) else code.encode('utf-8')
    finally:
        shutil.rmtree(d)


def loads(code):
    try:
        compile(code, 'x', 'exec')
        return code
    except SyntaxError:
        return b'raise ImportError("generated code does not compile")\n'


def fresh(ctx, name):
    top = ctx.tmp(name)
    shutil.rmtree(top)
    os.mkdir(top)
    os.chmod(top, 0o755)
    return top


class World:
    def __init__(self, ctx, rng, **kw):
        self.rng = rng
        self.tree = Tree(rng, **kw)
        self.top = fresh(ctx, 'w')
        self.pyc = os.path.join(self.top, 'pyc')
        self.hook = os.path.join(self.top, 'hook')
        self.ref = os.path.join(self.top, 'ref')
        for n in self.tree.nodes:
            lay(self.tree, self.hook, n)
            self.lay_ref(n)

    def roots(self, base):
        return [os.path.join(base, 'r%d' % i) for i in range(self.tree.nroots)]

    def generated(self, n):
        return os.path.join(self.hook, 'r%d' % n.root,
                            n.dotted.replace('.', '/') + '.py')

    def lay_ref(self, n):
        if n.kind in ('tmpl', 'html'):
            p = os.path.join(self.ref, 'r%d' % n.root,
                             n.dotted.replace('.', '/') + '.py')
            if any(m.kind == 'py' and m.root == n.root and
                   m.dotted == n.dotted for m in self.tree.nodes):
                return
            write(p, loads(compiled(n)))
        else:
            lay(self.tree, self.ref, n)

    def statements(self, k):
        rng = self.rng
        out = []
        for i in range(k):
            if rng.random() < .5:
                ts = [n.dotted for n in self.tree.nodes
                      if n.kind in ('tmpl', 'html')]
                if ts:
                    t = rng.choice(ts)
                    p, _, x = t.rpartition('.')
                    out.append('from %s import %s' % (p, x)
                               if p and rng.random() < .6 else
                               'from %s import %s' % (t, x)
                               if rng.random() < .4 else 'import ' + t)
                    continue
            ln = self.tree.import_line()
            out.append(ln)
        return out

    def check(self, ctx, stmts, hooks=None, extra=None, tag=''):
        ref = run_child(run_statements, self.pyc + 'ref', self.roots(self.ref), stmts,
                        None)
        need(ref[0] == 'ok', 'the reference process died', key='harness',
             what=ref[1])
        got = run_child(run_statements, self.pyc, self.roots(self.hook), stmts,
                        hooks or {'x': 1}, extra)
        ctx.count('processes')
        n = self.compare(ctx, stmts, got, ref, tag)
        return ref[1][:n]

    def show(self):
        return {'%d:%s' % (n.root, n.path):
                n.text.decode('latin-1') if isinstance(n.text, bytes)
                else n.text for n in self.tree.nodes}

    def compare(self, ctx, stmts, got, ref, tag=''):
        need(got[0] == 'ok', 'the process with the import hooks died',
             key='died', what=got[1], stmts=stmts, tree=self.show())
        kinds = {n.dotted: n.kind for n in self.tree.nodes}
        for i, (g, w) in enumerate(zip(got[1], ref[1])):
            st = stmts[i]
            # modules whose package failed to import after them: Python
            # itself re-imports parents then in an order of its own
            names = {x[0] for x in w[2]}
            if any(x.rpartition('.')[0] not in names for x in names
                   if '.' in x) or len(set(w[1])) != len(w[1]):
                ctx.count('orphans')
                return i
            ctx.count('statements')
            d = dict(stmt=st, history=stmts[:i], tag=tag, tree=self.show())
            same(g[0], w[0], 'an import statement behaves differently under '
                 'the import hooks', key='binding', **d)
            same(g[1], w[1], 'the modules executed by an import differ under '
                 'the import hooks', key='order', **d)
            same(g[2], w[2], 'the module table after an import differs under '
                 'the import hooks', key='table', **d)
            same(g[3], w[3], 'a package keeps a module that failed to import',
                 key='lost', **d)
            if w[0][0] == 'raised':
                ctx.count('failed')
            if any(kinds.get(x[0]) in ('tmpl', 'html') for x in w[2]):
                ctx.count('templates')
            if 'from .' in str(self.show()):
                ctx.count('relative')
            ctx.saw((tag, st.split()[0], '*' in st, ' as ' in st, '.' in st,
                     w[0][0], w[0][1] if w[0][0] == 'raised' else
                     len(w[0][1]), min(len(w[1]), 5), min(len(w[2]), 8)))
        return len(stmts)


def leftovers(base):
    out = []
    for d, _, files in os.walk(base):
        for f in files:
            if not f.endswith(('.py', '.tmpl', '.html', '.pyc')):
                out.append(os.path.relpath(os.path.join(d, f), base))
    return out


# ----------------------------------------------------------------- scenarios

def sc_tree(ctx, rng):
    w = World(ctx, rng)
    w.check(ctx, w.statements(rng.randint(2, 7)))
    need(not leftovers(w.hook), 'importing left other files behind',
         key='left', files=leftovers(w.hook))
    ctx.sample(w.show(), limit=2)


def sc_history(ctx, rng):
    """Fresh processes with edits in between."""
    w = World(ctx, rng, failures=rng.random() < .4)
    hist = []
    for step in range(rng.randint(3, 5)):
        stmts = w.statements(rng.randint(1, 4))
        w.check(ctx, stmts, tag='h' + '+'.join(sorted(set(hist))))
        for k in range(rng.randint(1, 3)):
            n = rng.choice(w.tree.nodes)
            op = rng.choice(['edit', 'edit', 'drop', 'both'])
            if n.kind in ('tmpl', 'html'):
                gen = w.generated(n)
                shadow = any(m.kind == 'py' and m.root == n.root and
                             m.dotted == n.dotted for m in w.tree.nodes)
                if op in ('edit', 'both'):
                    w.tree.compose(n)
                    lay(w.tree, w.hook, n)
                if op in ('drop', 'both') and not shadow and \
                        os.path.exists(gen):
                    os.remove(gen)
                    c = w.pyc + os.path.dirname(gen)
                    b = os.path.basename(gen)[:-3] + '.'
                    for f in os.listdir(c) if os.path.isdir(c) else ():
                        if f.startswith(b):
                            os.remove(os.path.join(c, f))
                    ctx.count('dropped')
                    w.lay_ref(n)
                elif not os.path.exists(gen):
                    w.lay_ref(n)
                else:
                    ctx.count('kept')
                hist.append(op + '-tmpl')
            elif op == 'edit':
                w.tree.compose(n)
                lay(w.tree, w.hook, n)
                w.lay_ref(n)
                hist.append('edit-py')
                ctx.count('edited')


def sc_generated(ctx, rng):
    """What is written beside the template or into the cache directory."""
    w = World(ctx, rng, failures=False)
    cache = None
    if rng.random() < .5:
        cache = os.path.join(w.top, 'cache')
        os.mkdir(cache)
    before = {n: os.path.exists(w.generated(n)) for n in w.tree.nodes
              if n.kind == 'tmpl'}
    for step in range(2):
        stmts = w.statements(4)
        ref = w.check(ctx, stmts, {'cache': cache}, tag='cache' if cache else 'g')
        loaded = {x[0] for r in ref for x in r[2]}
        for n, had in before.items():
            gen = w.generated(n)
            if had:
                continue
            if cache:
                need(not os.path.exists(gen), 'a module was written beside '
                     'its template in spite of the cache directory',
                     key='cachedir', file=gen)
            elif os.path.exists(gen):
                compile(read(gen), gen, 'exec')
                ctx.count('generated')
        only = {}
        for n in w.tree.nodes:
            only.setdefault(n.dotted, []).append(n)
        for name in loaded:
            for n in only.get(name, ()):
                if len(only[name]) == 1 and n.kind == 'tmpl':
                    if cache:
                        ctx.count('cached')
                        need(os.listdir(cache), 'no generated module in the '
                             'cache directory', key='cache-empty')
                    else:
                        need(os.path.exists(w.generated(n)), 'the generated '
                             'module is not kept beside the template',
                             key='not-kept', file=w.generated(n))
        if cache:
            for n in before:
                if rng.random() < .5 and not before[n]:
                    w.tree.compose(n)
                    lay(w.tree, w.hook, n)
                    w.lay_ref(n)
        need(not leftovers(w.hook), 'importing left other files behind',
             key='left', files=leftovers(w.hook))
        if cache:
            need(not leftovers(cache), 'importing left other files in the '
                 'cache directory', key='left', files=leftovers(cache))


def drop_rights():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


class Limit:
    def __init__(self, n):
        self.n = n

    def __call__(self):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.n))


def reachable(path):
    """Can an unprivileged process read the scratch directory?"""
    p = path
    while p != '/':
        if p.startswith('/tmp/verif-'):
            os.chmod(p, 0o755)
        if not os.stat(p).st_mode & 0o005 == 0o005:
            return False
        p = os.path.dirname(p)
    return True


def sc_faults(ctx, rng):
    """Directories that cannot be written, files that cannot be completed."""
    w = World(ctx, rng, failures=rng.random() < .3)
    stmts = w.statements(rng.randint(3, 6))
    if rng.random() < .5 and reachable(w.top):
        for d, dirs, files in os.walk(w.top):
            os.chmod(d, 0o755)
            for f in files:
                os.chmod(os.path.join(d, f), 0o644)
        before = sorted(os.path.join(d, f) for d, _, fs in os.walk(w.hook)
                        for f in fs)
        w.check(ctx, stmts, extra=drop_rights, tag='readonly')
        after = sorted(os.path.join(d, f) for d, _, fs in os.walk(w.hook)
                       for f in fs)
        same(after, before, 'files appeared in a read-only directory',
             key='harness')
        ctx.count('readonly')
    else:
        limit = rng.choice([0, 1, 100, 1000, 2000, 4000, 5000, 8000])
        cache = None
        if rng.random() < .3:
            cache = os.path.join(w.top, 'cache')
            os.mkdir(cache)
        w.check(ctx, stmts, {'cache': cache}, extra=Limit(limit), tag='limit')
        ctx.count('limited')
        shutil.rmtree(w.pyc, True)      # Python cuts those itself
        gone = leftovers(w.hook) + (leftovers(cache) if cache else [])
        need(not gone, 'an incomplete temporary file was left behind',
             key='left', files=gone)
    # the next process, without faults, must find nothing incomplete
    w.check(ctx, stmts + w.statements(2), tag='after')


def sc_racing(ctx, rng):
    """Several processes import the same templates at once."""
    w = World(ctx, rng, failures=False)
    tms = [n for n in w.tree.nodes if n.kind == 'tmpl']
    if not tms:
        return
    stmts = ['import ' + n.dotted for n in tms[:6]]
    ref = run_child(run_statements, w.pyc + 'ref', w.roots(w.ref), stmts, None)
    r, wr = os.pipe()

    def start():
        os.close(wr)
        os.read(r, 1)

    jobs = [child(run_statements, w.pyc, w.roots(w.hook), stmts, {'x': 1},
                  start)
            for i in range(4)]
    gens = [w.generated(n) for n in tms]
    os.close(r)
    os.close(wr)
    seen = 0
    sizes = {}
    import select
    waiting = {j[1] for j in jobs}
    while waiting:
        for g in gens:
            try:
                with open(g, 'rb') as f:
                    code = f.read()
            except OSError:
                continue
            if sizes.get(g) != code:
                sizes[g] = code
                seen += 1
                try:
                    compile(code, g, 'exec')
                    whole = b'class ' in code or b'TRACE' in code
                except (SyntaxError, ValueError):
                    whole = False
                need(whole, 'a part of a generated module could be seen by '
                     'other processes', key='partial', file=g, size=len(code))
        ready, _, _ = select.select(list(waiting), [], [], 0)
        for fd in ready:
            waiting.discard(fd)
    ctx.count('observed', seen)
    for j in jobs:
        got = collect(j)
        ctx.count('racing')
        w.compare(ctx, stmts, got, ref, 'race')
    need(not leftovers(w.hook), 'temporary files were left behind',
         key='left', files=leftovers(w.hook))
    w.check(ctx, stmts, tag='after-race')


# ---- loader

def do_loads(cwd, calls):
    os.chdir(cwd)
    sys.pycache_prefix = os.path.join(cwd, 'pyc')
    from Cheetah.LoadTemplate import loadTemplateModule, loadTemplateClass
    import builtins
    builtins.TRACE = []
    out = []
    for fn, path in calls:
        name = os.path.splitext(os.path.basename(path))[0]
        sys.modules.pop(name, None)
        try:
            if fn == 'module':
                m = loadTemplateModule(path)
                cls = getattr(m, name)
                extra = [m.__name__, sys.modules.get(name) is m]
            else:
                cls = loadTemplateClass(path)
                extra = [name, cls.__module__ == name]
            got = ['ok', str(cls(searchList=[{'v': 'data', 'n': 3}])),
                   cls.__name__] + extra
        except ImportError as e:
            got = ['ImportError']
        except Exception as e:
            got = ['raised', type(e).__name__, str(e)]
        if got[0] != 'ok':
            got.append(name in sys.modules)
        out.append(got)
    return out


def sc_loader(ctx, rng):
    top = fresh(ctx, 'load')
    texts = {}
    for i in range(rng.randint(3, 6)):
        d = rng.choice(['', 'views', 'views/deep', 'other', 'v.w'])
        name = rng.choice(['page', 'index', 'tmain', 'list1', 'Big'])
        ext = rng.choice(['.tmpl', '.tmpl', '.html', '.txt'])
        kind = rng.choice(['good'] * 5 + ['bad', 'fails', 'py'])
        base = os.path.join(d, name)
        if base in texts:
            continue
        mark = 'M%d%s' % (rng.randint(0, 999), name)
        if kind == 'py':
            from Cheetah.Template import Template
            code = Template.compile('from py %s $v' % mark, returnAClass=False,
                                    className=name, moduleName=name,
                                    cacheCompilationResults=False)
            write(os.path.join(top, base + '.py'), code)
            if rng.random() < .6:
                write(os.path.join(top, base + ext), 'from tmpl ' + mark)
            else:
                ext = '.py'
            want = ['ok', 'from py %s data' % mark, name, name, True]
        elif kind == 'bad':
            write(os.path.join(top, base + ext), 'x ' + rng.choice(
                ['#if', '$f(', '#end if', '#for']))
            want = ['ImportError', False]
        elif kind == 'fails':
            write(os.path.join(top, base + ext), rng.choice(
                ['#from nowhere_at_all import x\ntext', '#extends nowhere_b\n'])
                if rng.random() < .5 else
                '#set module $z = 1\n#attr $a = [][4]\nx')
            want = None
        else:
            write(os.path.join(top, base + ext),
                  '#encoding utf-8\nT %s $v \u00e9 #for i in range($n)#$i#end for#' % mark)
            want = ['ok', 'T %s data \u00e9 012' % mark, name, name, True]
        texts[base] = (ext, want, kind)
    calls, wants = [], []
    for i in range(rng.randint(6, 10)):
        base = rng.choice(sorted(texts))
        ext, want, kind = texts[base]
        d, name = os.path.split(base)
        forms = [base, './' + base, os.path.join(top, base),
                 base.replace('/', '//'), top + '//' + base,
                 os.path.join('views', '..', base)]
        p = rng.choice(forms)
        if p.startswith('views/..') and not os.path.isdir(
                os.path.join(top, 'views')):
            p = base
        if ext != '.tmpl' or rng.random() < .5:
            p += ext
        if rng.random() < .1:
            p = os.path.join(d, 'missing') + rng.choice(['', '.tmpl'])
            want = ['ImportError', False]
            kind = 'missing'
        calls.append((rng.choice(['module', 'class']), p))
        wants.append((want, kind))
    for again in range(2):      # the second time from the generated modules
        got = run_child(do_loads, top, calls)
        need(got[0] == 'ok', 'the loading process died', key='died',
             what=got[1])
        for c, g, (want, kind) in zip(calls, got[1], wants):
            ctx.count('loads')
            ctx.saw((c[0], kind, os.path.isabs(c[1]), '//' in c[1],
                     os.path.splitext(c[1])[1], again))
            if want is None:
                need(g[0] != 'ok' and g[-1] is False, 'loading a failing '
                     'template succeeded or left its module behind',
                     key='load-fail', call=c, got=g)
                continue
            same(g, want, 'the loader does not give the template of the file',
                 key='load', call=c, kind=kind, again=again,
                 files=sorted(os.listdir(top)))
    need(not leftovers2(top), 'loading left other files behind', key='left',
         files=leftovers2(top))


def leftovers2(base):
    return [f for f in leftovers(base) if not f.endswith('.txt')]


# ---- reversibility

def state():
    import builtins
    import Cheetah.ImportManager as M
    return (list(getattr(M, '_globalOwnerTypes', ())), sorted(k for k in vars(builtins) if k not in ('TRACE', '_')),
            builtins.__import__, getattr(builtins, 'reload', None),
            list(sys.meta_path), list(sys.path_hooks))


def do_reversible(root, ops, foreign):
    import builtins
    import Cheetah.ImportHooks as H
    builtins.TRACE = []
    sys.path.insert(0, root)
    sys.pycache_prefix = root + '-pyc'
    calls = []
    original = builtins.__import__
    if foreign:                 # somebody else's import function
        def mine(*a, **k):
            calls.append(a[0])
            return original(*a, **k)
        builtins.__import__ = mine
    start = state()
    out = []
    for op, arg in ops:
        if op == 'install':
            H.install(*arg)
        elif op == 'uninstall':
            H.uninstall()
            now = state()
            out.append(('state', [a == b for a, b in zip(now, start)], arg))
            continue
        elif op == 'import':
            import importlib
            for k in list(sys.modules):
                if k.partition('.')[0] in TOPS:
                    del sys.modules[k]
            importlib.invalidate_caches()
            for k in os.listdir(root):
                if k in ('alpha.py', 'gamma.py'):
                    os.remove(os.path.join(root, k))
            shutil.rmtree(root + '-pyc', True)
            ns = {'__name__': '__main__'}
            try:
                exec(arg, ns)
                got = 'ok'
            except Exception as e:
                got = 'raised' if not isinstance(e, ImportError) \
                    else 'ImportError'
            if got == 'ok':
                m = sys.modules[arg.split()[1]]
                got = describe(m)
            out.append(('import', got, sorted(os.listdir(root))))
            continue
        out.append((op,))
    return out


def sc_reversible(ctx, rng):
    top = fresh(ctx, 'rev')
    write(os.path.join(top, 'alpha.tmpl'), 'A $v')
    write(os.path.join(top, 'beta.py'), 'MARK = "b"\n')
    write(os.path.join(top, 'gamma.html'), 'G $n')
    write(os.path.join(top, 'delta.py'), 'MARK = "d"\nraise ValueError(1)\n')
    ops = []
    model = []
    on = None
    for i in range(rng.randint(5, 14)):
        op = rng.choice(['install', 'uninstall', 'import', 'import', 'import'])
        if op == 'install':
            arg = rng.choice([(), (), (('.html',),), (('.tmpl', '.html'),)])
            ops.append((op, arg))
            if on is None:
                on = arg[0] if arg else ('.tmpl',)
            model.append(None)
        elif op == 'uninstall':
            ops.append((op, i))
            on = None
            model.append('state')
        else:
            t = rng.choice(['alpha', 'alpha', 'beta', 'gamma', 'delta',
                            'nowhere_at_all'])
            ops.append((op, 'import ' + t))
            text = {'alpha': ('.tmpl', 'A data'), 'gamma': ('.html', 'G 3')}
            if t == 'beta':
                model.append(('ok', None))
            elif t == 'delta':
                model.append(('raised', None))
            elif t in text and on and text[t][0] in on:
                model.append(('ok', text[t][1]))
            else:
                model.append(('ImportError', None))
    ops.append(('uninstall', -1))
    model.append('state')
    foreign = rng.random() < .4
    got = run_child(do_reversible, top, ops, foreign)
    need(got[0] == 'ok', 'install, uninstall and imports in this order fail',
         key='died', what=got[1], ops=ops)
    for op, g, m in zip(ops, got[1], model):
        if m is None:
            continue
        if m == 'state':
            need(all(g[1]), 'uninstalling does not restore the import system',
                 key='restore', ops=ops, same=g[1], foreign=foreign)
            ctx.count('restored')
            continue
        if m[0] == 'ok':
            need(isinstance(g[1], list), 'an import failed that should '
                 'succeed', key='rev-import', ops=ops, at=op, got=g[1])
            if m[1]:
                same(g[1][-1][-1], m[1], 'the imported template renders '
                     'differently', key='rev-render', ops=ops, at=op)
        else:
            same(g[1], m[0], 'an import succeeded or failed otherwise than '
                 'the installed hooks say', key='rev-import', ops=ops, at=op)
        ctx.saw((op[1], m[0], tuple(o[0][0] for o in ops[:ops.index(op)])[-4:]))


SCENARIOS = [('tree', sc_tree, 260, 6000), ('history', sc_history, 70, 1500),
             ('generated', sc_generated, 50, 1000),
             ('faults', sc_faults, 60, 1200), ('racing', sc_racing, 20, 300),
             ('loader', sc_loader, 60, 1200),
             ('reversible', sc_reversible, 60, 1200)]
