"""C19: the command line writes the right files, loses none, reports failure."""
import io
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile

from vlib.core import need, same
from vlib.t import write

RULE = ('Random trees of template files (several extensions, nested and new '
        'directories, names that are prefixes of one another), some broken at '
        'compile or at fill time or killing their process, with previous '
        'outputs and backups, and random option sets: recursion, input and '
        'output directory, extensions, flat, backups, parallel, stdout, '
        'encoding, settings, interpreter line, environment and data files; '
        'sources named with and without extension, as directories, twice. '
        'Distinct: options in use, sort of failure, number of outputs.')
TECHNIQUE = ('trace monitor over the file system: full snapshots before and '
             'after each command against a model of selection, naming and '
             'backup; contents against what the API gives for each input')
QUICK_SCALE = 2
LEVEL_NOTE = ('Source files that do not exist are skipped with a warning and '
              'do not count as failure. An output directory that is part of '
              'an absolute input path is modelled as the code documents '
              'itself: the nearest common directory is replaced.')
REQUIRED = {'commands': 600, 'outputs': 1000, 'failures': 100, 'backups': 80,
            'collisions': 20, 'parallel': 60, 'untouched': 5000, 'stdout': 40,
            'stdin': 30, 'killed': 5}
DESIGN = ('Commands run in forked children with their own working directory, '
          'a tenth of them as real programs. The model computes the set of '
          'inputs and their destinations from the option values alone; the '
          'expected content comes from Template.compile in the parent before '
          'the command runs. Everything else in the tree must be as before, '
          'byte for byte, including directories.')
CPU = 60
MASK = re.compile(rb'\d{5,}(?:\.\d+)?|(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z]{2} +\d+ '
                  rb'\d+:\d+:\d+ \d{4}')


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel + '/'] = None
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.normpath(os.path.join(rel, f))] = os.readlink(p)
                continue
            with open(p, 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def run_forked(argv, cwd, env, stdin=b''):
    """The wrapper's main() in a forked child, as a program would run it."""
    fin = tempfile.TemporaryFile()
    fin.write(stdin)
    fin.seek(0)
    fout = tempfile.TemporaryFile()
    ferr = tempfile.TemporaryFile()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        top = os.getpid()
        try:
            signal.alarm(50)
            os.dup2(fin.fileno(), 0)
            os.dup2(fout.fileno(), 1)
            os.dup2(ferr.fileno(), 2)
            sys.stdin = io.TextIOWrapper(io.FileIO(0), encoding='utf-8')
            sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False),
                                          encoding='utf-8')
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False),
                                          encoding='utf-8')
            os.environ.clear()
            os.environ.update(env)
            os.chdir(cwd)
            sys.argv = ['cheetah'] + argv
            sys.path.insert(0, cwd)
            try:
                from Cheetah.CheetahWrapper import CheetahWrapper
                CheetahWrapper().main(['cheetah'] + argv)
                code = 0
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 255
                else:
                    sys.stderr.write(str(e.code) + '\n')
                    code = 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            code = code or 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else \
        -os.WTERMSIG(status)
    res = []
    for f in (fout, ferr):
        f.seek(0)
        res.append(f.read())
        f.close()
    fin.close()
    return code, res[0], res[1]


PROGRAM = ('import sys; sys.path.insert(0, %r); sys.argv[0] = "cheetah"\n'
           'from Cheetah.CheetahWrapper import _cheetah; _cheetah()')


def run_program(argv, cwd, env, stdin=b''):
    import Cheetah
    root = os.path.dirname(os.path.dirname(os.path.abspath(Cheetah.__file__)))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROGRAM % root]
                       + argv, cwd=cwd, env=env, input=stdin,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=100)
    return p.returncode, p.stdout, p.stderr


# ----------------------------------------------------------- the input tree

NAMES = ['a', 'b', 'ab', 'page', 'index', 'a_b', 'x1', 'Main', 'tmpl', 'page2', 'a.tmpl.v2', 'p.html.q']
DIRS = ['', 'd.tmpl', 'sub', 'sub/deep', 'other', 'subx', 'src', 'src/in', 'o']
GOOD = ['plain text\n', 'value $name|$n\n', '#if $n\nyes\n#else\nno\n#end if\n',
        '#def m\nin m $name\n#end def\n$m$m', 'é漢 $name\n',
        '#for $i in range(3)\n$i,#slurp\n#end for\n', '$name.upper()\n', '\n',
        '#attr $q = "<\'>"\n$q\n', 'cr\rlf\n', 'no end of line',
        '#cache\n$n\n#end cache\n', '## comment\n', 'a\\$b\n']
BAD_COMPILE = ['#if $x\nno end\n', 'text #end if\n', '$f(\n', '#for\n',
               '#def\n#end def', '#set 1 = 2\n', '#import\n', '#slurp x = (\n']
BAD_FILL = ['$nothing_here\n', '#raise ValueError("no")\n', '$n.upper\n',
            'text\n$(1/0)\n', '#import not_a_module_at_all\n']
KILL = ['#silent __import__("os")._exit(3)\n',
        '#silent __import__("os").kill(__import__("os").getpid(), 9)\n']


class Case(object):
    pass


def data_of(rng):
    return {'name': rng.choice(['Bob', 'É<', 'x y']), 'n': rng.randint(0, 3)}


def tree(rng, root, iext, n, bad):
    """writes templates; returns {path relative to root: 'good'|'bad'...}"""
    files = {}
    for _ in range(n):
        d = rng.choice(DIRS)
        ext = rng.choice([iext, iext, iext, '', '.txt', '.tmpl', iext + 'x'])
        p = os.path.join(d, rng.choice(NAMES) + ext)
        kind = 'good'
        src = ''.join(rng.choice(GOOD) for _ in range(rng.randint(1, 3)))
        if bad and rng.random() < .35:
            kind = rng.choice(bad)
            src = {'compile': rng.choice(BAD_COMPILE),
                   'fill': 'start\n' + rng.choice(BAD_FILL),
                   'kill': rng.choice(KILL)}[kind]
        if os.path.isdir(os.path.join(root, p)):
            continue
        if any(os.path.isfile(os.path.join(root, *d.split('/')[:i + 1]))
               for i in range(len(d.split('/'))) if d):
            continue
        write(os.path.join(root, p), src)
        files[p] = kind
    return files


def norm(p):
    return os.path.normpath(p)


def select(root, args, opts, tree_before):
    """The model of source selection: normalised paths, in any order."""
    idir, iext = opts['idir'], opts['iext']
    out = []

    def isdir(p):
        return os.path.isdir(os.path.join(root, p))

    def isfile(p):
        return os.path.isfile(os.path.join(root, p))

    def below(p):
        for d, dirs, files in os.walk(os.path.join(root, p)):
            for f in files:
                if f.endswith(iext):
                    q = os.path.join(d, f)
                    # as the path was named
                    out.append(norm(os.path.join(
                        p, os.path.relpath(q, os.path.join(root, p)))))
    if not args:
        below(os.path.join(idir, '.'))
        return out
    for a in args:
        p = os.path.join(idir, a)
        if isdir(p):
            below(p)
        elif isfile(p):
            out.append(norm(p))
        elif not p.endswith(iext) and isfile(p + iext):
            out.append(norm(p + iext))
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


def destination(src, opts):
    idir = opts['idir'] and norm(opts['idir'])
    base = src
    if idir and idir != '.' and src.startswith(idir + '/'):
        base = src[len(idir) + 1:]
    if base.endswith(opts['iext']):
        base = base[:-len(opts['iext'])]
    odir = opts['odir'].rstrip('/') if len(opts['odir']) > 1 else opts['odir']
    if opts['flat']:
        return os.path.join(odir, os.path.basename(base) + opts['oext']), base
    if odir and base.startswith('/'):
        rel = os.path.basename(base)
        if odir.startswith('/'):
            common = os.path.commonpath([os.path.dirname(base), odir])
            if common != '/':
                rel = os.path.relpath(base, common)
        return os.path.join(odir, rel + opts['oext']), base
    return os.path.join(odir, base + opts['oext']), base


def expected(command, src, base, opts, sl, cwd):
    """('ok', bytes) or ('raised', ...) as the API gives it"""
    from Cheetah.Template import Template

    class Opt(object):
        shbang = opts['shbang'] or '#!/usr/bin/env python'
    old = os.getcwd()
    os.chdir(cwd)
    try:
        settings = dict(opts['settings'] or {})
        if command == 'compile':
            name = os.path.basename(base)
            if not re.match(r'[A-Za-z_][A-Za-z_0-9]*\Z', name):
                return ('raised', 'name')
            code = Template.compile(
                file=src, returnAClass=False, moduleName=name, className=name,
                commandlineopts=Opt, compilerSettings=settings,
                cacheCompilationResults=False, useCache=False)
            return ('ok', code)
        cls = Template.compile(file=src, compilerSettings=settings,
                               cacheCompilationResults=False, useCache=False)
        return ('ok', str(cls(searchList=list(sl))).encode('utf-8'))
    except Exception as e:
        return ('raised', type(e).__name__)
    finally:
        os.chdir(old)


def mask(b):
    return MASK.sub(b'N', b)


SETTINGS = [None, None, None, {'cheetahVarStartToken': '@'},
            {'useNameMapper': False}, {'directiveStartToken': '%'},
            {'commentStartToken': '//', 'cheetahVarStartToken': '&&'}]


def options(rng, root, command):
    o = {'idir': '', 'odir': '', 'iext': '.tmpl',
         'oext': {'compile': '.py', 'fill': '.html'}[command], 'flat': False,
         'nobackup': False, 'stdout': False, 'settings': None, 'shbang': None}
    argv = []

    def give(name, val):
        argv.extend(['--' + name, val] if rng.random() < .5
                    else ['--%s=%s' % (name, val)])
    if rng.random() < .35:
        v = rng.choice(['tmpl', '.tmpl', '.html', 'txt', '.in.tmpl'])
        give('iext', v)
        o['iext'] = v if v.startswith('.') else '.' + v
    if rng.random() < .35:
        v = rng.choice(['py', '.out', 'htm', '.gen.py'])
        give('oext', v)
        o['oext'] = v if v.startswith('.') else '.' + v
    if rng.random() < .4:
        v = rng.choice(['sub', 'src', './sub', 'sub/', 'sub/../src', 'src//in',
                        '.', root, os.path.join(root, 'src')])
        give('idir', v)
        o['idir'] = v[:-1] if v.endswith('/') else v
    if rng.random() < .5:
        v = rng.choice(['out', 'out/new/deep', './out', 'out/', 'o', 'sub',
                        os.path.join(root, 'out'), os.path.join(root, 'src')])
        give('odir', v)
        o['odir'] = v[:-1] if v.endswith('/') else v
    if rng.random() < .25:
        argv.append('--flat')
        o['flat'] = True
    if rng.random() < .25:
        argv.append('--nobackup')
        o['nobackup'] = True
    if rng.random() < .12:
        argv.append(rng.choice(['--stdout', '-p']))
        o['stdout'] = True
    if rng.random() < .3:
        argv.append('--quiet')
    s = rng.choice(SETTINGS)
    if s:
        give('settings', ','.join('%s=%r' % x for x in sorted(s.items())))
        o['settings'] = s
    if rng.random() < .2:
        o['shbang'] = rng.choice(['#!/usr/bin/python3', '#!/opt/my py -u'])
        give('shbang', o['shbang'])
    return o, argv


def data_options(rng, root, env):
    sl = []
    argv = []
    full = data_of(rng)
    how = rng.choice(['env', 'pickle', 'json', 'both', 'all'])
    # the options' order on the command line does not matter
    if how in ('env', 'all'):
        argv.append('--env')
        e = {'name': 'from-env', 'n': '1'}
        env.update(e)
        sl.insert(0, dict(env))
    if how in ('pickle', 'both', 'all'):
        d = data_of(rng)
        p = os.path.join(root, 'data.pickle')
        with open(p, 'wb') as f:
            pickle.dump(d if how == 'pickle' else {'name': 'from-pickle'}, f)
        argv.extend(['--pickle', 'data.pickle'])
        sl.insert(0, d if how == 'pickle' else {'name': 'from-pickle'})
    if how in ('json', 'both', 'all'):
        d = full if how != 'all' else {'n': full['n']}
        with open(os.path.join(root, 'data.json'), 'w') as f:
            json.dump(d, f)
        argv.append('--json=data.json')
        sl.insert(0, d)
    return argv, sl, how


def command_case(ctx, rng):
    root = os.path.join(ctx.tmp('cli'), 'w')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        _command_case(ctx, rng, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _command_case(ctx, rng, root):
    command = rng.choice(['compile', 'fill'])
    opts, argv = options(rng, root, command)
    bad = []
    if rng.random() < .4:
        bad = [rng.choice(['compile', 'fill'])]
        if rng.random() < .4:
            bad.append('kill')
    files = tree(rng, root, opts['iext'], rng.randint(1, 9), bad)
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONUTF8': '1',
           'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'}
    dargv, sl, how = data_options(rng, root, env)
    argv += dargv
    parallel = rng.random() < .2
    if parallel:
        argv.append('--parallel=%d' % rng.choice([2, 3, 8]))
    # which sources
    recurse = rng.random() < .5
    args = []
    if recurse:
        argv.append('-R')
    if not recurse or rng.random() < .5:
        cands = sorted(files)
        for _ in range(rng.randint(1, 5)):
            if not cands:
                break
            a = rng.choice(cands)
            r = rng.random()
            if opts['idir']:
                q = norm(os.path.join(root, opts['idir']))
                a = os.path.relpath(os.path.join(root, a), q)
            elif r < .1:
                a = os.path.join(root, a)
            if r > .8:
                a = './' + a
            if rng.random() < .3 and a.endswith(opts['iext']):
                a = a[:-len(opts['iext'])]
            if recurse and rng.random() < .3:
                a = os.path.dirname(a) or '.'
            if rng.random() < .05:
                a = 'missing' + a.replace('/', '_')
            args.append(a)
        if args and rng.random() < .15:
            args.append(args[0])
    if not args and not recurse:
        args = ['missing']
    dirs_named = [a for a in args if os.path.isdir(os.path.join(
        root, opts['idir'], a))]
    if dirs_named and not recurse:
        args = [a for a in args if a not in dirs_named] or ['missing']
    if rng.random() < .5:
        line = [command] + argv + args
    else:
        line = [command[0]] + args + argv
    # previous outputs
    srcs = select(root, args, opts, None)
    plan = {}
    for s in srcs:
        dst, base = destination(s, opts)
        plan.setdefault(dst, []).append((s, base))
    collide = any(len(v) > 1 for v in plan.values())
    for dst in sorted(plan):
        if rng.random() < .35:
            full = os.path.join(root, dst)
            par = os.path.dirname(full)
            if os.path.isdir(full):
                continue
            try:
                os.makedirs(par, exist_ok=True)
            except OSError:
                continue
            if os.path.exists(full):
                continue
            write(full, 'previous ' + dst)
            if rng.random() < .4:
                write(full + '.bak', 'older ' + dst)
    # files that block a destination are failures of their own; leave them out
    for dst in plan:
        full = os.path.join(root, dst)
        if os.path.isdir(full) or os.path.exists(full + '.bak') and \
                os.path.isdir(full + '.bak'):
            return
        p = os.path.dirname(full)
        while len(p) > len(root):
            if os.path.exists(p) and not os.path.isdir(p):
                return
            p = os.path.dirname(p)
    if select(root, args, opts, None) != srcs:
        return      # a previous output became an input
    sources = {norm(os.path.join(root, s)) for s in srcs}
    dsts = {norm(os.path.join(root, d)) for d in plan}
    dsts |= {d + '.bak' for d in dsts}
    if sources & dsts or len(dsts) != 2 * len(plan) or any(
            os.path.basename(d) == '__init__.py' for d in dsts):
        return      # outputs replace inputs
    before = snapshot(root)
    # what the API gives
    want, failing, killers = {}, {}, 0
    for dst, ss in plan.items():
        for s, base in ss:
            rel = os.path.relpath(os.path.join(root, s), root)
            kind = files.get(norm(rel))
            if kind == 'kill' and command == 'fill' and \
                    not (opts['settings'] or {}).get('directiveStartToken'):
                failing[dst] = 'kill'
                killers += 1
                continue
            r = expected(command, s, base, opts, sl, root)
            if r[0] == 'ok':
                want[dst] = r[1]
            else:
                failing[dst] = r
    real = rng.random() < .08
    code, out, err = (run_program if real else run_forked)(line, root, env)
    after = snapshot(root)
    d = {'line': line, 'files': files, 'code': code,
         'err': err.decode('utf-8', 'replace')[-900:], 'sources': srcs}
    ctx.count('commands')
    ctx.saw((command, tuple(sorted(a.split('=')[0] for a in argv
                                   if a.startswith('-'))), bool(args),
             bool(failing), collide, len(plan)))
    changed = {k for k in set(before) | set(after)
               if before.get(k, 0) != after.get(k, 0)}
    if collide and (opts['flat'] or not opts['stdout']):
        ctx.count('collisions')
        need(code != 0, 'colliding outputs are not refused', key='collision',
             **d)
        same(changed, set(), 'files were written in spite of collisions',
             key='collision', **d)
        return
    if collide:
        return
    if failing:
        ctx.count('failures')
        if 'kill' in failing.values():
            ctx.count('killed')
        need(code != 0, 'a failure is not reported', key='status',
             failing=repr(failing), **d)
    else:
        same(code, 0, 'exit status without a failure', key='status', **d)
    if opts['stdout']:
        same(changed, set(), 'files written with --stdout', key='stdoutfiles',
             **d)
        if not parallel and not failing:
            # in the order of the sources; a walk has no fixed order
            ctx.count('stdout')
            got, parts = mask(out), [mask(w) for w in want.values()]
            need(len(got) == sum(map(len, parts))
                 and all(x in got for x in parts),
                 'output on stdout', key='stdout', got=got, want=parts, **d)
        return
    if parallel:
        ctx.count('parallel')

    def rel(p):
        return os.path.relpath(os.path.join(root, p), root)
    # the expected state
    allowed = {}
    for dst, w in want.items():
        k = norm(rel(dst))
        got = after.get(k)
        done = got is not None and mask(got) == mask(w)
        old = before.get(k)
        if not done and failing:
            # not reached, or never begun: as it was
            same(got, old, 'neither the old nor the new output', key='partial',
                 dst=dst, **d)
            continue
        need(done, 'wrong output', key='content', dst=dst, got=got, want=w,
             **d)
        ctx.count('outputs')
        allowed[k] = got
        if old is not None and not opts['nobackup']:
            if old != got or k + '.bak' in changed:
                same(after.get(k + '.bak'), old, 'backup', key='backup',
                     dst=dst, **d)
            ctx.count('backups')
            allowed[k + '.bak'] = old
        if command == 'compile' and opts['shbang'] and got is not None:
            need(got.startswith(opts['shbang'].encode() + b'\n'),
                 'interpreter line', key='shbang', dst=dst, **d)
    for dst in failing:
        k = norm(rel(dst))
        same(after.get(k), before.get(k), 'a failed input changed its output',
             key='failed', dst=dst, **d)
    # new directories
    newdirs = set()
    for k in allowed:
        p = os.path.dirname(k)
        while p and p + '/' not in before:
            newdirs.add(p + '/')
            p = os.path.dirname(p)
    for p in newdirs:
        allowed[p] = None
        if command == 'compile':
            same(after.get(os.path.join(p, '__init__.py')), b'',
                 'package file of a new directory', key='init', dir=p, **d)
            allowed[os.path.join(p, '__init__.py')] = b''
    other = sorted(k for k in changed if k not in allowed)
    if failing and parallel:
        # a directory may have been made and not used any more
        other = [k for k in other if not k.endswith(('/', '__init__.py'))]
    same(other, [], 'other files changed', key='touched', **d)
    ctx.count('untouched', len(before))


def stdin_case(ctx, rng):
    """- reads standard input and writes standard output"""
    root = os.path.join(ctx.tmp('stdin'), 'w')
    os.makedirs(root, exist_ok=True)
    from Cheetah.Template import Template
    command = rng.choice(['compile', 'fill'])
    src = ''.join(rng.choice(GOOD) for _ in range(rng.randint(1, 4)))
    src = src.replace('\r', '')
    bad = rng.random() < .25
    if bad:
        src += rng.choice(BAD_COMPILE + (BAD_FILL if command == 'fill' else []))
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONUTF8': '1',
           'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'}
    argv, sl, how = data_options(rng, root, env)
    settings = rng.choice(SETTINGS)
    if settings:
        argv.append('--settings=' + ','.join('%s=%r' % x for x in
                                             settings.items()))
    before = snapshot(root)
    code, out, err = (run_program if rng.random() < .1 else run_forked)(
        [command] + argv + ['-'], root, env, src.encode('utf-8'))
    d = {'src': src, 'argv': argv, 'command': command,
         'err': err.decode('utf-8', 'replace')[-600:]}
    try:
        kw = dict(compilerSettings=dict(settings or {}),
                  cacheCompilationResults=False, useCache=False)
        if command == 'compile':
            want = Template.compile(src, returnAClass=False, **kw)
        else:
            want = str(Template.compile(src, **kw)(
                searchList=list(sl))).encode('utf-8')
    except Exception as e:
        want = None
        d['expected'] = repr(e)[:300]
    ctx.count('stdin')
    ctx.saw(('stdin', command, how, want is None,
             tuple(sorted(settings or ()))))
    same(snapshot(root), before, 'files written', key='stdinfiles', **d)
    if want is None:
        need(code != 0, 'a failure is not reported', key='stdinstatus', **d)
        return
    same(code, 0, 'exit status', key='stdinstatus', **d)
    same(mask(out), mask(want), 'output for standard input', key='stdinout',
         **d)


def faults(ctx, rng):
    """outputs that cannot be written, bad options, bad data"""
    root = os.path.join(ctx.tmp('faults'), 'w')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONUTF8': '1',
           'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'}
    command = rng.choice(['compile', 'fill'])
    ext = {'compile': '.py', 'fill': '.html'}[command]
    for n in ('one', 'two', 'three'):
        write(os.path.join(root, n + '.tmpl'), 'text %s\n' % n * rng.choice(
            [1, 1, 3000]))
        if rng.random() < .5:
            write(os.path.join(root, n + ext), 'previous\n')
    kind = rng.choice(['isdir', 'full', 'settings', 'unknown', 'setname',
                       'option', 'nodata', 'baddata', 'command', 'api',
                       'encoding', 'bakdir', 'nofiles', 'dirarg',
                       'undecodable', 'unencodable', 'name'])
    argv = [command]
    names = ['one', 'two', 'three']
    victim = rng.choice(names)
    untouched = True            # nothing at all may change
    parallel = []
    if kind in ('isdir', 'full', 'bakdir', 'undecodable', 'unencodable',
                'name'):
        untouched = False
        if rng.random() < .4:
            parallel = ['--parallel=2']
    if kind == 'isdir':
        p = os.path.join(root, victim + ext)
        if os.path.exists(p):
            os.remove(p)
        os.mkdir(p)
    elif kind == 'full':
        p = os.path.join(root, victim + ext)
        if os.path.exists(p):
            os.remove(p)
        os.symlink('/dev/full', p)
        argv.append('--nobackup')
    elif kind == 'bakdir':
        write(os.path.join(root, victim + ext), 'previous\n')
        os.mkdir(os.path.join(root, victim + ext + '.bak'))
    elif kind == 'settings':
        argv.append('--settings=useFilters=')
    elif kind == 'unknown':
        argv.append('--settings=noSuchSetting=True')
    elif kind == 'setname':
        argv.append('--settings=undefined_name')
    elif kind == 'option':
        argv.append('--no-such-option')
    elif kind == 'nodata':
        argv.append(rng.choice(['--pickle=none', '--json=none']))
    elif kind == 'baddata':
        write(os.path.join(root, 'garbage'), b'\x01{garbage')
        argv.append(rng.choice(['--pickle=garbage', '--json=garbage']))
    elif kind == 'command':
        argv = [rng.choice(['complie', 'x', '--fil'])]
    elif kind == 'api':
        argv.append('--templateAPIClass=' + rng.choice(
            ['NoColon', 'no_such_module:Klass', 'json:NoSuchClass']))
    elif kind == 'encoding':
        argv.append('--encoding=no-such-encoding')
    elif kind == 'nofiles':
        names = []
    elif kind == 'dirarg':
        os.mkdir(os.path.join(root, 'folder'))
        names = ['folder'] + names
    elif kind == 'undecodable':
        write(os.path.join(root, victim + '.tmpl'), b'ok \xff\xfe\n')
    elif kind == 'unencodable':
        if command == 'compile':
            return
        write(os.path.join(root, victim + '.tmpl'), "a $unichr_\n$str('\\u6f22')"
              .replace('$unichr_', ''))
        argv.append('--encoding=latin-1')
    elif kind == 'name':
        if command == 'fill':
            return
        write(os.path.join(root, 'not-a-name.tmpl'), 'x\n')
        names.insert(rng.randrange(4), 'not-a-name')
        victim = 'not-a-name'
    before = snapshot(root)
    run = run_program if rng.random() < .1 else run_forked
    code, out, err = run(argv + parallel + names, root, env)
    after = snapshot(root)
    d = {'argv': argv + parallel + names, 'kind': kind, 'code': code,
         'err': err.decode('utf-8', 'replace')[-600:]}
    ctx.count('failures')
    ctx.saw(('fault', kind, command, bool(parallel)))
    need(code != 0, 'a failure is not reported', key='fault', **d)
    changed = {k for k in set(before) | set(after)
               if before.get(k, 0) != after.get(k, 0)}
    if untouched:
        same(changed, set(), 'files changed', key='faultfiles', **d)
        return
    allowed = {n + e for n in ('one', 'two', 'three') if n != victim
               for e in (ext, ext + '.bak')}
    if kind in ('undecodable', 'unencodable'):
        same(sorted(changed - allowed), [],
             'a failed input changed files', key='faultfiles', **d)
    elif kind == 'bakdir':
        # shutil puts a copy into the directory or fails; the output stays
        same(after.get(victim + ext), b'previous\n',
             'output changed without a backup', key='faultbak', **d)
    else:
        same(sorted(changed - allowed), [], 'other files changed',
             key='faultfiles', **d)
    shutil.rmtree(root, ignore_errors=True)


SCENARIOS = [('command', command_case, 1600, 16000, {'modes': ('c',)}),
             ('stdin', stdin_case, 150, 1500, {'modes': ('c',)}),
             ('faults', faults, 250, 2500, {'modes': ('c',)})]
