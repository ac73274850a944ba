"""C12: concurrent compiling and rendering equals doing it sequentially."""
import random
import re
import sys
import threading
import time
from vlib import gen, pyprog, regions
from vlib.core import same, need
from vlib.t import write

RULE = ('Rounds of 3-8 threads run jobs (compile, subclass, instantiate, '
        'render, fail) on generated templates under a tiny switch interval '
        'and delays injected at lines of the code under test; every job was '
        'first done alone. Distinct: job kinds in the round and schedule '
        'style; the pairs of source lines between which threads were '
        'actually switched are counted.')
TECHNIQUE = ('schedule-perturbing stress with a sequential oracle: per-job '
             'outcomes under injected thread switches compared with the same '
             'jobs done alone, module registry checked, deadlock watchdog')
QUICK_SCALE = 1.5
LEVEL_NOTE = ('Interleavings are sampled by injected delays at Python line '
              'boundaries, not enumerated; the native lookup runs under the '
              'interpreter lock.')
REQUIRED = {'thread switches': 1000, 'jobs': 300}
MODES = ('c', 'c', 'c', 'pure')
CPU = 120
DESIGN = ('Each job is a closure returning everything observable (text, '
          'exception type and message, class and module names, registry '
          'entry, trace of calls into caller data). The expected value is '
          'obtained before the round by running the job alone with another '
          'salt in its source, so that the threaded run meets cold caches. '
          'Each round then runs under one of several schedule styles: bare '
          'threads with a 1 microsecond switch interval, random yields at '
          'every traced line of Cheetah and generated code, or long sleeps '
          'at a random few lines, which holds a thread inside one critical '
          'region while the others run through.')


class Tracer(object):
    """Yields at lines of the code under test; counts actual switches."""

    def __init__(self, seed, style):
        self.seed = seed
        self.style = style
        self.last = None
        self.pairs = set()
        self.switches = 0
        self.slow = seed % 23

    def __call__(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if '/Cheetah/' in fn or not fn.startswith(('/', '<frozen')):
            return Local(self, random.Random(
                self.seed ^ threading.get_ident())).line
        return None


class Local(object):
    def __init__(self, tr, rnd):
        self.tr = tr
        self.rnd = rnd

    def line(self, frame, event, arg):
        tr = self.tr
        me = threading.get_ident()
        here = (frame.f_code.co_name, frame.f_lineno)
        last = tr.last
        if last is not None and last[0] != me:
            tr.switches += 1
            if len(tr.pairs) < 200000:
                tr.pairs.add((last[1], here))
        tr.last = (me, here)
        if tr.style == 'yield':
            if self.rnd.random() < .02:
                time.sleep(0)
        elif tr.style == 'hold':
            if hash(here) % 23 == tr.slow and self.rnd.random() < .05:
                time.sleep(.0005)
        elif tr.style == 'mixed':
            x = self.rnd.random()
            if x < .001:
                time.sleep(.001)
            elif x < .01:
                time.sleep(0)
        return self.line


def info(k):
    """What a class says about itself and the module registry."""
    m = sys.modules.get(k.__module__)
    return (k.__name__, m is not None and getattr(m, k.__name__, None) is k,
            m is not None and m.__name__ == k.__module__,
            [b.__name__ for b in k.__mro__[1:]])


def guard(fn):
    try:
        return fn()
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


# --- jobs: make(rng, ctx) -> job(salt) -> observable ----------------------

NAMES = [{}, {'className': 'Shared'}, {'moduleName': 'Shared'},
         {'className': 'Shared', 'moduleName': 'SharedMod'}]


def j_flow(rng, ctx):
    g = gen.TGen(rng, maxdepth=rng.randint(1, 3), budget=rng.choice([10, 20]))
    g.template()
    src = g.w.src()
    fac = gen.make_data(rng)
    kw = dict(rng.choice(NAMES))
    if rng.random() < .3:
        kw['cacheCompilationResults'] = False

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n' + src, **kw)
        sl, log = fac()
        t = k(searchList=sl)
        return info(k), guard(lambda: str(t)), list(log)
    return job


def j_prog(rng, ctx):
    g = pyprog.PGen(rng, budget=20, maxdepth=3)
    src, py = g.program()
    fac = pyprog.data(rng)
    kw = dict(rng.choice(NAMES))

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n' + src, **kw)
        out = []
        for i in range(2):
            ns, log = fac()
            t = k(searchList=[ns])
            out.append((guard(lambda: str(t)), list(log)))
        return info(k), out
    return job


def j_region(rng, ctx):
    g = regions.Gen(rng, budget=12, maxdepth=3)
    src = g.program()[0]
    seq = [rng.random() < .4 for _ in range(4)]

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n' + src)
        ns = regions.namespace(seq)
        log = []
        lib, klasses = regions.filters(log)
        ns.update(klasses)
        ns['sub'] = Template.compile(regions.SUB)(searchList=[ns])
        t = k(searchList=[ns], filtersLib=lib, filter='FI')
        return info(k), [guard(lambda: str(t)) for _ in range(3)], len(log)
    return job


BAD = ['#if $x', '$x(', '#end if', '#for $x in', 'a\n#if 1\n#end for',
       '${x', '#set = 3', '#def m(', '$x[', '#foo', 'a\n\n  #else\n',
       '#attr $x.y = 3', '#import 1', 'a $x("""b"']


def j_bad(rng, ctx):
    src = rng.choice(BAD)

    def job(salt):
        from Cheetah.Template import Template
        return guard(lambda: str(Template.compile(salt + '\n' + src)(
            searchList=[{'x': 1}])))
    return job


def j_settings(rng, ctx):
    tok = rng.choice(['@', '%', '~'])
    a = ('#compiler-settings\ncheetahVarStartToken = %s\n'
         '#end compiler-settings\n%sx $x %sy' % (tok, tok, tok))
    b = '$x @x ~x %%%x'

    def job(salt):
        from Cheetah.Template import Template
        ns = [{'x': 'X', 'y': 'Y'}]
        r = []
        for src in (a, b):
            k = Template.compile(salt + '\n' + src)
            r.append((info(k), str(k(searchList=ns))))
        k = Template.compile(salt + b, compilerSettings={
            'cheetahVarStartToken': tok})
        return r, str(k(searchList=ns))
    return job


def j_macro(rng, ctx):
    n = rng.randrange(100)

    def job(salt):
        from Cheetah.Template import Template

        def mac(src):
            return src.replace('q', 'n%d' % n)
        k = Template.compile(
            salt + '\n#mac: q$x#\n#mac#qq#end mac#\n'
            '#defmacro dm\n<%d @src>\n#end defmacro\n#dm: $x#'
            '\n#dm#z#end dm#' % n,
            compilerSettings={'macroDirectives': {'mac': mac}})
        r = str(k(searchList=[{'x': 'X'}]))
        # the inline macro belongs to its own template only
        other = guard(lambda: str(Template.compile(
            salt + ' #dm: $x# #mac: q#')(searchList=[{'x': 'X'}])))
        return r, other
    return job


def j_chain(rng, ctx):
    d = rng.randint(2, 4)

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n#def a\nA$x\n#end def\n#block b\nB$a'
                             '#end block\n[$a]', className='Root')
        r = [info(k)]
        for i in range(d):
            k = k.subclass('#def a\na%d$x $super()#end def\n#def n%d\n%s$b'
                           '#end def\n' % (i, i, salt), className='L%d' % i)
            r.append(info(k))
        t = k(searchList=[{'x': 'X'}])
        return r, guard(lambda: str(t)), guard(lambda: getattr(
            t, 'n%d' % (d - 1))())
    return job


def j_inst(rng, ctx):
    n = rng.randrange(1000)

    def job(salt):
        from Cheetah.Template import Template
        t = Template(salt + '\n#set global $g = $x * 2\n$g $x $loop\n'
                     '#filter WebSafe\n$m\n#end filter\n$m',
                     searchList=[{'x': n, 'loop': lambda: n + 1, 'm': '<'}])
        return str(t), str(t), t.getVar('g', None)
    return job


def j_include(rng, ctx):
    n = rng.randrange(1000)
    p = write('%s/inc%d.tmpl' % (ctx.tmp('inc'), n), 'F%d $x $g\n' % n)

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(
            salt + '\n#set global $g = %d\n#include $p\n#include source=$s\n'
            '#include raw $p\n$g2 $x' % n)
        t = k(searchList=[{'x': 'X', 'p': p, 's': salt
                           + '#set global $g2 = $x + "2"\n[$g]'}])
        return str(t), str(t)
    return job


def j_pre(rng, ctx):
    n = rng.randrange(1000)

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n%%if 1\n$x @y %d\n%%end if\n#if 1#z'
                             '#end if#' % n,
                             preprocessors={'tokens': '@ %',
                                            'searchList': [{'y': n}]})
        return info(k), str(k(searchList=[{'x': 'X'}]))
    return job


def j_cache(rng, ctx):
    n = rng.randrange(1000)

    def job(salt):
        from Cheetah.Template import Template
        k = Template.compile(salt + '\n#cache id="c", timer="100m"\n$f '
                             '#end cache\n$*x $f $x', className='Cached')
        calls = [0]

        def f():
            calls[0] += 1
            return '%d/%d' % (n, calls[0])
        ns = {'x': n, 'f': f}
        t = k(searchList=[ns])
        a = str(t)
        ns['x'] = n + 1
        return a, str(t), calls
    return job


def j_indent(rng, ctx):
    n = rng.randrange(4)

    def job(salt):
        from Cheetah.Template import Template
        src = (salt + '\n#indent push\n#indent ++\nl1\n#indent ++\nl2\n'
               '#indent push\n' + '#indent ++\nx\n' * n + '#indent pop\nl2\n'
               '#indent pop\nl0\n')
        t = Template.compile(src)()
        return str(t), str(t)
    return job


def j_misc(rng, ctx):
    """Names only this thread has; a leak shows as another's value."""
    n = rng.randrange(10 ** 6)

    def job(salt):
        from Cheetah.Template import Template
        class Own(object):
            tag = n

            def call(self):
                time.sleep(0)
                return {'deep': ['v%d' % n]}
        k = Template.compile(
            salt + '\n#from time import sleep as zz\n#attr z = %d\n#set $v = %d\n'
            '$o.tag $o.call.deep[0] $v $z #silent $zz(0)\n'
            '#for $i in $range(3)\n$i$o.tag #silent $zz(0)\n$v\n#end for'
            '\n#capture c\n$v$o.call.deep#silent $zz(0)\n#end capture\n'
            '$c#call $f#$v#silent $zz(0)\n$z#end call#' % (n, n),
            className='Misc')
        ns = {'o': Own(), 'f': lambda s: '<%s>' % s}
        return info(k), str(k(searchList=[ns])), k.z
    return job


KINDS = [(n[2:], f) for n, f in sorted(globals().items())
         if n.startswith('j_')]


def shared_class(rng, ctx, salt):
    """Jobs that render separate instances of one class."""
    from Cheetah.Template import Template
    g = gen.TGen(rng, maxdepth=2, budget=12)
    g.template()
    k = Template.compile(salt + '\n#def m(a)\n<$a$who>#end def\n'
                         '#block bl\n$m($who)#end block\n' + g.w.src())
    jobs = []
    for i in range(4):
        fac = gen.make_data(random.Random(rng.random()))

        def job(salt, fac=fac, i=i):
            sl, log = fac()
            t = k(searchList=[{'who': 'w%d' % i}] + list(sl))
            return guard(lambda: str(t)), guard(lambda: t.m(i)), list(log)
        jobs.append(('shared', job))
    return jobs


def strip(v, salt):
    if isinstance(v, str):
        return re.sub(r'cheetah_(\w+?)_\d+_\d+_\d+', r'\1',
                      v.replace(salt, 'SALT'))
    if isinstance(v, (list, tuple)):
        return [strip(x, salt) for x in v]
    return v


def go(ctx, rng, style, kinds):
    nthreads = rng.randint(3, 8)
    base = 's%07d' % rng.randrange(10 ** 7)
    jobs = []
    for _ in range(rng.randint(3, 6)):
        name, make = rng.choice(kinds)
        jobs.append((name, make(rng, ctx)))
    if rng.random() < .5:
        jobs += shared_class(rng, ctx, base + 'x')
    want = []
    for i, (name, job) in enumerate(jobs):
        s = base + 'a%02d' % i
        want.append(strip(job(s), s))
    plans = []
    for t in range(nthreads):
        plan = [rng.randrange(len(jobs)) for _ in range(rng.randint(2, 5))]
        if t and rng.random() < .4:
            plan[0] = plans[0][0]
        plans.append(plan)
    results = [[] for _ in plans]
    barrier = threading.Barrier(nthreads)
    tracer = Tracer(rng.randrange(10 ** 6), style)

    def work(n):
        if style != 'bare':
            sys.settrace(tracer)
        try:
            barrier.wait(30)
            for i in plans[n]:
                # the same salt for the same job: equal cached requests
                s = base + 'b%02d' % i
                try:
                    results[n].append((i, strip(jobs[i][1](s), s)))
                except BaseException as e:
                    import traceback
                    results[n].append((i, ('job failed',
                                           type(e).__name__, str(e),
                                           traceback.format_exc()[-900:])))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if style == 'bare' else 1e-4)
    ts = [threading.Thread(target=work, args=(n,), daemon=True)
          for n in range(nthreads)]
    try:
        for t in ts:
            t.start()
        end = time.monotonic() + 120
        for t in ts:
            t.join(max(0, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    stuck = [t for t in ts if t.is_alive()]
    if stuck:
        import traceback
        fr = sys._current_frames()
        need(False, 'threads are stuck', key='deadlock', stacks=[
            ''.join(traceback.format_stack(fr[t.ident])[-4:])
            for t in stuck if t.ident in fr][:3])
    for n, res in enumerate(results):
        for i, got in res:
            ctx.count('jobs')
            ctx.count('job:' + jobs[i][0])
            same(got, want[i], 'a job done concurrently differs from the '
                 'same job done alone', key='job:' + jobs[i][0], style=style,
                 others=[jobs[j][0] for p in plans for j in p][:20])
    ctx.count('thread switches', tracer.switches)
    ctx.count('distinct switch points', len(tracer.pairs))
    ctx.count('style:' + style)
    ctx.saw((style, tuple(sorted(set(n for n, _ in jobs))), nthreads))
    ctx.sample({'style': style, 'threads': nthreads,
                'jobs': [n for n, _ in jobs], 'plan': plans,
                'switches': tracer.switches,
                'switch_points': len(tracer.pairs)}, limit=3)


def mixed(ctx, rng):
    go(ctx, rng, rng.choice(['bare', 'yield', 'yield', 'hold', 'mixed']),
       KINDS)


def names(ctx, rng):
    """Equal names everywhere: the unique-module-name allocation."""
    from Cheetah.Template import Template
    style = rng.choice(['bare', 'yield', 'hold', 'mixed'])
    n = rng.randint(4, 10)
    salt = 's%07d' % rng.randrange(10 ** 7)
    same_src = rng.random() < .4
    cacheit = rng.random() < .5
    out = []
    barrier = threading.Barrier(n)
    tracer = Tracer(rng.randrange(10 ** 6), style)

    def work(i):
        if style != 'bare':
            sys.settrace(tracer)
        try:
            barrier.wait(30)
            for r in range(3):
                tag = 'same' if same_src else 't%d_%d' % (i, r)
                k = Template.compile('%s %s $x' % (salt, tag),
                                     className='K', moduleName='M' + salt,
                                     cacheCompilationResults=cacheit)
                out.append((tag, k, str(k(searchList=[{'x': i}])), i))
        except BaseException as e:
            out.append(('error', e, repr(e), i))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if style == 'bare' else 1e-4)
    ts = [threading.Thread(target=work, args=(i,), daemon=True)
          for i in range(n)]
    try:
        for t in ts:
            t.start()
        end = time.monotonic() + 60
        for t in ts:
            t.join(max(0, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    need(not any(t.is_alive() for t in ts), 'threads are stuck',
         key='deadlock')
    mods = {}
    for tag, k, text, i in out:
        need(tag != 'error', 'compiling failed in a thread: ' + text,
             key='error')
        same(text, '%s %s %d' % (salt, tag, i), 'text of another template',
             key='text')
        need(info(k)[1] and info(k)[2], 'the module registry has another '
             "template's module under this class's module name",
             key='registry', module=k.__module__)
        need(mods.setdefault(k.__module__, k) is k, 'two classes share a '
             'module name', key='modname', module=k.__module__)
        ctx.count('classes')
    ctx.count('thread switches', tracer.switches)
    ctx.saw(('names', style, n, same_src, cacheit))


SCENARIOS = [
    ('mixed', mixed, 80, 1200),
    ('names', names, 64, 800),
]
