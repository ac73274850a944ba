"""C17: malformed templates fail with a located parse error, never hang."""
import os
import re
import sys
import time
from vlib.core import need, same
from vlib.t import compile_, outcome, write

RULE = ('Token soups, byte-level and token-level mutations and every '
        'truncation of valid templates, unbalanced nestings, and single '
        'errors planted at known places, in all line-ending styles. '
        'Distinct: error message, error site, construct.')
TECHNIQUE = ('fuzzing under an outcome monitor: exception family, report '
             'text against the source, CPU clock, and a probe template '
             'after every failure')
LEVEL_NOTE = ('Errors raised by the executed generated module itself '
              '(imports, attribute initialisers) are the template\'s own. '
              'Python-level syntax errors are located where the compiler '
              'records a position: placeholders and block directives.')
REQUIRED = {'rejected': 4000, 'accepted': 1500, 'located': 800,
            'unbalanced': 800, 'truncations': 2000}
CPU = 20
DESIGN = ('Every input must compile or raise ParseError (or a subclass) '
          'within a CPU limit; the report must name an existing line and '
          'column and show that line and the file name; planted errors must '
          'be reported inside the planted construct; unbalanced templates '
          'must be rejected; a probe template must keep compiling to the '
          'same output after each failure. Repeated constructs are timed at '
          'two sizes.')

SOUP = ['$', '$x', '$x.y', '${', '}', '$(', ')', '$[', ']', '#', '##', '#*',
        '*#', '#if ', '#if 1', '#end if', '#else', '#elif 1', '#else if 1',
        '#for ', '#for $i in (1,2)', '#end for', '#while 0', '#end while',
        '#repeat 2', '#end repeat', '#unless 0', '#end unless', '#def f',
        '#def f(a, b=1)', '#def f(', '#end def', '#block b', '#end block',
        '#closure c', '#end closure', '#set ', '#set $a = 1', '#set $a',
        '#set global $a = 2', '#del $a', '#try', '#except', '#finally',
        '#end try', '#raw', '#end raw', '#cache', '#cache 10', '#end cache',
        '#call $f', '#call', '#arg a', '#end call', '#capture c',
        '#capture', '#end capture', '#filter WebSafe', '#filter',
        '#end filter', '#include ', '#include "x"', '#include raw ',
        '#include source=', '#import ', '#from ', '#extends ', '#implements ',
        '#implements f(', '#super', '#super(', '#echo ', '#echo 1',
        '#silent ', '#slurp', '#return', '#return 1', '#yield 1', '#stop',
        '#break', '#continue', '#pass', '#assert 1', '#raise', '#attr ',
        '#attr a = 1', '#@', '#@f', '#defmacro ', '#defmacro m',
        '#defmacro m(a=1)', '#end defmacro', '#m', '#end m', '#i18n',
        '#end i18n', '#i18n id=', '#errorCatcher ', '#errorCatcher Echo',
        '#transform ', '#breakpoint', '#compiler ',
        '#compiler-settings', '#compiler-settings reset',
        '#end compiler-settings', '#encoding utf-8', '#shBang x', '#end',
        '#end ', '#end x', '#indent', '#dedent', '<%', '%>', '<%=', '<% 1',
        ':', ': ', '(', ')', '[', ']', '{', '}', ',', '=', '==', '+=', '.',
        '..', '*', '**', '\\', '\\\n', "'", '"', "'''", '"""', "c'", 'c"',
        "c'$x'", "c''", 'a', 'b1', '_', '1', '1.', '0x', '1e', '@', '!',
        '$!x', '$*x', '$*5*x', '$*', '$!', '?', '`', '~', ' ', '  ', '\t',
        '\n', '\n', '\n', '\r\n', '\r', '\f', '\v', '\0', '\x1c', '\u2028',
        '\xe9', '\u4e2d', '\U0001f600', '\\$', '\\#', 'lambda', ' in ',
        ' for ', ' if ', ' else ', ' then ', 'None', 'not ', ' and ',
        '#*#', '#if 1#', '#end if#', '#set $a = 1#', '#echo $x#',
        '$x()', '$x(', '$x[', '$x[0]', '$f($x', '$x($x=1)', '${x, a=1}',
        '${x,', '#set $a[', '#set [$a', '#set $a, $b', '#set ($a)',
        '##doc: x', '##doc-method: x', '#* doc: x *#', '## line 3, col 4',
        '#if $x then 1 else 2', '#def f: ', '#if 1: ', '#for $q in $x: ',
        '#block b: ', '#cache: ', '#filter WebSafe: ', '#capture c: ',
        '#call $f: ', '#defmacro m: ', '#m: ', '#i18n: ', '#unless 1: ',
        '#repeat 2: ', '#while 0: ', '#try: ', '#else: ', '#end if: ']
PROBE = ('#def p(a=1)\n[$a]\n#end def\n#for $i in (1, 2)\n'
         '#if $i == 1: one\n#cache\n$i\n#end cache\n#call $w\n<$i>\n'
         '#end call\n#end for\n$p() $p(a=3) ${i, a=1} <%= i %>\n')
WANT = None


def probe():
    cls = compile_(PROBE)
    t = cls(searchList=[{'w': lambda s: s.upper()}])
    return str(t)


def setup(ctx):
    global WANT
    WANT = probe()
    same(WANT, 'one\n1\n<1>\n1\n<2>\n[1]\n [3]\n 2 2\n', 'the probe '
         'template', key='probe')


def lines_of(src):
    return re.split('\r\n|\r|\n', src)


REPORT = re.compile(r'^Line (\d+), column (\d+)(?: in file (.*))?$', re.M)


def location(e, src, ctx_key, filename=None, **d):
    """Check the report of a parse error; return (row, column)"""
    try:
        text = str(e)
    except Exception as x:
        need(False, 'a parse error cannot be printed', key='unprintable',
             error=repr(x), msg=getattr(e, 'msg', None), src=src, **d)
    ms = list(REPORT.finditer(text))
    need(ms, 'a parse error names no place', key='no-place', src=src,
         text=text, **d)
    m = ms[0]
    row, col = int(m.group(1)), int(m.group(2))
    ls = lines_of(src)
    need(1 <= row <= max(1, len(ls)), 'a parse error names a line that does '
         'not exist', key='row', row=row, src=src, text=text, **d)
    line = ls[row - 1]
    need(0 <= col <= len(line) + 2, 'a parse error names a column that '
         'does not exist', key='col', col=col, line=line, src=src, text=text,
         **d)
    # the text may itself hold odd line separators: compare verbatim
    shown = '\n%-4d|%s\n' % (row, line)
    need(shown in text[m.start():], 'a parse error does not show the line '
         'it names', key='line', row=row, line=line, src=src, text=text, **d)
    caret = shown + ' ' * 5 + ' ' * (col - 1) + '^\n'
    need(caret in text[m.start():], 'the caret is not below the column',
         key='caret', row=row, col=col, src=src, text=text, **d)
    # up to three lines on either side, under their own numbers
    after = caret + ''.join('%-4d|%s\n' % (n, ls[n - 1]) for n in range(
        row + 1, min(row + 3, len(ls) - (ls[-1] == '')) + 1))
    need(after in text[m.start():], 'the lines after the place are not shown',
         key='after', row=row, src=src, text=text, **d)
    before = '\n' + ''.join('%-4d|%s\n' % (n, ls[n - 1]) for n in range(
        max(row - 3, 2), row)) + shown[1:]
    need(before in text[m.start():], 'the lines before the place are not '
         'shown', key='before', row=row, src=src, text=text, **d)
    same(m.group(3), filename, 'the file named by a parse error',
         key='filename', src=src, text=text, **d)
    return row, col


def own_error(tb):
    """Did the executed generated module (or what it imports) raise?"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.endswith('.py') and not os.path.isabs(fn):
            return True
        tb = tb.tb_next
    return False


def attempt(ctx, rng, src, kind, **kw):
    """Compile any text; judge how that ends."""
    from Cheetah.Parser import ParseError
    err = sys.stderr
    filename = None
    t0 = time.process_time()
    try:
        with open('/dev/null', 'w') as sys.stderr:
            if rng.random() < .1 and '\r' not in src:
                filename = write(os.path.join(ctx.tmp('m'), 'm.tmpl'), src)
                compile_(None, file=filename, **kw)
            else:
                compile_(src, **kw)
        res = 'accepted'
    except ParseError as e:
        res = 'rejected'
        location(e, src, kind, filename)
        if kind == 'soup' or kind == 'mutant':
            m = re.sub(r"'[^']*'|\d+", '', str(e.msg))[:60]
            ctx.saw((kind, m))
    except Exception as e:
        if own_error(e.__traceback__) or (
                isinstance(e, RecursionError) and 'defmacro' in src):
            # (a macro may expand to itself for ever)
            res = 'own error'
        else:
            need(False, 'compiling a text ends in an internal error',
                 key='internal:' + type(e).__name__, src=src,
                 error=repr(e)[:300])
    finally:
        sys.stderr = err
    used = time.process_time() - t0
    need(used < 5 + len(src) / 1000., 'compiling took unreasonably long',
         key='slow', seconds=used, size=len(src), src=src[:2000])
    ctx.count(res)
    if res != 'accepted' and rng.random() < .25:
        same(probe(), WANT, 'a failed compilation changed a later one',
             key='aftermath', src=src)
    return res


def soup(ctx, rng):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 12, 20, 40])
    src = ''.join(rng.choice(SOUP) for _ in range(n))
    if 'compiler-settings' in src and 'reset' not in src:
        src = src.replace('#compiler-settings', '#compiler-settings\nx = 1')
    r = attempt(ctx, rng, src, 'soup')
    if r == 'accepted':
        ctx.saw(('soup ok', n))


CORPUS = [
    '#def f($a, b=[1, 2], *c, **d)\n$a.x(1)[2] ${b, x=1}\n#end def\n'
    '$f(1, b=$x)\n',
    '#if $a and ($b or "c")\nx\n#elif not $c\ny #slurp\n#else if 1\nz\n'
    '#else\nw\n#end if\n',
    '#for $i, ($j, k) in $x.items()\n#if $i: yes\n#continue\n#end for\n',
    '#try\n#raise ValueError("x")\n#except (KeyError, ValueError) as e\n$e\n'
    '#finally\nq\n#end try\n',
    '#cache id="a", timer="10s", varyBy=$x\n$a\n#end cache\n$*5m*b\n',
    '#call $f a=1\n#arg b\ntext $x\n#arg c: y\n#end call\n',
    '#capture q\n$x\n#end capture\n#set global $r = $q.strip()\n#del $q\n',
    '#filter WebSafe\n$x #raw\n#if $x\n#end raw\n#end filter\n',
    '#import os, sys\n#from os import path as p\n#attr a = {"b": (1, 2)}\n'
    '#extends object\n#implements respond\n',
    '#block b\n<%= 1 + 1 %><% for i in (1, 2): %>$i<% end %>\n#end block\n',
    '#defmacro m(a=1)\n@src %if @a%x%end if%\n#end defmacro\n#m a=2\nq $x\n'
    '#end m\n#i18n id="x": text\n',
    '#set $x = c\'a${b}c\' + """x\n$y\n""" \\\n + [i for i in (1, 2)][0]\n'
    '#silent $x\n#echo lambda: 1\n#assert $x, "no"\n#return $x\n',
    '#compiler-settings\ncheetahVarStartToken = @\n#end compiler-settings\n'
    '@x $y\n#compiler-settings reset\n$x @y\n#compiler useNameMapper = 0\n$z',
    '## comment $x\n#* multi\n $y #if\n*# text\\$x \\#if\n$!a $!{b.c} $*d\n',
    '#@staticmethod\n#def s: static\n#closure c(x)\n$x\n#end closure\n'
    '#while $n < 3\n#set $n += 1\n#break\n#end while\n#repeat 3: x\n'
    '#unless $a: b\n#if 1 then 2 else 3\n#include source=$x\n'
    '#include raw "f"\n#super(a=1)\n#errorCatcher Echo\n$z\n#stop\n',
    '#encoding utf-8\n#shBang #!/usr/bin/python\n\xe9\u4e2d $x\n'
    '#transform $t\n##doc: d\n#pass\n',
]


def mutant(ctx, rng):
    src = rng.choice(CORPUS)
    if rng.random() < .3:
        src += rng.choice(CORPUS)
    if rng.random() < .2:
        src = src.replace('\n', rng.choice(['\r\n', '\r']))
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        i = rng.randrange(len(src) + 1)
        j = min(len(src), i + rng.choice([1, 1, 2, 4, 9]))
        k = rng.randrange(6)
        if k == 0:
            src = src[:i] + src[j:]
        elif k == 1:
            src = src[:i] + rng.choice(SOUP) + src[i:]
        elif k == 2:
            src = src[:j] + src[i:]
        elif k == 3:
            src = src[:i] + rng.choice(SOUP) + src[j:]
        elif k == 4:
            m = rng.randrange(len(src) + 1)
            src = src[:m] + src[i:j] + src[m:]
        else:
            src = src[:i] + rng.choice('#$(){}[]"\':,=\\\n@% ') + src[i:]
    attempt(ctx, rng, src, 'mutant')


def truncate(ctx, rng):
    """Every prefix and every suffix of one template."""
    src = CORPUS[ctx.index % len(CORPUS)]
    if rng.random() < .3:
        src = src.replace('\n', '\r\n')
    cuts = range(len(src) + 1)
    if not ctx.thorough:
        cuts = sorted(rng.sample(list(cuts), min(len(src), 60)))
    for i in cuts:
        attempt(ctx, rng, src[:i], 'prefix')
        attempt(ctx, rng, src[i:], 'suffix')
        ctx.count('truncations', 2)
    ctx.saw(('trunc', ctx.index))


BLOCKS = [('if 1', 'if'), ('for $i in (1, 2)', 'for'), ('while 0', 'while'),
          ('repeat 2', 'repeat'), ('unless 0', 'unless'), ('def f', 'def'),
          ('block b', 'block'), ('cache', 'cache'), ('call $w', 'call'),
          ('capture c', 'capture'), ('filter WebSafe', 'filter'),
          ('closure k', 'closure'), ('try', 'try')]


def nest(rng, depth, path=()):
    """a list of lines ('text') and open/close pairs"""
    out = []
    for _ in range(rng.randint(1, 3)):
        if depth and rng.random() < .6:
            op, name = rng.choice(BLOCKS)
            if name in ('def', 'block') and path:
                continue
            if name == 'closure' and 'closure' in path:
                continue
            if name in ('def', 'block', 'closure'):
                nest.n += 1
                op += str(nest.n)
            out.append(('open', op, name))
            out.extend(nest(rng, depth - 1, path + (name,)))
            if name == 'try':
                out.append(('text', '#except\nx'))
            out.append(('close', name))
        else:
            out.append(('text', 'text'))
    out.append(('text', 'x'))
    return out


nest.n = 0


def unbalanced(ctx, rng):
    from Cheetah.Parser import ParseError
    items = nest(rng, 3)
    tags = [i for i, x in enumerate(items) if x[0] != 'text']
    if not tags:
        ctx.saw()
        return

    def src(items):
        eol = '\n'
        out = []
        for x in items:
            if x[0] == 'text':
                out.append(x[1] + eol)
            elif x[0] == 'open':
                out.append('#%s%s' % (x[1], eol))
            else:
                out.append('#end %s%s' % (x[1], eol))
        return ''.join(out)
    good = outcome(compile_, src(items))
    need(good[0] == 'ok', 'a balanced template was rejected', key='balanced',
         src=src(items), got=good)
    for _ in range(3):
        bad = list(items)
        i = rng.choice(tags)
        how = rng.choice(['drop', 'rename', 'extra', 'swap', 'prefix'])
        other = [n for _, n in BLOCKS]
        if how == 'drop':
            del bad[i]
        elif how == 'rename':
            c = [j for j in tags if bad[j][0] == 'close']
            i = rng.choice(c)
            w = rng.choice([n for n in other if n != bad[i][1]])
            bad[i] = ('close', w)
        elif how == 'extra':
            bad.insert(rng.choice([i, i + 1, len(bad)]),
                       ('close', rng.choice(other)))
            # closing the innermost early leaves a stray one later
        elif how == 'swap':
            c = [j for j in tags if bad[j][0] == 'close']
            j, k = rng.choice(c), rng.choice(c)
            if bad[j] == bad[k]:
                continue
            bad[j], bad[k] = bad[k], bad[j]
        elif how == 'prefix':
            c = [j for j in tags if bad[j][0] == 'close']
            i = rng.choice(c)
            n = bad[i][1]
            bad[i] = ('close', rng.choice([n[:-1], n + 'x', n.upper(),
                                           n + '_', '', n[0], n + 's']))
        text = src(bad)
        try:
            compile_(text)
        except ParseError as e:
            location(e, text, 'unbalanced')
            ctx.saw(('unbalanced', how, items[i][-1]))
        else:
            need(False, 'unbalanced tags were accepted', key='unbalanced',
                 how=how, src=text)
        ctx.count('unbalanced')


# (construct, what follows it on later lines, may run to the end)
BAD = ['$x[1', '$x(1', '${x', '$(x', '$f(1]', '$f[1)', '${f(1}',
       '#set $x\n', '#set $x = "abc\n', '#set $x = \'\'\'abc',
       '#echo ${x}\n', '#echo $*x\n', '#end for\n', '#end nothing\n',
       '#def 1x\n', '#attr 5 = 3\n', '#attr x\n', '#@foo\ntext\n',
       '#filter\n', '#call\n', '#implements 1\n', '#extends 1\n',
       '#include source "x"\n', '#compiler 1\n', '#compiler a b\n',
       '#block\n', '#closure\n', '#if (1\n', '#for $i in [1\n',
       '#errorCatcher 1\n', '#errorCatcher\n', '#super(1\n',
       '#def f(a\n', '#def f(a=\n', '#def f(1)\n', '#if $x \\ y\n',
       '#set $x = ?\n', '#echo )\n', '#def g(*)\n', '#arg 1\n',
       '${1 +}', '${x y}', '#if 1 +\nx\n#end if\n', '#for $i 5\nx\n#end for\n',
       '#while not\nx\n#end while\n', '${1 = 2}',
       '$x($$)', '<% x = 1', '<%= x\n', '${c"a $x(1"}', "#echo c'[${x'\n",
       "#set $x = c'''b $x[1'''\n", '$f(c"$x(1")', '<%',
       # these are wrong in their first line
       '#defmacro if\nx\n#end defmacro\n', '#defmacro set(a)\nx\ny\n'
       '#end defmacro\n', '#cache timer="zz"\nx\n#end cache\n',
       '#cache timer=$one\nx\n#end cache\n']


def located(ctx, rng):
    from Cheetah.Parser import ParseError
    eol = rng.choice(['\n', '\n', '\r\n', '\r'])
    odd = rng.choice(['', '', '\x0b', '\x0c', '\x1c', '\u2028', '\x85',
                      '\xe9'])
    pre = []
    for _ in range(rng.randint(0, 6)):
        pre.append(rng.choice(['text ' + odd + ' more', '', '## comment',
                               '#* a' + eol + 'b *#', '$ok ${ok}',
                               '#if 1: x', '#set $q = 1', '#silent 1',
                               '#set $z = [1,' + eol + ' 2]', '  ' + odd]))
    bad = rng.choice(BAD)
    indent = rng.choice(['', '', '  ', 'some text ', 'a $ok b ', odd + ' '])
    wrap = rng.choice([None, None, 'if 1', 'for $i in (1, 2)', 'def w',
                       'call $w', 'cache', 'capture c', 'short'])
    tail = rng.choice(['', 'tail' + eol + 'tail2' + eol, 'tail'])
    bad = bad.replace('\n', eol)
    if wrap == 'short':
        if eol in bad.rstrip('\r\n') or '\n' in bad or '\r' in bad:
            wrap = None
        else:
            pre.append('#if 1: ')
            indent = ''
    elif wrap:
        pre.append('#' + wrap)
        tail = eol + tail + eol + '#end ' + wrap.split()[0] + eol
    head = eol.join(pre) + (eol if pre and wrap != 'short' else '')
    if bad.startswith('#end for') and wrap and wrap.startswith('for'):
        ctx.saw()
        return
    src = head + indent + bad + tail
    filename = None
    try:
        if rng.random() < .3 and eol == '\n':
            filename = write(os.path.join(ctx.tmp('loc'), 'loc.tmpl'), src)
            compile_(None, file=filename)
        else:
            compile_(src)
    except ParseError as e:
        row, col = location(e, src, 'located', filename, bad=bad)
    else:
        need(False, 'a malformed construct was accepted', key='accepted',
             bad=bad, src=src)
    # the planted construct covers these positions
    a = len(head + indent)
    b = a + len(bad)
    if bad.startswith('#def f(a'):
        b = len(src)    # it runs on to the end
    elif bad.startswith(('#defmacro', '#cache')):
        b = a + len(re.split('[\r\n]', bad)[0])
    starts = [0]
    for m in re.finditer('\r\n|\r|\n', src):
        starts.append(m.end())
    pos = starts[row - 1] + col - 1
    need(a <= pos <= b, 'the reported place is not the planted error',
         key='place', row=row, col=col, bad=bad, wrap=wrap, src=src,
         )
    ctx.count('located')
    ctx.saw(('located', bad, wrap, eol))


UNITS = ['text ', '$x ', '${x} ', '\n', '#if 1\nx\n#end if\n', '## c\n',
         '#set $a = 1\n', '#def f%d\nx\n#end def\n', '#silent 1\n',
         '#* c *#', '$x.y(1, [2, {3: 4}])[5] ', '#for $i in (1,)\n$i\n'
         '#end for\n', '\\$x', '# ', '$ ', '#cache\nx\n#end cache\n',
         '<%= 1 %>', '#raw\nx\n#end raw\n', '#if 1: x\n', '$(', '${x ',
         '#call $f\nx\n#end call\n', '((', '#* ', "'", '\\\n', '$x[',
         '#echo "a" + \'b\'\n', '#import os\n', '#attr a%d = 1\n',
         '#capture c\nx\n#end capture\n', '$x, ', '$x.', '$$', '##',
         '#i18n: x\n', '\r\n', '\r', '  #if 1#  #end if#  ']


def scale(ctx, rng):
    """Time must not explode with the size."""
    unit = UNITS[ctx.index % len(UNITS)]

    def build(n):
        return ''.join(unit % i if '%d' in unit else unit for i in range(n))
    times = []
    for n in (60, 240):
        src = build(n)
        t0 = time.process_time()
        outcome(compile_, src)
        times.append(time.process_time() - t0)
    need(times[1] < 4 or times[1] < times[0] * 40, 'compile time explodes '
         'with the size of the template', key='scale', unit=unit,
         seconds=times)
    ctx.count('scaled')
    ctx.saw(('scale', unit))


def nested(ctx, rng):
    """Deep nesting ends in a class or a parse error."""
    k = rng.choice(['if', 'for', 'paren', 'bracket', 'call', 'block', 'raw',
                    'short', 'unclosed'])
    n = rng.choice([5, 15, 18, 25])
    if k in ('if', 'for', 'block'):
        op = {'if': '#if 1\n', 'for': '#for $i%d in (1,)\n',
              'block': '#block b%d\n'}[k]
        src = ''.join(op % i if '%' in op else op for i in range(n)) + \
            'x\n' + ('#end %s\n' % k) * n
    elif k == 'paren':
        src = '${' + '(' * n + '1' + ')' * n + '}'
    elif k == 'bracket':
        src = '$x' + '[$y' * n + ']' * n
    elif k == 'call':
        src = '$x' + '($y' * n + ')' * n
    elif k == 'raw':
        src = '#raw\n' * n + '#end raw\n'
    elif k == 'short':
        src = '#if 1: ' * n + 'x'
    else:
        src = '#if 1\n' * n
    attempt(ctx, rng, src, 'nested')
    ctx.saw((k, n))


SCENARIOS = [
    ('soup', soup, 6000, 100000),
    ('mutant', mutant, 3500, 60000),
    ('truncate', truncate, 32, 64),
    ('unbalanced', unbalanced, 400, 4000),
    ('located', located, 1200, 10000),
    ('scale', scale, len(UNITS), len(UNITS) * 2),
    ('nested', nested, 60, 200),
]
