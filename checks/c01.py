"""C01: literal text reaches the output character for character."""
import itertools
from vlib.core import same, Violation
from vlib import gen
from vlib.t import render, outcome

RULE = ('Literal runs are (a) enumerated exhaustively up to a length over an '
        'alphabet of quotes, backslashes, line endings, format and token '
        'characters, (b) drawn over all Unicode planes, (c) placed by a random '
        'template generator between, before and after every kind of tag, in '
        'raw blocks and behind escapes. The monitor compares the rendered '
        'text with the source text. Distinct: the literal strings (a, b) or '
        'the construct multiset and literal classes (c).')
TECHNIQUE = ('runtime monitor: rendered output compared character by '
             'character with the known literal runs (exhaustive short '
             'strings plus generated templates)')
LEVEL = 'exploration'
LEVEL_NOTE = ('All literals up to length 4 (thorough 5) over 13 critical '
              'characters, plus sampled placements; trusts the reference '
              'tokenisation of the generator.')

ALPHA = ["'", '"', '\\', '\n', '\r', 'n', '%', '{', '(', '$', '#', ' ', 'x']


def inert(s):
    """no character of s can start a tag or an escape, whatever follows it
    inside s; the end of s is followed by the separator '|'"""
    for i, c in enumerate(s):
        rest = s[i + 1:] + '|'
        if c == '\\' and rest[0] in '$#':
            return False                # an escape
        if c == '$' and rest[0] in 'nx{([_!*':
            return False
        if c == '#':
            if rest[0] in 'nx@#*':
                return False
            if rest.lstrip(' \t\f')[:1] in ('\n', '\r'):
                return False            # end-of-line slurp
    return True


def enum(ctx, rng):
    i = ctx.index
    strings = ctx.state.get('strings')
    if strings is None:
        n = 5 if ctx.thorough else 4
        strings = ctx.state['strings'] = [
            ''.join(t) for k in range(1, n + 1)
            for t in itertools.product(ALPHA, repeat=k)
            if inert(''.join(t))]
        ctx.state['per'] = -(-len(strings) // ncases(ctx))
    per = ctx.state['per']
    mine = strings[i * per:(i + 1) * per]
    # the separator after each literal is text too, so that literals are also
    # joined with neighbouring text; every few literals a placeholder splits
    for base in range(0, len(mine), 60):
        part = mine[base:base + 60]
        src, want = [], []
        for j, s in enumerate(part):
            src.append(s + '|')
            want.append(s + '|')
            if j % 7 == 3:
                src.append('${X}|')
                want.append('<X>|')
            elif j % 7 == 5:
                src.append('$X|')
                want.append('<X>|')
            elif j % 11 == 6:
                src.append('#if 1#|')
                want.append('|')
                src.append('|#end if#|')
                want.append('||')
        got = outcome(render, ''.join(src), [{'X': '<X>'}])
        if got != ('ok', ''.join(want)):
            # narrow down to one literal
            for s in part:
                for form in (s, s + '|', '|' + s + '|${X}', '${X}|' + s + '|'):
                    if not inert(s):
                        continue
                    g = outcome(render, form, [{'X': '<X>'}])
                    w = form.replace('${X}', '<X>')
                    if form == s and s.endswith(('#', '$', '\\')):
                        continue
                    same(g, ('ok', w), 'literal text altered', key='literal',
                         src=form)
            same(got, ('ok', ''.join(want)), 'literal text altered',
                 key='literal', src=''.join(src))
        for s in part:
            ctx.saw(s)
        ctx.count('literals', len(part))


def ncases(ctx):
    return 1200 if ctx.thorough else 160


def whole(ctx, rng):
    """a template that is one literal: nothing around it"""
    r = rng
    k = r.randint(0, 4)
    if k == 0:
        s = ''.join(r.choice(ALPHA) for _ in range(r.randint(1, 12)))
        if not inert(s) or s[-1] in '#$\\':
            s = s.replace('#', '*').replace('$', '*')
    elif k == 1:
        s = ''.join(chr(r.choice([r.randint(1, 0x1f), r.randint(0x20, 0x7e),
                                  r.randint(0x80, 0x2ff),
                                  r.randint(0x2000, 0x206f),
                                  r.randint(0x3000, 0xd7ff),
                                  r.randint(0xe000, 0xffff),
                                  r.randint(0x10000, 0x10ffff)]))
                    for _ in range(r.randint(1, 60)))
        s = s.replace('#', '').replace('$', '').replace('<%', '')
    elif k == 2:
        q = r.choice(["'", '"'])
        s = ''.join(r.choice([q * r.randint(1, 7), '\\' * r.randint(1, 4),
                              'a', '\n', ' ']) for _ in range(r.randint(1, 9)))
    elif k == 3:
        s = ('0123456789abcdef' * 16 + r.choice(['\n', "'", '\\', '"""']))
        s = s * r.randint(10, 120)
    else:
        s = gen.Writer(r).text(gen.text_run(r, r.choice(['\n', '\r\n', '\r']),
                                            r.randint(1, 14)))
    if not s:
        return
    # a single-token tail needs something after it to be inert
    if s[-1] in '#$\\<':
        s += '.'
    got = outcome(render, s)
    same(got, ('ok', s), 'a template of literal text does not render as '
         'itself', key='whole', src=s)
    ctx.saw(s)
    ctx.count('whole_literals')


def nasty(rng, eol, n=None):
    n = n if n is not None else rng.randint(1, 6)
    out = []
    for _ in range(n):
        k = rng.randint(0, 9)
        if k <= 2:
            out.append(rng.choice(gen.WORDS))
        elif k == 3:
            out.append(rng.choice(["'", '"', "''", '""', "'''", '"""', "''''",
                                   '\\"', "\\'", '\\\\', '\\', "'\\", '\\n',
                                   '\\\n', '\\x', '\\N{', '\\u', '\\U']))
        elif k == 4:
            out.append(chr(rng.choice([rng.randint(1, 31), rng.randint(127, 255),
                                       rng.randint(0x2028, 0x2029),
                                       rng.randint(0x1f600, 0x1f64f), 0xfeff,
                                       rng.randint(0x400, 0x4ff)])))
        elif k == 5:
            out.append(eol)
        elif k == 6:
            out.append(rng.choice([' ', '\t', '\x0c', '   ']))
        elif k == 7:
            out.append(rng.choice(['{', '}', '(', ')', '[', ']', '{}', '[0]',
                                   '(1)', '.x', '.', ',', ':', '=', '==']))
        else:
            out.append(rng.choice('abcXYZ019 -_'))
    return ''.join(out)


def mix(ctx, rng):
    g = gen.TGen(rng, maxdepth=2, budget=16, text=nasty, inline=.5,
                 weights=dict(text=14, ph=5, raw=3, escape=3, psp=1, stop=0,
                              delt=0, asrt=0, whil=.1, setg=.1, tryy=.2,
                              sett=.5, comment=1, mlcomment=1, slurp=1))
    run = g.template()
    src = g.w.src()
    fac = gen.make_data(rng)
    want = gen.reference(run, gen.World(fac()[0]))
    got = outcome(render, src, fac()[0])
    same(got, ('ok', want), 'the literal text of the template did not come '
         'out verbatim', key='mix', src=src)
    ctx.saw((tuple(sorted(g.features)), len(src) // 10,
             tuple(sorted(set(c for c in src if not c.isalnum())))))
    ctx.sample({'src': src, 'out': want})


RAWBITS = ['$x', '${y}', '#if 1', '#end if', '#set $a = 1', '## c', '#* c',
           '*#', '<% a %>', '<%=', '%>', '\\$x', '\\#if', '"', "'", "'''",
           '"""', '\\', '\\\\', '\\n', '#', '$', '##', '#end', '#end ra',
           '#raw', '{', '}', 'text', ' ', '  ', '\t', 'é', '\U0001f600', '%s',
           '#slurp', '#def f', '#end def', '#include "x"', '#@dec',
           '\x00', '\x0c', '#compiler', '#attr']


def raw(ctx, rng):
    eol = rng.choice(['\n', '\n', '\r\n', '\r'])
    body = ''.join(rng.choice(RAWBITS + [eol] * 6)
                   for _ in range(rng.randint(0, 10)))
    form = rng.randint(0, 3)
    pre = rng.choice(['', 'a', 'a' + eol, 'a ', '$X', '$X' + eol])
    post = rng.choice(['z', 'z' + eol, eol + 'z', ' z', "'", '\\z'])
    ind = rng.choice(['', '  ', '\t'])
    ind2 = rng.choice(['', '  ', '\t'])
    outpre = pre.replace('$X', '<X>')
    if form == 0:            # block form, both tags alone on their lines
        if pre and not pre.endswith(eol):
            pre += eol
            outpre += eol
        src = pre + ind + '#raw' + rng.choice(['', ' ']) + eol + body + eol + \
            ind2 + '#end raw' + eol + post
        want = outpre + body + eol + post
        if eol == '\n' and body.endswith('\r'):
            return
    elif form == 1:          # inline
        if body[:1] in ('#',) or body[-1:] in ('#', '\\'):
            body = ' ' + body + '.'
        if (pre + body).endswith((eol, ' ', '\t')) or not body:
            body += '.'
        if body[:1] in ' \t:':
            # white space and a colon after the tag name belong to the tag
            body = 'b' + body
        if body[-1:].isspace() or body.endswith('\\'):
            body += 'e'
        src = pre + '#raw#' + body + '#end raw#' + post
        want = outpre + body + post
    elif form == 2:          # one-line form
        body = body.replace('\n', '').replace('\r', '').strip()
        if not body or body.startswith('#'):
            body = 'q' + body
        if pre and not pre.endswith(eol):
            pre += eol
            outpre += eol
        src = pre + '#raw: ' + body + eol + post
        want = outpre + body + eol + post
    else:                    # inside a loop
        src = pre + '#for i in 1,2#' + '#raw#b' + body + 'e#end raw#' + \
            '#end for#' + post
        want = outpre + ('b' + body + 'e') * 2 + post
    got = outcome(render, src, [{'X': '<X>'}])
    same(got, ('ok', want), 'a raw block did not come out exactly as written',
         key='raw', src=src)
    ctx.saw(('raw', form, eol, body))
    ctx.count('raw_blocks')


def escapes(ctx, rng):
    """backslash before a tag start: the tag's text without the backslash"""
    tags = ['$x', '$x.y', '${x}', '$(x)', '$[x]', '$x(1, 2)', '$x[0]',
            '$*x', '$*5m*x', '${*x}', '$_a', '#if 1', '#end if', '#for a in b',
            '#set $', '#include', '#raw', '#end raw', '#slurp', '#def m',
            '#return', '#silent', '#attr', '#echo 1', '#@dec', '#super',
            '#compiler-settings', '#import os', '## com', '#*', '#* c *#']
    parts, want = [], []
    eol = rng.choice(['\n', '\r\n', '\r'])
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(0, 4)
        if k <= 2:
            t = rng.choice(tags)
            sep = rng.choice([' ', '.', ',', eol, "'", '"', ' \\. '])
            if t in ('#set $', '#* c *#'):
                sep = '.'
            parts.append('\\' + t + sep)
            want.append(t + sep)
            if k == 2 and t in ('## com', '#* c *#', '#*'):
                pass
            ctx.count('escaped:' + t.split(' ')[0])
        elif k == 3:
            parts.append('$X;')
            want.append('<X>;')
        else:
            s = rng.choice(['\\.', '\\a', '\\\\ ', 'text ', '\\" ', "\\' ",
                            '\\ ', '{', eol])
            parts.append(s)
            want.append(s)
    src, w = ''.join(parts) + '.', ''.join(want) + '.'
    got = outcome(render, src, [{'X': '<X>'}])
    same(got, ('ok', w), 'an escaped tag did not come out literally',
         key='escape', src=src)
    ctx.saw(('esc', src))


SCENARIOS = [
    ('enum', enum, 160, 1200),
    ('whole', whole, 1500, 20000),
    ('mix', mix, 2500, 40000),
    ('raw', raw, 1500, 20000),
    ('escapes', escapes, 1500, 15000),
]
