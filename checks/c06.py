"""C06: directives and comments leave exactly the documented whitespace."""
import itertools
import re
from vlib.core import same
from vlib.t import compile_, outcome

RULE = ('Documents are built line by line from tags in the three documented '
        'positions (alone on the line, closed inline, sharing the line with '
        'text), comments, slurps and text; the expected whitespace follows '
        'from the position alone. Distinct: set of (tag kind, position, '
        'trailer, line ending, neighbourhood) met in a document or the '
        'enumerated combination. Documents of text only count as trivial.')
TECHNIQUE = ('output monitor against a positional whitespace model, complete '
             'over tag x position x trailer x line ending x neighbourhood '
             'for single tags and sampled for whole documents')
QUICK_SCALE = 2
LEVEL_NOTE = ('The single-tag table is enumerated; documents are sampled. '
              'Positions the documentation leaves open (a closed tag behind '
              'indentation at the very end of the source, blanks after an '
              'inline multi-line comment) are not generated.')

INDENTS = ['', ' ', '\t', '  \t ', '    ', '\f']
EOLS = ['\n', '\r\n', '\r']

# tags that only have an effect, no output: (kind, prelude, text)
SIMPLE = [
    ('set', '', '#set $x_ = 1'),
    ('setml', '', '#set $x_ = [1,@2]'),
    ('setg', '', '#set global $g_ = "a b"'),
    ('setm', '', '#set module $m_ = 5'),
    ('silent', '', '#silent $one'),
    ('silentcall', '', '#silent $ident("x")'),
    ('pass', '', '#pass'),
    ('assert', '', '#assert 1 == 1'),
    ('import', '', '#import os.path'),
    ('from', '', '#from os import path as p_'),
    ('echo', '', "#echo ''"),
    ('attr', '', '#attr $at_ = 3'),
    ('compiler', '', '#compiler useAutocalling = True'),
    ('include', '', '#include source=""'),
    ('inclraw', '', '#include raw source=""'),
    ('implements', '', '#implements respond'),
    ('del', '#set $dd = 1@', '#del $dd'),
    ('filter', '', '#filter $ORIG'),
    ('shbang', '', None),
]
SIMPLE = [s for s in SIMPLE if s[2] and s[0] not in ('filter', 'implements')]

# regions: (kind, open, [mids], end, effect)
REGIONS = [
    ('if', '#if 1', [], '#end if', 'once'),
    ('if0', '#if 0', [], '#end if', 'none'),
    ('ifelse', '#if $one', ['#else'], '#end if', 'first'),
    ('ifelif', '#if not $one', ['#elif $one', '#else'], '#end if', 'second'),
    ('elseif', '#if not $one', ['#else if $one', '#else'], '#end if',
     'second'),
    ('unless', '#unless 0', ['#else'], '#end unless', 'first'),
    ('for', '#for $i_ in [1, 2]', [], '#end for', 'twice'),
    ('forml', '#for $i_ in [1,@2]', [], '#end for', 'twice'),
    ('repeat', '#repeat 2', [], '#end repeat', 'twice'),
    ('try', '#try', ['#except ValueError'], '#end try', 'first'),
    ('tryf', '#try', ['#finally'], '#end try', 'all'),
    ('block', '#block b%', [], '#end block', 'once'),
    ('blockn', '#block b%', [], '#end block b%', 'once'),
    ('call', '#call $ident', [], '#end call', 'once'),
    ('callarg', '#call $ident2 arg=1', [], '#end call', 'once'),
    ('filter', '#filter WebSafe', [], '#end filter', 'once'),
    ('cache', '#cache', [], '#end cache', 'once'),
    ('capture', '#capture c%', [], '#end capture', 'capture'),
    ('closure', '#closure k%', [], '#end closure', 'closure'),
    ('raw', '#raw', [], '#end raw', 'raw'),
    ('errcatch', '#errorCatcher Echo', [], '#end errorCatcher', 'once'),
    ('def', '#def d%', [], '#end def', 'def'),
    ('defarg', '#def d%($q=1)', [], '#end def', 'def'),
]
RAWBITS = ['#set $zz = 1', '$one', '## c', '#* m *#', '#slurp', '#if', '<%']


class Doc(object):
    def __init__(self, rng, eols):
        self.r = rng
        self.eols = eols
        self.src = []
        self.state = 'bol'          # bol, clear (blank so far), dirty
        self.n = 0
        self.seen = set()
        self.nodes = None
        self.defs = []

    def eol(self):
        return self.r.choice(self.eols)

    def lit(self, s):
        """literal text"""
        if not s:
            return
        self.src.append(s)
        self.nodes.append(s)
        self.move(s)

    def move(self, s):
        for ch in s:
            if ch in '\r\n':
                self.state = 'bol'
            elif ch in ' \t\f':
                if self.state == 'bol':
                    self.state = 'clear'
            else:
                self.state = 'dirty'

    def blankline(self):
        # nothing but blanks before the first tag of this line
        line = re.split('[\r\n]', ''.join(self.src))[-1]
        return line[:1] in ' \t\f' and line.lstrip()[:1] in ('', '#')

    def word(self):
        self.n += 1
        return self.r.choice(['w%d', 'q.%d', 'x%d,y', "it's%d", '(%d)',
                              '$$%d'] if 0 else
                             ['w%d', 'q.%d', 'x%d,y', "it's%d", '-%d-']
                             ) % self.n

    def tag(self, kind, text, only=None, comment=True, switch=None):
        r = self.r
        if '@' in text and self.state != 'bol' and self.blankline():
            self.lit(self.word())
        if '@' in text and self.state == 'bol':
            # indentation before a tag that spans lines and is closed
            # inline is not documented
            only = ('alone', 'closed')
        text = text.replace('@', self.eol() + r.choice(['', ' ', '\t'])
                            if '@' in text else '')
        styles = []
        if self.state == 'bol':
            styles = ['alone'] * 4 + ['closed', 'indclosed']
        elif self.state == 'clear':
            styles = ['closed']
        else:
            styles = ['closed', 'closed', 'shared']
        if only:
            styles = [s for s in styles if s in only]
            if not styles:
                if 'alone' in only:
                    self.lit(self.eol())
                    styles = ['alone']
                else:
                    styles = ['closed']
        st = r.choice(styles)
        if st == 'alone':
            trail = r.choice(['', '', ' ', '\t', '  '] +
                             ([' ## comment', '## c', '\t##']
                              if comment else []))
            e = self.eol()
            ind = r.choice(INDENTS)
            self.src.append(ind + text + trail + e)
            if switch is not None:
                self.nodes = switch
            self.state = 'bol'
            self.seen.add((kind, st, trail.strip() != '', ind != '', e))
            return
        if st == 'indclosed':
            self.lit(r.choice(INDENTS[1:]))
            st = 'closed'
        if st == 'closed':
            self.src.append(text + r.choice(['', ' ']) + '#')
            if switch is not None:
                self.nodes = switch
            self.state = 'dirty'
            self.seen.add((kind, st))
            return
        e = self.eol()
        self.src.append(text + r.choice(['', ' ', '\t ']))
        if switch is not None:
            self.nodes = switch
        self.lit(e)
        self.seen.add((kind, st, e))

    # -- items
    def item(self, depth, inraw=False):
        r = self.r
        k = r.random()
        if k < .25:
            if self.state == 'bol':
                self.lit(r.choice(INDENTS))
            self.lit(self.word() + r.choice(['', '', ' ', '\t']))
            if r.random() < .75:
                self.lit(self.eol())
        elif k < .3:
            self.lit(r.choice(INDENTS) + self.eol())
        elif k < .35:
            self.src.append('${one}')
            self.nodes.append('1')
            self.state = 'dirty'
        elif k < .55:
            kind, pre, text = r.choice(SIMPLE)
            if pre:
                self.tag(kind, pre.rstrip('@'), comment=kind != 'compiler')
            self.tag(kind, text, only=('alone',) if kind == 'compiler'
                     else None, comment=kind != 'compiler')
        elif k < .65:
            self.comment()
        elif k < .72:
            self.slurp()
        elif depth > 0:
            self.region(depth)
        else:
            self.lit(self.word())

    def comment(self):
        r = self.r
        if self.src and self.src[-1].endswith('#'):
            self.lit(self.word())
        k = r.randint(0, 4)
        if self.state == 'clear':
            k = 2
        if k < 2:
            body = '##' + r.choice(['', ' note', ' #if 1', '# x', ' $one'])
            e = self.eol()
            if self.state == 'bol':
                self.src.append(r.choice(INDENTS) + body + e)
                self.seen.add(('comment', 'alone', e))
            else:
                self.src.append(body)
                self.lit(e)
                self.seen.add(('comment', 'shared', e))
            return
        inner = r.choice(['', ' c ', '*', '# ', ' #if 1 ', ' #* n *# ',
                          '#*n*#', ' $one ', '## '])
        if k == 3 and self.state == 'bol':
            inner += self.eol() + r.choice(['', '  more', '#set $q = 1']) + \
                self.eol()
        body = '#*' + inner + '*#'
        if self.state == 'bol':
            e = self.eol()
            self.src.append(r.choice(INDENTS) + body +
                            r.choice(['', ' ', '\t']) + e)
            self.state = 'bol'
            self.seen.add(('mlcomment', 'alone', k == 3, e))
        elif self.state == 'dirty':
            self.src.append(body)
            if r.random() < .5:
                self.lit(self.eol())
            else:
                self.lit(self.word())
            self.seen.add(('mlcomment', 'inline'))
        else:
            self.src.append(body)
            self.lit(self.word())
            self.seen.add(('mlcomment', 'afterblank'))

    def slurp(self):
        r = self.r
        if self.state == 'clear':
            return
        t = r.choice(['#slurp', '#'])
        e = self.eol()
        if self.state == 'bol':
            # alone on the line
            self.src.append(r.choice(INDENTS) + t + r.choice(['', ' ']) + e)
        else:
            if self.src and self.src[-1].endswith('#'):
                self.lit(self.word())
            self.src.append(t + r.choice(['', ' ', '\t']) + e)
        self.state = 'bol'
        self.seen.add(('slurp', t, e))

    def body(self, depth, raw=False, words=True):
        if raw:
            # (#raw##x is a raw tag with a comment)
            self.lit(self.word())
            for _ in range(self.r.randint(1, 4)):
                if self.state == 'bol':
                    self.lit(self.r.choice(INDENTS))
                self.lit(self.r.choice(RAWBITS + [self.word()]))
                self.lit(self.r.choice(['', ' ', self.eol(), self.eol()]))
            self.lit(self.word())
        else:
            self.lit(self.word())
            for _ in range(self.r.randint(0, 3)):
                self.item(depth - 1)
        if self.r.random() < .7:
            self.lit(self.eol())
    def region(self, depth, top=False):
        r = self.r
        kind, op, mids, end, eff = r.choice(REGIONS)
        if eff == 'def' and not top:
            return
        if eff in ('capture', 'closure') and depth < 2:
            return
        self.n += 1
        ident = str(self.n)
        op, end = op.replace('%', ident), end.replace('%', ident)
        outer = self.nodes
        bodies = [[]]
        self.tag(kind + '<', op, comment=kind != 'raw', switch=bodies[0])
        if eff == 'closure':        # a closure does not see the search list
            self.lit(self.word() + r.choice(['', self.eol()]))
        else:
            self.body(depth, raw=eff == 'raw')
        for m in mids:
            bodies.append([])
            self.tag(kind + '|', m, switch=bodies[-1])
            self.body(depth)
        rest = []
        if eff == 'raw' and self.blankline():
            # blanks before #end raw# go with the tag
            self.lit(self.eol())
        self.tag(kind + '>', end, comment=kind != 'raw', switch=rest,
                 only=('alone', 'shared', 'closed') if eff == 'raw'
                 and self.state == 'bol' else None)
        self.nodes = outer
        if eff in ('once', 'raw', 'first'):
            outer.extend(bodies[0])
        elif eff == 'second':
            outer.extend(bodies[1])
        elif eff == 'twice':
            outer.extend(bodies[0] + bodies[0])
        elif eff == 'all':
            outer.extend(bodies[0] + bodies[1])
        outer.extend(rest)
        if eff in ('capture', 'closure', 'def'):
            self.lit(self.word() + ' ')
            self.src.append({'capture': '${c%s}', 'closure': '${k%s()}',
                             'def': '${d%s}'}[eff] % ident)
            outer.extend(bodies[0])
            self.state = 'dirty'
            self.lit('.')


def document(ctx, rng):
    eols = rng.choice([['\n'], ['\r\n'], ['\r'], ['\n', '\r\n'],
                       ['\r', '\r\n']])
    d = Doc(rng, eols)
    d.nodes = []
    for _ in range(rng.randint(1, 7)):
        if rng.random() < .25:
            d.region(2, top=True)
        else:
            d.item(2)
    if d.state != 'bol' or rng.random() < .4:
        d.lit(d.word() + d.eol() if rng.random() < .5 else d.word())
    elif rng.random() < .5:
        # the last line ends without a line ending
        ind, t = rng.choice(INDENTS), rng.choice(
            ['#set $x = 1', '## last', '#slurp', '#* c *#', '#silent 1 ',
             '#pass', '#silent 1 ## c'])
        d.src.append(('' if t == '#* c *#' else ind) + t)
        d.seen.add(('eof', t, ind != ''))
    src = ''.join(d.src)
    want = ''.join(d.nodes)
    r = outcome(lambda: str(compile_(src)(
        searchList=[dict(NS)])))
    same(r, ('ok', want), 'whitespace around a directive is not as '
         'documented', key='output', src=src)
    ctx.saw(tuple(sorted(d.seen, key=repr)) or None)
    for s in d.seen:
        ctx.count('tag:' + s[1])
    ctx.count('tags', len(d.seen))
    ctx.sample({'src': src, 'out': r[1]})


def ident(s, *a):
    return s


NS = {'one': 1, 'ident': lambda s='', *a, **k: s,
      'ident2': lambda s='', arg=0: s}


# ---------------------------------------------------------- enumeration

def table():
    rows = []
    for (kind, pre, text), ind, eol in itertools.product(
            SIMPLE, INDENTS, EOLS):
        text = text.replace('@', eol)
        pre = pre.replace('@', eol)
        com = kind != 'compiler'
        for before, trail, after in itertools.product(
                ['', 'A' + eol, eol, 'A' + eol + eol],
                ['', ' ', '\t'] + ([' ## c', '##c'] if com else []),
                [None, '', 'B', ' B', eol]):
            if after is None:
                src = pre + before + ind + text + trail
                want = before
            else:
                src = pre + before + ind + text + trail + eol + after
                want = before + after
            rows.append((kind, 'alone', src, want))
        if kind == 'compiler':
            continue
        for before, after in itertools.product(
                ['', 'A' + eol, 'A', 'A '], ['B', ' B', eol + 'B', eol]):
            if kind == 'setml' and ind and before[-1:] not in ('A', ' '):
                continue
            rows.append((kind, 'closed', pre + before + ind + text + '#'
                         + after, before + ind + after))
        for before, trail, after in itertools.product(
                ['A', 'A ', eol + '-'], ['', ' '], ['B', ' B', '', eol]):
            rows.append((kind, 'shared', pre + before + ind + text + trail
                         + eol + after, before + ind + eol + after))
    return rows


def single(ctx, rng):
    rows = ctx.state.get('rows')
    if rows is None:
        rows = ctx.state['rows'] = table()
        ctx.count('table_rows_seen', 0)
    # the quick tier walks a seeded stride of the table, thorough all of it
    step = 50
    base = (ctx.index * step + (0 if ctx.thorough else ctx.seed * 7919)
            ) % len(rows)
    for j in range(step):
        kind, pos, src, want = rows[(base + j) % len(rows)]
        r = outcome(lambda: str(compile_(src)(searchList=[dict(NS)])))
        same(r, ('ok', want), 'whitespace around a directive is not as '
             'documented', key='output', src=src, tag=kind, position=pos)
        ctx.saw((kind, pos, src))
    ctx.count('single', step)


# --------------------------------------------------------- one-line forms

class Marks(object):
    def __init__(self, *args):
        pass

    def filter(self, val, **kw):
        return '{%s}' % val


# directive, times its body appears, does the body own the line ending
ONELINE = [
    ('#if 1', 1, True), ('#if $one', 1, True), ('#if 0', 0, True),
    ('#unless 0', 1, True), ('#unless $one', 0, True),
    ('#for $i in [1, 2]', 2, True), ('#for $i in ()', 0, True),
    ('#for $i, $j in [(1, 2)]', 1, True), ('#repeat 3', 3, True),
    ('#repeat 0', 0, True), ('#while $next()', 2, True),
    ('#cache', 1, True), ('#cache id="one"', 1, True),
    ('#cache timer="1m"', 1, True), ('#raw', 'raw', False),
    ('#filter $Marks', 'filter', False), ('#filter None', 1, False),
    ('#call $wrap', 'call', False), ('#call $wrap2 z="1"', 'call', False),
    ('#capture cap', 'capture', False), ('#def meth', 'def', False),
    ('#def meth($x=3)', 'def', False), ('#closure meth($x=1)', 'def', False),
    ('#block blk', 'block', False),
]


def oneline(ctx, rng):
    for k in range(12):
        tag, sort, owns = rng.choice(ONELINE)
        eol = rng.choice(EOLS)
        before = rng.choice(['', 'A' + eol, eol, 'A', 'A ', 'A' + eol + eol])
        ind = rng.choice(['', '', ' ', '   ', '\t', ' \t'])
        if sort == 'block' and before[-1:] not in ('A', ' '):
            ind = ''
        gap = rng.choice(['', '', ' ', '\t'])
        if tag.startswith(('#def', '#block', '#clos')) or tag == '#raw':
            gap = ''
        blanks = rng.choice(['', ' ', '  ', '    ', '\t', '\t\t', ' \t',
                             '\t '])
        bits = [rng.choice(['x', '$one', '${one}', 'a b', '-', 'x: y', '"q"',
                            "it's", '1'])
                for i in range(rng.randint(1, 3))]
        body = rng.choice(['', ' ', '  ']).join(bits)
        if '$one' in bits[:-1]:
            body = ' '.join(bits)
        body += rng.choice(['', '', ' ', '\t'])
        written = body
        if tag.startswith('#clos'):     # it does not see the search list
            written = body.replace('one', 'x')
        tail = rng.choice([None, '', 'B', ' B', eol, eol + 'B'])
        if sort in ('def', 'capture'):
            tail = tail or ''
        end = '' if tail is None else eol
        src = before + ind + tag + gap + ':' + blanks + written + end
        src += tail or ''
        text = blanks[1:] + (body if sort == 'raw' else
                             body.replace('${one}', '1').replace('$one', '1'))
        alone = before == '' or before[-1] in '\r\n'
        want = before + ind
        if sort in ('def', 'block'):
            if sort == 'def' and alone:
                want = before
            if sort == 'block':
                want += text
            want += (tail or '') if alone else end + (tail or '')
            if sort == 'def':
                src += '[$meth()]'
                want += '[%s]' % text
        elif sort == 'raw':
            want += text + end + (tail or '')
        elif sort == 'filter':
            want += blanks[1:] + body.replace('${one}', '{1}').replace(
                '$one', '{1}') + end + (tail or '')
        elif sort == 'call':
            want += '(%s)' % text + end + (tail or '')
        elif sort == 'capture':
            src += '[$cap]'
            want += end + (tail or '') + '[%s]' % text
        elif owns:
            want += (text + end) * sort + (tail or '')
        else:
            want += text * sort + end + (tail or '')
        ns = dict(NS, Marks=Marks, wrap=lambda s: '(%s)' % s,
                  wrap2=lambda s, z: '(%s)' % s,
                  next=iter([1, 1, 0]).__next__)
        r = outcome(lambda: str(compile_(src)(searchList=[ns])))
        same(r, ('ok', want), 'whitespace around a one-line form is not as '
             'documented', key='oneline', src=src, tag=tag)
        ctx.count('oneline')
    ctx.saw((tag, before, ind, gap, blanks, body, tail))


NROWS = len(table())
SCENARIOS = [
    ('document', document, 12000, 120000),
    ('oneline', oneline, 700, 12000),
    ('single', single, 120, NROWS // 50 + 1),
]
REQUIRED = {'tags': 8000, 'tag:alone': 2000, 'tag:closed': 1000,
            'tag:shared': 500, 'single': 3000, 'oneline': 4000}
