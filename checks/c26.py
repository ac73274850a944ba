"""C26: text of every script survives sources, files, values and outputs."""
import io
import os
import subprocess
import sys
import types

from vlib.core import need, same
from vlib.t import compile_, write, read

RULE = ('Random texts from the alphabets that each of 25 encodings can '
        'represent (and whole Unicode for the Unicode ones), placed in '
        'literals, string constants, method bodies, comments, arguments and '
        'values, given as text, file, text and binary file object, include, '
        'preprocessor input, generated module bytes and through the command '
        'line; plus damaged and unrepresentable sources. Distinct: route, '
        'encoding, declaration form, parts used.')
TECHNIQUE = ('metamorphic monitor: every route must render the characters of '
             'the decoded source, which the generator knows; negative '
             'workload of undecodable bytes checked for errors')
QUICK_SCALE = 2
LEVEL_NOTE = ('Sources given as bytes directly are a TypeError under Python 3 '
              'and not generated. A declaration that the bytes themselves '
              'cannot show in ASCII (utf-16) is not detectable and not '
              'generated; such files are read through the encoding setting.')
REQUIRED = {'rendered': 4000, 'files': 700, 'modules': 800, 'values': 1500,
            'rejected': 200, 'cli': 30}
DESIGN = ('Sources are built as (template text, expected text) pairs, encoded '
          'with an encoding that can represent them, and sent through each '
          'route; expected text never depends on Cheetah. Generated modules '
          'are executed from their bytes, so that the coding cookie decides, '
          'as an import would do.')
CPU = 20

ENC = ['utf-8', 'utf-8', 'UTF-8', 'utf8', 'latin-1', 'latin-1', 'iso-8859-1',
       'iso-8859-15', 'iso-8859-2', 'iso-8859-5', 'iso-8859-7', 'cp1252',
       'cp1251', 'koi8-r', 'koi8_u', 'cp437', 'mac_roman', 'gb18030', 'gbk',
       'big5', 'euc-jp', 'shift_jis', 'euc-kr', 'ascii', 'cp1250', 'tis-620']
# not able to carry a Python coding line, or not the usual names
ODD = ['utf-16', 'utf-32', 'utf-16-be', 'utf-7', 'U8', 'cp65001', 'cp037']
SCRIPTS = ['éàüßñÿ¡¿£', 'ĄąŁłŚśžŽőű', 'Привет мир ёЁ', 'Ελληνικά ΑΩ', '日本語 漢字 かな',
           '한국어 글자', '中文字', 'ไทย ก', 'שלום', 'مرحبا', '€„“”–—…', '\u2126\u00b5\u00b0',
           '😀🚀𝒳\U0010ffff', 'e\u0301 \u200d\u200e\ufeff', '\u2028\u2029\x85\x0b\x0c', '\x7f\x01\x1b',
           '\xa0\xad', 'İıſK', '\ue000\uffff', 'ﬁﬀ']


def can(text, enc):
    try:
        return text.encode(enc).decode(enc) == text
    except UnicodeError:
        return False


def alphabet(enc):
    out = [c for s in SCRIPTS for c in s if can(c, enc)]
    return out or list('xyz')


def word(rng, chars, n=8):
    w = ''.join(rng.choice(chars) if rng.random() < .7 else
                rng.choice('abz09 .,-<>&') for _ in range(rng.randint(1, n)))
    return w


def tidy(w):
    return w.replace('\n', ' ')


def build(rng, enc, ctx, n=None):
    """(template text, expected text, search list)"""
    chars = alphabet(enc)
    everything = alphabet('utf-8')
    src, want, ns = [], [], {}
    for i in range(n or rng.randint(2, 8)):
        kind = rng.choice(('text', 'text', 'value', 'attr', 'str', 'key', 'set',
                           'def', 'comment', 'raw', 'slurp', 'attrdef', 'if',
                           'bytesval', 'filter', 'call', 'ustr', 'line'))
        w = tidy(word(rng, chars))
        q = w.replace('\\', '')
        ctx.saw((kind,))
        if kind == 'text' or kind == 'line':
            src.append(w + '\n')
            want.append(w + '\n')
        elif kind == 'value':
            v = word(rng, everything, 20)
            ns['v%d' % i] = v
            src.append('[$v%d|${v%d}]\n' % (i, i))
            want.append('[%s|%s]\n' % (v, v))
        elif kind == 'attr':
            v = word(rng, everything, 20)
            ns['o%d' % i] = types.SimpleNamespace(a={'b': v})
            src.append('%s$o%d.a.b%s\n' % (w, i, '.' + w[-1:]))
            # a name character behind the point would be looked up
            if w[-1:].isalpha() and w[-1:].isascii() or w[-1:] == '_':
                src.pop()
                src.append('%s${o%d.a.b}\n' % (w, i))
                want.append(w + v + '\n')
            else:
                want.append(w + v + '.' + w[-1:] + '\n')
        elif kind == 'str':
            src.append("$str('%s')$str(\"%s\")\n" % (q, q))
            want.append(q + q + '\n')
        elif kind == 'ustr':
            src.append("$str(u'%s')|$len(u'%s')\n" % (q, q))
            want.append('%s|%d\n' % (q, len(q)))
        elif kind == 'key':
            v = word(rng, everything)
            ns['d%d' % i] = {q: v}
            src.append("$d%d['%s']\n" % (i, q))
            want.append(v + '\n')
        elif kind == 'set':
            src.append("#set $s%d = '%s'\n$s%d\n" % (i, q, i))
            want.append(q + '\n')
        elif kind == 'attrdef':
            src.append("#attr $at%d = '%s'\n$at%d\n" % (i, q, i))
            want.append(q + '\n')
        elif kind == 'def':
            src.append("#def m%d($a='%s')\n%s$a\n#end def\n$m%d\n" %
                       (i, q, w, i))
            want.append(w + q + '\n\n')
        elif kind == 'comment':
            src.append('## %s\n#* %s *#:%s\n' % (w, w, w))
            want.append(':' + w + '\n')
        elif kind == 'raw':
            src.append('#raw\n$%s#%s\n#end raw\n' % (w, w))
            want.append('$%s#%s\n' % (w, w))
        elif kind == 'slurp':
            src.append(w + '|#slurp\n' + w + '\n')
            want.append(w + '|' + w + '\n')
        elif kind == 'if':
            src.append("#if '%s' == $u%d\n%s\n#end if\n" % (q, i, w))
            ns['u%d' % i] = q
            want.append(w + '\n')
        elif kind == 'bytesval':
            v = rng.randrange(1000)
            ns['b%d' % i] = v
            src.append('%s $b%d\n' % (w, i))
            want.append('%s %d\n' % (w, v))
        elif kind == 'filter':
            v = word(rng, everything)
            ns['f%d' % i] = v
            src.append('#filter WebSafe\n$f%d%s\n#end filter\n' % (i, ' ' + w))
            want.append(v.replace('&', '&amp;').replace('<', '&lt;')
                        .replace('>', '&gt;') + ' ' + w + '\n')
        elif kind == 'call':
            ns['up%d' % i] = lambda s: s[::-1]
            src.append('#call $up%d#%s#end call#\n' % (i, w))
            want.append(w[::-1] + '\n')
    return ''.join(src), ''.join(want), ns


def declare(rng, enc, src):
    """A source with its declaration; (text, expected prefix)"""
    form = rng.randrange(6)
    if form == 0:
        return '#encoding %s\n' % enc + src, '', form
    if form == 1:
        return '#encoding: %s\n' % enc + src, '', form
    if form == 2:
        return '#encoding  %s  \n' % enc + src, '', form
    if form == 3:
        return '## a comment\n#encoding %s\n' % enc + src, '', form
    if form == 4:
        return 'ahead\n#encoding %s\n' % enc + src, 'ahead\n', form
    return '#unicode %s\n' % enc + src, '', form


def fill(cls, ns):
    t = cls(searchList=[ns])
    out = str(t)
    need(type(out) is str, 'rendering is not text', key='type')
    return out


def exec_module(code):
    need(isinstance(code, bytes), 'no bytes for the module', key='bytes')
    mod = types.ModuleType('generated')
    mod.__file__ = '/nowhere/generated.py'
    sys.modules['generated'] = mod
    try:
        exec(compile(code, 'generated.py', 'exec'), mod.__dict__)
    finally:
        sys.modules.pop('generated', None)
    return mod


def text(ctx, rng):
    """sources as text, with or without a declaration"""
    src, want, ns = build(rng, 'utf-8', ctx)
    if rng.random() < .5:
        src, pre, form = declare(rng, rng.choice(ENC + ODD), src)
        want = pre + want
    else:
        form = None
    d = {'src': src}
    ctx.saw(('text', form))
    same(fill(compile_(src), ns), want, 'text source', key='text', **d)
    ctx.count('rendered')
    from Cheetah.Template import Template
    same(str(Template(src, searchList=[ns])), want, 'constructor', key='ctor',
         **d)
    f = io.StringIO(src, newline='')
    same(fill(compile_(None, file=f), ns), want, 'text file object',
         key='stringio', **d)
    check_module_text(ctx, ns, want, d, src)


def check_module_text(ctx, ns, want, d, src):
    code = compile_(src, returnAClass=False, moduleName='generated',
                    className='generated')
    mod = exec_module(code)
    ctx.count('modules')
    same(fill(mod.generated, ns), want, 'generated module', key='module', **d)


def encoded(rng, ctx):
    enc = rng.choice(ENC)
    src, want, ns = build(rng, enc, ctx)
    full, pre, form = declare(rng, enc, src)
    # a file's line endings are read as \n, so keep the other separators out
    full = full.replace('\r', '')
    ctx.saw(('enc', enc.lower(), form))
    return enc, full, full.encode(enc), pre + want, ns


NAMES = ['plain', 'naïve', 'шаблон', '模板', 'λ', 'with space', 'a-b.c', '😀',
         "quote'd", 'dq"x', 'per%s', 'hash#x', '1digit']


def files(ctx, rng):
    enc, full, data, want, ns = encoded(rng, ctx)
    from Cheetah.Template import Template
    tmp = ctx.tmp('files')
    name = rng.choice(NAMES)
    path = os.path.join(tmp, name + '.tmpl')
    write(path, data)
    d = {'src': full, 'enc': enc, 'name': name}
    ctx.saw(('name', name))
    ctx.count('files')
    same(fill(compile_(None, file=path), ns), want, 'file', key='file', **d)
    same(str(Template(file=path, searchList=[ns])), want, 'constructor',
         key='filector', **d)
    with open(path, 'rb') as f:
        same(fill(compile_(None, file=f), ns), want, 'binary file object',
             key='binfile', **d)
    same(fill(compile_(None, file=io.BytesIO(data)), ns), want,
         'binary buffer', key='bytesio', **d)
    with io.open(path, encoding=enc) as f:
        same(fill(compile_(None, file=f), ns), want, 'text file object',
             key='textfile', **d)
    ctx.count('rendered', 5)
    same(fill(compile_(None, file=path,
                       compilerSettings={'encoding': enc}), ns), want,
         'encoding setting', key='setting', **d)
    same(fill(compile_(None, file=path, preprocessors='@ %'), ns), want,
         'through a preprocessor', key='preprocess', **d) \
        if '@' not in full and '%' not in full else None
    code = compile_(None, file=path, returnAClass=False,
                    moduleName='generated', className='generated')
    same(fill(exec_module(code).generated, ns), want, 'generated module',
         key='filemodule', **d)
    ctx.count('modules')
    # included
    if rng.random() < .5:
        outer = tidy(word(rng, alphabet('utf-8')))
        expr = repr(path)
        got = fill(compile_('%s\n#include %s\n%s\n' % (outer, expr, outer)), ns)
        same(got, '%s\n%s%s\n' % (outer, want, outer), 'include',
             key='include', **d)
        ns2 = dict(ns, path=path)
        got = fill(compile_('#include $path\n'), ns2)
        same(got, want, 'include by name', key='include2', **d)
        ctx.count('rendered', 2)


def undeclared(ctx, rng):
    """the encoding setting instead of a declaration"""
    enc = rng.choice(ENC + ['utf-16', 'utf-16-le', 'utf-32', 'utf-8-sig',
                            'utf-7'])
    src, want, ns = build(rng, enc if enc in ENC else 'utf-8', ctx)
    if not can(src, enc):
        enc = 'utf-8'
    path = os.path.join(ctx.tmp('undeclared'), 't.tmpl')
    write(path, src.encode(enc))
    st = {'encoding': enc}
    d = {'src': src, 'enc': enc}
    ctx.saw(('setting', enc))
    ctx.count('files')
    same(fill(compile_(None, file=path, compilerSettings=st), ns), want,
         'file read by the encoding setting', key='setfile', **d)
    with open(path, 'rb') as f:
        same(fill(compile_(None, file=f, compilerSettings=st), ns), want,
             'binary file read by the encoding setting', key='setbin', **d)
    same(fill(compile_(src, compilerSettings=st), ns), want,
         'text is not read again', key='settext', **d)
    ctx.count('rendered', 3)
    code = compile_(None, file=path, compilerSettings=st, returnAClass=False,
                    moduleName='generated', className='generated')
    same(fill(exec_module(code).generated, ns), want, 'generated module',
         key='setmodule', **d)
    ctx.count('modules')
    # undeclared UTF-8
    if enc.lower() in ('utf-8', 'utf8'):
        same(fill(compile_(None, file=path), ns), want, 'undeclared utf-8',
             key='undeclared', **d)
        same(fill(compile_(None, file=io.BytesIO(src.encode(enc))), ns), want,
             'undeclared utf-8', key='undeclared', **d)


class Awk(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def values(ctx, rng):
    """values of every kind, through every place that writes output"""
    everything = alphabet('utf-8')
    v = word(rng, everything, 30)
    if rng.random() < .3:
        v = v + chr(rng.choice((0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000,
                                0xfffd, 0x10000, 0x10ffff)))
    kinds = [('str', v, v), ('obj', Awk(v), v), ('list', [v], str([v])),
             ('dict', {v: v}, str({v: v})), ('none', None, ''),
             ('bytes', v.encode('utf-8'), str(v.encode('utf-8'))),
             ('sub', type('S', (str,), {})(v), v),
             ('exc', ValueError(v), v), ('func', (lambda: v), v)]
    name, val, want = rng.choice(kinds)
    ns = {'v': val, 'ident': lambda s: s, 'kw': lambda k='': k}
    text_ = tidy(word(rng, everything))
    form = rng.choice([
        ('$v', want), ('${v}', want), ('$!v', want),
        ('#echo $v#', want), ('$str($v)', want if name != 'none' else 'None'),
        ('#silent $v#', ''),
        ('#capture c#$v#end capture#$c', want),
        ('#filter Filter#$v#end filter#', want),
        ('#call $ident#$v#end call#', want),
        ('#call $ident#%s$v#end call#' % text_, text_ + want),
        ('#call $kw##arg k#$v#end call#', want),
        ('$v#slurp\n', want),
        ('#try#$v#except#no#end try#', want),
        ('#cache#$v#end cache#', want),
        ('#def m#$v#end def#$m', want),
        ('#def m($a)#$a#end def#$m($v)', want),
        ('#set $z = $v#$z', want),
        ('#set global $z = $v#$z', want),
        ('#include source=$v#', None),
        ('#block b#$v#end block#', want),
        ('#closure q($a)#$a#end closure#', ''),
        ('#for $z in [$v]#$z#end for#', want),
        ('#if True then $v else 0#', want)])
    src, want = form
    if want is None:
        if name not in ('str', 'sub', 'func') or '#' in v or '$' in v \
                or '\\' in v:
            return
        want = v
    ctx.saw(('value', name, src))
    ctx.count('values')
    full = text_ + '\n' + src + '\n' + text_ + '\n'
    if src.startswith('#cache') and name == 'none':
        return
    got = outcome_(full, ns)
    end = '\n'
    if src.endswith('#slurp\n'):
        full = text_ + '\n' + src + text_ + '\n'
        end = ''
        got = outcome_(full, ns)
    need(got.startswith(text_ + '\n') and got.endswith(text_ + '\n'),
         'literal text changed', key='literal', src=full, got=got)
    mid = got[len(text_) + 1:len(got) - len(text_) - 1]
    need(mid == want + end or mid == want, 'value changed', key='value',
         src=full, kind=name, got=mid, want=want)


def outcome_(src, ns):
    return fill(compile_(src), ns)


def damaged(ctx, rng):
    """undecodable sources are errors; unknown encodings too"""
    enc = rng.choice(['utf-8', 'utf-8', 'ascii', 'gb18030', 'euc-jp',
                      'shift_jis', 'big5', 'cp1252', 'iso-8859-7'])
    src, want, ns = build(rng, enc, ctx)
    full, pre, form = declare(rng, enc, src)
    data = full.encode(enc)
    bad = rng.choice([b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf8\x88',
                      b'\x81', b'\xae', b'\xed\xa0\x80', b'\xc0\xaf'])
    at = rng.choice([len(data)] + [i + 1 for i, c in enumerate(data)
                                   if c == 10])
    if at < 40:
        at = len(data)
    data = data[:at] + bad + data[at:]
    path = os.path.join(ctx.tmp('damaged'), 't.tmpl')
    write(path, data)
    try:
        text_ = data.decode(enc)
    except UnicodeDecodeError:
        text_ = None
    d = {'data': data, 'enc': enc}
    ctx.saw(('damaged', enc, bad, text_ is None))
    for route, kw in (('file', {'file': path}),
                      ('buffer', {'file': io.BytesIO(data)}),
                      ('setting', {'file': path,
                                   'compilerSettings': {'encoding': enc}}),
                      ('module', {'file': path, 'returnAClass': False}),
                      ('preprocess', {'file': path, 'preprocessors': '@ %'})):
        try:
            got = compile_(None, **kw)
            if route != 'module':
                got = fill(got, ns)
            e = None
        except Exception as exc:
            e = exc
        if text_ is None:
            ctx.count('rejected')
            need(isinstance(e, (UnicodeError, ValueError)),
                 'undecodable source accepted', key='accepted', route=route,
                 got=repr(e or got), **d)
        elif route in ('file', 'buffer', 'setting'):
            # decodable after all: as its text
            try:
                want2 = fill(compile_(text_), ns)
            except Exception as exc:
                same(type(e), type(exc), 'error of the decoded source',
                     key='err', route=route, **d)
                continue
            same(got if e is None else repr(e), want2, 'decoded source',
                 key='decoded', route=route, **d)
    # unknown encodings
    name = rng.choice(['nonsense', 'utf-99', 'latin_one', 'x-y', 'hex',
                       'base64', 'rot13'])
    write(path, '#encoding %s\ntext\n' % name)
    for kw in ({'file': path}, {'source': '#encoding %s\ntext\n' % name},
               {'file': io.BytesIO(b'#encoding %s\ntext\n' % name.encode())}):
        try:
            got = compile_(kw.get('source'), file=kw.get('file'))
        except Exception as e:
            need(type(e).__name__ in ('ParseError', 'LookupError'),
                 'error for an unknown encoding', key='unknownerr',
                 got=repr(e))
            ctx.count('rejected')
        else:
            need(False, 'unknown encoding accepted', key='unknown', name=name)


SCRIPT = r'''
import sys, runpy
sys.path.insert(0, %r)
from Cheetah.CheetahWrapper import CheetahWrapper
import io
sys.argv[:] = ['cheetah'] + sys.argv[1:]
CheetahWrapper().main(sys.argv)
'''


def cli(ctx, rng):
    """the command line, with declarations or --encoding"""
    import Cheetah
    root = os.path.dirname(os.path.dirname(os.path.abspath(Cheetah.__file__)))
    enc = rng.choice(ENC)
    src, want, ns = build(rng, enc, ctx)
    # no data on the command line: keep to what needs none
    parts = []
    for i in range(4):
        w = tidy(word(rng, alphabet(enc)))
        parts.append((w + '\n', w + '\n'))
        q = w.replace('\\', '')
        parts.append(("$str('%s')\n" % q, q + '\n'))
    src = ''.join(p[0] for p in parts)
    want = ''.join(p[1] for p in parts)
    if rng.random() < .5:
        full, pre, form = declare(rng, enc, src)
        want = pre + want
        args, outenc = [], None
    else:
        full, form = src, None
        args, outenc = ['--encoding', enc], enc
    tmp = ctx.tmp('cli%d' % ctx.index)
    write(os.path.join(tmp, 'page.tmpl'), full.encode(enc))
    env = dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONUTF8='1',
               PYTHONPATH=root)
    d = {'src': full, 'enc': enc, 'args': args}

    def run(cmd, **kw):
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT % root] + cmd,
                           cwd=tmp, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, **kw)
        need(p.returncode == 0, 'command failed', key='cli', cmd=cmd,
             err=p.stderr.decode('utf-8', 'replace')[-1500:], **d)
        return p.stdout.decode('utf-8')
    ctx.saw(('cli', enc, form))
    ctx.count('cli')
    run(['fill', '--iext', 'tmpl'] + args + ['page.tmpl'])
    with open(os.path.join(tmp, 'page.html'), 'rb') as f:
        got = f.read()
    same(got.decode(outenc or 'utf-8'), want, 'filled file', key='clifill', **d)
    same(run(['fill', '--stdout'] + args + ['page.tmpl']), want,
         'filled to stdout', key='clistdout', **d)
    run(['compile'] + args + ['page.tmpl'])
    with open(os.path.join(tmp, 'page.py'), 'rb') as f:
        code = f.read()
    need('#' in code.decode('latin-1'), 'module', key='climodule')
    same(fill(exec_module(code).page, {}), want, 'compiled module',
         key='climodule', **d)
    p = subprocess.run([sys.executable, '-W', 'ignore', 'page.py'], cwd=tmp,
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60)
    same(p.stdout.decode('utf-8'), want + '\n', 'module run as a script',
         key='cliscript', err=p.stderr.decode('utf-8', 'replace')[-800:], **d)


SCENARIOS = [('text', text, 900, 8000), ('files', files, 500, 5000),
             ('undeclared', undeclared, 400, 4000),
             ('values', values, 2500, 20000), ('damaged', damaged, 250, 2500),
             ('cli', cli, 32, 250, {'modes': ('c',)})]
