"""Small helpers shared by the checks."""
import os


def compile_(src, **kw):
    from Cheetah.Template import Template
    kw.setdefault('cacheCompilationResults', False)
    return Template.compile(src, **kw)


def render(src, sl=(), ns=None, **kw):
    cls = compile_(src, **kw)
    return str(cls(searchList=list(sl)))


def outcome(fn, *a, **k):
    """('ok', value) or ('raised', type name, message)"""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


def write(path, text, enc='utf-8'):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode(enc))
    return path


def read(path, enc='utf-8'):
    with open(path, 'rb') as f:
        return f.read().decode(enc)


def subclasses_of(template):
    return None
