"""Puts /repo on the path with the requested NameMapper flavour."""
import importlib.machinery
import importlib.util
import json
import os
import sys
import warnings

REPO = '/repo'


def boot(mode, exts=None):
    if exts is None:
        exts = json.loads(os.environ.get('VERIF_EXTS', '{}'))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.filterwarnings('ignore')
    if mode == 'pure':
        sys._cheetah_namemapper_pure = True
    else:
        load_ext(exts[mode])
    import Cheetah.NameMapper as NM
    want = mode != 'pure'
    if bool(NM.C_VERSION) != want:
        raise RuntimeError('NameMapper flavour is not %s' % mode)


def load_ext(path, name='Cheetah._namemapper'):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    return mod
