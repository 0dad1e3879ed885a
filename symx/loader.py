"""Imports the package under test twice from /repo: once as it is (real) and
once per mode with the symbolic stand-ins in place of numpy, scipy and math."""
import importlib
import os
import sys

REPO = os.environ.get('SYMX_REPO', '/repo')
MODS = ['raytools', 'raytools.translate', 'raytools.io', 'raytools.utility',
        'raytools.mapper', 'raytools.mapper.angularmixin', 'raytools.mapper.mapper',
        'raytools.mapper.viewmapper', 'raytools.mapper.solidviewmapper',
        'raytools.mapper.perspectiveviewmapper', 'raytools.imagetools',
        'raytools.evaluate', 'raytools.evaluate.basemetricset', 'raytools.evaluate.metricset',
        'raytools.evaluate.colormetricset', 'raytools.evaluate.positionindex',
        'raytools.evaluate.retina', 'raytools.evaluate.hvsgsm', 'raytools.cli']

_VENV = '/opt/venv/lib/python3.12/site-packages'


class NS(dict):
    """modules of one copy of the package, by name"""


def _prep():
    sys.dont_write_bytecode = True
    if _VENV not in sys.path:
        sys.path.append(_VENV)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # third-party modules must be bound to the real numpy
    for n in ('tqdm', 'clasp', 'clasp.click_ext', 'clasp.script_tools', 'concurrent.futures',
              'multiprocessing', 'shlex', 'functools', 're', 'warnings', 'textwrap', 'shutil',
              'subprocess', 'concurrent.futures.process', 'concurrent.futures.thread', 'pickle',
              'itertools', 'tempfile', 'csv', 'json', 'struct', 'collections', 'statistics',
              'fractions', 'decimal', 'random', 'operator', 'configparser'):
        try:
            importlib.import_module(n)
        except Exception:
            pass


def _take():
    out = {}
    for n in list(sys.modules):
        if n == 'raytools' or n.startswith('raytools.'):
            out[n] = sys.modules.pop(n)
    return out


_REAL = None
_SYM = {}


def real():
    global _REAL
    if _REAL is None:
        _prep()
        old = _take()
        ns = NS()
        for n in MODS:
            try:
                ns[n] = importlib.import_module(n)
            except ModuleNotFoundError:
                if n == 'raytools':
                    raise
        ns.update(_take())
        _REAL = ns
        sys.modules.update(old)
    return _REAL


def sym(exact=True):
    from . import facade
    if exact in _SYM:
        facade.MODE.exact = exact
        return _SYM[exact]
    real()
    facade.MODE.exact = exact
    old = _take()
    saved = {n: sys.modules.get(n) for n in facade.MODULES}
    sys.modules.update(facade.MODULES)
    ns = NS()
    try:
        for n in MODS:
            try:
                ns[n] = importlib.import_module(n)
            except ModuleNotFoundError:
                if n == 'raytools':
                    raise
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        ns.update(_take())
        sys.modules.update(old)
    _SYM[exact] = ns
    return ns
