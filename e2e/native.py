"""The native library compiled from the current tree, in a scratch directory."""
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
STATE = {'dir': None, 'mod': None, 'error': None}


def prepare():
    """compile; returns None, or the compiler's message"""
    d = tempfile.mkdtemp(prefix='verif-native-')
    STATE['dir'] = d
    py = '/opt/venv/bin/python'
    inc = subprocess.run([py, '-m', 'pybind11', '--includes'], capture_output=True, text=True).stdout.split()
    out = os.path.join(d, '_wagyu.so')
    msg = ''
    for cxx, opt in (('clang++', '-O0'), ('g++', '-O0')):
        r = subprocess.run([cxx, opt, '-w', '-shared', '-std=c++17', '-fPIC', '-fvisibility=hidden',
                            '-DVERSION_INFO=0', '-I' + os.path.join(REPO, 'include'), *inc,
                            *sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp')),
                            '-o', out], capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return None
        msg = r.stderr[-1500:]
    STATE['error'] = msg
    return msg


def cleanup():
    if STATE['dir']:
        shutil.rmtree(STATE['dir'], ignore_errors=True)
        STATE['dir'] = None


def mod():
    if STATE['mod'] is None:
        if STATE['dir'] is None:
            prepare()
        path = os.path.join(STATE['dir'], '_wagyu.so')
        loader = importlib.machinery.ExtensionFileLoader('_wagyu', path)
        spec = importlib.util.spec_from_loader('_wagyu', loader)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        STATE['mod'] = m
    return STATE['mod']


def build(case):
    N = mod()
    w = N.Wagyu(bool(case['rev']))
    for r in case['subj']:
        w.add_linear_ring(N.LinearRing([N.Point(*map(float, p)) for p in r]), N.PolygonKind.SUBJECT)
    for r in case['clip']:
        w.add_linear_ring(N.LinearRing([N.Point(*map(float, p)) for p in r]), N.PolygonKind.CLIP)
    return w


def outcome(case):
    """(result or message, extents), like the Python side"""
    N = mod()
    w = build(case)
    b = w.bounds
    ext = ((b.minimum.x, b.minimum.y), (b.maximum.x, b.maximum.y))
    try:
        res = getattr(w, case['op'])(N.FillKind(int(case['sf'])), N.FillKind(int(case['cf'])))
        return [[[(p.x, p.y) for p in r] for r in pg] for pg in res], ext
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), ext
