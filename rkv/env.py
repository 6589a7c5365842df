"""
Process set-up shared by every check: import paths, translations, no byte code
written into /repo.  Import this module before anything from librksv.
"""
import os
import sys
import warnings

REPO = os.environ.get('RKV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = '/opt/venv/bin/python'

sys.dont_write_bytecode = True
for _v in ('RKSV_DEP_CHUNKSIZE', 'RKSV_STATE_RECEIPT_IDS', 'RKSV_TEST_SEED'):
    os.environ.pop(_v, None)
for _v in ('LANGUAGE', 'LANG', 'LC_MESSAGES'):
    os.environ.pop(_v, None)
os.environ['LC_ALL'] = 'C.UTF-8'
if os.environ.get('RKV_LANG'):      # rkv/lang.py
    os.environ['LANGUAGE'] = os.environ['RKV_LANG']
# libraries must not talk to a proxy that happens to be configured
for _v in list(os.environ):
    if _v.lower().endswith('_proxy'):
        os.environ.pop(_v)

warnings.simplefilter('ignore')

if REPO not in sys.path:
    sys.path.insert(0, REPO)
# The scripts of the repository call gettext.install(); library code only
# needs the function to exist.
import builtins
if not hasattr(builtins, '_'):
    builtins._ = lambda s: s


# Load everything that does not come from /repo first, with its byte code
# caches; what comes from /repo must be compiled from the source files as they
# are now, never from a stale cache.
def load():
    import cryptography.x509, cryptography.hazmat.backends.openssl.backend
    import cryptography.hazmat.primitives.asymmetric.ec
    import cryptography.hazmat.primitives.serialization
    import jwt, jwt.algorithms, ijson, requests, six, enum, json
    import multiprocessing.pool, uuid, codecs, configparser
    try:
        import flask
    except ImportError:
        pass
    sys.pycache_prefix = '/nonexistent/pycache'
    import librksv.utils
    got = os.path.dirname(os.path.abspath(librksv.utils.__file__))
    assert got == os.path.join(REPO, 'librksv'), got


load()


def die_with_parent():
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass
