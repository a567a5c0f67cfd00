"""Paths and small helpers shared by the harness (stdlib only)."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STREAM2PY_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'evidence')
PKG = os.path.join(REPO, 'stream2py') + os.sep
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def pyenv(**extra):
    e = dict(os.environ, PYTHONUTF8='1')
    e.update(
        PYTHONPATH=REPO,
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONHASHSEED='0',
        PYTHONWARNINGS='ignore',
    )
    e.update(extra)
    return e
