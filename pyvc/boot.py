"""Puts the repository, the numba stub and numpy on sys.path."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for p in (REPO, os.path.join(ROOT, 'stubs'), ROOT):
  if p not in sys.path:
    sys.path.insert(0, p)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
