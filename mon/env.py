"""Makes /repo importable as the package `meterstick` without building into it."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_done = False


def setup():
  """Puts a scratch package root with a `meterstick` link to REPO on sys.path."""
  global _done
  if _done:
    return
  sys.dont_write_bytecode = True
  root = tempfile.mkdtemp(prefix='verif_pkg_')
  os.symlink(REPO, os.path.join(root, 'meterstick'))
  pid = os.getpid()

  def clean():
    if os.getpid() == pid:
      shutil.rmtree(root, ignore_errors=True)

  atexit.register(clean)
  # Drop the installed/pinned location, if any, so that only REPO is imported.
  sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') not in
                 ('/opt/pkgroot', REPO)]
  sys.path.insert(0, root)
  warnings.simplefilter('ignore')
  import numpy as np
  np.seterr(all='ignore')
  import meterstick.metrics as m
  assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)), m.__file__
  # shutil.rmtree on `root` must never follow the link.
  _done = True
