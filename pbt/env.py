"""Interpreter environment: /repo on the path, Hypothesis from the tool venv."""
import os
import sys

TOOLS = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
REPO = os.environ.get('PBT_REPO', '/repo')

def setup():
  sys.dont_write_bytecode = True
  while REPO in sys.path:
    sys.path.remove(REPO)
  sys.path.insert(0, REPO)
  try:
    import hypothesis
  except ImportError:
    for tools in TOOLS:
      sys.path.append(tools)
    import hypothesis
    import hypothesis.strategies, hypothesis.extra, hypothesis.stateful
    for tools in TOOLS:
      sys.path.remove(tools)
  # Hypothesis must not leave a .hypothesis directory behind
  from hypothesis.configuration import set_hypothesis_home_dir
  set_hypothesis_home_dir(os.environ['TMPDIR'])
  import probayes
  where = os.path.realpath(probayes.__file__)
  if not where.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError("probayes imported from {}".format(where))
