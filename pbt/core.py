"""Runner: laws (strategy + oracle), Hypothesis search, replay files, evidence.

A *law* is an executable statement of (part of) a property.  Its strategy draws
a plain-data case (numbers, strings, lists, tuples, dicts, sets), its function
runs the library on the case and compares with an explicit oracle, raising
`Broken` on disagreement.  Anything the library itself raises on a generated
(valid) case is a disagreement as well, and so is an answer the oracle cannot
read (missing key, wrong type or shape).  Anything else that goes wrong in the
harness is a harness error (exit code 2, never a VIOLATION).
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.json')
WHERE = os.path.realpath(os.path.join(REPO, 'probayes')) + os.sep

CASE_TIMEOUT = 90      # seconds for one single case before it counts as a hang
SHRINK_SECONDS = 40    # cap on time spent minimising a failure

# -----------------------------------------------------------------------------
class Broken(AssertionError):
  """ The library disagreed with the oracle. """

class Skip(Exception):
  """ The case is outside of the property's domain. """

class Hang(BaseException):
  """ A case took longer than CASE_TIMEOUT. """

def broken(text, *args):
  raise Broken(text.format(*args) if args else text)

def expect(cond, text, *args):
  if not cond:
    broken(text, *args)

def num(val, what="value"):
  """ A library output as a float; anything else is a disagreement. """
  try:
    return float(val)
  except (TypeError, ValueError):
    broken("{} is {!r} rather than a number", what, val)

def arr(val, what="values", dtype=float):
  """ A library output as a numeric array; anything else is a disagreement. """
  import numpy as np
  try:
    return np.asarray(val, dtype=dtype)
  except (TypeError, ValueError):
    broken("{} are {!r} rather than numbers", what, val)

def skip():
  raise Skip()

# -----------------------------------------------------------------------------
class Law:
  def __init__(self, func, strategy, quick, thorough, floor, name=None, chunk=50):
    self.chunk = chunk
    self.func = func
    self.strategy = strategy
    self.quick = quick
    self.thorough = thorough
    self.floor = floor
    self.name = name or func.__name__

def laws_of(module):
  return module.LAWS

def law(registry, strategy, quick=200, thorough=None, floor=0.3, chunk=50):
  """ Registers a law.

  :param strategy: Hypothesis strategy (or a callable returning one).
  :param quick: number of cases in the quick tier.
  :param thorough: number of cases in the thorough tier (default 15 * quick).
  :param floor: minimum fraction of non-trivial cases for an honest run.
  :param chunk: cases below which a search is not split up (small for slow laws).
  """
  def deco(func):
    registry.append(Law(func, strategy, quick, thorough or 15 * quick, floor, chunk=chunk))
    return func
  return deco

# -----------------------------------------------------------------------------
class Ctx:
  """ Per-case bookkeeping handed to the law function. """
  def __init__(self):
    self.tags = collections.Counter()
    self.nontrivial = False
  def tag(self, *names):
    for name in names:
      self.tags[name] += 1
  def interesting(self, flag=True):
    self.nontrivial = self.nontrivial or bool(flag)

# -----------------------------------------------------------------------------
def encode(case):
  return repr(case)

def decode(text):
  return eval(text, {'__builtins__': {}, 'inf': float('inf'), 'nan': float('nan'),
                     'set': set, 'True': True, 'False': False, 'None': None})

def seed_case(law_name, case):
  """ The global numpy / random state of a case is a function of the case. """
  import numpy as np
  digest = hashlib.sha256((law_name + encode(case)).encode()).digest()
  np.random.seed(int.from_bytes(digest[:4], 'little'))
  random.seed(int.from_bytes(digest[4:8], 'little'))

def in_library(exc):
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    for frame, _ in traceback.walk_tb(exc.__traceback__):
      if os.path.realpath(frame.f_code.co_filename).startswith(WHERE):
        return True
    exc = exc.__cause__ or exc.__context__
  return False

def _alarm(signum, frame):
  raise Hang()

def run_case(law_, case):
  """ Runs one case: returns (ctx, failure text or None). """
  ctx = Ctx()
  seed_case(law_.name, case)
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CASE_TIMEOUT)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      law_.func(case, ctx)
  except Skip:
    ctx.tag('skipped')
    ctx.nontrivial = False
    return ctx, None
  except Broken as exc:
    return ctx, str(exc)
  except Hang:
    return ctx, "no result within {} s".format(CASE_TIMEOUT)
  except Exception as exc:
    if in_library(exc):
      last = traceback.extract_tb(exc.__traceback__)[-1]
      return ctx, "the library raised {}: {} (at {}:{})".format(
        type(exc).__name__, exc, os.path.basename(last.filename), last.lineno)
    # The oracle could not read the answer (missing key, wrong type or shape ...)
    if isinstance(exc, (TypeError, ValueError, LookupError, AttributeError,
                        ArithmeticError)):
      last = traceback.extract_tb(exc.__traceback__)[-1]
      return ctx, "unreadable answer, {}: {} (at {}:{})".format(
        type(exc).__name__, exc, os.path.basename(last.filename), last.lineno)
    raise
  finally:
    signal.alarm(0)
  return ctx, None

# -----------------------------------------------------------------------------
def run_law(law_, n_cases, seed, budget, deadline=None):
  """ Searches one law; returns a plain-data result dictionary. """
  from hypothesis import given, settings, HealthCheck, Phase, Verbosity
  from hypothesis import seed as hyp_seed
  from hypothesis.errors import Flaky, FlakyFailure, Unsatisfiable
  start = time.time()
  stats = {'law': law_.name, 'evaluations': 0, 'tags': collections.Counter(),
           'digests': set(), 'samples': [], 'failure': None, 'error': None,
           'cut': False}
  state = {'last': None, 'failed_at': None, 'harness': None}

  strategy = law_.strategy() if callable(law_.strategy) else law_.strategy

  @hyp_seed(seed)
  @settings(max_examples=n_cases, database=None, deadline=None,
            report_multiple_bugs=False, print_blob=False,
            verbosity=Verbosity.quiet,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink])
  @given(strategy)
  def search(case):
    if state['harness'] is not None:
      return
    now = time.time()
    if state['failed_at'] is not None:
      if now - state['failed_at'] > SHRINK_SECONDS:
        return
    elif now - start > budget or (deadline and now > deadline):
      stats['cut'] = True
      return
    try:
      ctx, failure = run_case(law_, case)
    except Exception:
      state['harness'] = "{}\ncase: {}".format(traceback.format_exc(), encode(case))
      return
    stats['evaluations'] += 1
    for key, val in ctx.tags.items():
      stats['tags'][key] += val
    if ctx.nontrivial:
      text = encode(case)
      digest = hashlib.md5(text.encode()).hexdigest()
      if digest not in stats['digests']:
        stats['digests'].add(digest)
        k = len(stats['digests'])
        if k in (2, 20) or (k == 1 and not stats['samples']):
          stats['samples'].append({'law': law_.name, 'case': text[:1500]})
    if failure is not None:
      state['last'] = (case, failure)
      if state['failed_at'] is None:
        state['failed_at'] = now
      raise Broken(failure)

  try:
    search()
  except Unsatisfiable:
    state['harness'] = "generator of {} unsatisfiable".format(law_.name)
  except (Broken, Flaky, FlakyFailure):
    pass
  except BaseException as exc:
    if state['last'] is None:
      state['harness'] = traceback.format_exc()
  if state['harness'] is not None:
    stats['error'] = state['harness']
  if state['last'] is not None:
    case, failure = state['last']
    stats['failure'] = {'case': encode(case), 'why': failure}
  stats['digests'] = len(stats['digests'])
  stats['tags'] = dict(stats['tags'])
  stats['wall_s'] = time.time() - start
  return stats

# -----------------------------------------------------------------------------
def load_findings():
  if not os.path.exists(FINDINGS):
    return {'known': [], 'fixed': []}
  with open(FINDINGS) as fid:
    return json.load(fid)
