"""Steps of random fields: transition functions, covariances, conditional (Gibbs) sampling."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p14_random_variables as pr
from pbt.props import p16_transitions as pt
from pbt.props.p17_fields import raw_of

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("steps of random fields of 2-4 float or integer variables from arbitrary predecessors: to "
        "successors given explicitly or by fixed, passed or covarying random deltas, with transition "
        "functions (single or forward/reverse pairs; keyword, positional, renamed or difference "
        "arguments) on any scale; and to successors sampled from the conditionals of a multivariate "
        "normal (finite or infinite limits) or of custom samplers, all at once or a number of "
        "variables at a time; non-trivial: successor differs from predecessor in two variables or "
        "over two steps")

NAMES = ['x', 'y', 'n', 'zeta']
ST_CLS = st.sampled_from(['RF', 'RF', 'SD', 'SP'])

# -----------------------------------------------------------------------------
def make_field(names, types, lims=None, scale=None, order=None, cls='RF'):
  import probayes as pb
  rvs = {}
  for i, name in enumerate(names):
    if types[i] == 'int':
      rvs[name] = pb.RV(name, vtype=int, vset=range(-9, 10))
    else:
      lo, hi = (-np.inf, np.inf) if lims is None else lims[i]
      rvs[name] = pb.RV(name, vtype=float, vset=(lo, hi))
    if scale is not None:
      rvs[name].pscale = scale
  field = pb.RF(*[rvs[name] for name in names])
  if cls != 'RF': # dependences and processes of one field step likewise
    field = getattr(pb, cls)(field)
  return field, rvs

def check_step(dist, names, pred, succ, want, scale, what, rtol=1e-8):
  """ Roles, values and probability of one step. """
  expect(list(dist.marg.keys()) == [n + "'" for n in names] and list(dist.cond.keys()) == names,
         "{}: p({}|{})", what, list(dist.marg), list(dist.cond))
  for name in names:
    expect(num(dist[name]) == pred[name], "{}: predecessor {} is {} rather than {}", what, name,
           dist[name], pred[name])
    got = num(dist[name + "'"])
    expect(abs(got - succ[name]) <= 1e-9 * (1. + abs(succ[name])),
           "{}: successor {} is {} rather than {}", what, name, got, succ[name])
  lin = pr.linear(dist.prob, dist.pscale, what)
  expect(np.ndim(lin) == 0 and abs(float(lin) - want) <= rtol * (1e-290 + abs(want)),
         "{}: from {} to {} with probability {} rather than {}", what, pred, succ, lin, want)
  if scale is not None:
    expect(isinstance(dist.pscale, complex) == isinstance(scale, complex) and
           abs(dist.pscale - scale) < 1e-9, "{}: scale {} rather than {}", what, dist.pscale, scale)

# -----------------------------------------------------------------------------
@st.composite
def st_step(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(2, 4))]
  types = [draw(st.sampled_from(['float', 'float', 'int'])) for _ in names]
  def val(t, lo=-3., hi=3.):
    return draw(st.integers(int(lo), int(hi))) if t == 'int' else draw(st.floats(lo, hi))
  move = draw(st.sampled_from(['explicit', 'explicit', 'tuple', 'delta', 'passed']))
  return {'names': names, 'types': types, 'move': move, 'cls': draw(ST_CLS),
          'pred': [val(t) for t in types], 'step': [val(t, -2., 2.) for t in types],
          'kind': draw(st.sampled_from(['kwds', 'kwds', 'order', 'rename', 'delta',
                                        'preset'])),
          'pair': draw(st.booleans()), 'reverse': draw(st.booleans()),
          'scale': draw(st.sampled_from([None, 1., 2., 'log', 1.5 + 0j])),
          'keyorder': draw(st.permutations(names)), 'keyorder2': draw(st.permutations(names)),
          'by_var': draw(st.booleans()),
          'coefs': [draw(st.sampled_from([0.25, 0.5, 1., 2.])) for _ in names]}

@law(LAWS, st_step, quick=700)
def transition(case, ctx):
  """ p(succ|pred) is the value of the transition function at the predecessor and successor. """
  names, types = case['names'], case['types']
  n = len(names)
  scale = pr.norm(case['scale']) if case['scale'] is not None else 1.
  field, rvs = make_field(names, types, cls=case['cls'])
  if case['scale'] is not None:
    field.set_prob(lambda **k: 1., pscale=case['scale'])
  pred = dict(zip(names, case['pred']))
  succ = {k: pred[k] + d for k, d in zip(names, case['step'])}
  def lin(p, s, which, shift=0.):
    u = 0.3 + shift + which
    for i, name in enumerate(names):
      if case['kind'] == 'delta':
        u = u + case['coefs'][i] * (np.asarray(s[name], dtype=float)) ** 2
      else:
        u = u + case['coefs'][i] * (0.7 * np.asarray(s[name], dtype=float) -
                                    np.asarray(p[name], dtype=float)) ** 2
    return np.exp(-0.05 * u)
  kind, kwds, shift = case['kind'], {}, 0.
  def make(which):
    if kind in ('kwds', 'preset'):
      if kind == 'preset':
        return lambda shift, **k: raw_of(lin(k, {m: k[m + "'"] for m in names}, which, shift), scale)
      return lambda **k: raw_of(lin(k, {m: k[m + "'"] for m in names}, which), scale)
    if kind == 'order':
      return lambda *a: raw_of(lin(dict(zip(reversed(names), a[n:])), dict(zip(names, a[:n])), which),
                               scale)
    if kind == 'rename':
      return lambda **k: raw_of(lin({m: k['from_' + m] for m in names},
                                    {m: k['to_' + m] for m in names}, which), scale)
    return lambda *a: raw_of(lin(None, dict(zip(names, a)), which), scale)
  if kind == 'order':
    kwds['order'] = dict([(m + "'", i) for i, m in enumerate(names)] +
                         [(m, n + i) for i, m in enumerate(reversed(names))])
  elif kind == 'rename':
    kwds['order'] = dict([(m + "'", 'to_' + m) for m in names] + [(m, 'from_' + m) for m in names])
  elif kind == 'delta':
    kwds['delta'] = {m + "'": i for i, m in enumerate(names)}
  elif kind == 'preset':
    kwds['shift'] = shift = 0.75
  reverse = case['reverse']
  field.set_tran((make(0), make(1)) if case['pair'] else make(0), **kwds)
  which = int(reverse) if case['pair'] else 0
  if kind == 'delta':
    want = float(lin(None, {m: succ[m] - pred[m] for m in names}, which))
  else:
    want = float(lin(pred, succ, which, shift))
  key = (lambda k: rvs[k]) if case['by_var'] else (lambda k: k)
  dpred = {key(k): pred[k] for k in case['keyorder']}
  dsucc = {k: succ[k] for k in case['keyorder2']}
  rkw = {'reverse': True} if reverse else {}
  if case['move'] == 'explicit':
    dist = field.step(dpred, dsucc, **rkw)
  elif case['move'] == 'tuple':
    dist = field.step((dpred, dsucc), **rkw)
  elif case['move'] == 'delta':
    field.set_delta(dict(zip(names, case['step'])))
    dist = field.step(dpred, **rkw)
  else:
    field.set_delta(dict(zip(names, [0 for _ in names])))
    dist = field.step(dpred, field.Delta(**dict(zip(names, case['step']))), **rkw)
  check_step(dist, names, pred, succ, want, scale, kind)
  expect(dpred == {key(k): pred[k] for k in names} and dsucc == succ, "values passed were changed")
  ctx.tag(kind, case['move'], 'pair' if case['pair'] else 'single', 'rev' if reverse else 'fwd')
  ctx.interesting(sum(d != 0 for d in case['step']) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_cov(draw):
  n = draw(st.integers(2, 4))
  names = draw(st.permutations(NAMES))[:n]
  return {'names': names, 'cls': draw(ST_CLS), 'root': [[draw(st.floats(-1., 1.)) for _ in names] for _ in names],
          'pred': [draw(st.floats(-3., 3.)) for _ in names],
          'delta': draw(st.one_of(st.floats(-2., 2.), st.floats(0.05, 2.).map(lambda v: [v]),
                                  st.lists(st.floats(-2., 2.), min_size=n, max_size=n).map(tuple))),
          'tfun': draw(st.sampled_from(['cov', 'cov', 'lower', 'upper'])),
          'log': draw(st.booleans())}

@law(LAWS, st_cov, quick=300)
def covarying(case, ctx):
  """ Deltas covary: with covariance matrix C = L L', a step is the delta multiplied by L. """
  names = case['names']
  root = np.array(case['root'])
  cov = root.dot(root.T) + 0.3 * np.eye(len(names))
  field, _ = make_field(names, ['float'] * len(names), scale='log' if case['log'] else None, cls=case['cls'])
  if case['tfun'] == 'cov':
    field.set_tran(cov)
    chol = np.linalg.cholesky(cov)
  else:
    chol = np.linalg.cholesky(cov)
    chol = chol if case['tfun'] == 'lower' else chol.T
    field.set_tfun(chol)
  delta = case['delta']
  field.set_delta(dict(zip(names, delta)) if isinstance(delta, tuple) else delta)
  pred = dict(zip(names, case['pred']))
  for i in range(3):
    dist = field.step(pred)
    succ = {k: num(dist[k + "'"]) for k in names}
    moved = np.array([succ[k] - pred[k] for k in names])
    white = np.linalg.solve(chol, moved)
    if isinstance(delta, list):
      expect(np.all(np.abs(white) <= delta[0] * (1. + 1e-9) + 1e-9), "moved by {} which is {} times the "
             "factor, beyond {}", moved, white, delta)
    else:
      want = np.array(delta) if isinstance(delta, tuple) else np.full(len(names), delta)
      expect(np.allclose(white, want, atol=1e-8, rtol=1e-8), "moved by {} which is {} times the factor "
             "rather than {}", moved, white, want)
    check_step(dist, names, pred, succ, 1., None, "covarying")
    pred = succ
  ctx.tag(case['tfun'], type(delta).__name__)
  ctx.interesting(isinstance(delta, list) or np.count_nonzero(delta) > 0)

@st.composite
def st_spread(draw):
  return {'root': [[draw(st.floats(-1., 1.)) for _ in range(2)] for _ in range(2)],
          'size': draw(st.floats(0.1, 2.)), 'rng': draw(st.integers(0, 10**6))}

@law(LAWS, st_spread, quick=16, chunk=2)
def covariance(case, ctx):
  """ The covariance of uniform deltas of size d is C d^2 / 3. """
  root = np.array(case['root'])
  cov = root.dot(root.T) + 0.3 * np.eye(2)
  field, _ = make_field(['x', 'y'], ['float'] * 2)
  field.set_tran(cov)
  field.set_delta([case['size']])
  n = 1500
  draws = np.array([[num(d) for d in field.eval_delta()] for _ in range(n)]) / case['size']
  white = np.linalg.solve(np.linalg.cholesky(cov), draws.T)
  bound = 6. # standard errors
  got = white.dot(white.T) / n
  expect(np.all(np.abs(np.mean(white, axis=1)) < bound * math.sqrt(1. / 3. / n)), "means {}",
         np.mean(white, axis=1))
  expect(abs(got[0, 0] - 1. / 3.) < bound * math.sqrt(4. / 45. / n) and
         abs(got[1, 1] - 1. / 3.) < bound * math.sqrt(4. / 45. / n) and
         abs(got[0, 1]) < bound * math.sqrt(1. / 9. / n), "covariance of standardised deltas is {} "
         "rather than a third of the identity", got.tolist())
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_gibbs(draw):
  n = draw(st.integers(2, 3))
  names = draw(st.permutations(NAMES))[:n]
  lims = None
  if draw(st.booleans()):
    lims = [[draw(st.floats(-3., 0.)), draw(st.floats(0.5, 3.))] for _ in names]
    if draw(st.booleans()): # limits far from the mean
      away = draw(st.sampled_from([-1., 1., 1.])) * draw(st.one_of(st.floats(4., 10.), st.floats(4., 10.), st.floats(30., 80.)))
      at = draw(st.integers(0, n - 1))
      lims[at] = [lim + away for lim in lims[at]]
  return {'names': names, 'cls': draw(ST_CLS), 'root': [[draw(st.floats(-1., 1.)) for _ in names] for _ in names],
          'mean': [draw(st.floats(-2., 2.)) for _ in names], 'lims': lims,
          'tsteps': draw(st.sampled_from([None, 1, 1, 2])), 'log': draw(st.booleans()),
          'start': [draw(st.floats(0.1, 0.9)) for _ in names], 'unitset': draw(st.booleans()),
          'kwds': draw(st.booleans())}

def cycle(names, tsteps, step):
  """ Variables to be updated at a step. """
  if not tsteps:
    return list(names)
  per = -(-len(names) // tsteps)
  at = (step % per) * tsteps
  return list(names[at:at + tsteps])

def truncated_cdf(val, mean, sd, lims):
  from scipy.special import ndtr
  lo, hi = (-np.inf, np.inf) if lims is None else lims
  if (lo - mean) / sd > 0: # work in the lower tail
    val, lo, hi, mean, flip = -val, -hi, -lo, -mean, True
  else:
    flip = False
  a, b, c = ndtr((lo - mean) / sd), ndtr((hi - mean) / sd), ndtr((val - mean) / sd)
  if b < 1e-250: # beyond the precision of cumulative probabilities
    return None
  u = (c - a) / (b - a)
  return 1. - u if flip else u

@law(LAWS, st_gibbs, quick=48, chunk=6)
def gibbs(case, ctx):
  """ Each variable is sampled from its distribution conditional on the current values of the
  others, within its limits, in turn; variables not due to be updated stay. """
  import scipy.stats
  names = case['names']
  n = len(names)
  root = np.array(case['root'])
  cov = root.dot(root.T) + 0.3 * np.eye(n)
  mean = np.array(case['mean'])
  lims = case['lims']
  field, _ = make_field(names, ['float'] * n, lims=lims, scale='log' if case['log'] else None, cls=case['cls'])
  kwds = {} if case['tsteps'] is None else {'tsteps': case['tsteps']}
  if case['kwds']:
    field.set_tran(scipy.stats.multivariate_normal, mean=case['mean'], cov=cov, **kwds)
  else:
    field.set_tran(scipy.stats.multivariate_normal, case['mean'], cov, **kwds)
  state = dict(zip(names, case['start'] if lims is None else
               [lo + f * (hi - lo) for f, (lo, hi) in zip(case['start'], lims)]))
  cdfs = []
  steps = 150
  for step in range(steps):
    dist = field.step(dict(state), {0}) if case['unitset'] else field.step(dict(state))
    succ = {k: num(dist[k + "'"]) for k in names}
    due = cycle(names, case['tsteps'], step)
    now = dict(state)
    remote = False
    for name in names:
      if name not in due:
        expect(succ[name] == state[name], "step {}: {} went from {} to {} when {} due", step, name,
               state[name], succ[name], due)
        continue
      i = names.index(name)
      rest = [j for j in range(n) if j != i]
      gain = cov[i, rest].dot(np.linalg.inv(cov[np.ix_(rest, rest)]))
      mu = mean[i] + gain.dot([now[names[j]] - mean[j] for j in rest])
      sd = math.sqrt(cov[i, i] - gain.dot(cov[rest, i]))
      if lims is not None:
        expect(lims[i][0] - 1e-9 <= succ[name] <= lims[i][1] + 1e-9, "step {}: {} sampled at {} outside "
               "{}", step, name, succ[name], lims[i])
      cdf = truncated_cdf(succ[name], mu, sd, None if lims is None else lims[i])
      now[name] = succ[name]
      if cdf is None:
        remote = True
        continue
      expect(-1e-6 <= cdf <= 1. + 1e-6, "step {}: {}={} at cumulative probability {}", step, name,
             succ[name], cdf)
      cdfs.append(cdf)
    expect(remote or any(succ[k] != state[k] for k in due), "step {}: none of {} moved", step, due)
    check_step(dist, names, state, succ, 1., None, "step {}".format(step))
    state = succ
  # Cumulative probabilities are uniform and successive ones independent
  cdfs = np.array(cdfs)
  p = scipy.stats.kstest(cdfs, 'uniform').pvalue if len(cdfs) else 1.
  expect(p > 1e-9, "cumulative probabilities of samples are not uniform (p={}): quantiles {}", p,
         np.quantile(cdfs, [0., 0.1, 0.25, 0.5, 0.75, 0.9, 1.]).tolist() if len(cdfs) else [])
  ctx.tag('tsteps{}'.format(case['tsteps']), 'finite' if lims else 'infinite')
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_custom(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(2, 4))]
  return {'names': names, 'cls': draw(ST_CLS), 'start': [draw(st.integers(-20, 20)) for _ in names],
          'tsteps': draw(st.sampled_from([None, 1, 1, 2, 3])), 'steps': draw(st.integers(1, 7)),
          'coefs': [[draw(st.integers(-2, 2)) for _ in names] for _ in names],
          'preset': draw(st.sampled_from([0, 1, 5])), 'before': draw(st.sampled_from([None, None, 1, 2])),
          'earlier': draw(st.integers(1, 3)), 'unset': draw(st.booleans())}

@law(LAWS, st_custom, quick=300)
def samplers(case, ctx):
  """ A conditional sampling function is called for each variable due, in order, with the current
  values of all variables, and its value becomes that of the variable. """
  names, n = case['names'], len(case['names'])
  field, _ = make_field(names, ['float'] * n, cls=case['cls'])
  calls = []
  def sampler(extra=0, unknown=None, **values):
    calls.append((unknown, {k: num(v) for k, v in values.items()}))
    row = case['coefs'][names.index(unknown)]
    return float(sum(c * values[k] for c, k in zip(row, names)) % 101 + 1 + extra)
  kwds = {} if case['tsteps'] is None else {'tsteps': case['tsteps']}
  if case['preset']:
    kwds['extra'] = case['preset']
  state = dict(zip(names, [float(v) for v in case['start']]))
  if case['before']: # another sampling function leaves no trace
    field.set_tfun(lambda unknown=None, **values: -7., tsteps=case['before'])
    for _ in range(case['earlier']):
      field.step(dict(state), {0})
    field.set_tran(None)
    if case['unset']:
      field.set_tfun(None)
  field.set_tfun(sampler, **kwds)
  for step in range(case['steps']):
    calls[:] = []
    dist = field.step(dict(state), {0})
    now, want = dict(state), []
    for name in cycle(names, case['tsteps'], step):
      want.append((name, dict(now)))
      row = case['coefs'][names.index(name)]
      now[name] = float(sum(c * now[k] for c, k in zip(row, names)) % 101 + 1 + case['preset'])
    expect(calls == want, "step {}: sampler called with {} rather than {}", step, calls, want)
    check_step(dist, names, state, now, 1., 1., "step {}".format(step))
    state = now
  ctx.tag('tsteps{}'.format(case['tsteps']))
  ctx.interesting(case['steps'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_single(draw):
  kind = draw(st.sampled_from(['matrix', 'matrix', 'callable', 'scalar', 'delta']))
  log = draw(st.booleans())
  case = {'kind': kind, 'scale': 'log' if log else draw(st.sampled_from([1., 1., 2.])),
          'unitset': draw(st.booleans()), 'reverse': draw(st.booleans()),
          'name': draw(st.sampled_from(NAMES)), 'as_scalar': draw(st.booleans()),
          'rng': draw(st.integers(0, 10**6))}
  if kind in ('matrix', 'scalar'):
    vals, how = draw(pt.st_states())
    case.update({'vals': vals, 'how': how, 'cols': draw(pt.st_matrix(len(vals))),
                 'start': draw(st.sampled_from(vals)), 'p': draw(st.floats(0.05, 1.)),
                 'other': draw(pt.st_matrix(len(vals))) if draw(st.booleans()) else None})
  else:
    lo = draw(st.floats(-3., 0.))
    case.update({'lims': [lo, lo + draw(st.floats(1., 5.))], 'start': draw(st.floats(0.2, 0.8)),
                 'sd': draw(st.floats(0.5, 4.)), 'step': draw(st.floats(-1., 1.))})
  return case

@law(LAWS, st_single, quick=100, chunk=20)
def single(case, ctx):
  """ A field of one variable steps by the transition of its variable: successors belong to its set,
  follow the frequencies declared, and are reported with their conditional probability. """
  import probayes as pb
  import scipy.stats
  kind, name, scale = case['kind'], case['name'], pr.norm(case['scale'])
  steps = 60
  if kind in ('matrix', 'scalar'):
    vals = case['vals']
    x = pb.RV(name, vset=pt.set_of(vals, case['how']), pscale=case['scale'])
    mats = [pt.matrix_of(case['cols'])]
    if kind == 'scalar':
      mats = [np.full((len(vals), len(vals)), case['p'])]
      x.set_tran(raw_of(case['p'], scale))
    elif case['other'] is not None:
      mats.append(pt.matrix_of(case['other']))
      x.set_tran(tuple(raw_of(m, scale) for m in mats))
    else:
      x.set_tran(raw_of(mats[0], scale))
    mat = mats[int(case['reverse']) if len(mats) > 1 else 0]
    def want(pred, succ):
      return mat[vals.index(succ), vals.index(pred)]
    state = case['start']
  else:
    lo, hi = case['lims']
    x = pb.RV(name, vset=(lo, hi), pscale=case['scale'])
    norm, sd = scipy.stats.norm, case['sd']
    state = lo + case['start'] * (hi - lo)
    def want(pred, succ):
      return norm.pdf(succ, loc=pred, scale=sd)
    if kind == 'callable':
      x.set_tran(lambda **k: raw_of(want(k[name], k[name + "'"]), scale))
      x.set_tfun((lambda **k: norm.cdf(k[name + "'"], loc=k[name], scale=sd),
                  lambda **k: norm.ppf(k[name + "'"], loc=k[name], scale=sd)))
  field = pb.RF(x)
  if kind == 'delta':
    field.set_delta(case['step'])
    field.set_tran(lambda **k: raw_of(want(k[name], k[name + "'"]), scale))
  rkw = {'reverse': True} if case['reverse'] and kind == 'matrix' else {}
  cdfs, pairs = [], []
  for i in range(3 if kind == 'delta' else steps):
    arg = state if case['as_scalar'] else {name: state}
    dist = field.step(arg, {0}, **rkw) if case['unitset'] and kind != 'delta' else \
           field.step(arg, **rkw)
    succ = dist[name + "'"]
    if kind in ('matrix', 'scalar'):
      succ = arr(succ, "successor").item()
      expect(succ in vals, "{}: successor {} not in {}", kind, succ, vals)
      succ = vals[vals.index(succ)]
    else:
      succ = num(succ)
      if kind == 'delta':
        expect(abs(succ - state - case['step']) < 1e-9, "{} moved to {} by {}", state, succ, case['step'])
      else:
        expect(lo - 1e-9 <= succ <= hi + 1e-9, "successor {} outside [{}, {}]", succ, lo, hi)
        a, b = norm.cdf([lo, hi], loc=state, scale=sd)
        cdfs.append((norm.cdf(succ, loc=state, scale=sd) - a) / (b - a))
    prob = float(want(state, succ))
    expect(prob > 0., "{}: went from {} to {} that has no probability", kind, state, succ)
    expect(set(dist.marg) == {name + "'"} and set(dist.cond) == {name}, "p({}|{})", dist.marg, dist.cond)
    expect(num(dist[name]) == num(state), "{}: predecessor {} rather than {}", kind, dist[name], state)
    got = float(pr.linear(dist.prob, dist.pscale, kind))
    expect(abs(got - prob) < 1e-8 * prob, "{}: from {} to {} with probability {} rather than {}", kind,
           state, succ, got, prob)
    there = field.step({name: state}, {name: succ}, **rkw)
    got = float(pr.linear(there.prob, there.pscale, kind))
    expect(num(there[name + "'"]) == num(succ) and abs(got - prob) < 1e-8 * prob, "{}: p({}|{}) is {} rather "
           "than {}", kind, succ, state, got, prob)
    pairs.append((state, succ))
    state = succ
  if cdfs:
    p = scipy.stats.kstest(cdfs, 'uniform').pvalue
    expect(p > 1e-9, "samples are not distributed as declared (p={}): {}", p, sorted(cdfs))
  if kind == 'matrix': # transitions of each state are binomial
    for pred in set(p for p, _ in pairs):
      n = sum(p == pred for p, _ in pairs)
      for succ in vals:
        k = sum(pair == (pred, succ) for pair in pairs)
        q = want(pred, succ)
        tail = min(scipy.stats.binom.cdf(k, n, q), scipy.stats.binom.sf(k - 1, n, q))
        expect(tail > 1e-9, "{} of {} transitions from {} to {} with probability {}", k, n, pred, succ, q)
  ctx.tag(kind)
  ctx.interesting(any(a != b for a, b in pairs))

# -----------------------------------------------------------------------------
@st.composite
def st_anew(draw):
  n = draw(st.integers(2, 3))
  names = draw(st.permutations(NAMES))[:n]
  vec = lambda lo, hi: [draw(st.floats(lo, hi)) for _ in names]
  return {'names': names, 'cls': draw(ST_CLS), 'pred': vec(-3., 3.), 'delta': vec(0.1, 2.),
          'sets': [{'kind': draw(st.sampled_from(['cov', 'fun', 'normal', 'normal', 'none'])),
                    'root': [vec(-1., 1.) for _ in names], 'mean': vec(-3., 3.),
                    'coef': draw(st.sampled_from([0.25, 0.5, 2.]))}
                   for _ in range(draw(st.integers(2, 5)))]}

@law(LAWS, st_anew, quick=120)
def declared_anew(case, ctx):
  """ Steps and their probabilities are those of the transition declared last. """
  import scipy.stats
  names, delta = case['names'], case['delta']
  n = len(names)
  field, _ = make_field(names, ['float'] * n, cls=case['cls'])
  kinds = []
  pred = dict(zip(names, case['pred']))
  for spec in case['sets']:
    kind, root, coef = spec['kind'], np.array(spec['root']), spec['coef']
    kinds.append(kind)
    what = "after {}".format(kinds)
    cov = root.dot(root.T) + 0.3 * np.eye(n)
    move, prob = np.array(delta), None
    if kind == 'cov':
      field.set_tran(cov)
      move, prob = np.linalg.cholesky(cov).dot(move), 1.
    elif kind == 'fun':
      field.set_tran(lambda coef=coef, **kwds: coef * math.exp(-abs(sum(
        kwds[k + "'"] - kwds[k] for k in names))))
      prob = coef * math.exp(-abs(float(np.sum(move))))
    elif kind == 'normal':
      field.set_tran(scipy.stats.multivariate_normal, spec['mean'], cov * 1e-8)
    else:
      field.set_tran(None)
    field.set_delta(None)
    if kind == 'normal':
      at = pred
      for _ in range(150): # the mean is approached however strong the correlations
        dist = field.step(at, {0})
        at = {k: num(dist[k + "'"]) for k in names}
      succ = np.array([num(dist[k + "'"]) for k in names])
      expect(np.allclose(succ, spec['mean'], atol=5e-3), "{}: sampled {} about {}", what, succ,
             spec['mean'])
      expect(float(pr.linear(dist.prob, dist.pscale, what)) == 1., "{}: with probability {}", what,
             dist.prob)
      continue
    try:
      dist = field.step(pred, {0})
    except (ValueError, AssertionError, AttributeError, TypeError):
      pass
    else:
      broken("{}: a sample {} without a sampling function", what, dist)
    field.set_delta(dict(zip(names, delta)))
    dist = field.step(pred)
    succ = {k: pred[k] + float(m) for k, m in zip(names, move)}
    if prob is None:
      prob = float(pr.linear(dist.prob, dist.pscale, what))
    check_step(dist, names, pred, succ, prob, None, what)
  ctx.tag(*set(kinds))
  ctx.interesting(len(set(kinds)) > 1)
