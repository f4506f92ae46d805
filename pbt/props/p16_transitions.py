"""Transitions of random variables: conditional probabilities and sampled successors."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p12_variables as pv
from pbt.props import p14_random_variables as pr

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("discrete variables of 2-5 ascending values with random (possibly sparse, asymmetric) "
        "transition matrices, and continuous variables with callable or uniform transitions, on "
        "linear and log scales, stepping from scalars, arrays, counts or all values to scalars, "
        "arrays, counts or quantiles; non-trivial: more than one pair of values is evaluated")

@st.composite
def st_matrix(draw, n):
  """ Columns (predecessors) of successor weights, possibly with zeros. """
  cols = []
  for _ in range(n):
    col = [draw(st.sampled_from([0., 0.1, 1.]) | st.floats(0.05, 1.)) for _ in range(n)]
    if sum(col) < 0.05:
      col[draw(st.integers(0, n - 1))] = 1.
    cols.append(col)
  return cols

def matrix_of(cols):
  mat = np.array(cols, dtype=float).T
  return mat / mat.sum(axis=0, keepdims=True)

def st_simple_scale():
  return st.sampled_from([1., 1., 'log', 0j])

@st.composite
def st_states(draw):
  n = draw(st.integers(2, 5))
  kind = draw(st.sampled_from(['range', 'list', 'set', 'bool']))
  if kind == 'bool':
    return [False, True], kind
  if kind == 'range':
    return list(range(n)), kind
  vals = sorted(draw(st.lists(st.integers(-9, 30), min_size=n, max_size=n, unique=True)))
  return vals, kind

def set_of(vals, kind):
  return {'range': range(len(vals)), 'list': list(vals), 'set': set(vals), 'bool': [False, True]}[kind]

@st.composite
def st_discrete(draw):
  vals, kind = draw(st_states())
  n = len(vals)
  one = st.sampled_from(vals)
  def spec():
    how = draw(st.sampled_from(['all', 'scalar', 'array', 'count']))
    if how == 'scalar':
      return [how, draw(one)]
    if how == 'array':
      return [how, draw(st.lists(one, min_size=1, max_size=4))]
    if how == 'count':
      return [how, draw(st.integers(1, 6))]
    return [how, None]
  return {'vals': vals, 'kind': kind, 'cols': draw(st_matrix(n)), 'scale': draw(st_simple_scale()),
          'other': draw(st_matrix(n)) if draw(st.booleans()) else None,
          'reverse': draw(st.booleans()), 'pred': spec(), 'succ': spec(),
          'tupled': draw(st.booleans()), 'again': draw(st.booleans())}

def to_scale(mat, scale):
  return pm.from_linear(mat, pr.norm(scale))

def discrete_rv(case):
  import probayes as pb
  x = pb.RV('x', vset=set_of(case['vals'], case['kind']), pscale=case['scale'])
  mats = [matrix_of(case['cols'])]
  if case.get('other') is not None:
    mats.append(matrix_of(case['other']))
    x.set_tran(tuple(to_scale(m, case['scale']) for m in mats))
  else:
    x.set_tran(to_scale(mats[0], case['scale']))
  return x, mats

def argument(spec, dtype):
  how, val = spec
  if how == 'all':
    return None
  if how == 'scalar':
    return val
  if how == 'array':
    return np.array(val, dtype=dtype)
  return {val}

def values_for(spec, vals):
  how, val = spec
  if how == 'all':
    return list(vals), False
  if how == 'scalar':
    return [val], True
  if how == 'array':
    return list(val), False
  return [vals[i % len(vals)] for i in range(val)], False

def check_step(dist, preds, pred_scalar, succs, succ_scalar, want, scale, what, rtol=1e-8):
  """ want: array [succ, pred] of linear probabilities. """
  expect(set(dist.keys()) == {'x', "x'"}, "{}: variables {}", what, list(dist.keys()))
  expect(list(dist.marg.keys()) == ["x'"] and list(dist.cond.keys()) == ['x'],
         "{}: named {}", what, dist.name)
  dims = {"x'": None if succ_scalar else 0,
          'x': None if pred_scalar else (0 if succ_scalar else 1)}
  expect(dict(dist.dims) == dims, "{}: dims {} rather than {}", what, dict(dist.dims), dims)
  got_p, got_s = arr(dist['x'], what), arr(dist["x'"], what)
  expect((got_p.ndim == 0) == pred_scalar and (got_s.ndim == 0) == succ_scalar,
         "{}: shapes {} and {}", what, got_s.shape, got_p.shape)
  expect(np.allclose(got_p.ravel(), np.array(preds, dtype=float)), "{}: predecessors {} not {}",
         what, got_p.ravel().tolist(), preds)
  if succs is not None:
    expect(np.allclose(got_s.ravel(), np.array(succs, dtype=float)), "{}: successors {} not {}",
           what, got_s.ravel().tolist(), succs)
  raw = pr.linear(dist.prob, dist.pscale, what)
  shape = tuple(n for n, s in ((want.shape[0], succ_scalar), (want.shape[1], pred_scalar)) if not s)
  expect(raw.shape == shape, "{}: probabilities of shape {} rather than {}", what, raw.shape, shape)
  expect(np.allclose(raw.reshape(want.shape), want, rtol=rtol, atol=1e-12),
         "{}: conditional probabilities {} rather than {}", what, raw.tolist(), want.tolist())
  expect(isinstance(dist.pscale, complex) == isinstance(pr.norm(scale), complex),
         "{}: scale {}", what, dist.pscale)

@law(LAWS, st_discrete, quick=600)
def matrix(case, ctx):
  """ The conditional probability of a successor given a predecessor is the corresponding element
  of the transition matrix, whatever combination of values is asked for. """
  vals = case['vals']
  x, mats = discrete_rv(case)
  dtype = bool if case['kind'] == 'bool' else int
  pred, succ = case['pred'], case['succ']
  if succ[0] == 'count':       # counts of successors are samples
    succ = ['all', None]
  args = [argument(pred, dtype)]
  if succ[0] != 'all':
    args.append(argument(succ, dtype))
  elif pred[0] == 'scalar':
    args.append(np.array(vals, dtype=dtype))
  reverse = case['reverse'] and len(mats) > 1
  if case['tupled'] and len(args) == 2:
    args = [tuple(args)]
  dist = x.step(*args, reverse=reverse) if reverse else x.step(*args)
  preds, p_scalar = values_for(pred, vals)
  succs, s_scalar = values_for(succ, vals)
  if succ[0] == 'all' and pred[0] != 'scalar':
    succs, s_scalar = list(preds), False
  mat = mats[int(reverse)]
  index = {v: i for i, v in enumerate(vals)}
  want = np.array([[mat[index[s], index[p]] for p in preds] for s in succs])
  check_step(dist, preds, p_scalar, succs, s_scalar, want, case['scale'], "step")
  ctx.tag(pred[0] + '-' + succ[0])
  ctx.interesting(want.size > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_sampled(draw):
  vals, kind = draw(st_states())
  return {'vals': vals, 'kind': kind, 'cols': draw(st_matrix(len(vals))),
          'scale': draw(st_simple_scale()), 'pred': draw(st.sampled_from(vals)),
          'n': draw(st.integers(1, 7)), 'qs': draw(st.lists(st.floats(0., 0.999), min_size=1,
                                                           max_size=3))}

@law(LAWS, st_sampled, quick=300)
def sampled(case, ctx):
  """ Sampled successors are possible ones, paired with their own probability, and occur as often
  as their probability says; quantiles follow the cumulative probabilities. """
  vals, pred, n = case['vals'], case['pred'], case['n']
  x, mats = discrete_rv(case)
  col = mats[0][:, vals.index(pred)]
  prob = dict(zip(vals, col.tolist()))
  def check(dist, size, what):
    got = np.ravel(arr(dist["x'"], what)).tolist()
    expect(len(got) == (size or 1), "{}: successors {}", what, got)
    expect(all(v in prob for v in got), "{}: successors {} of {}", what, got, vals)
    expect(all(prob[v] > 0. for v in got), "{}: impossible successors among {} ({})", what, got, prob)
    check_step(dist, [pred], True, got, size == 0, np.array([[prob[v]] for v in got]),
               case['scale'], what)
    return got
  check(x.step(pred, {0}), 0, "single")
  check(x.step(pred), 0, "default")
  check(x.step(pred, {-n}), n, "random")
  check(x.step(pred, {n}), n, "spaced")
  cum = np.cumsum(col)
  for q in case['qs']:
    if np.min(np.abs(cum - q)) < 1e-9:
      continue
    dist = x.step(pred, {q})
    got = np.ravel(arr(dist["x'"], "quantile"))
    want = vals[int(np.sum(cum < q))]
    expect(got.size == 1 and got[0] == want, "quantile {} is {} rather than {} ({})", q,
           got.tolist(), want, prob)
  many = 3000
  got = check(x.step(pred, {-many}), many, "many")
  for v in vals:
    freq = sum(1 for g in got if g == v) / many
    p = prob[v]
    expect(abs(freq - p) <= 6. * math.sqrt(p * (1. - p) / many) + 3. / many,
           "successor {} of probability {} sampled with frequency {}", v, p, freq)
  ctx.interesting(sum(1 for v in prob.values() if v > 0.) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_chain(draw):
  vals, kind = draw(st_states())
  return {'vals': vals, 'kind': kind, 'cols': draw(st_matrix(len(vals))),
          'scale': draw(st_simple_scale()), 'steps': draw(st.integers(2, 5)),
          'rescale': draw(st.booleans())}

@law(LAWS, st_chain, quick=200)
def chain(case, ctx):
  """ Joining steps and marginalising what lies between gives the powers of the matrix. """
  x, mats = discrete_rv(case)
  vals = case['vals']
  cond = x.step()
  last = None
  power = np.eye(len(vals))
  for i in range(case['steps']):
    recond = cond.rekey({'x': 'x_{}'.format(i), "x'": 'x_{}'.format(i + 1)})
    if last is None:
      last = recond
    else:
      last = (recond * last).marginalise('x_{}'.format(i))
    power = mats[0].dot(power)
    table = pm.Table.of_pd(last)
    new = 'x_{}'.format(i + 1)
    want = {}
    for a, v in enumerate(vals):
      for b, w in enumerate(vals):
        want[frozenset([('x_0', pm.plain(w)), (new, pm.plain(v))])] = float(power[a, b])
    expect(set(table.cells) == set(want), "after {} steps: {}", i + 1, list(table.cells)[:4])
    for key, val in want.items():
      expect(abs(table.cells[key] - val) < 1e-8, "after {} steps: {} rather than {} for {}", i + 1,
             table.cells[key], val, sorted(key))
    if case['rescale'] and i == 1:
      last = last.rescaled()
      cond = cond.rescaled()
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_uniform(draw):
  spec = draw(st.one_of(pv.st_float_var(), pv.st_discrete_var()))
  return {'spec': spec, 'scale': draw(pr.st_scale()), 'p': draw(st.floats(0.05, 2.)),
          'pred': draw(pr.st_probe(spec)), 'succ': draw(pr.st_probe(spec)),
          'how': draw(st.sampled_from(['ss', 'sa', 'as', 'aa', 's0', 'sn', 's-', 'sq'])),
          'n': draw(st.integers(1, 6)), 'q': draw(st.floats(0., 1.))}

@law(LAWS, st_uniform, quick=500, floor=0.2)
def uniform(case, ctx):
  """ A scalar transition gives that probability between any values of the set, and none to or
  from any other; sampled successors belong to the set. """
  spec, scale, how, n = case['spec'], case['scale'], case['how'], case['n']
  x = pr.rv_of(spec, scale)
  x.set_tran(float(pm.from_linear(case['p'], pr.norm(scale))))
  dtype = {'float': float, 'int': int, 'bool': bool}[spec['type']]
  fit = lambda vs: [dtype(v) for v in vs]
  preds, succs = fit(case['pred']), fit(case['succ'])
  if spec.get('ufun'):
    lo, hi = spec['lims']
    preds = [min(max(v, lo), hi) for v in preds]
    succs = [min(max(v, lo), hi) for v in succs]
  p_scalar = how[0] == 's'
  if p_scalar:
    preds = preds[:1]
  pred = preds[0] if p_scalar else np.array(preds, dtype=dtype)
  ctx.tag(how)
  s_scalar = False
  if how[1] in 'sa':
    s_scalar = how[1] == 's'
    if s_scalar:
      succs = succs[:1]
    succ = succs[0] if s_scalar else np.array(succs, dtype=dtype)
  else:
    succs = None
    if how[1] == 'q':
      if spec['type'] != 'float':
        skip()
      succ, s_scalar = {case['q']}, True
    else:
      succ = {{'0': 0, 'n': n, '-': -n}[how[1]]}
      s_scalar = how[1] == '0'
  dist = x.step(pred, succ)
  if succs is None:
    got = np.ravel(arr(dist["x'"], "successors")).tolist()
    size = 1 if s_scalar else n
    tol = pv.tol_of(spec) if spec['type'] == 'float' else 0.
    expect(len(got) == size, "{} successors rather than {}", len(got), size)
    if how[1] == 'q':
      u0, u1 = sorted(float(pv.fwd(spec)(v)) for v in spec['lims'])
      want = float(pv.inv(spec)(u0 + case['q'] * (u1 - u0)))
      expect(abs(got[0] - want) <= tol, "quantile {} is {} rather than {}", case['q'], got[0], want)
      lo, hi = spec['lims']
      if not lo + tol < got[0] < hi - tol:
        skip()
    expect(all(pr.is_inside(spec, v) for v in got), "successors {} not within the set", got)
    succs = got
  want = np.array([[case['p'] if pr.is_inside(spec, s) and pr.is_inside(spec, p) else 0.
                    for p in preds] for s in succs])
  check_step(dist, preds, p_scalar, succs, s_scalar, want, scale, how)
  ctx.interesting(want.size > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_callable(draw):
  lo = draw(st.floats(-8., 0.))
  hi = lo + draw(st.floats(1., 12.))
  frac = st.floats(0., 1.)
  return {'lims': [lo, hi], 'open': [draw(st.booleans()), draw(st.booleans())],
          'slope': draw(st.floats(-1., 1.)), 'sd': draw(st.floats(0.5, 3.)),
          'log': draw(st.booleans()), 'map': draw(st.sampled_from(['pos', 'str', 'delta', 'two'])),
          'reverse': draw(st.booleans()),
          'pred': draw(st.lists(frac, min_size=1, max_size=4)),
          'succ': draw(st.lists(frac, min_size=1, max_size=4)),
          'how': draw(st.sampled_from(['ss', 'sa', 'as', 'aa', 'nn', 'na', 's0', 'sn', 's-', 'sq',
                                       'ds', 'da'])),
          'n': draw(st.integers(1, 5)), 'q': draw(st.floats(0.01, 0.99)),
          'late': draw(st.sampled_from(['', '', 'vset', 'ufun']))}

@law(LAWS, st_callable, quick=500)
def callable_(case, ctx):
  """ A callable transition is evaluated at every successor and predecessor; successors sampled
  through its cumulative distribution lie within the limits at the right quantiles. """
  import scipy.stats
  import probayes as pb
  lo, hi = case['lims']
  sd, how, n = case['sd'], case['how'], case['n']
  slope = 1. if case['map'] == 'delta' else case['slope']
  vset = [(v,) if o else v for v, o in zip(case['lims'], case['open'])]
  scale = 'log' if case['log'] else 1.
  norm = scipy.stats.norm
  pdf = norm.logpdf if case['log'] else norm.pdf
  x = pb.RV('x', vset=vset, vtype=float, pscale=scale)
  fwd = lambda succ, pred: pdf(succ, slope * pred, sd)
  bwd = lambda succ, pred: pdf(pred, slope * succ + 1., sd)
  order = {"x'": 0, 'x': 1} if case['map'] != 'str' else {"x'": 'succ', 'x': 'pred'}
  if case['map'] == 'delta':
    x.set_tran(lambda step: pdf(step, 0., sd), delta={"x'": 0})
  elif case['map'] == 'two':
    x.set_tran((fwd, bwd), order=order)
  else:
    x.set_tran(fwd, order=order)
  x.set_tfun((lambda succ, pred: norm.cdf(succ, slope * pred, sd),
              lambda succ, pred: norm.ppf(succ, slope * pred, sd)), order=order)
  if case['late'] == 'vset':       # redefinition does not discard what was specified
    x.vset = vset
  elif case['late'] == 'ufun':
    x.set_ufun((lambda v: 2. * v, lambda u: 0.5 * u))
    x.set_ufun()
  reverse = case['reverse'] and case['map'] == 'two'
  at = lambda fs: [lo + f * (hi - lo) for f in fs]
  preds, succs = at(case['pred']), at(case['succ'])
  p_scalar = how[0] in 'sd'
  ctx.tag(how, case['map'])
  frac = np.array(pv.grid_of({'lims': [0., 1.], 'open': case['open'], 'ufun': None}, n))
  if p_scalar:
    preds = preds[:1]
  pred = preds[0] if p_scalar else np.array(preds)
  if how[0] == 'n':
    pred = {n}
    preds = at(frac)
  s_scalar = False
  args = []
  if how[0] == 'd':                # by delta
    size = 0.5
    x.set_delta(size)
    if how == 'da':
      preds, p_scalar = at(case['pred']), False
      pred = np.array(preds)
    succs, s_scalar = [p + size for p in preds], p_scalar
  elif how[1] in 'sa':
    s_scalar = how[1] == 's'
    if s_scalar:
      succs = succs[:1]
    args = [succs[0] if s_scalar else np.array(succs)]
  elif how == 'nn':
    succs = list(preds)
  else:
    c0, c1 = norm.cdf([lo, hi], slope * preds[0], sd)
    if not c1 - c0 > 1e-6:
      skip()
    if how[1] == 'q':
      args, succs = [{case['q']}], [float(norm.ppf(case['q'], slope * preds[0], sd))]
    elif how[1] == 'n':
      args, succs = [{n}], None
    else:
      args = [{0 if how[1] == '0' else -n}]
      succs, s_scalar = None, how[1] == '0'
  dist = x.step(pred, *args, reverse=reverse) if reverse else x.step(pred, *args)
  if succs is None:
    succs = np.ravel(arr(dist["x'"], "successors")).tolist()
    expect(len(succs) == (1 if s_scalar else n), "successors {}", succs)
    cdf = norm.cdf(succs, slope * preds[0], sd)
    expect(np.all(cdf > c0 - 1e-10) and np.all(cdf < c1 + 1e-10), "successors {} not within {}",
           succs, case['lims'])
    if how[1] == 'n':
      expect(np.allclose(cdf, c0 + frac * (c1 - c0), rtol=0., atol=1e-9),
             "successors {} at quantiles {}", succs, cdf.tolist())
  fun = lambda s, p: norm.pdf(p, slope * s + 1., sd) if reverse else norm.pdf(s, slope * p, sd)
  want = np.array([[fun(s, p) for p in preds] for s in succs])
  check_step(dist, preds, p_scalar, succs, s_scalar, want, scale, how, rtol=1e-6)
  ctx.interesting(want.size > 1)

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st.tuples(st.floats(-3., 3.), st.floats(0.3, 2.), st.floats(0., 1.)), quick=30,
     thorough=300)
def spread(case, ctx):
  """ Many successors follow the transition's distribution, truncated to the limits. """
  import scipy.stats
  import probayes as pb
  loc, sd, f = case
  norm = scipy.stats.norm
  lims = [-2., 2.5]
  x = pb.RV('x', vset=lims, vtype=float)
  order = {"x'": 0, 'x': 1}
  x.set_tran(lambda s, p: norm.pdf(s, loc * p, sd), order=order)
  x.set_tfun((lambda s, p: norm.cdf(s, loc * p, sd), lambda s, p: norm.ppf(s, loc * p, sd)),
             order=order)
  pred = lims[0] + f * (lims[1] - lims[0])
  c0, c1 = norm.cdf(lims, loc * pred, sd)
  if not c1 - c0 > 1e-4:
    skip()
  succ = arr(x.step(pred, {-600})["x'"], "successors")
  singles = np.array([num(x.step(pred, {0})["x'"]) for _ in range(200)])
  for vals in (succ, singles):
    unit = (norm.cdf(vals, loc * pred, sd) - c0) / (c1 - c0)
    pval = scipy.stats.kstest(unit, 'uniform').pvalue
    expect(pval > 1e-9, "{} successors do not follow the transition (p={})", vals.size, pval)
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_flat(draw):
  lo = draw(st.floats(0.2, 2.))
  return {'lims': [lo, lo + draw(st.floats(0.5, 4.))], 'q': draw(st.floats(0., 1.)),
          'how': draw(st.sampled_from(['pfun', 'scipy', 'symbolic'])),
          'p': draw(st.floats(0.05, 1.)), 'n': draw(st.integers(1, 6)),
          'f': draw(st.floats(0.1, 0.9)), 'log': draw(st.booleans()),
          'open': [draw(st.booleans()), draw(st.booleans())]}

@law(LAWS, st_flat, quick=30, thorough=600)
def flat(case, ctx):
  """ Successors of a scalar transition are uniform over the set whatever the probability of the
  variable itself, or the transformation that its probability implies. """
  import scipy.stats
  import sympy
  import probayes as pb
  lo, hi = case['lims']
  how, p, q, n = case['how'], case['p'], case['q'], case['n']
  scale = 'log' if case['log'] else 1.
  vset = [(v,) if o else v for v, o in zip(case['lims'], case['open'])]
  loc, sd = lo, 0.4 * (hi - lo)
  if how == 'scipy':
    x = pb.RV('x', vtype=float, vset=vset, prob=scipy.stats.norm, loc=loc, scale=sd, pscale=scale)
  else:
    x = pb.RV('x', vtype=float, vset=vset, pscale=scale)
    if how == 'pfun':
      x.set_pfun((lambda v: scipy.stats.norm.cdf(v, loc, sd),
                  lambda c: scipy.stats.norm.ppf(c, loc, sd)))
    else:
      x.set_ufun(sympy.log(x[:]), no_ucov=True)
  x.set_tran(float(pm.from_linear(p, pr.norm(scale))))
  spec = {'type': 'float', 'lims': [lo, hi], 'open': case['open'], 'ufun': None}
  pred = lo + case['f'] * (hi - lo)
  ctx.tag(how)
  tol = 1e-9 * hi
  dist = x.step(pred, {n})
  got = np.ravel(arr(dist["x'"], "successors"))
  want = np.array(pv.grid_of(spec, n))
  expect(got.shape == want.shape and np.allclose(got, want, rtol=0., atol=tol),
         "{} successors {} rather than {}", n, got.tolist(), want.tolist())
  check_step(dist, [pred], True, got.tolist(), False, np.tile(p, (n, 1)), scale, 'sn')
  dist = x.step(pred, {q})
  val = num(dist["x'"])
  expect(abs(val - (lo + q * (hi - lo))) <= tol, "quantile {} is {}", q, val)
  if lo + tol < val < hi - tol:
    check_step(dist, [pred], True, [val], True, np.array([[p]]), scale, 'sq')
  drawn = np.ravel(arr(x.step(pred, {-400})["x'"], "successors"))
  expect(drawn.shape == (400,) and all(pr.is_inside(spec, v) for v in drawn.tolist()),
         "random successors out of the set")
  pval = scipy.stats.kstest((drawn - lo) / (hi - lo), 'uniform').pvalue
  expect(pval > 1e-9, "random successors are not uniform (p={})", pval)
  ctx.interesting(n > 1)
