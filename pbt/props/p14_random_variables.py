"""Random variables: the probability of every value of the declared set."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p12_variables as pv

LAWS = []
SCALE = 2 # multiplies the numbers of quick cases
RULE = ("random variables of all types (float intervals with open / closed limits and optional "
        "transformations, integer sets, booleans) on linear, scaled, logarithmic and offset "
        "logarithmic scales, with default, Bernoulli, tabulated and callable probabilities, "
        "possibly redefined; non-trivial: at least two values are evaluated, or one that is "
        "outside of the set")

def st_scale():
  return st.sampled_from([1., 1., 'log', 0j, 0.25, 3., complex(1.5, 0.), complex(-2., 0.),
                          complex(1., 0.)])

def norm(scale):
  return 0j if isinstance(scale, str) else scale

def rv_of(spec, scale, ufun=True, **kwds):
  import probayes as pb
  return pv.make('x', spec, cls=lambda *args, **kw: pb.RV(*args, pscale=scale, **kw, **kwds),
                 ufun=ufun)

def linear(prob, scale, what):
  raw = arr(prob, what)
  expect(not np.any(np.isnan(raw)), "{}: NaN among {}", what, raw.tolist())
  return pm.to_linear(raw, norm(scale))

def check_pd(dist, values, want, scale, what, rtol=1e-8):
  """ A distribution over x with the given values and linear probabilities. """
  scalar = np.ndim(values) == 0
  expect(list(dist.keys()) == ['x'], "{}: variables {}", what, list(dist.keys()))
  got = arr(dist['x'], what)
  expect(got.shape == np.shape(values), "{}: values of shape {} rather than {}", what,
         got.shape, np.shape(values))
  expect(np.array_equal(got, np.asarray(values, dtype=float)), "{}: values {} rather than {}",
         what, got.tolist(), np.asarray(values).tolist())
  expect(dict(dist.dims) == {'x': None if scalar else 0}, "{}: dims {}", what, dict(dist.dims))
  lin = linear(dist.prob, dist.pscale, what)
  expect(lin.shape == np.shape(want), "{}: probabilities of shape {} rather than {}", what,
         lin.shape, np.shape(want))
  want = np.asarray(want, dtype=float)
  expect(np.allclose(lin, want, rtol=rtol, atol=1e-12), "{}: probabilities {} rather than {}",
         what, lin.tolist(), want.tolist())
  same = dist.rescaled(1.)
  expect(isinstance(dist.pscale, complex) == isinstance(norm(scale), complex),
         "{}: scale {} rather than {}", what, dist.pscale, scale)
  expect(np.allclose(arr(same.prob, what), want, rtol=rtol, atol=1e-12),
         "{}: rescaled to {} rather than {}", what, same.prob, want.tolist())

# -----------------------------------------------------------------------------
def is_inside(spec, x):
  if spec['type'] == 'float':
    lo, hi = spec['lims']
    return (x > lo if spec['open'][0] else x >= lo) and (x < hi if spec['open'][1] else x <= hi)
  return x in pv.declared(spec)

def mass(spec):
  """ The uniform probability (density in the transformed space). """
  if spec['type'] == 'float':
    u0, u1 = [float(pv.fwd(spec)(v)) for v in spec['lims']]
    return 1. / abs(u1 - u0)
  return 1. / len(pv.declared(spec))

@st.composite
def st_probe(draw, spec):
  if spec['type'] == 'float':
    lo, hi = spec['lims']
    one = st.one_of(st.sampled_from([lo, hi, 0.5 * (lo + hi), lo - 1., hi + 0.5, hi + 50.]),
                    st.floats(0., 1.).map(lambda f: lo + f * (hi - lo)))
  elif spec['type'] == 'bool':
    one = st.booleans()
  else:
    vals = pv.declared(spec)
    one = st.one_of(st.sampled_from(vals), st.integers(min(vals) - 2, max(vals) + 2))
  return draw(st.lists(one, min_size=1, max_size=6))

@st.composite
def st_uniform(draw):
  spec = draw(st.one_of(pv.st_float_var(), pv.st_discrete_var()))
  return {'spec': spec, 'scale': draw(st_scale()), 'xs': draw(st_probe(spec)),
          'n': draw(st.integers(1, 9)), 'how': draw(st.sampled_from(['array', 'scalar', 'dict',
                                                                     'count', 'random', 'all']))}

@law(LAWS, st_uniform, quick=900)
def uniform(case, ctx):
  """ By default every value of the set has equal probability, and any other has none. """
  spec, scale, xs = case['spec'], case['scale'], case['xs']
  if spec['type'] == 'float' and spec.get('ufun'):
    lo, hi = spec['lims']
    xs = [min(max(x, lo), hi) for x in xs] # transformations are undefined elsewhere
  x = rv_of(spec, scale)
  evaluate(x, spec, scale, xs, case['how'], case['n'], mass(spec), ctx)

def evaluate(x, spec, scale, xs, how, n, p, ctx):
  dtype = {'float': float, 'int': int, 'bool': bool}[spec['type']]
  ctx.tag(how, spec['type'])
  if how in ('array', 'dict'):
    vals = np.array(xs, dtype=dtype)
    dist = x({'x': vals}) if how == 'dict' else x(vals)
    want = np.array([p if is_inside(spec, v) else 0. for v in xs])
    ctx.interesting(len(xs) > 1)
    return check_pd(dist, vals, want, scale, "given {}".format(xs))
  if how == 'scalar':
    for v in xs:
      val = dtype(v)
      check_pd(x(val), val, p if is_inside(spec, val) else 0., scale, "given {}".format(val))
      ctx.interesting(not is_inside(spec, val) or len(xs) > 1)
    return None
  if how == 'all' and spec['type'] != 'float':
    vals = np.array(pv.declared(spec), dtype=dtype)
    dist = x()
    check_pd(dist, vals, np.tile(p, len(vals)), scale, "all values")
    total = float(np.sum(linear(dist.prob, dist.pscale, "all values")))
    expect(abs(total - 1.) < 1e-8, "the probabilities of all values sum to {}", total)
    ctx.interesting(len(vals) > 1)
    return None
  dist = x({-n}) if how == 'random' else x({n})
  vals = arr(dist['x'], "values")
  expect(vals.shape == (n,), "{} values rather than {}", vals.shape, n)
  check_pd(dist, dist['x'], np.tile(p, n), scale, "{} of {} values".format(how, n))
  ctx.interesting(n > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_redefine(draw):
  """ All intervals lie in (0.1, 6) where every transformation is defined. """
  steps = []
  for _ in range(draw(st.integers(1, 5))):
    kind = draw(st.sampled_from(['vset', 'ufun', 'unset']))
    lo = draw(st.floats(0.1, 3.))
    steps.append({'kind': kind, 'lims': [lo, lo + draw(st.floats(0.1, 3.))],
                  'open': [draw(st.booleans()), draw(st.booleans())],
                  'ufun': draw(st.sampled_from(sorted(pv.UFUNS))),
                  'n': draw(st.integers(1, 5))})
  return {'scale': draw(st_scale()), 'steps': steps,
          'ints': [draw(st.lists(st.integers(-5, 20), min_size=1, max_size=6, unique=True))
                   for _ in range(3)], 'type': draw(st.sampled_from(['float', 'float', 'int']))}

@law(LAWS, st_redefine, quick=300)
def redefined(case, ctx):
  """ Default probabilities follow the latest set and the latest transformation (or none). """
  import probayes as pb
  scale = case['scale']
  if case['type'] == 'int':
    x = pb.RV('x', vset=list(case['ints'][0]), pscale=scale)
    for i, vals in enumerate(case['ints']):
      if i:
        x.vset = list(vals)
      spec = {'type': 'int', 'how': 'list', 'vals': vals}
      evaluate(x, spec, scale, [], 'all', 1, mass(spec), ctx)
      evaluate(x, spec, scale, [vals[0], max(vals) + 1], 'array', 1, mass(spec), ctx)
    return
  spec = {'type': 'float', 'lims': [0.5, 2.], 'open': [False, False], 'ufun': None}
  x = pb.RV('x', vtype=float, vset=[0.5, 2.], pscale=scale)
  for step in case['steps']:
    if step['kind'] == 'vset':
      spec.update(lims=step['lims'], open=step['open'])
      x.vset = [(v,) if o else v for v, o in zip(step['lims'], step['open'])]
    elif step['kind'] == 'ufun':
      spec.update(ufun=step['ufun'])
      x.set_ufun(pv.UFUNS[step['ufun']][:2])
    else:
      spec.update(ufun=None)
      x.set_ufun()
    lo, hi = spec['lims']
    mid = 0.5 * (lo + hi)
    evaluate(x, spec, scale, [], 'count', step['n'], mass(spec), ctx)
    evaluate(x, spec, scale, [lo, mid, hi, hi + 1.], 'array', 1, mass(spec), ctx)
    evaluate(x, spec, scale, [mid], 'scalar', 1, mass(spec), ctx)

# -----------------------------------------------------------------------------
@st.composite
def st_bernoulli(draw):
  n = draw(st.integers(1, 2))
  biases = [draw(st.sampled_from([0.5, 0.2, 0.7]) | st.floats(0.02, 0.98)) for _ in range(n)]
  return {'biases': biases, 'scale': draw(st_scale()), 'how': draw(st.sampled_from([0, 1, 2])),
          'vals': draw(st.lists(st.booleans(), min_size=1, max_size=5))}

def prob_on(p, scale):
  return float(pm.from_linear(p, norm(scale)))

@law(LAWS, st_bernoulli, quick=48, thorough=400, chunk=4)
def bernoulli(case, ctx):
  """ A probability given for a boolean is that of it being true, and one less it otherwise;
  random values occur accordingly. """
  import probayes as pb
  scale = case['scale']
  if case['how'] == 0:
    x = pb.RV('x', prob=prob_on(case['biases'][0], scale), pscale=scale)
  elif case['how'] == 1:
    x = pb.RV('x', bool, prob=prob_on(case['biases'][0], scale), pscale=scale)
  else:
    x = pb.RV('x', vtype=bool, pscale=scale)
    check_pd(x(), np.array([False, True]), np.array([0.5, 0.5]), scale, "default")
    x.set_prob(prob_on(case['biases'][0], scale))
  for i, bias in enumerate(case['biases']):
    if i:
      x.set_prob(prob_on(bias, scale))
    want = {False: 1. - bias, True: bias}
    check_pd(x(), np.array([False, True]), np.array([1. - bias, bias]), scale, "both values")
    for val in (False, True):
      check_pd(x(val), val, want[val], scale, "{}".format(val))
    vals = np.array(case['vals'])
    check_pd(x(vals), vals, np.array([want[v] for v in case['vals']]), scale, "array")
    n = 20000
    dist = x({-n})
    drawn = arr(dist['x'], "random values")
    expect(drawn.shape == (n,) and set(drawn.tolist()) <= {0., 1.}, "random values {}",
           drawn.tolist()[:8])
    freq = float(np.mean(drawn))
    expect(abs(freq - bias) < 6. * math.sqrt(bias * (1. - bias) / n) + 2. / n,
           "with probability {}, {} of {} random values are true", bias, freq, n)
    check_pd(dist, dist['x'], np.where(drawn > 0.5, bias, 1. - bias), scale, "random values")
    one = x({0})
    val = one['x']
    expect(np.ndim(val) == 0 and num(val) in (0., 1.), "random scalar {!r}", val)
    check_pd(one, val, want[bool(val)], scale, "random scalar")
  ctx.tag('redefined' if len(case['biases']) > 1 else 'single')
  ctx.interesting(any(abs(b - 0.5) > 1e-3 for b in case['biases']))

# -----------------------------------------------------------------------------
@st.composite
def st_table(draw):
  how = draw(st.sampled_from(['list', 'list', 'set', 'range', 'bool']))
  if how == 'bool':
    vals = [False, True]
  elif how == 'range':
    vals = list(range(draw(st.integers(1, 6))))
  else:
    vals = draw(st.lists(st.integers(-9, 20), min_size=1, max_size=7, unique=True))
  probs = [draw(st.floats(0.01, 1.)) for _ in vals]
  return {'how': how, 'vals': vals, 'probs': probs, 'scale': draw(st_scale()),
          'late': draw(st.booleans()),
          'xs': draw(st.lists(st.integers(-11, 22) | st.sampled_from(vals), min_size=1,
                              max_size=6))}

@law(LAWS, st_table, quick=300)
def tabulated(case, ctx):
  """ An array of probabilities pairs with the set in its order. """
  import probayes as pb
  vals, scale = case['vals'], case['scale']
  total = sum(case['probs'])
  lin = [p / total for p in case['probs']]
  raw = pm.from_linear(np.array(lin), norm(scale))
  vset = {'list': list(vals), 'set': set(vals), 'range': range(len(vals)),
          'bool': [False, True]}[case['how']]
  order = list(vals) if case['how'] != 'set' else sorted(vals)
  want = dict(zip(order, lin))
  if case['late']:
    x = pb.RV('x', vset=vset, pscale=scale)
    x.set_prob(raw)
  else:
    x = pb.RV('x', vset=vset, prob=raw, pscale=scale)
  dtype = bool if case['how'] == 'bool' else int
  dist = x()
  check_pd(dist, np.array(order, dtype=dtype), np.array([want[v] for v in order]), scale, "all")
  xs = [bool(v % 2) for v in case['xs']] if dtype is bool else case['xs']
  check_pd(x(np.array(xs, dtype=dtype)), np.array(xs, dtype=dtype),
           np.array([want.get(v, 0.) for v in xs]), scale, "array {}".format(xs))
  val = xs[0]
  check_pd(x(val), val, want.get(val, 0.), scale, "{}".format(val))
  n = len(xs)
  some = x({-n})
  check_pd(some, some['x'], np.array([want[type(vals[0])(v)] for v in
                                      np.asarray(some['x']).tolist()]), scale, "random")
  try:
    pb.RV('x', vset=vset, prob=np.append(raw, raw[:1]), pscale=scale)
    refused = False
  except AssertionError:
    refused = True
  expect(refused, "{} probabilities accepted for {} values", len(raw) + 1, len(raw))
  ctx.interesting(len(vals) > 1)

# -----------------------------------------------------------------------------
def gauss(x, mu, sd):
  return np.exp(-0.5 * ((x - mu) / sd) ** 2) / (sd * np.sqrt(2. * np.pi))

def log_gauss(x, mu, sd):
  return -0.5 * ((x - mu) / sd) ** 2 - np.log(sd * np.sqrt(2. * np.pi))

@st.composite
def st_callable(draw):
  spec = draw(pv.st_float_var(ufun=''))
  return {'spec': spec, 'mu': draw(st.floats(-5., 5.)), 'sd': draw(st.floats(0.5, 50.)),
          'log': draw(st.booleans()), 'how': draw(st.sampled_from(['lambda', 'kwds', 'partial',
                                                                   'order', 'late'])),
          'xs': draw(st_probe(spec)), 'n': draw(st.integers(1, 6))}

@law(LAWS, st_callable, quick=300)
def callables(case, ctx):
  """ A callable probability is evaluated at the values, with its arguments. """
  import probayes as pb
  spec, mu, sd = dict(case['spec'], ufun=None), case['mu'], case['sd']
  scale = 'log' if case['log'] else 1.
  fun = log_gauss if case['log'] else gauss
  how = case['how']
  if how in ('lambda', 'late'):
    args = {'prob': (lambda x: fun(x, mu, sd))}
  elif how == 'kwds':
    args = {'prob': fun, 'mu': mu, 'sd': sd}
  elif how == 'partial':
    args = {'prob': (lambda x, m, s=1.: fun(x, m, s)), 'm': mu, 's': sd}
  else:
    args = {'prob': (lambda y, mu, sd: fun(y, mu, sd)), 'mu': mu, 'sd': sd}
  if how == 'late':
    x = rv_of(spec, scale)
    x.set_prob(args['prob'])
  else:
    x = rv_of(spec, scale, **args)
  ctx.tag(how)
  xs = np.array(case['xs'], dtype=float)
  check_pd(x(xs), xs, gauss(xs, mu, sd), scale, "array", rtol=1e-7)
  check_pd(x(float(xs[0])), float(xs[0]), gauss(float(xs[0]), mu, sd), scale, "scalar", rtol=1e-7)
  for n in (case['n'], -case['n']):
    dist = x({n})
    vals = arr(dist['x'], "values")
    expect(vals.shape == (abs(n),) and all(is_inside(spec, v) for v in vals.tolist()),
           "{} values {}", n, vals.tolist())
    check_pd(dist, vals, gauss(vals, mu, sd), scale, "count {}".format(n), rtol=1e-7)
  ctx.interesting(len(xs) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_kept(draw):
  how = draw(st.sampled_from(['callable', 'number', 'table', 'late', 'mass']))
  ints = [draw(st.lists(st.integers(-5, 20), min_size=3, max_size=3, unique=True))
          for _ in range(3)]
  steps = []
  for _ in range(draw(st.integers(1, 4))):
    lo = draw(st.floats(0.1, 3.))
    steps.append({'kind': draw(st.sampled_from(['vset', 'vset', 'ufun', 'unset'])),
                  'lims': [lo, lo + draw(st.floats(0.1, 3.))],
                  'open': [draw(st.booleans()), draw(st.booleans())],
                  'ufun': draw(st.sampled_from(sorted(pv.UFUNS)))})
  return {'how': how, 'ints': ints, 'steps': steps, 'p': draw(st.floats(0.02, 0.3)),
          'mu': draw(st.floats(-2., 5.)), 'sd': draw(st.floats(0.5, 5.)),
          'probs': [draw(st.floats(0.05, 1.)) for _ in range(3)],
          'log': draw(st.booleans()), 'n': draw(st.integers(1, 5))}

@law(LAWS, st_kept, quick=150)
def kept(case, ctx):
  """ A probability that was declared remains that of the values whatever set or transformation
  is subsequently declared. """
  import probayes as pb
  how, mu, sd, p = case['how'], case['mu'], case['sd'], case['p']
  scale = 'log' if case['log'] else 1.
  fun = log_gauss if case['log'] else gauss
  ctx.tag(how)
  ctx.interesting(len(case['steps']) > 1 or how in ('table', 'mass'))
  if how in ('table', 'mass'): # discrete sets
    sets = [list(s) for s in case['ints']]
    raw = np.array(case['probs']) / sum(case['probs'])
    if how == 'table':
      x = pb.RV('x', vset=sets[0], prob=pm.from_linear(raw, norm(scale)), pscale=scale)
    else:
      x = pb.RV('x', vset=sets[0], prob=lambda x: fun(1. * x, mu, sd), pscale=scale)
    for i, vals in enumerate(sets):
      if i:
        x.vset = list(vals)
      want = raw if how == 'table' else gauss(np.array(vals, dtype=float), mu, sd)
      check_pd(x(), np.array(vals), want, scale, "values of set {}".format(i), rtol=1e-7)
      check_pd(x(vals[1]), vals[1], want[1], scale, "one of set {}".format(i), rtol=1e-7)
    return
  raw = float(pm.from_linear(p, norm(scale)))
  prob = raw if how == 'number' else (lambda x: fun(x, mu, sd))
  if how == 'late':
    x = pb.RV('x', vtype=float, vset=[0.5, 2.], pscale=scale)
    x.set_prob(prob)
  else:
    x = pb.RV('x', vtype=float, vset=[0.5, 2.], prob=prob, pscale=scale)
  spec = {'type': 'float', 'lims': [0.5, 2.], 'open': [False, False], 'ufun': None}
  for step in case['steps']:
    if step['kind'] == 'vset':
      spec.update(lims=step['lims'], open=step['open'])
      x.vset = [(v,) if o else v for v, o in zip(step['lims'], step['open'])]
    elif step['kind'] == 'ufun':
      spec.update(ufun=step['ufun'])
      x.set_ufun(pv.UFUNS[step['ufun']][:2])
    else:
      spec.update(ufun=None)
      x.set_ufun()
    lo, hi = spec['lims']
    vals = np.array([0.75 * lo + 0.25 * hi, 0.5 * (lo + hi)])
    want = np.tile(p, 2) if how == 'number' else gauss(vals, mu, sd)
    check_pd(x(vals), vals, want, scale, "array", rtol=1e-7)
    check_pd(x(float(vals[0])), float(vals[0]), want[0], scale, "scalar", rtol=1e-7)
    dist = x({case['n']})
    got = arr(dist['x'], "values")
    want = np.tile(p, len(got)) if how == 'number' else gauss(got, mu, sd)
    check_pd(dist, dist['x'], want, scale, "count", rtol=1e-7)

# -----------------------------------------------------------------------------
def sym_funs():
  import sympy
  return {
    'log': (sympy.log, np.log, lambda x: 1. / x, 'pos'),
    'neglog': (lambda x: -sympy.log(x), lambda x: -np.log(x), lambda x: -1. / x, 'pos'),
    'exp': (sympy.exp, np.exp, np.exp, 'any'),
    'sqrt': (sympy.sqrt, np.sqrt, lambda x: 0.5 / np.sqrt(x), 'pos'),
    'affine': (lambda x: 3. * x - 1., lambda x: 3. * x - 1., lambda x: 3. + 0. * x, 'any'),
    'recip': (lambda x: 1 / x, lambda x: 1. / x, lambda x: -1. / x ** 2, 'pos'),
    'decay': (lambda x: sympy.exp(-x), lambda x: np.exp(-x), lambda x: -np.exp(-x), 'any'),
    'arcsine': (lambda x: sympy.asin(sympy.sqrt(x)), lambda x: np.arcsin(np.sqrt(x)),
                lambda x: 0.5 / np.sqrt(x * (1. - x)), 'unit'),
  }

@st.composite
def st_implicit(draw):
  name = draw(st.sampled_from(['log', 'neglog', 'exp', 'sqrt', 'affine', 'recip', 'decay',
                               'arcsine']))
  kind = {'log': 'pos', 'neglog': 'pos', 'sqrt': 'pos', 'recip': 'pos', 'arcsine': 'unit'}.get(
      name, 'any')
  if kind == 'unit':
    lo, hi = draw(st.floats(0.05, 0.4)), draw(st.floats(0.5, 0.95))
  elif kind == 'pos':
    lo = draw(st.floats(0.1, 5.))
    hi = lo + draw(st.floats(0.2, 5.))
  else:
    lo = draw(st.floats(-2., 2.))
    hi = lo + draw(st.floats(0.2, 2.))
  return {'fun': name, 'lims': [lo, hi], 'open': draw(st.booleans()),
          'scale': draw(st_scale()), 'cov': draw(st.booleans()), 'n': draw(st.integers(2, 7))}

@law(LAWS, st_implicit, quick=24, thorough=200, chunk=3)
def implicit(case, ctx):
  """ A transformation without change of variables gives the density it implies; with it, values
  are spaced evenly in, and the density is uniform with respect to, the transformed space. """
  import probayes as pb
  make, fun, der, _ = sym_funs()[case['fun']]
  lo, hi = case['lims']
  n, scale = case['n'], case['scale']
  x = pb.RV('x', vtype=float, vset=(lo, hi) if case['open'] else [lo, hi], pscale=scale)
  x.set_ufun(make(x[:]), no_ucov=not case['cov'])
  span = abs(float(fun(hi) - fun(lo)))
  dist = x({n})
  vals = arr(dist['x'], "values")
  frac = (np.arange(n) + 1.) / (n + 1.) if case['open'] else np.linspace(0., 1., n)
  if case['cov']:
    want = fun(lo) + frac * (fun(hi) - fun(lo))
    got = np.sort(fun(vals))
    expect(np.allclose(got, np.sort(want), rtol=1e-6, atol=1e-9), "values {}", vals.tolist())
    check_pd(dist, dist['x'], np.tile(1. / span, n), scale, "with change of variables", rtol=1e-6)
  else:
    expect(np.allclose(vals, lo + frac * (hi - lo), rtol=1e-6, atol=1e-9), "values {}",
           vals.tolist())
    want = np.abs(der(vals)) / span
    check_pd(dist, dist['x'], want, scale, "implied density", rtol=1e-6)
    mid = 0.5 * (lo + hi)
    check_pd(x(mid), mid, float(np.abs(der(mid)) / span), scale, "implied scalar", rtol=1e-6)
  # ...and none at all restores uniformity
  x.set_ufun()
  dist = x({n})
  check_pd(dist, dist['x'], np.tile(1. / (hi - lo), n), scale, "transformation unset", rtol=1e-6)
  ctx.tag(case['fun'])
  ctx.interesting()
