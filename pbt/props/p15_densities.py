"""Probabilities given as SciPy or SymPy distributions, or as expressions with CDFs."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p12_variables as pv
from pbt.props import p14_random_variables as pr

LAWS = []
SCALE = 2 # multiplies the numbers of quick cases
RULE = ("SciPy continuous / discrete distributions and SymPy distributions with random "
        "parameters given by position or keyword, on linear and log scales, alone or for random "
        "variables over random intervals (open / closed); non-trivial: at least two values")

CONT = {
  'norm': lambda r: {'loc': r[0] * 4. - 2., 'scale': 0.3 + 2. * r[1]},
  'expon': lambda r: {'loc': r[0] - 0.5, 'scale': 0.3 + 2. * r[1]},
  'gamma': lambda r: {'a': 1. + 3. * r[0], 'scale': 0.3 + 2. * r[1]},
  'beta': lambda r: {'a': 1. + 3. * r[0], 'b': 1. + 3. * r[1]},
  'uniform': lambda r: {'loc': r[0] * 4. - 2., 'scale': 0.3 + 2. * r[1]},
  't': lambda r: {'df': 1. + 9. * r[0], 'loc': r[1]},
  'laplace': lambda r: {'loc': r[0] * 4. - 2., 'scale': 0.3 + 2. * r[1]},
  'lognorm': lambda r: {'s': 0.3 + r[0], 'scale': 0.5 + r[1]},
  'gumbel_r': lambda r: {'loc': r[0] * 4. - 2., 'scale': 0.3 + 2. * r[1]},
}
DISC = {
  'binom': lambda r: {'n': 1 + int(9 * r[0]), 'p': 0.05 + 0.9 * r[1]},
  'poisson': lambda r: {'mu': 0.2 + 6. * r[0]},
  'geom': lambda r: {'p': 0.1 + 0.8 * r[0]},
  'randint': lambda r: {'low': 0, 'high': 1 + int(9 * r[0])},
  'nbinom': lambda r: {'n': 1 + int(5 * r[0]), 'p': 0.1 + 0.8 * r[1]},
}

def frozen(name, par):
  import scipy.stats
  return getattr(scipy.stats, name)(**par)

def st_pair():
  return st.tuples(st.floats(0., 1.), st.floats(0., 1.))

@st.composite
def st_scipy(draw):
  disc = draw(st.integers(0, 2)) == 0
  name = draw(st.sampled_from(sorted(DISC if disc else CONT)))
  return {'disc': disc, 'name': name, 'rnd': list(draw(st_pair())),
          'log': draw(st.sampled_from([None, 'log', 0j])), 'to': draw(pr.st_scale()),
          'args': draw(st.booleans()),
          'xs': draw(st.lists(st.integers(-2, 12) if disc else st.floats(-6., 8.), min_size=1,
                              max_size=6))}

def pars_of(case):
  return (DISC if case['disc'] else CONT)[case['name']](case['rnd'])

@law(LAWS, st_scipy, quick=400)
def scipy_prob(case, ctx):
  """ A SciPy distribution is evaluated as its density or mass (or log thereof), whatever the
  shape of the values; its other methods and samples are those of the distribution. """
  import scipy.stats
  import probayes as pb
  par = pars_of(case)
  ref = frozen(case['name'], par)
  dist = getattr(scipy.stats, case['name'])
  kwds = {} if case['log'] is None else {'pscale': case['log']}
  if case['args']: # by position as far as possible
    lead = [par[k] for k in list(par) if k not in ('loc', 'scale')]
    rest = {k: par[k] for k in par if k in ('loc', 'scale')}
    if 'loc' in rest:
      lead.append(rest.pop('loc'))
    prob = pb.Prob(dist, *lead, **rest, **kwds)
  else:
    prob = pb.Prob(dist, **par, **kwds)
  xs = np.array(case['xs'], dtype=int if case['disc'] else float)
  pdf = ref.pmf if case['disc'] else ref.pdf
  log = case['log'] is not None
  scale = 0j if log else 1.
  for vals in (xs, xs[0].item(), xs.reshape([1, xs.size])):
    want = pdf(vals)
    got = arr(prob(vals), "probabilities")
    expect(got.shape == np.shape(want), "shape {} rather than {}", got.shape, np.shape(want))
    expect(np.allclose(pm.to_linear(got, scale), want, rtol=1e-8, atol=1e-14),
           "probabilities {} rather than {}", got.tolist(), np.asarray(want).tolist())
    if np.all(want > 1e-290):
      to = case['to']
      got = arr(prob(vals, pscale=to), "rescaled")
      expect(np.allclose(pm.to_linear(got, pr.norm(to)), want, rtol=1e-7, atol=1e-14),
             "on scale {}: {} rather than {}", to, got.tolist(), np.asarray(want).tolist())
  for key, fun in (('prob', pdf), ('cdf', ref.cdf), ('sf', ref.sf)):
    got = arr(prob[key](xs), key)
    expect(np.allclose(got, fun(xs), rtol=1e-8, atol=1e-14), "{} is {} rather than {}", key,
           got.tolist(), fun(xs).tolist())
  with np.errstate(divide='ignore'):
    want = np.log(pdf(xs))
  got = arr(prob['logp'](xs), 'logp')
  expect(np.allclose(np.exp(got), np.exp(want), rtol=1e-7), "logp is {} rather than {}",
         got.tolist(), want.tolist())
  qs = np.array([0.1, 0.5, 0.8])
  got = arr(prob.pfun[1](qs), 'inverse')
  expect(np.allclose(got, ref.ppf(qs), rtol=1e-8), "inverse CDF {} rather than {}", got.tolist(),
         ref.ppf(qs).tolist())
  got = arr(prob.pfun[0](xs), 'cdf')
  expect(np.allclose(got, ref.cdf(xs), rtol=1e-8), "CDF {} rather than {}", got.tolist(),
         ref.cdf(xs).tolist())
  some = arr(prob.sfun(size=7), "samples")
  lo, hi = ref.support()
  expect(some.shape == (7,) and np.all(some >= lo) and np.all(some <= hi), "samples {}",
         some.tolist())
  ctx.tag(case['name'])
  ctx.interesting(xs.size > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_scipy_rv(draw):
  name = draw(st.sampled_from(sorted(CONT)))
  qs = sorted([draw(st.floats(0.01, 0.45)), draw(st.floats(0.5, 0.98))])
  return {'disc': False, 'name': name, 'rnd': list(draw(st_pair())), 'qs': qs,
          'open': [draw(st.booleans()), draw(st.booleans())],
          'log': draw(st.sampled_from([None, 'log', 0j])), 'n': draw(st.integers(1, 8)),
          'how': draw(st.sampled_from(['scipy', 'late', 'positions', 'pfun', 'pfun_kwds'])),
          'xs': draw(st.lists(st.floats(-0.2, 1.2), min_size=1, max_size=5))}

def make_rv(case):
  import scipy.stats
  import probayes as pb
  par = pars_of(case)
  ref = frozen(case['name'], par)
  lims = [float(v) for v in ref.ppf(case['qs'])]
  if not lims[1] - lims[0] > 1e-3:
    skip()
  vset = [(v,) if o else v for v, o in zip(lims, case['open'])]
  kwds = {} if case['log'] is None else {'pscale': case['log']}
  dist = getattr(scipy.stats, case['name'])
  if case['how'] == 'scipy':
    x = pb.RV('x', vset=vset, vtype=float, prob=dist, **par, **kwds)
  elif case['how'] == 'positions':
    lead = [par.pop(k) for k in list(par) if k not in ('loc', 'scale')]
    lead += [par.pop('loc', 0.)]
    x = pb.RV('x', float, vset, dist, *lead, **par, **kwds)
  elif case['how'] == 'late':
    x = pb.RV('x', vset=vset, vtype=float)
    x.set_prob(dist, **par, **kwds)
  else:
    fun = dist.pdf if case['log'] is None else dist.logpdf
    x = pb.RV('x', vset=vset, vtype=float, prob=fun, **par, **kwds)
    if case['how'] == 'pfun':
      x.set_pfun((ref.cdf, ref.ppf))
    else:
      x.set_pfun((dist.cdf, dist.ppf), **par)
  return x, ref, lims

@law(LAWS, st_scipy_rv, quick=300)
def scipy_rv(case, ctx):
  """ With a cumulative distribution, counts of values are evenly spaced in cumulative
  probability between the limits, each with its density. """
  x, ref, lims = make_rv(case)
  scale = 'log' if case['log'] is not None else 1.
  n = case['n']
  dist = x({n})
  vals = arr(dist['x'], "values")
  frac = np.array(pv.grid_of({'lims': [0., 1.], 'open': case['open'], 'ufun': None}, n))
  c0, c1 = ref.cdf(lims)
  want = ref.ppf(c0 + frac * (c1 - c0))
  expect(vals.shape == (n,) and np.allclose(vals, want, rtol=1e-6, atol=1e-8),
         "values {} rather than {}", vals.tolist(), want.tolist())
  pr.check_pd(dist, dist['x'], ref.pdf(vals), scale, "values", rtol=1e-6)
  some = x({-n})
  vals = arr(some['x'], "values")
  expect(vals.shape == (n,) and np.all(vals >= lims[0] - 1e-9) and np.all(vals <= lims[1] + 1e-9),
         "random values {} not within {}", vals.tolist(), lims)
  pr.check_pd(some, some['x'], ref.pdf(vals), scale, "random values", rtol=1e-6)
  one = x({0})
  expect(np.ndim(one['x']) == 0 and lims[0] - 1e-9 <= num(one['x']) <= lims[1] + 1e-9,
         "random scalar {!r} not within {}", one['x'], lims)
  pr.check_pd(one, one['x'], float(ref.pdf(num(one['x']))), scale, "random scalar", rtol=1e-6)
  xs = np.array([lims[0] + f * (lims[1] - lims[0]) for f in case['xs']])
  pr.check_pd(x(xs), xs, ref.pdf(xs), scale, "given values", rtol=1e-6)
  pr.check_pd(x(float(xs[0])), float(xs[0]), float(ref.pdf(xs[0])), scale, "given scalar", rtol=1e-6)
  ctx.tag(case['name'], case['how'])
  ctx.interesting(n > 1)

@law(LAWS, st_scipy_rv, quick=40, thorough=400)
def scipy_samples(case, ctx):
  """ Random values follow the distribution truncated to the limits. """
  import scipy.stats
  x, ref, lims = make_rv(case)
  vals = arr(x({-1000})['x'], "values")
  c0, c1 = ref.cdf(lims)
  unit = (ref.cdf(vals) - c0) / (c1 - c0)
  pval = scipy.stats.kstest(unit, 'uniform').pvalue
  expect(pval > 1e-9, "1000 random values do not follow {} (p={})", case['name'], pval)
  ctx.interesting()

@st.composite
def st_scipy_int(draw):
  case = draw(st_scipy().filter(lambda c: c['disc']))
  case['vals'] = draw(st.lists(st.integers(0, 12), min_size=1, max_size=8, unique=True))
  case['n'] = draw(st.integers(1, 10))
  return case

@law(LAWS, st_scipy_int, quick=200)
def scipy_int_rv(case, ctx):
  """ Integer random variables with a SciPy mass function. """
  import scipy.stats
  import probayes as pb
  par = pars_of(case)
  ref = frozen(case['name'], par)
  kwds = {} if case['log'] is None else {'pscale': case['log']}
  scale = 'log' if case['log'] is not None else 1.
  x = pb.RV('x', vset=list(case['vals']), prob=getattr(scipy.stats, case['name']), **par, **kwds)
  vals = np.array(case['vals'])
  pr.check_pd(x(), vals, ref.pmf(vals), scale, "all values", rtol=1e-7)
  val = int(vals[-1])
  pr.check_pd(x(val), val, float(ref.pmf(val)), scale, "scalar", rtol=1e-7)
  n = case['n']
  dist = x({n})
  want = np.array([case['vals'][i % len(vals)] for i in range(n)])
  pr.check_pd(dist, want, ref.pmf(want), scale, "count", rtol=1e-7)
  dist = x({-n})
  some = arr(dist['x'], "values")
  expect(some.shape == (n,) and set(some.tolist()) <= set(case['vals']), "random values {}",
         some.tolist())
  pr.check_pd(dist, dist['x'], ref.pmf(some), scale, "random", rtol=1e-7)
  ctx.interesting(len(vals) > 1)

# -----------------------------------------------------------------------------
def sympy_dists():
  import sympy.stats as ss
  import scipy.stats as sc
  return {
    'norm': (lambda x, a, b: ss.Normal(x, 4. * a - 2., 0.3 + 2. * b),
             lambda a, b: sc.norm(4. * a - 2., 0.3 + 2. * b), True),
    'expon': (lambda x, a, b: ss.Exponential(x, 1 + int(2 * a)),
              lambda a, b: sc.expon(scale=1. / (1 + int(2 * a))), True),
    'logistic': (lambda x, a, b: ss.Logistic(x, int(4. * a) - 2, 1),
                 lambda a, b: sc.logistic(int(4. * a) - 2, 1), True),
    'cauchy': (lambda x, a, b: ss.Cauchy(x, 4. * a - 2., 0.3 + b),
               lambda a, b: sc.cauchy(4. * a - 2., 0.3 + b), True),
    'pareto': (lambda x, a, b: ss.Pareto(x, 0.3 + a, 3),
               lambda a, b: sc.pareto(3., scale=0.3 + a), True),
    'rayleigh': (lambda x, a, b: ss.Rayleigh(x, 1 + int(2 * a)),
                 lambda a, b: sc.rayleigh(scale=1. + int(2 * a)), True),
    'gamma': (lambda x, a, b: ss.Gamma(x, 1.5 + 2. * a, 1),
              lambda a, b: sc.gamma(1.5 + 2. * a), False),
    'beta': (lambda x, a, b: ss.Beta(x, 1. + 2. * a, 1. + 2. * b),
             lambda a, b: sc.beta(1. + 2. * a, 1. + 2. * b), False),
    'laplace': (lambda x, a, b: ss.Laplace(x, 4. * a - 2., 0.3 + b),
                lambda a, b: sc.laplace(4. * a - 2., 0.3 + b), True),
  }

@st.composite
def st_sympy(draw):
  name = draw(st.sampled_from(['norm', 'norm', 'norm', 'expon', 'logistic', 'cauchy', 'pareto',
                               'rayleigh', 'gamma', 'beta']))
  return {'name': name, 'a': draw(st.integers(0, 8)) / 8., 'b': draw(st.integers(0, 8)) / 8.,
          'log': draw(st.sampled_from([None, 'log', 0j])), 'n': draw(st.integers(2, 6)),
          'qs': sorted([draw(st.floats(0.05, 0.4)), draw(st.floats(0.55, 0.95))]),
          'open': [draw(st.booleans()), draw(st.booleans())],
          'xs': draw(st.lists(st.floats(0.02, 0.98), min_size=1, max_size=5))}

@law(LAWS, st_sympy, quick=24, thorough=160, chunk=3)
def sympy_rv(case, ctx):
  """ A SymPy distribution is evaluated as its density (or log density) within its support;
  its cumulative distribution and inverse are those of the distribution. """
  import probayes as pb
  make, ref, inverts = sympy_dists()[case['name']]
  ref = ref(case['a'], case['b'])
  lims = [float(v) for v in ref.ppf(case['qs'])]
  vset = [(v,) if o else v for v, o in zip(lims, case['open'])]
  x = pb.RV('x', vset=vset, vtype=float)
  kwds = {} if case['log'] is None else {'pscale': case['log']}
  x.set_prob(make(x[:], case['a'], case['b']), **kwds)
  scale = 'log' if case['log'] is not None else 1.
  xs = ref.ppf(case['xs'])
  pr.check_pd(x(xs), xs, ref.pdf(xs), scale, "given values", rtol=1e-6)
  val = float(xs[0])
  pr.check_pd(x(val), val, float(ref.pdf(val)), scale, "given scalar", rtol=1e-6)
  got = arr(x['prob'](xs), "density")
  expect(np.allclose(got, ref.pdf(xs), rtol=1e-6), "density {} rather than {}", got.tolist(),
         ref.pdf(xs).tolist())
  got = arr(x['logp'](xs), "log density")
  expect(np.allclose(got, ref.logpdf(xs), rtol=1e-6, atol=1e-8), "log density {} rather than {}",
         got.tolist(), ref.logpdf(xs).tolist())
  ctx.tag(case['name'])
  ctx.interesting()
  if not inverts:
    return
  got = arr(x.pfun[0](xs), "CDF")
  expect(np.allclose(got, ref.cdf(xs), rtol=1e-6), "CDF {} rather than {}", got.tolist(),
         ref.cdf(xs).tolist())
  got = arr(x.pfun[1](np.array(case['xs'])), "inverse CDF")
  expect(np.allclose(got, xs, rtol=1e-6, atol=1e-7), "inverse CDF {} rather than {}",
         got.tolist(), xs.tolist())
  n = case['n']
  dist = x({n})
  vals = arr(dist['x'], "values")
  frac = np.array(pv.grid_of({'lims': [0., 1.], 'open': case['open'], 'ufun': None}, n))
  c0, c1 = case['qs']
  want = ref.ppf(c0 + frac * (c1 - c0))
  expect(vals.shape == (n,) and np.allclose(vals, want, rtol=1e-6, atol=1e-7),
         "values {} rather than {}", vals.tolist(), want.tolist())
  pr.check_pd(dist, dist['x'], ref.pdf(vals), scale, "values", rtol=1e-6)
  vals = arr(x({-n})['x'], "values")
  expect(vals.shape == (n,) and np.all(vals >= lims[0] - 1e-6) and np.all(vals <= lims[1] + 1e-6),
         "random values {} not within {}", vals.tolist(), lims)

# -----------------------------------------------------------------------------
@st.composite
def st_sympy_samples(draw):
  case = draw(st_sympy())
  name = case['name'] if case['name'] not in ('logistic', 'rayleigh') else 'norm' # SymPy's own are unreliable
  return {'name': name, 'a': case['a'], 'b': case['b'], 'log': case['log'], 'n': draw(st.integers(1, 6)),
          'seed': draw(st.integers(0, 2 ** 31 - 1)), 'how': draw(st.sampled_from(['prob', 'rv', 'sympy', 'sfun']))}

@law(LAWS, st_sympy_samples, quick=16, thorough=120, chunk=3)
def sympy_samples(case, ctx):
  """ The sampling function of a SymPy distribution draws as many independent values as asked for
  from that distribution. """
  import sympy
  import probayes as pb
  make, ref, _ = sympy_dists()[case['name']]
  ref, how, n = ref(case['a'], case['b']), case['how'], case['n']
  kwds = {} if case['log'] is None else {'pscale': case['log']}
  if how == 'rv':
    obj = pb.RV('x', vset=[float(v) for v in ref.ppf([0.2, 0.7])], vtype=float)
    obj.set_prob(make(obj[:], case['a'], case['b']), **kwds)
  else:
    dist = make(sympy.Symbol('x'), case['a'], case['b'])
    obj = pb.SympyProb(dist) if how == 'sympy' else pb.Prob(dist, **kwds)
  draws = obj.sfun if how == 'sfun' else obj['sfun']
  np.random.seed(case['seed'])
  some = arr(draws(size=n), "samples")
  expect(some.shape == (n,), "{} samples have shape {}", n, some.shape)
  one = draws()
  expect(np.ndim(one) == 0 and np.isfinite(num(one)), "one sample is {!r}", one)
  many = arr(draws(size=150), "samples")
  expect(len(set(many.tolist())) == 150, "samples recur")
  lo, hi = ref.support()
  expect(np.all(many >= lo) and np.all(many <= hi), "samples beyond the support")
  at = ref.cdf(np.sort(many))
  far = float(np.max(np.abs(at - (np.arange(150) + 0.5) / 150.)))
  expect(far < 0.24, "the distance of {} samples from their distribution is {}", many.size, far) # p < 1e-7
  again = arr(draws(size=150), "samples")
  expect(not set(again.tolist()) & set(many.tolist()), "samples are the same when drawn anew")
  ctx.tag(case['name'], how)
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_replaced(draw):
  lo = draw(st.floats(-2., 1.))
  steps = []
  for _ in range(draw(st.integers(2, 5))):
    kind = draw(st.sampled_from(['scipy', 'scipy', 'positions', 'callable', 'scalar', 'default',
                                 'vset']))
    steps.append({'kind': 'sympy' if draw(st.integers(0, 15)) == 15 else kind,
                  'loc': draw(st.integers(-8, 8)) / 4., 'scale': draw(st.integers(2, 12)) / 4.,
                  'log': draw(st.booleans()), 'name': draw(st.sampled_from(['norm', 'laplace',
                                                                            'logistic'])),
                  'lims': [lo, lo + draw(st.floats(0.5, 4.))], 'n': draw(st.integers(2, 5))})
  return {'lims': [lo, lo + draw(st.floats(0.5, 4.))], 'steps': steps,
          'open': [draw(st.booleans()), draw(st.booleans())]}

@law(LAWS, st_replaced, quick=120)
def replaced(case, ctx):
  """ However often the probability is declared anew, values asked for by number and their
  densities are those of the latest declaration. """
  import scipy.stats
  import sympy.stats
  import probayes as pb
  lims = case['lims']
  vset_of = lambda lims: [(v,) if o else v for v, o in zip(lims, case['open'])]
  x = pb.RV('x', vset=vset_of(lims), vtype=float)
  ref, dens, scale = None, None, 1.
  kinds = []
  for step in case['steps']:
    kind = step['kind']
    kinds.append(kind)
    if kind == 'vset':
      lims = step['lims']
      x.vset = vset_of(lims)
    else:
      scale = 'log' if step['log'] else 1.
      loc, wid = step['loc'], step['scale']
      kwds = {'pscale': scale}
      ref, dens = None, None
      if kind in ('scipy', 'positions'):
        dist = getattr(scipy.stats, step['name'])
        ref = dist(loc, wid)
        if kind == 'scipy':
          x.set_prob(dist, loc=loc, scale=wid, **kwds)
        else:
          x.set_prob(dist, loc, wid, **kwds)
      elif kind == 'sympy':
        ref = scipy.stats.norm(loc, wid)
        x.set_prob(sympy.stats.Normal(x[:], loc, wid), **kwds)
      elif kind == 'callable':
        dens = lambda v, loc=loc, wid=wid: np.exp(-((v - loc) / wid)**2)
        x.set_prob((lambda v, loc=loc, wid=wid: -((v - loc) / wid)**2) if step['log'] else dens,
                   **kwds)
      elif kind == 'scalar':
        dens = lambda v, wid=wid: np.full(np.shape(v), wid)
        x.set_prob(math.log(wid) if step['log'] else wid, **kwds)
      else:
        x.set_prob(None, **kwds)
    what = "after {}".format(kinds)
    n = step['n']
    dist = x({n})
    vals = arr(dist['x'], what)
    frac = np.array(pv.grid_of({'lims': [0., 1.], 'open': case['open'], 'ufun': None}, n))
    if ref is not None:
      c0, c1 = ref.cdf(lims)
      if c1 - c0 < 1e-4:
        skip()
      want, fun = ref.ppf(c0 + frac * (c1 - c0)), ref.pdf
    else:
      want = lims[0] + frac * (lims[1] - lims[0])
      fun = dens or (lambda v: np.full(np.shape(v), 1. / (lims[1] - lims[0])))
    expect(vals.shape == (n,) and np.allclose(vals, want, rtol=1e-6, atol=1e-6),
           "{}: values {} rather than {}", what, vals.tolist(), want.tolist())
    mid = np.array([lims[0] + f * (lims[1] - lims[0]) for f in (0.25, 0.5, 0.875)])
    pr.check_pd(x(mid), mid, fun(mid), scale, what, rtol=1e-6)
    some = arr(x({-3})['x'], what)
    expect(some.shape == (3,) and np.all(some >= lims[0] - 1e-9) and np.all(some <= lims[1] + 1e-9),
           "{}: random values {} not within {}", what, some.tolist(), lims)
  ctx.tag(*set(kinds))
  ctx.interesting(len(set(kinds)) > 1)
