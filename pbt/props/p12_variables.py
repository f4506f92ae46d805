"""Variables and fields: the values they produce."""
import collections
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import law, expect, skip, broken, num, arr

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("random variables: float intervals (open / closed / half-open, given as list or tuple, "
        "possibly unsorted, optionally infinite, optionally with a monotonic change of variables), "
        "integer and boolean sets (list, set, range, array), fields of 1-4 of them with counts, "
        "values, shared specifications; non-trivial: at least two values are produced or tested")

UFUNS = {
  'log': (np.log, np.exp, 'pos'),
  'exp': (np.exp, np.log, 'small'),
  'sqrt': (np.sqrt, np.square, 'pos'),
  'cube': (lambda x: x ** 3, lambda u: np.cbrt(u), 'any'),
  'neg': (lambda x: -x, lambda x: -x, 'any'),
  'affine': (lambda x: 2. * x - 3., lambda u: (u + 3.) / 2., 'any'),
  'recip': (lambda x: 1. / x, lambda u: 1. / u, 'pos'),
  'expit': (lambda x: 1. / (1. + np.exp(-x)), lambda u: np.log(u / (1. - u)), 'small'),
}

@st.composite
def st_interval(draw, kind='any'):
  if kind == 'pos':
    lo = draw(st.sampled_from([0.01, 0.5, 1., 2.]) | st.floats(0.1, 50.))
  elif kind == 'small':
    lo = draw(st.floats(-6., 3.))
  else:
    lo = draw(st.sampled_from([0., -1., 1., -10.]) | st.floats(-100., 100.))
  width = draw(st.sampled_from([1., 2., 0.5]) | st.floats(0.05, 6. if kind == 'small' else 200.))
  return lo, lo + width

@st.composite
def st_float_var(draw, ufun=None):
  ufun = draw(st.sampled_from([None, None] + sorted(UFUNS))) if ufun is None else ufun
  kind = UFUNS[ufun][2] if ufun else 'any'
  lo, hi = draw(st_interval(kind))
  return {'type': 'float', 'lims': [lo, hi], 'open': [draw(st.booleans()), draw(st.booleans())],
          'flip': draw(st.booleans()), 'tuple': draw(st.booleans()),
          'ufun': ufun or None, 'swap': draw(st.booleans()), 'vtype': draw(st.booleans())}

@st.composite
def st_discrete_var(draw):
  if draw(st.integers(0, 4)) == 0:
    return {'type': 'bool', 'how': draw(st.sampled_from(['none', 'type', 'list', 'set'])),
            'vals': [False, True], 'swap': False}
  how = draw(st.sampled_from(['list', 'set', 'range', 'array', 'type']))
  if how == 'range':
    lo = draw(st.integers(-5, 20))
    step = draw(st.sampled_from([1, 1, 2, 3]))
    vals = list(range(lo, lo + step * draw(st.integers(1, 16)), step))
    return {'type': 'int', 'how': how, 'vals': vals, 'step': step, 'swap': draw(st.booleans())}
  if how == 'type':
    return {'type': 'int', 'how': how, 'vals': [0, 1], 'swap': False}
  vals = draw(st.lists(st.integers(-9, 40), min_size=1, max_size=16, unique=True))
  return {'type': 'int', 'how': how, 'vals': vals, 'swap': draw(st.booleans())}

def interval_set(spec):
  """ The vset argument as a user would write it. """
  lo, hi = spec['lims']
  o0, o1 = spec['open']
  if spec['tuple'] and o0 and o1:
    return (hi, lo) if spec['flip'] else (lo, hi)
  vset = [(lo,) if o0 else lo, (hi,) if o1 else hi]
  return vset[::-1] if spec['flip'] else vset

def make(name, spec, cls=None, ufun=True):
  import probayes as pb
  cls = cls or pb.Variable
  if spec['type'] == 'float':
    vset = interval_set(spec)
    if not spec['vtype'] and not isinstance(vset, tuple):
      var = cls(name, vset=vset)
    elif spec['swap']:
      var = cls(name, float, vset)
    else:
      var = cls(name, vtype=float, vset=vset)
    if spec.get('ufun') and ufun:
      var.set_ufun(UFUNS[spec['ufun']][:2])
    return var
  vals, how = spec['vals'], spec['how']
  if spec['type'] == 'bool':
    if how == 'none':
      return cls(name)
    if how == 'type':
      return cls(name, vtype=bool)
    return cls(name, vtype=bool, vset=list(vals) if how == 'list' else set(vals))
  if how == 'type':
    return cls(name, vtype=int)
  vset = {'list': list(vals), 'set': set(vals), 'array': np.array(vals)}.get(how)
  if how == 'range':
    vset = range(vals[0], vals[-1] + spec['step'], spec['step'])
  return cls(name, int, vset) if spec['swap'] else cls(name, vset=vset)

def declared(spec):
  """ The values of a discrete variable in their order. """
  if spec['type'] == 'bool':
    return [False, True]
  return list(spec['vals']) if spec['how'] == 'list' else sorted(spec['vals'])

def fwd(spec):
  return UFUNS[spec['ufun']][0] if spec.get('ufun') else lambda x: np.asarray(x, dtype=float) * 1.

def inv(spec):
  return UFUNS[spec['ufun']][1] if spec.get('ufun') else lambda x: np.asarray(x, dtype=float) * 1.

def tol_of(spec):
  return 1e-7 * (1. + max(abs(v) for v in spec['lims']))

def grid_of(spec, n):
  """ Reference for n uniformly spaced values (in transformed space). """
  u0, u1 = [float(fwd(spec)(v)) for v in spec['lims']]
  o0, o1 = spec['open']
  if n == 1 and not o0 and not o1:
    frac = [0.5]
  elif o0 and o1:
    frac = [(i + 1.) / (n + 1.) for i in range(n)]
  elif o0:
    frac = [(i + 1.) / n for i in range(n)]
  elif o1:
    frac = [float(i) / n for i in range(n)]
  else:
    frac = [i / (n - 1.) for i in range(n)]
  return np.array([float(inv(spec)(u0 + f * (u1 - u0))) for f in frac])

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st.tuples(st_float_var(), st.integers(1, 12)), quick=500)
def float_grid(case, ctx):
  """ A count gives that many values, evenly spaced in the transformed space, with closed
  limits included and open limits excluded. """
  spec, n = case
  var = make('x', spec)
  got = arr(var({n})['x'])
  want = grid_of(spec, n)
  expect(got.shape == (n,), "{} values have shape {}", n, got.shape)
  expect(np.allclose(got, want, rtol=1e-9, atol=tol_of(spec)), "grid {} rather than {}",
         got.tolist(), want.tolist())
  lo, hi = spec['lims']
  expect(np.all(got >= lo) and np.all(got <= hi), "grid {} is not within [{!r}, {!r}]", got.tolist(), lo, hi)
  ctx.interesting(n > 1)
  ctx.tag(str(spec['ufun']))

def sym_ufuns():
  import sympy
  return {
    'log': (sympy.log, np.log, np.exp, 'pos'),
    'exp': (sympy.exp, np.exp, np.log, 'small'),
    'sqrt': (sympy.sqrt, np.sqrt, np.square, 'pos'),
    'affine': (lambda x: 3. * x - 1., lambda x: 3. * x - 1., lambda u: (u + 1.) / 3., 'any'),
    'recip': (lambda x: 1 / x, lambda x: 1. / x, lambda u: 1. / u, 'pos'),
    'decay': (lambda x: sympy.exp(-x), lambda x: np.exp(-x), lambda u: -np.log(u), 'small'),
  }

@st.composite
def st_sym_var(draw):
  name = draw(st.sampled_from(['affine', 'decay', 'exp', 'log', 'recip', 'sqrt']))
  kind = {'affine': 'any', 'decay': 'small', 'exp': 'small'}.get(name, 'pos')
  lo = draw(st.floats(0.1, 5.) if kind == 'pos' else st.floats(-2., 2.))
  return {'type': 'float', 'fun': name, 'lims': [lo, lo + draw(st.sampled_from([0.5, 1., 2.]))], 'vtype': True,
          'open': [draw(st.booleans()), draw(st.booleans())], 'flip': False, 'tuple': draw(st.booleans()),
          'ufun': None, 'swap': False, 'cov': draw(st.booleans()), 'again': draw(st.booleans())}

def make_sym(spec):
  """ A variable transformed symbolically, with or without change of variables, and its reference. """
  var = make('x', spec)
  sym, fun, back, _ = sym_ufuns()[spec['fun']]
  if spec['again']:
    var.set_ufun(sym(var[:]), no_ucov=spec['cov'])
  if spec['again'] or not spec['cov']:
    var.set_ufun(sym(var[:]), no_ucov=not spec['cov'])
  else:
    var.set_ufun(sym(var[:]))
  return (var, fun, back) if spec['cov'] else (var, lambda x: x, lambda u: u)

@law(LAWS, lambda: st.tuples(st_sym_var(), st.integers(1, 9)), quick=20, thorough=150, chunk=3)
def symbolic(case, ctx):
  """ Values are evenly spaced in the space of a symbolic transformation if that changes variables,
  and in that of the variable if not, which is also that its length is measured in. """
  spec, n = case
  var, fun, back = make_sym(spec)
  ends = [float(fun(v)) for v in spec['lims']]
  o0, o1 = spec['open']
  frac = np.arange(n) / max(n - 1., 1.) if n > 1 or o0 or o1 else np.array([0.5])
  if o0 and o1:
    frac = (np.arange(n) + 1.) / (n + 1.)
  elif o0:
    frac = (np.arange(n) + 1.) / n
  elif o1:
    frac = np.arange(n) / float(n)
  want = arr(back(ends[0] + frac * (ends[1] - ends[0])))
  got = arr(var({n})['x'])
  expect(got.shape == (n,) and np.allclose(got, want, rtol=1e-7, atol=tol_of(spec)),
         "grid {} rather than {}", got.tolist(), want.tolist())
  expect(np.isclose(num(var.length), abs(ends[1] - ends[0]), rtol=1e-7), "length {} from {} to {}",
         var.length, *ends)
  lo, hi = spec['lims']
  for count in [{-n}, {0}]:
    got = arr(var(count)['x'])
    expect(got.size == max(1, -min(count)) and np.all(got >= lo) and np.all(got <= hi), "{} gives {}",
           count, got.tolist())
  var.set_ufun()
  expect(np.isclose(num(var.length), hi - lo, rtol=1e-9), "length {} once untransformed", var.length)
  ctx.tag(spec['fun'], 'cov' if spec['cov'] else 'plain')
  ctx.interesting(n > 1)

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st.tuples(st_float_var(), st.integers(0, 12)), quick=400)
def float_random(case, ctx):
  """ A negative count gives that many random values, zero a scalar, all inside. """
  spec, n = case
  var = make('x', spec)
  lo, hi = spec['lims']
  tol = tol_of(spec)
  got = var({-n} if n else {0})['x']
  expect(np.ndim(got) == (1 if n else 0), "{} random values: {!r}", n, got)
  got = np.atleast_1d(arr(got))
  expect(got.size == max(1, n), "{} random values: {}", n, got.size)
  expect(np.all(got >= lo) and np.all(got <= hi), "{} outside of [{}, {}]",
         got.tolist(), lo, hi)
  expect(n < 2 or len(set(got.tolist())) > 1, "random values are all {}", got[0])
  default = np.asarray(var()['x'], dtype=float)
  expect(default.ndim == 0 and lo - tol <= default <= hi + tol,
         "default value {} of [{}, {}]", default, lo, hi)
  ctx.interesting(n > 1)

@law(LAWS, lambda: st.tuples(st_float_var(), st.integers(0, 2 ** 31)), quick=60, thorough=600)
def float_uniform(case, ctx):
  """ Random values are uniform in the transformed space. """
  spec, seed = case
  var = make('x', spec)
  np.random.seed(seed)
  n = 2000
  u = fwd(spec)(arr(var({-n})['x']))
  u0, u1 = sorted(float(fwd(spec)(v)) for v in spec['lims'])
  unit = np.sort((u - u0) / (u1 - u0))
  dist = np.max(np.abs(unit - (np.arange(n) + 0.5) / n))
  expect(dist < 0.065, "distance {} of {} values from uniform", dist, n) # p < 1e-7
  ctx.interesting()

@law(LAWS, lambda: st.tuples(st_discrete_var(), st.integers(-40, 40)), quick=500)
def discrete(case, ctx):
  """ Counts cycle through the set (in order), or through random permutations of it. """
  spec, n = case
  var = make('n', spec)
  vals = declared(spec)
  kind = bool if spec['type'] == 'bool' else int
  expect(var.vtype is kind, "type {} rather than {}", var.vtype, kind)
  expect(list(var.vset) == vals, "set {} rather than {}", var.vset, vals)
  full = np.asarray(var()['n'])
  expect(full.tolist() == vals and np.dtype(full.dtype).kind == ('b' if kind is bool else 'i'),
         "all values {!r} rather than {}", full, vals)
  got = var({n})['n']
  if n == 0:
    expect(np.ndim(got) == 0 and got in vals, "random value {!r} from {}", got, vals)
  else:
    got = np.asarray(got)
    expect(got.shape == (abs(n),), "{} values have shape {}", abs(n), got.shape)
    if n > 0:
      want = [vals[i % len(vals)] for i in range(n)]
      expect(got.tolist() == want, "{} values {} rather than {}", n, got.tolist(), want)
    else:
      count = collections.Counter(got.tolist())
      low, high = -n // len(vals), -(n // len(vals))
      expect(set(count) <= set(vals) and
             all(low <= count[v] <= high for v in vals),
             "{} random values of {} occur {}", -n, vals, dict(count))
  ctx.interesting(len(vals) > 1 and abs(n) > 1)
  ctx.tag(spec['how'])

# -----------------------------------------------------------------------------
@st.composite
def st_inside(draw):
  if draw(st.booleans()):
    spec = draw(st_float_var())
    lo, hi = spec['lims']
    pool = [lo, hi, (lo + hi) / 2., lo - 1., hi + 1., lo + 1e-6, hi - 1e-6,
            float(np.nextafter(lo, -math.inf)), float(np.nextafter(hi, math.inf))]
  else:
    spec = draw(st_discrete_var())
    pool = [int(v) for v in spec['vals']] + [41, -10, 3] + [float(spec['vals'][-1]), 0.5]
  xs = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=30))
  return {'spec': spec, 'xs': xs}

@law(LAWS, st_inside, quick=500)
def membership(case, ctx):
  """ Membership is exact, for scalars and arrays, however often a value occurs. """
  spec, xs = case['spec'], case['xs']
  var = make('x', spec)
  if spec['type'] == 'float':
    (lo, hi), (o0, o1) = spec['lims'], spec['open']
    want = [(x > lo if o0 else x >= lo) and (x < hi if o1 else x <= hi) for x in xs]
  else:
    want = [x in declared(spec) for x in xs]
  got = np.asarray(var.inside(np.array(xs)))
  expect(got.tolist() == want, "{} inside {}: {} rather than {}", xs, var.vset, got.tolist(), want)
  for x, w in list(zip(xs, want))[:4]:
    expect(bool(var.inside(x)) == w, "{} inside {}: {}", x, var.vset, var.inside(x))
    expect((x in var) == w, "{} in {}: {}", x, var.vset, x in var)
  ctx.interesting(len(set(want)) > 1)

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st.one_of(st_float_var(), st_discrete_var()), quick=300)
def limits(case, ctx):
  """ Limits, transformed limits, length and log-length; round trip of the transformation. """
  spec = case
  var = make('x', spec)
  if spec['type'] == 'float':
    lo, hi = spec['lims']
    u = [float(fwd(spec)(v)) for v in spec['lims']]
    expect(var.vtype is float, "type {}", var.vtype)
    expect(np.allclose(arr(var.vlims), [lo, hi]), "limits {} rather than {}", var.vlims, [lo, hi])
    expect(np.allclose(np.sort(arr(var.ulims)), sorted(u)), "transformed limits {} rather than {}",
           var.ulims, u)
    expect(bool(var.isfinite), "not finite")
    length = abs(u[1] - u[0])
    if spec.get('ufun'):
      xs = np.linspace(lo, hi, 7)
      back = arr(var.ufun[-1](var.ufun[0](xs)))
      expect(np.allclose(back, xs, atol=tol_of(spec)), "inverse of transformation {} -> {}",
             xs.tolist(), back.tolist())
  else:
    vals = declared(spec)
    length = float(len(vals))
    expect([int(v) for v in var.vlims] == [int(min(vals)), int(max(vals))], "limits {}", var.vlims)
  expect(np.isclose(num(var.length), length), "length {} rather than {}", var.length, length)
  expect(np.isclose(num(var.lhv), np.log(length)), "log length {} rather than {}", var.lhv,
         np.log(length))
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_passed(draw):
  spec = draw(st.one_of(st_float_var(), st_discrete_var()))
  if spec['type'] == 'float':
    vals = draw(st.lists(st.floats(*spec['lims']), min_size=1, max_size=6))
  else:
    vals = draw(st.lists(st.sampled_from(spec['vals']), min_size=1, max_size=6))
  return {'spec': spec, 'vals': vals, 'how': draw(st.sampled_from(['arg', 'name', 'var', 'scalar']))}

@law(LAWS, st_passed, quick=250)
def values_pass(case, ctx):
  """ Given values are returned as they are, however they are keyed. """
  spec, vals, how = case['spec'], case['vals'], case['how']
  var = make('x', spec)
  given = vals[0] if how == 'scalar' else np.array(vals)
  keep = np.array(given, copy=True)
  dist = var({'x': given}) if how == 'name' else var({var: given}) if how == 'var' else var(given)
  expect(list(dist.keys()) == ['x'], "keys {}", list(dist))
  expect(np.shape(dist['x']) == np.shape(keep) and np.array_equal(dist['x'], keep),
         "values {} became {}", vals, dist['x'])
  expect(np.array_equal(given, keep), "values were altered to {}", given)
  ctx.interesting(len(vals) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_history(draw):
  steps = []
  for _ in range(draw(st.integers(1, 6))):
    kind = draw(st.sampled_from(['vset', 'ufun', 'noufun', 'eval']))
    lo, hi = draw(st_interval('pos'))
    steps.append([kind, draw(st.sampled_from(['log', 'sqrt', 'recip', 'affine', 'cube'])),
                  [lo, hi], [draw(st.booleans()), draw(st.booleans())], draw(st.integers(1, 6))])
  return {'first': draw(st_float_var('affine')), 'start': draw(st_interval('pos')), 'steps': steps}

@law(LAWS, st_history, quick=300)
def redefinition(case, ctx):
  """ Values always follow the latest set and the latest transformation (or none). """
  spec = dict(case['first'])
  spec['lims'], spec['ufun'] = list(case['start']), None
  var = make('x', spec)
  changes = 0
  for kind, ufun, lims, opens, n in case['steps'] + [['eval', None, None, None, 4]]:
    if kind == 'vset':
      spec.update(lims=lims, open=opens, tuple=False, flip=False)
      var.vset = interval_set(spec)
    elif kind == 'ufun':
      spec['ufun'] = ufun
      var.set_ufun(UFUNS[ufun][:2])
    elif kind == 'noufun':
      spec['ufun'] = None
      var.set_ufun()
    changes += kind != 'eval'
    got, want = arr(var({n})['x']), grid_of(spec, n)
    expect(got.shape == want.shape and np.allclose(got, want, atol=tol_of(spec)),
           "after {}: {} rather than {}", kind, got.tolist(), want.tolist())
    u = [float(fwd(spec)(v)) for v in spec['lims']]
    expect(np.isclose(num(var.length), abs(u[1] - u[0])), "after {}: length {}", kind, var.length)
  ctx.interesting(changes > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_alias(draw):
  return {'lims': draw(st.lists(st.integers(-20, 20), min_size=2, max_size=2, unique=True)),
          'open': [draw(st.booleans()), draw(st.booleans())], 'n': draw(st.integers(1, 5))}

@law(LAWS, st_alias, quick=150)
def independence(case, ctx):
  """ Declaring a variable does not alter the set passed, nor other variables so declared. """
  import probayes as pb
  lims = sorted(case['lims'])
  vset = [(lims[0],) if case['open'][0] else lims[0], (lims[1],) if case['open'][1] else lims[1]]
  keep = list(vset)
  x = pb.Variable('x', vtype=float, vset=vset)
  expect(vset == keep and [type(v) for v in vset] == [type(v) for v in keep],
         "set {} altered to {}", keep, vset)
  want = arr(x({case['n']})['x'])
  if not any(case['open']):
    n = pb.Variable('n', vtype=int, vset=vset)
    expect(n.vtype is int and all(type(v) is int for v in n.vset), "set of integers {}", n.vset)
    expect(all(type(v) is float for v in x.vset), "set of floats became {}", x.vset)
  vset[0], vset[1] = 1000., 2000.
  x.set_ufun((lambda v: v, lambda v: v))
  got = arr(x({case['n']})['x'])
  expect(np.allclose(got, want), "values {} became {}", want.tolist(), got.tolist())
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_field(draw):
  n = draw(st.integers(1, 4))
  names = draw(st.permutations(['x', 'y', 'n', 'b', 'zeta', "k_1"]))[:n]
  specs, vals = {}, {}
  for name in names:
    specs[name] = draw(st.one_of(st_float_var(), st_discrete_var()))
    spec = specs[name]
    how = draw(st.sampled_from(['count', 'count', 'scalar', 'array', 'random', 'one', 'omit']))
    if how == 'count':
      vals[name] = ['count', draw(st.integers(1, 4))]
    elif how == 'random':
      vals[name] = ['count', -draw(st.integers(1, 4))]
    elif how == 'one':
      vals[name] = ['count', 0]
    elif how == 'omit':
      vals[name] = ['omit']
    else:
      pool = st.floats(*spec['lims']) if spec['type'] == 'float' else st.sampled_from(spec['vals'])
      xs = draw(st.lists(pool, min_size=1, max_size=4))
      vals[name] = [how, xs]
  shared = None
  if n > 1 and draw(st.booleans()):
    shared = draw(st.permutations(names))[:draw(st.integers(2, n))]
    shared = [name for name in names if name in shared]
    if draw(st.booleans()):
      shared = draw(st.permutations(shared))
  count = draw(st.integers(1, 5)) * draw(st.sampled_from([1, -1]))
  return {'names': names, 'specs': specs, 'vals': vals, 'shared': shared, 'count': count,
          'by': draw(st.sampled_from(['name', 'var']))}

def check_values(dist, names, specs, how, shared):
  """ Checks values and dimensions of a distribution over a field; returns its dimensionality. """
  expect(list(dist.keys()) == names, "keys {} rather than {}", list(dist.keys()), names)
  dim, want_dims, seen = 0, {}, None
  scalar = {name: how[name][0] == 'scalar' or (how[name][0] == 'count' and how[name][1] == 0)
            for name in names}
  for name in names: # those specified jointly take the place of the first of them
    if name in shared:
      if seen is None and not all(scalar[other] for other in shared):
        seen = dim
        dim += 1
      want_dims[name] = None if scalar[name] else seen
    elif scalar[name]:
      want_dims[name] = None
    else:
      want_dims[name] = dim
      dim += 1
  for name in names:
    val, kind, spec = dist[name], how[name], specs[name]
    expect(dist.dims[name] == want_dims[name], "{} has dimension {} rather than {}", name,
           dist.dims[name], want_dims[name])
    if want_dims[name] is None:
      expect(np.ndim(val) == 0, "{} is {!r}", name, val)
    else:
      shape = [1] * dim
      shape[want_dims[name]] = np.size(val)
      expect(np.shape(val) == tuple(shape), "{} has shape {} rather than {}", name, np.shape(val),
             shape)
    flat = np.ravel(val)
    if kind[0] in ('scalar', 'array'):
      given = kind[1][:1] if kind[0] == 'scalar' else kind[1]
      expect(flat.tolist() == [v for v in given], "{} = {} became {}", name, given, flat.tolist())
    elif kind[0] == 'omit':
      expect(flat.tolist() == declared(spec), "{} is {} rather than {}", name, flat.tolist(),
             declared(spec))
    elif kind[1] > 0:
      if spec['type'] == 'float':
        want = grid_of(spec, kind[1])
        expect(flat.shape == want.shape and np.allclose(flat, want, atol=tol_of(spec)),
               "{} is {} rather than {}", name, flat.tolist(), want.tolist())
      else:
        full = declared(spec)
        expect(flat.tolist() == [full[i % len(full)] for i in range(kind[1])], "{} is {}", name,
               flat.tolist())
    else:
      expect(flat.size == max(1, -kind[1]), "{} random values {}", name, flat.tolist())
      if spec['type'] == 'float':
        expect(np.all(flat >= spec['lims'][0] - tol_of(spec)) and
               np.all(flat <= spec['lims'][1] + tol_of(spec)), "{} outside: {}", name, flat.tolist())
      else:
        expect(set(flat.tolist()) <= set(declared(spec)), "{} outside: {}", name, flat.tolist())
  return dim

@law(LAWS, st_field, quick=500, floor=0.2)
def field_values(case, ctx):
  """ A field gives each variable its own dimension (unless specified jointly), in order;
  scalars have none; the values are those of the variables. """
  import probayes as pb
  names, specs = case['names'], case['specs']
  made = {name: make(name, specs[name]) for name in names}
  field = pb.Field(*[made[name] for name in names])
  shared = case['shared'] or []
  args, how = {}, {}
  for name in names:
    if name in shared:
      how[name] = ['count', case['count']]
      continue
    kind = case['vals'][name]
    how[name] = kind
    if kind[0] == 'omit':
      continue
    value = {kind[1]} if kind[0] == 'count' else kind[1][0] if kind[0] == 'scalar' \
            else np.array(kind[1])
    args[made[name] if case['by'] == 'var' else name] = value
  if shared:
    key = ','.join(shared) if case['by'] == 'name' else tuple(made[name] for name in shared)
    args[key] = {case['count']}
  if any(specs[n]['type'] == 'float' for n in names) and \
      any(how[n][0] == 'omit' for n in names):
    skip() # defaults then depend upon the other specifications
  dist = field(args)
  dim = check_values(dist, names, specs, how, shared)
  ctx.interesting(dim > 0 and len(names) > 1)
  ctx.tag('shared' if shared else 'separate')

# -----------------------------------------------------------------------------
@st.composite
def st_infinite(draw):
  x = draw(st.sampled_from([0., 1., -2.5]) | st.floats(-50., 50.))
  ends = draw(st.sampled_from([['-', '+'], ['-', None], [None, '+']]))
  return {'x': x, 'ends': ends, 'how': draw(st.sampled_from(['list', 'tuple', 'open', 'half', 'none'])),
          'sympy': draw(st.booleans()), 'vtype': draw(st.booleans()), 'n': draw(st.integers(-4, 4)),
          'random': draw(st.booleans()),
          'at': draw(st.lists(st.floats(-1e3, 1e3) | st.sampled_from([1e300, -1e300, 0.]), min_size=1, max_size=5))}

@law(LAWS, st_infinite, quick=200)
def infinite(case, ctx):
  """ Infinite limits, however they are written, leave a side unbounded; no values are spread over
  an infinite range, but given ones pass. """
  import probayes as pb
  from sympy import oo
  big = oo if case['sympy'] else math.inf
  x, how = case['x'], case['how']
  ends = [{'-': -big, '+': big, None: x}[end] for end in case['ends']]
  cls = pb.RV if case['random'] else pb.Variable
  if how == 'none' or how == 'half' and case['ends'] == ['-', '+']:
    ends, case = [-math.inf, math.inf], dict(case, ends=['-', '+'])
    var = cls('x', vtype=float)
  else:
    vset = {'list': list(ends), 'tuple': tuple(ends), 'open': [(ends[0],), (ends[1],)],
            'half': [(end,) if side else end for end, side in zip(ends, case['ends'])]}[how]
    var = cls('x', vtype=float, vset=vset) if case['vtype'] or how == 'half' else cls('x', vset=vset)
  lims = [float(end) for end in ends]
  expect(var.vtype is float, "type {} of {}", var.vtype, var.vset)
  expect([float(v) for v in var.vlims] == lims, "limits {} rather than {}", var.vlims, lims)
  expect(not var.isfinite and num(var.length) == math.inf, "{} has length {}, finite {}", var.vset,
         var.length, var.isfinite)
  closed = how in ('list', 'half')
  for at in case['at'] + [x, x - 1., x + 1.]:
    want = lims[0] < at < lims[1] or closed and at in lims
    expect(bool(var.inside(at)) == want and (at in var) == want, "{} inside {}: {}", at, var.vset,
           var.inside(at))
  given = np.array(case['at'])
  expect(np.array_equal(arr(var(given)['x']), given), "{} given became {}", given, var(given)['x'])
  try:
    got = var({case['n']})
  except Exception:
    ctx.interesting()
    return
  broken("{} values over {}: {!r}", case['n'], var.vset, got)

# -----------------------------------------------------------------------------
@st.composite
def st_refuse(draw):
  return {'kind': draw(st.sampled_from(['infinite', 'mixed', 'unknown', 'onesided'])),
          'n': draw(st.integers(-4, 4)), 'x': draw(st.floats(-5., 5.))}

@law(LAWS, st_refuse, quick=100, floor=0.)
def refuses(case, ctx):
  """ Values cannot be spread over an infinite range; sets must have one type. """
  import probayes as pb
  oo = __import__('sympy').oo
  kind = case['kind']
  try:
    if kind == 'infinite':
      got = pb.Variable('x', vtype=float)({case['n']})
    elif kind == 'onesided':
      got = pb.Variable('x', vtype=float, vset=[case['x'], (oo,)])({case['n']})
    elif kind == 'mixed':
      got = pb.Variable('x', vset=[True, 3, 4])
    else:
      got = pb.Field(pb.Variable('x', vtype=float, vset=[0., 1.]))({'y': 1.})
  except Exception:
    ctx.interesting()
    return
  broken("{} accepted: {!r}", kind, got)

# -----------------------------------------------------------------------------
@st.composite
def st_plural(draw):
  return {'spec': draw(st.one_of(st_float_var(''), st_discrete_var())),
          'names': draw(st.lists(st.sampled_from(['x', 'y', 'z', 'k_1', 'n0']), min_size=1, max_size=4,
                                 unique=True)),
          'string': draw(st.booleans()), 'random': draw(st.booleans()), 'keys': draw(st.booleans()),
          'n': draw(st.integers(1, 6)), 'lims': draw(st_interval())}

@law(LAWS, st_plural, quick=150)
def plural(case, ctx):
  """ Variables declared together are as if declared one by one, and independent of one another. """
  import probayes as pb
  spec, names = dict(case['spec'], ufun=None), case['names']
  cls, func = (pb.RV, pb.RVs) if case['random'] else (pb.Variable, pb.variables)
  given = {}
  def record(name, vset=None, vtype=None):
    given.update(vset=vset, vtype=vtype)
    return cls(name, vset, vtype)
  one = make('q', spec, record)
  vset, vtype = given['vset'], given['vtype']
  if isinstance(vset, type):
    vset, vtype = vtype, vset
  arg = ','.join(names) if case['string'] else list(names)
  got = func(arg, vtype=vtype, vset=vset) if case['keys'] else func(arg, vtype, vset)
  expect(isinstance(got, tuple) and [v.name for v in got] == names, "{} declared as {}", names, got)
  def check(var, name):
    expect(type(var) is cls and var.vtype is one.vtype, "{}: {} of type {}", name, type(var), var.vtype)
    if one.vset is not None:
      expect(list(var.vset) == list(one.vset) and str(var.vset) == str(one.vset), "{}: set {} rather than {}",
             name, var.vset, one.vset)
    vals, want = np.ravel(var({case['n']})[name]), np.ravel(one({case['n']})['q'])
    expect(np.array_equal(vals, want), "{}: values {} rather than {}", name, vals, want)
  for var, name in zip(got, names):
    check(var, name)
  if len(names) > 1: # redefining one does not affect the others
    got[0].vtype = float
    got[0].vset = list(case['lims'])
    got[0].set_delta(0.5)
    for var, name in zip(got[1:], names[1:]):
      check(var, name)
      expect(var.delta is None or callable(var.delta), "{}: delta {}", name, var.delta)
  ctx.interesting(len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_selection(draw):
  names = draw(st.lists(st.sampled_from(['x', 'y', 'z', 'k_1', 'n0']), min_size=2, max_size=5, unique=True))
  pick = draw(st.lists(st.integers(0, len(names) - 1), min_size=1, max_size=len(names), unique=True))
  return {'specs': [draw(st.one_of(st_float_var(''), st_discrete_var())) for _ in names], 'names': names,
          'order': draw(st.permutations(range(len(names)))), 'pick': pick, 'n': draw(st.integers(1, 4)),
          'how': [draw(st.sampled_from(['name', 'var', 'field'])) for _ in pick],
          'form': draw(st.sampled_from(['list', 'tuple', 'lone', 'and'])), 'grow': draw(st.integers(0, 2))}

@law(LAWS, st_selection, quick=100)
def selection(case, ctx):
  """ Fields of the same variables are equal, and a part of one has just the variables selected. """
  import probayes as pb
  names, pick = case['names'], case['pick']
  made = [make(name, dict(spec, ufun=None)) for name, spec in zip(names, case['specs'])]
  field, other = pb.Field(*made[:case['grow']] or made), pb.Field(*[made[i] for i in case['order']])
  if 0 < case['grow'] < len(made):
    more = made[case['grow']:]
    field.add_var(more[0] if len(more) == 1 else pb.Field(*more) if case['n'] == 1 else more)
  expect(list(field.keylist) == names and field.name == ','.join(names), "{} has variables {}", names, field.keylist)
  expect(field == other and not field != other, "{} and {} differ", field, other)
  expect(list(other.keys()) == [names[i] for i in case['order']] if hasattr(other, 'keys') else
         list(other.keylist) == [names[i] for i in case['order']], "variables of {}", other)
  expect(len(field) == len(names) and bool(field), "{} has {} variables", field, len(field))
  for i, name in enumerate(names):
    expect(field[name] is made[i] and field[i] is made[i], "{} of {} is {}", name, field, field[name])
  expect(field['nothere'] is None, "{} of {}", field['nothere'], field)
  if case['form'] == 'lone':
    pick = pick[:1]
  parts = [{'name': names[i], 'var': made[i], 'field': pb.Field(made[i])}[how] for i, how in zip(pick, case['how'])]
  if case['form'] == 'and':
    arg = made[pick[0]]
    for i in pick[1:]:
      arg = arg & made[i]
  else:
    arg = parts[0] if case['form'] == 'lone' else (tuple if case['form'] == 'tuple' else list)(parts)
  part = field.subfield(arg)
  expect(type(part) is pb.Field and list(part.keylist) == [names[i] for i in pick], "{} of {} has {}", arg, names,
         part.keylist)
  if len(pick) < len(names):
    expect(part != field and not part == field, "{} and {} are equal", part, field)
  given = {names[i]: {case['n']} for i in pick}
  got, want = part(dict(given)), pb.Field(*[made[i] for i in pick])(dict(given))
  for i in pick:
    expect(part[names[i]] is made[i], "{} of {} is {}", names[i], part, part[names[i]])
    expect(np.array_equal(got[names[i]], want[names[i]]), "{}: {} rather than {}", names[i], got[names[i]],
           want[names[i]])
  for bad in ('nothere', pb.Variable('nothere'), pb.Variable(names[0], vtype=float), 1.5):
    try:
      got = field.subfield(bad)
    except Exception:
      continue
    broken("part {} of {} was accepted: {}", bad, names, got.keylist)
  ctx.tag(case['form'])
  ctx.interesting(len(pick) > 1)
