"""Deltas (steps, proposals): how far they move, and that they stay in bounds."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p12_variables as pv

LAWS = []
SCALE = 6 # multiplies the numbers of quick cases
RULE = ("random float (open / closed / half-open, optionally transformed), integer and boolean "
        "variables and fields of 2-4 of them; fixed, uniform, polarity-randomised, spherical, "
        "callable deltas, bounded or not, on scalars and arrays, single or as random walks; "
        "non-trivial: the delta moves at least one value")

KINDS = ['log', 'cube', 'neg', 'affine', 'exp']

@st.composite
def st_var(draw, ufuns=True, ints=True, finite=True):
  if ints and draw(st.integers(0, 3)) == 0:
    lo = draw(st.integers(-5, 5))
    vals = list(range(lo, lo + draw(st.integers(2, 12))))
    return {'type': 'int', 'how': 'range', 'vals': vals, 'step': 1, 'swap': False}
  ufun = draw(st.sampled_from([None, None, None] + KINDS)) if ufuns else None
  spec = draw(pv.st_float_var(ufun or 'affine'))
  spec['ufun'] = ufun
  lo, hi = draw(st.sampled_from([(0., 1.), (1., 4.), (0.5, 2.5), (1., 8.)] if ufun else
                                [(0., 1.), (-2., 2.), (1., 4.), (-10., 0.)]))
  spec['lims'] = [lo if ufun != 'log' else max(lo, 0.5), hi]
  return spec

@st.composite
def st_start(draw, spec, n=None):
  """ Starting values inside of the set (multiples of 1/8 where possible). """
  if spec['type'] == 'int':
    return draw(st.sampled_from(spec['vals']))
  lo, hi = spec['lims']
  steps = int(round((hi - lo) * 8))
  first = 1 if spec['open'][0] else 0
  last = steps - (1 if spec['open'][1] else 0)
  return lo + draw(st.integers(first, last)) / 8.

@st.composite
def st_move(draw):
  spec = draw(st_var())
  n = draw(st.sampled_from([0, 0, 1, 3, 5]))
  vals = [draw(st_start(spec)) for _ in range(max(1, n))]
  if spec['type'] == 'int':
    delta = draw(st.integers(-8, 8))
  else:
    kind = draw(st.integers(0, 4))
    delta = draw(st.integers(-40, 40)) / 8. if kind < 2 else draw(st.floats(-3., 3.))
    if kind > 2: # a move exactly onto a limit
      spec['ufun'] = None if kind == 4 else spec['ufun']
      delta = draw(st.sampled_from(spec['lims'])) - draw(st.sampled_from(vals))
  if draw(st.integers(0, 11)) == 11:
    delta = 0 if spec['type'] == 'int' else 0.
  return {'spec': spec, 'n': n, 'vals': vals, 'delta': delta,
          'bound': draw(st.sampled_from([None, False, True, True])), 'float': draw(st.booleans()),
          'before': draw(st.sampled_from([None, None, None, {'bound': True}, {'scale': True},
                                          {'bound': True, 'scale': True}])),
          'how': draw(st.sampled_from(['arg', 'delta', 'default', 'eval', 'evalarg', 'dict', 'kwd']))}

def bounded(spec, v, new):
  """ Where a bounded move from v to new ends. """
  if spec['type'] == 'int':
    return min(max(new, min(spec['vals'])), max(spec['vals']))
  (lo, hi), (o0, o1) = spec['lims'], spec['open']
  if new < lo or (o0 and new <= lo):
    return v if o0 else lo
  if new > hi or (o1 and new >= hi):
    return v if o1 else hi
  return new

def moved(spec, v, delta):
  if spec['type'] == 'int':
    return v + delta
  if not spec.get('ufun'):
    return v + delta
  with np.errstate(all='ignore'):
    return float(pv.inv(spec)(float(pv.fwd(spec)(v)) + delta))

def inside(spec, v):
  if spec['type'] == 'int':
    return v in spec['vals']
  (lo, hi), (o0, o1) = spec['lims'], spec['open']
  return (v > lo if o0 else v >= lo) and (v < hi if o1 else v <= hi)

@law(LAWS, st_move, quick=1200)
def fixed(case, ctx):
  """ A fixed delta is added (in transformed space); if bounded, a move beyond a closed limit
  ends there and a move to or beyond an open limit is not made. """
  spec, vals, delta, how = case['spec'], case['vals'], case['delta'], case['how']
  if spec['type'] == 'int' and case['float']:
    delta = float(delta) # a whole number
  var = pv.make('x', spec)
  given = np.array(vals) if case['n'] else vals[0]
  keep = np.array(given, copy=True)
  if spec.get('ufun') == 'exp' and any(math.exp(v) + delta <= 0. for v in vals):
    skip()
  bound = case['bound']
  kwds = {} if bound is None else {'bound': bound}
  if case['before']: # an earlier default delta leaves no trace
    var.set_delta(0.5, **case['before'])
    if how == 'kwd':
      var.set_delta()
  if how == 'default':
    var.set_delta(delta, **kwds)
    got = var.apply_delta(given)
  elif how == 'eval':
    var.set_delta(delta, **kwds)
    step = var.eval_delta()
    expect(isinstance(step, var.Delta) and step[0] == delta, "delta {} evaluated as {}", delta, step)
    got = var.apply_delta(given, step)
  elif how == 'evalarg':
    var.set_delta(delta + 1, **kwds)
    step = var.eval_delta(delta)
    expect(isinstance(step, var.Delta) and step[0] == delta, "delta {} evaluated as {}", delta, step)
    got = var.apply_delta(given, step)
  elif how == 'kwd':
    got = var.apply_delta(given, delta, **kwds)
  else:
    var.set_delta(delta + 1, **kwds) # another default must not matter
    got = var.apply_delta({'x': given} if how == 'dict' else given,
                          var.Delta(delta) if how == 'delta' else delta)
  expect(np.array_equal(given, keep), "the original values became {}", given)
  expect(np.shape(got) == np.shape(given), "{!r} became {!r}", given, got)
  if spec['type'] == 'int':
    kind = np.asarray(got).dtype
    expect(np.issubdtype(kind, np.integer), "integers {} + {} became {}", vals, delta, kind)
  tol = 0. if not spec.get('ufun') else pv.tol_of(spec)
  for v, new in zip(vals, np.ravel(got).tolist()):
    free = moved(spec, v, delta)
    want = bounded(spec, v, free) if bound else free
    close = tol and min(abs(free - lim) for lim in spec['lims']) < 1e-6 * (1. + abs(free))
    if bound and close:
      continue
    expect(abs(new - want) <= tol * (1. + abs(want)), "{} + {} in {}{} gives {} rather than {}",
           v, delta, var.vset, ' bounded' if bound else '', new, want)
  if bound and not tol:
    expect(np.all(var.inside(np.asarray(got))), "{} + {} left {}: {}", vals, delta, var.vset, got)
  ctx.interesting(delta != 0)
  ctx.tag(how, 'bound' if bound else 'free', 'array' if case['n'] else 'scalar')

# -----------------------------------------------------------------------------
@st.composite
def st_random(draw):
  spec = draw(st_var())
  size = draw(st.integers(1, 4)) if spec['type'] == 'int' else draw(st.floats(0.01, 3.))
  return {'spec': spec, 'size': size, 'minus': draw(st.integers(0, 3)) == 3, 'list': draw(st.booleans()), 'arg': draw(st.booleans()),
          'seed': draw(st.integers(0, 2 ** 31))}

@law(LAWS, st_random, quick=200)
def randomised(case, ctx):
  """ A list gives deltas uniform between -size and +size; a tuple gives +size or -size. """
  spec, size = case['spec'], case['size']
  var = pv.make('x', spec)
  delta = [size] if case['list'] else (-size if case['minus'] else size,)
  if not case['arg']:
    var.set_delta(delta)
  np.random.seed(case['seed'])
  n = 400
  got = [var.eval_delta(delta) if case['arg'] else var.eval_delta() for _ in range(n)]
  got = np.array([num(d[0]) for d in got])
  if not case['list']:
    expect(set(got.tolist()) == {size, -size}, "deltas {} are {}", delta, sorted(set(got)))
    expect(abs(np.mean(got > 0) - 0.5) < 0.14, "{} of deltas ({},) positive", np.mean(got > 0), size)
  elif spec['type'] == 'int':
    expect(set(got.tolist()) == set(range(-size, size + 1)), "deltas [{}] are {}", size,
           sorted(set(got)))
    expect(abs(np.mean(got)) < 0.3 * (size + 1), "mean of deltas [{}] is {}", size, np.mean(got))
  else:
    expect(np.all(np.abs(got) <= size), "deltas [{}] up to {}", size, np.max(np.abs(got)))
    unit = np.sort((got / size + 1.) / 2.)
    far = np.max(np.abs(unit - (np.arange(n) + 0.5) / n))
    expect(far < 0.15, "deltas [{}] not uniform: {}", size, far) # p < 1e-7
  ctx.interesting()
  ctx.tag(spec['type'])

# -----------------------------------------------------------------------------
@st.composite
def st_scaled(draw):
  spec = draw(st_var(ints=False))
  if spec.get('ufun') == 'exp':
    spec['ufun'] = None
  return {'spec': spec, 'vals': draw(st.lists(st_start(spec), min_size=1, max_size=3)), 'array': draw(st.booleans()),
          'size': draw(st.sampled_from([0.125, 0.5, -0.25, 1., 0.])), 'bound': draw(st.booleans()),
          'kind': draw(st.sampled_from(['scalar', 'Delta', 'list', 'tuple'])), 'how': draw(st.sampled_from(['eval', 'apply'])),
          'seed': draw(st.integers(0, 2 ** 31))}

@law(LAWS, st_scaled, quick=200)
def scaled(case, ctx):
  """ Scaled defaults are in proportion to the (transformed) length; deltas passed are not. """
  spec, size, kind = case['spec'], case['size'], case['kind']
  var = pv.make('x', spec)
  fwd = pv.fwd(spec)
  length = abs(float(fwd(spec['lims'][1])) - float(fwd(spec['lims'][0])))
  if kind in ('list', 'tuple'):
    size = abs(size)
  var.set_delta({'scalar': size, 'Delta': var.Delta(size), 'list': [size], 'tuple': (size,)}[kind],
                scale=True, bound=case['bound'])
  vals = case['vals'] if case['array'] else case['vals'][:1]
  given = np.array(vals) if case['array'] else vals[0]
  tol = 1e-9 if not spec.get('ufun') else 10 * pv.tol_of(spec)
  np.random.seed(case['seed'])
  for i in range(8):
    if case['how'] == 'eval':
      delta = var.eval_delta()
      step = num(delta[0])
      if kind == 'list':
        expect(abs(step) <= size * length * (1. + 1e-12), "delta [{}] of length {} is {}", size, length, step)
      elif kind == 'tuple':
        expect(np.isclose(abs(step), size * length), "delta ({},) of length {} is {}", size, length, step)
      else:
        expect(np.isclose(step, size * length), "delta {} of length {} is {}", size, length, step)
      got = var.apply_delta(given, delta)
      frees = [[moved(spec, v, step)] for v in vals]
    else:
      got = var.apply_delta(given)
      step = size * length
      frees = [[moved(spec, v, step)] + ([moved(spec, v, -step)] if kind in ('list', 'tuple') else [])
               for v in vals]
    for v, free, new in zip(vals, frees, np.ravel(got).tolist()):
      near = any(abs(f - lim) < 1e-6 * (1. + abs(f)) for f in free for lim in spec['lims'])
      if near and case['bound']:
        continue
      wants = [bounded(spec, v, f) if case['bound'] else f for f in free]
      if any(not np.isfinite(w) for w in wants):
        continue
      if case['how'] == 'apply' and kind == 'list':
        if not case['bound']:
          expect(min(wants) - tol * (1. + abs(min(wants))) <= new <= max(wants) + tol * (1. + abs(max(wants))),
                 "{} moved by [{}] of length {} is {}", v, size, length, new)
        continue
      expect(min(abs(new - w) / (1. + abs(w)) for w in wants) <= tol,
             "{} moved by {} {} of length {}{} is {} rather than {}", v, kind, size, length,
             ' bounded' if case['bound'] else '', new, wants)
  other = size + 0.375
  step = var.eval_delta(other)
  expect(np.isclose(num(step[0]), other), "delta {} passed became {}", other, step)
  ctx.tag(kind, case['how'])
  ctx.interesting(size != 0 and length != 1.)

# -----------------------------------------------------------------------------
@st.composite
def st_symbolic(draw):
  spec = draw(pv.st_sym_var())
  lo, hi = spec['lims']
  return {'spec': spec, 'vals': [lo + draw(st.floats(0.05, 0.95)) * (hi - lo) for _ in range(draw(st.integers(1, 3)))],
          'size': draw(st.sampled_from([0.125, -0.125, 0.25, -0.5])), 'scale': draw(st.booleans()),
          'bound': draw(st.booleans())}

@law(LAWS, st_symbolic, quick=16, thorough=120, chunk=3)
def symbolic(case, ctx):
  """ Deltas are added, and scaled by length, in the space of a symbolic transformation only if that
  changes variables. """
  spec, size = case['spec'], case['size']
  var, fun, back = pv.make_sym(spec)
  step = size * (abs(float(fun(spec['lims'][1])) - float(fun(spec['lims'][0]))) if case['scale'] else 1.)
  var.set_delta(size, scale=case['scale'], bound=case['bound'])
  expect(np.isclose(num(var.eval_delta()[0]), step, rtol=1e-7), "delta is {} rather than {}",
         var.eval_delta(), step)
  got = np.ravel(var.apply_delta(np.array(case['vals']))).tolist()
  for v, new in zip(case['vals'], got):
    moved_to = float(fun(v)) + step
    if moved_to <= 0. and spec['cov'] and spec['fun'] not in ('affine', 'log'):
      continue # outside the domain of the inverse
    want = bounded(spec, v, float(back(moved_to)))
    if not case['bound']:
      want = float(back(moved_to))
    elif min(abs(float(back(moved_to)) - lim) for lim in spec['lims']) < 1e-6:
      continue
    expect(abs(new - want) <= 1e-6 * (1. + abs(want)), "{} moved by {} {} is {} rather than {}", v, step,
           'bounded' if case['bound'] else 'free', new, want)
  ctx.tag(spec['fun'], 'cov' if spec['cov'] else 'plain')
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_walk(draw):
  spec = draw(st_var())
  if spec['type'] == 'int':
    size = draw(st.integers(1, 5))
  else:
    size = draw(st.sampled_from([0.125, 0.5, 1.]) | st.floats(0.01, 4.))
  if spec.get('ufun') == 'exp':
    spec['ufun'] = None
  return {'spec': spec, 'start': draw(st_start(spec)), 'size': size,
          'kind': draw(st.sampled_from(['list', 'tuple', 'up', 'down'])),
          'seed': draw(st.integers(0, 2 ** 31))}

@law(LAWS, st_walk, quick=300)
def walk(case, ctx):
  """ A bounded random walk never leaves the set, nor steps further than the delta. """
  spec, size = case['spec'], case['size']
  var = pv.make('x', spec)
  delta = {'list': [size], 'tuple': (size,), 'up': size, 'down': -size}[case['kind']]
  var.set_delta(delta, bound=True)
  np.random.seed(case['seed'])
  value = case['start']
  tol = pv.tol_of(spec) if spec['type'] == 'float' else 0.
  seen = set()
  for i in range(30):
    new = var.apply_delta(value)
    if spec.get('ufun'):
      expect(spec['lims'][0] - tol <= new <= spec['lims'][1] + tol, "step {} from {} to {} leaves {}",
             i, value, new, var.vset)
    else:
      expect(inside(spec, new), "step {} from {} to {} leaves {}", i, value, new, var.vset)
    fwd = pv.fwd(spec) if spec['type'] == 'float' else float
    step = abs(float(fwd(new)) - float(fwd(value)))
    expect(step <= size * (1. + 1e-9) + 10. * tol, "step {} from {} to {} exceeds {}", i, value, new,
           size)
    seen.add(new)
    value = new
  ctx.interesting(len(seen) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_bool(draw):
  return {'vals': draw(st.lists(st.booleans(), min_size=1, max_size=5)), 'n': draw(st.booleans()),
          'delta': draw(st.sampled_from([True, False, 0, 1, 2, 3])), 'how': draw(st.booleans())}

@law(LAWS, st_bool, quick=100)
def boolean(case, ctx):
  """ A fixed delta flips booleans if odd and leaves them if even. """
  import probayes as pb
  var = pb.Variable('b')
  given = np.array(case['vals']) if case['n'] else case['vals'][0]
  if case['how']:
    var.set_delta(True)
    got = var.apply_delta(given, case['delta'])
  else:
    var.set_delta(case['delta'])
    got = var.apply_delta(given)
  want = np.logical_xor(given, bool(int(case['delta']) % 2))
  expect(np.array_equal(got, want) and np.asarray(got).dtype == bool, "{} + {} is {!r}", given,
         case['delta'], got)
  ctx.interesting(len(case['vals']) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_bool_random(draw):
  return {'n': draw(st.sampled_from([0, 1, 5, 400])), 'list': draw(st.booleans()),
          'delta': draw(st.sampled_from([0., 1.]) | st.floats(0.05, 0.95)),
          'how': draw(st.sampled_from(['default', 'passed', 'dict'])), 'seed': draw(st.integers(0, 2 ** 31))}

@law(LAWS, st_bool_random, quick=60)
def boolean_random(case, ctx):
  """ Randomised deltas give booleans, flipping each of an array with the probability in a list,
  all or none for a tuple. """
  import probayes as pb
  var, delta, n = pb.Variable('b'), case['delta'], case['n']
  delta = [delta] if case['list'] else (delta,)
  np.random.seed(case['seed'])
  given = np.random.uniform(size=n) > 0.5 if n else bool(case['seed'] % 2)
  keep = np.copy(given)
  if case['how'] == 'passed':
    got = var.apply_delta(given, delta)
  else:
    var.set_delta(delta)
    got = var.apply_delta({'b': given} if case['how'] == 'dict' else given)
  expect(np.array_equal(given, keep), "the original values became {}", given)
  expect(np.shape(got) == np.shape(given) and np.asarray(got).dtype == bool, "{!r} became {!r}", given, got)
  flips = np.ravel(np.not_equal(got, given))
  if not case['list']:
    expect(np.all(flips) or not np.any(flips), "{} + {} is {}", given, delta, got)
  elif n:
    if case['delta'] in (0., 1.):
      expect(np.all(flips == (case['delta'] == 1.)), "{} of {} flipped with probability {}", flips.sum(), n,
             case['delta'])
    elif n == 400:
      p = case['delta']
      expect(abs(flips.mean() - p) < 0.02 + 6. * np.sqrt(p * (1. - p) / n), "{} of {} flipped with probability {}",
             flips.sum(), n, p)
  ctx.tag('list' if case['list'] else 'tuple')
  ctx.interesting(n > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_callable(draw):
  spec = draw(st_var(ufuns=False, ints=False))
  return {'spec': spec, 'val': draw(st_start(spec)), 'coef': draw(st.floats(0.1, 0.9)),
          'offs': draw(st.sampled_from([None, 0.25])), 'arg': draw(st.booleans())}

@law(LAWS, st_callable, quick=100)
def callables(case, ctx):
  """ A callable delta is called with the values (and its keywords). """
  import probayes as pb
  from probayes.expression import Expression
  spec, coef, offs = case['spec'], case['coef'], case['offs']
  var = pv.make('x', spec)
  func = lambda v, offs=0.: v * coef + offs
  kwds = {} if offs is None else {'offs': offs}
  if case['arg']:
    got = var.apply_delta(case['val'], Expression(func, **kwds))
  else:
    var.set_delta(func, **kwds)
    got = var.apply_delta(case['val'])
  expect(np.isclose(num(got), case['val'] * coef + (offs or 0.)), "callable delta of {} gives {}",
         case['val'], got)
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_field(draw):
  names = draw(st.permutations(['x', 'y', 'z', 'w']))[:draw(st.integers(2, 4))]
  kind = draw(st.sampled_from(['scalar', 'dict', 'Delta', 'list', 'tuple', 'passed', 'except']))
  specs = {name: draw(st_var(ufuns=kind != 'tuple', ints=kind != 'tuple')) for name in names}
  for spec in specs.values():
    if spec.get('ufun') == 'exp':
      spec['ufun'] = 'cube'
  return {'names': names, 'kind': kind, 'specs': specs,
          'start': {name: draw(st_start(specs[name])) for name in names},
          'sizes': {name: draw(st.integers(1, 6)) for name in names},
          'size': draw(st.integers(1, 3)), 'scale': draw(st.booleans()),
          'exlist': kind == 'except' and draw(st.booleans()), 'direct': draw(st.booleans()),
          'main': draw(st.sampled_from(['scalar', 'list'])), 'still': draw(st.integers(0, 3)) == 3,
          'bound': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 31))}

@law(LAWS, st_field, quick=500)
def fields(case, ctx):
  """ Deltas of a field move each variable by its own delta, leaving the others alone. """
  import probayes as pb
  names, specs, kind = case['names'], case['specs'], case['kind']
  made = {name: pv.make(name, specs[name]) for name in names}
  field = pb.Field(*[made[name] for name in names])
  lens = {}
  for name in names:
    spec = specs[name]
    lens[name] = float(len(spec['vals'])) if spec['type'] == 'int' else \
                 abs(float(pv.fwd(spec)(spec['lims'][1])) - float(pv.fwd(spec)(spec['lims'][0])))
  floats = all(spec['type'] == 'float' for spec in specs.values())
  sizes = {n: s if specs[n]['type'] == 'int' else s / 8. for n, s in case['sizes'].items()}
  if case['still'] and kind in ('dict', 'Delta', 'passed'):
    sizes[names[0]] = 0
  size = case['size'] / 8. if floats else case['size']
  scale, bound = case['scale'] and floats, case['bound']
  np.random.seed(case['seed'])
  passed = None
  if kind == 'dict':
    field.set_delta(dict(sizes), scale=scale, bound=bound)
  elif kind == 'Delta':
    field.set_delta(field.Delta(**sizes), scale=scale, bound=bound)
  elif kind == 'passed':
    field.set_delta(1, bound=bound)
    passed = field.Delta(**sizes)
    scale = False
  elif kind == 'scalar':
    field.set_delta(size, scale=scale, bound=bound)
  elif kind == 'except':
    given = {names[-1]: [sizes[names[-1]]] if case['exlist'] else sizes[names[-1]]}
    field.set_delta([size] if case['main'] == 'list' else size, dict(given), scale=scale, bound=bound)
  elif kind == 'list':
    field.set_delta([size], scale=scale, bound=bound)
  else:
    scale = False
    field.set_delta((size,), bound=bound)
  want = {n: size * (lens[n] if scale else 1.) for n in names}
  if kind in ('dict', 'Delta', 'passed'):
    want = {n: sizes[n] * (lens[n] if scale else 1.) for n in names}
  elif kind == 'except':
    want[names[-1]] = sizes[names[-1]]
  value = dict(case['start'])
  moves = 0
  for i in range(6):
    delta = field.eval_delta() if passed is None else field.eval_delta(passed)
    expect(isinstance(delta, field.Delta), "delta {!r}", delta)
    step = {}
    for name in names:
      item = getattr(delta, name)
      step[name] = num(item[0] if isinstance(item, tuple) else item)
    if kind == 'tuple':
      radius = math.sqrt(sum(s * s for s in step.values()))
      expect(np.isclose(radius, size), "spherical delta {} has size {} rather than {}", step, radius,
             size)
      expect(all(s != 0 for s in step.values()), "spherical delta {}", step)
    elif kind == 'list':
      expect(all(abs(step[n]) <= want[n] * (1. + 1e-12) for n in names), "deltas {} exceed {}", step, want)
      if floats:
        expect(len({round(step[n] / want[n], 12) for n in names}) == len(names),
               "deltas {} are not independent", step)
    else:
      for n in names:
        if kind == 'except' and (case['exlist'] if n == names[-1] else case['main'] == 'list'):
          expect(abs(step[n]) <= want[n] * (1. + 1e-12), "deltas {} exceed {}", step, want)
        else:
          expect(np.isclose(step[n], want[n]), "deltas {} rather than {}", step, want)
    if case['direct'] and kind in ('scalar', 'dict', 'Delta'):
      new = field.apply_delta(value)
    else:
      new = field.apply_delta(value, delta)
    expect(set(new) == set(names), "values {}", new)
    for name in names:
      spec, v = specs[name], value[name]
      s = step[name] if spec['type'] == 'float' else int(step[name])
      free = moved(spec, v, s)
      tol = 0. if not spec.get('ufun') else 10 * pv.tol_of(spec)
      if bound and tol and min(abs(free - l) for l in spec['lims']) < 1e-6 * (1. + abs(free)):
        value = None
        break
      target = bounded(spec, v, free) if bound else free
      expect(abs(float(new[name]) - target) <= tol * (1. + abs(target)),
             "{}: {} + {} in {}{} is {} rather than {}", name, v, s, made[name].vset,
             ' bounded' if bound else '', new[name], target)
      moves += new[name] != v
    if value is None:
      break
    value = {name: new[name] for name in names}
    if not bound and any(spec.get('ufun') for spec in specs.values()):
      break # unbounded transformed values may leave the domain of the transformation
  ctx.interesting(moves > 0)
  ctx.tag(kind)
