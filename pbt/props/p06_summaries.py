"""Summaries of distributions: expectations, quantiles, products of probabilities."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("random distributions P(A|B) over 1-3 axes on all scales; expectation of any "
        "subset of marginal variables at exponents 1-3, quantiles over sorted (ascending "
        "or descending) axes (unsorted ones only record their size), products along axes; non-trivial: at least one array "
        "variable of size >= 2 is summarised")

@st.composite
def st_expect(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=3, max_size=4, max_scalars=2,
                         reorder=draw(st.booleans())))
  groups = pm.groups_of(spec, only_marg=True, scalars=True)
  out, _ = pm.split(st, draw, groups, 1, 0)
  keys = pm.flat(out or [])
  if len(keys) > 1 and draw(st.booleans()): # any subset, order or part of a shared dimension
    keys = draw(st.permutations(keys))[:draw(st.integers(1, len(keys)))]
  return {'spec': spec, 'keys': keys, 'all': draw(st.booleans()),
          'exponent': draw(st.sampled_from([None, 1, 2, 3]))}

@law(LAWS, st_expect, quick=800)
def expectation(case, ctx):
  spec = case['spec']
  keys = [k for k in spec['order'] if k not in spec['cond']] if case['all'] else case['keys']
  if not keys:
    skip()
  dist = pm.build(spec)
  vals, dims = pm.values_of(spec), pm.dims_of(spec)
  prob = np.asarray(pm.linear_of(spec))
  kwds = {} if case['exponent'] is None else {'exponent': case['exponent']}
  if case['all']:
    got = dist.expectation(**kwds)
  else:
    got = dist.expectation(keys[0] if len(keys) == 1 else keys, **kwds)
  axes = tuple(sorted({dims[k] for k in keys if dims[k] is not None}))
  expo = case['exponent'] or 1
  expect(set(got) == set(keys) | set(spec['cond']), "expectation of {} has keys {}",
         keys, list(got))
  total = prob.sum(axis=axes) if axes else prob.sum()
  for key in keys:
    if dims[key] is None:
      expect(got[key] == vals[key] ** expo, "scalar {}: {}", key, got[key])
      continue
    shape = [1] * prob.ndim
    shape[dims[key]] = -1
    val = np.asarray(vals[key], dtype=float).reshape(shape)
    top = (prob * val ** expo).sum(axis=axes)
    ok = total > 0
    want = np.where(ok, top / np.where(ok, total, 1.), 0.)
    have = arr(got[key])
    expect(have.shape == want.shape, "{}: shape {} rather than {}", key, have.shape, want.shape)
    scale = max(1., np.max(np.abs(np.asarray(vals[key], dtype=float)) ** expo))
    expect(np.allclose(have[ok] if have.ndim else have, want[ok] if want.ndim else want,
                       rtol=1e-8, atol=1e-9 * scale) or (not have.ndim and not ok),
           "E[{}^{}] = {} rather than {}", key, expo, have.tolist(), want.tolist())
  for key in spec['cond']:
    expect(np.array_equal(np.ravel(got[key]), np.ravel(vals[key])), "condition {} changed", key)
  ctx.interesting(any(a['size'] > 1 and a['keys'][0] in keys for a in spec['axes']))

# -----------------------------------------------------------------------------
@st.composite
def st_quantile(draw):
  spec = draw(pm.st_spec(st, min_axes=draw(st.sampled_from([1, 1, 1, 0])),
                         max_axes=draw(st.sampled_from([1, 1, 2, 3])),
                         max_size=6, max_scalars=1, shared=draw(st.booleans()), cond='none',
                         styles=('int', 'float', 'neg', 'fine', 'shuffled'),
                         pscale=pm.st_pscale(st)))
  qs = [draw(st.one_of(st.floats(0.001, 0.999), st.sampled_from([0.5, 0.05, 0.95])))
        for _ in range(draw(st.integers(1, 4)))]
  return {'spec': spec, 'q': qs, 'scalar': draw(st.booleans())}

@law(LAWS, st_quantile, quick=700)
def quantile(case, ctx):
  """ The quantile lies between the grid values bracketing that probability mass,
  in the (row-major) order of the cells; scalars are passed through. """
  spec, qs = case['spec'], case['q']
  prob = np.asarray(pm.linear_of(spec))
  if prob.sum() <= 0:
    skip()
  dist = pm.build(spec)
  vals, dims = pm.values_of(spec), pm.dims_of(spec)
  if case['scalar']:
    got = [dist.quantile(q) for q in qs]
  else:
    got = dist.quantile(qs)
  expect(len(got) == len(qs), "{} quantiles for {}", len(got), len(qs))
  cum = np.cumsum(np.ravel(prob))
  cum = cum / cum[-1]
  n = prob.shape[-1] if prob.ndim else 1
  unsorted = set()
  for key in spec['order']:
    if dims[key] is not None:
      steps = np.diff(np.asarray(vals[key], dtype=float))
      if not (np.all(steps > 0) or np.all(steps < 0)):
        unsorted.add(key)
  for q, quant in zip(qs, got):
    expect(set(quant) == set(spec['order']), "quantile has keys {}", list(quant))
    # Cells i such that the mass of cells up to i is at most q (rounding tolerated)
    cells = set()
    for eps in (-1e-9, 0., 1e-9):
      cells.add(max(0, int(np.searchsorted(cum, q + eps, side='right')) - 1))
    good = False
    why = ''
    for cell in range(min(cells), max(cells) + 1):
      idx = np.unravel_index(cell, prob.shape)
      good = True
      for key in spec['order']:
        if dims[key] is None:
          good = good and quant[key] == vals[key]
          continue
        if key in unsorted: # no quantiles, but a record of the number of values
          if quant[key] != {len(np.ravel(vals[key]))}:
            good = False
            why = "{}={} for unsorted values".format(key, quant[key])
          continue
        i = idx[dims[key]]
        v = np.ravel(vals[key])
        lo = hi = float(v[i])
        if dims[key] == prob.ndim - 1 and i < n - 1:
          lo, hi = sorted([float(v[i]), float(v[i + 1])])
        tol = 1e-9 * max(1., abs(lo), abs(hi))
        if not lo - tol <= num(quant[key], key) <= hi + tol:
          good = False
          why = "{}={} outside [{}, {}]".format(key, quant[key], lo, hi)
      if good:
        break
    expect(good, "quantile {}: {}", q, why)
  ctx.interesting(prob.size > 1)

@st.composite
def st_median(draw):
  return {'n': draw(st.integers(5, 60)), 'rng': draw(st.integers(0, 999)),
          'log': draw(st.booleans()), 'flip': draw(st.booleans()),
          'qs': sorted({draw(st.integers(2, 98)) / 100. for _ in range(5)})}

@law(LAWS, st_median, quick=250)
def quantile_inverts_mass(case, ctx):
  """ On a fine one-dimensional grid, the mass up to the q-quantile is q to within
  the mass of the neighbouring cells. """
  import probayes as pb
  n = case['n']
  prob = np.random.RandomState(case['rng']).uniform(0.2, 1., size=n)
  prob = prob / prob.sum()
  x = np.arange(n) * 0.5 - 3.
  if case['flip']:
    x = x[::-1]
  pscale = 0j if case['log'] else 1.
  dist = pb.PD('x', {'x': x}, prob=pm.from_linear(prob, pscale), pscale=pscale)
  for q, quant in zip(case['qs'], dist.quantile(case['qs'])):
    val = num(quant['x'])
    below = prob[x <= val + 1e-9].sum() if not case['flip'] else prob[x >= val - 1e-9].sum()
    expect(abs(below - q) <= 2. * prob.max() + 1e-9,
           "mass up to the {}-quantile {} is {}", q, val, below)
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_prod(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=3, max_size=4, max_scalars=1,
                         reorder=draw(st.booleans())))
  out, _ = pm.split(st, draw, pm.groups_of(spec, only_marg=True), 1, 0)
  return {'spec': spec, 'keys': pm.flat(out or [])}

@law(LAWS, st_prod, quick=500)
def product_along(case, ctx):
  """ The product of the probabilities along axes; the product variables become
  sets recording how many values were multiplied. """
  spec, keys = case['spec'], case['keys']
  if not keys:
    skip()
  dist = pm.build(spec)
  dims = pm.dims_of(spec)
  prob = np.asarray(pm.linear_of(spec))
  out = dist.prod(keys[0] if len(keys) == 1 else keys)
  axes = tuple(sorted({dims[k] for k in keys}))
  want = prob.prod(axis=axes)
  got = pm.to_linear(out.prob, complex(out.pscale) if np.iscomplexobj(out.pscale)
                     else float(out.pscale))
  expect(np.shape(got) == np.shape(want), "shape {} rather than {}", np.shape(got), np.shape(want))
  expect(np.allclose(got, want, rtol=1e-8, atol=1e-290), "product along {}: {} rather than {}",
         keys, got.tolist(), want.tolist())
  for axis in spec['axes']:
    for key in axis['keys']:
      if key in keys:
        expect(out[key] == {axis['size']}, "{} is {} after {} values", key, out[key], axis['size'])
        expect(out.marg.get(key) == '%s={%d}' % (key, axis['size']) or
               out.marg.get(key) == key + '={}', "{} is called {!r}", key, out.marg.get(key))
  kept = [d for d in range(prob.ndim) if d not in axes]
  for key in spec['order']:
    if key not in keys and dims[key] is not None:
      expect(out.dims[key] == kept.index(dims[key]), "{} at dimension {}", key, out.dims[key])
      expect(np.array_equal(np.ravel(out[key]), np.ravel(pm.values_of(spec)[key])),
             "values of {} changed", key)
  expect(set(out.marg) == set(dist.marg) and set(out.cond) == set(dist.cond), "keys {}", out.name)
  ctx.interesting(any(a['size'] > 1 and a['keys'][0] in keys for a in spec['axes']))

@st.composite
def st_part(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=3, max_size=4, max_scalars=1,
                         reorder=draw(st.booleans())))
  keys = draw(st.permutations(spec['order']))[:draw(st.integers(1, len(spec['order'])))]
  return {'spec': spec, 'keys': keys}

@law(LAWS, st_part, quick=250, floor=0.05)
def product_of_any(case, ctx):
  """ Products along only some of the variables that share a dimension are refused (as are
  those along scalars and conditions) rather than given with other variables' values. """
  spec, keys = case['spec'], case['keys']
  dims = pm.dims_of(spec)
  marg = [k for k in spec['order'] if k not in spec['cond']]
  part = any(set(keys) & set(a['keys']) and set(a['keys']) - set(keys) for a in spec['axes'])
  bad = part or any(k not in marg or dims[k] is None for k in keys)
  dist = pm.build(spec)
  try:
    out = dist.prod(keys)
  except (AssertionError, ValueError, KeyError):
    if not bad:
      raise
    ctx.interesting(part)
    return
  expect(not bad, "product along {} of {} with dimensions {} accepted", keys, dist.name, dims)
  pm.check_shape(out)
  ctx.interesting()
