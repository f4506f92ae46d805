"""Structural integrity: a distribution always pairs each probability with exactly
one combination of values, or refuses to exist."""
import collections
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("random specifications of distributions (1-4 axes, shared dimensions, scalars, "
        "permuted orders) built as such, with default dimensions, or with one random "
        "inconsistency injected; non-trivial: an array variable of size >= 2 is present")

def st_any(**kwds):
  opts = dict({'min_axes': 0, 'max_axes': 4, 'max_size': 4, 'max_scalars': 2,
               'reorder': True}, **kwds)
  return pm.st_spec(st, **opts)

def pieces(spec):
  vals, dims = pm.values_of(spec), pm.dims_of(spec)
  order = spec['order']
  marg = [k for k in order if k not in spec['cond']]
  cond = [k for k in order if k in spec['cond']]
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  return (name, collections.OrderedDict((k, vals[k]) for k in order),
          collections.OrderedDict((k, dims[k]) for k in order))

@law(LAWS, st_any, quick=500)
def consistent(spec, ctx):
  """ Shapes, sizes and dimensions agree with what was specified. """
  import probayes as pb
  name, vals, dims = pieces(spec)
  shape = [a['size'] for a in spec['axes']]
  plain = pb.Distribution(name.replace('|', ','), vals, dims=dims)
  dist = pm.build(spec)
  for d in (plain, dist):
    expect(list(d.shape) == shape, "shape {} rather than {}", d.shape, shape)
    expect(d.ndim == len(shape), "ndim {} rather than {}", d.ndim, len(shape))
    expect(d.size == int(np.prod(shape)), "size {} for shape {}", d.size, shape)
    expect({k: d.dims[k] for k in d.dims} == dict(dims), "dims {} rather than {}",
           dict(d.dims), dict(dims))
    sizes = [vals[k].size for k in spec['order'] if dims[k] is not None]
    expect(list(d.sizes) == sizes, "sizes {} rather than {}", d.sizes, sizes)
    expect(bool(d.issingleton) == (not shape), "issingleton {}", d.issingleton)
    for k in spec['order']:
      expect(bool(d.singleton(k)) == (dims[k] is None), "singleton({}) is {}", k, d.singleton(k))
      if dims[k] is None:
        expect(d[k] == vals[k], "{} is {}", k, d[k])
      else:
        want = [1] * len(shape)
        want[dims[k]] = shape[dims[k]]
        expect(list(np.shape(d[k])) == want, "{} has shape {}", k, np.shape(d[k]))
        expect(np.array_equal(np.ravel(d[k]), vals[k]), "values of {} changed", k)
  pm.check_shape(dist)
  expect(list(dist.marg) == [k for k in spec['order'] if k not in spec['cond']] and
         list(dist.cond) == [k for k in spec['order'] if k in spec['cond']],
         "roles {} from {}", dist.name, name)
  for key, val in spec['scalars']:
    roles = dist.cond if key in spec['cond'] else dist.marg
    expect(roles[key] == "{}={}".format(key, val), "scalar {} named {}", key, roles[key])
  text = ('logp' if isinstance(spec['pscale'], complex) else 'p') + '(' + dist.name + ')'
  if not shape:
    text += '=' + str(float(pm.from_linear(pm.linear_of(spec), spec['pscale'])))
  expect(repr(dist) == text, "represented as {!r} rather than {!r}", repr(dist), text)
  want = ','.join('{}={}'.format(k, dict(spec['scalars'])[k]) if dims[k] is None else k
                  for k in list(dist.marg))
  if dist.cond:
    want += '|' + ','.join('{}={}'.format(k, dict(spec['scalars'])[k]) if dims[k] is None else k
                           for k in list(dist.cond))
  expect(dist.name == want, "named {!r} rather than {!r}", dist.name, want)
  expect(dist.short_name == name, "short name {!r} rather than {!r}", dist.short_name, name)
  ctx.interesting(any(n > 1 for n in shape))

@law(LAWS, lambda: st_any(shared=False, reorder=False), quick=200)
def default_dims(spec, ctx):
  """ Without specification, array variables take dimensions in order. """
  import probayes as pb
  name, vals, dims = pieces(spec)
  dist = pb.Distribution(name.replace('|', ','), vals)
  count, want = 0, {}
  for key in spec['order']:
    want[key] = None
    if dims[key] is not None:
      want[key] = count
      count += 1
  expect(dict(dist.dims) == want, "default dims {} rather than {}", dict(dist.dims), want)
  expect(list(dist.shape) == [vals[k].size for k in spec['order'] if dims[k] is not None],
         "shape {}", dist.shape)
  ctx.interesting(count > 1)
LAWS[-1].floor = 0.2

BAD = ['extra_axis', 'short_axis', 'scalar_prob', 'transposed', 'array_for_singleton',
       'scalar_dim', 'missing_dim', 'matrix_values', 'list_values', 'reserved', 'unnamed',
       'share_sizes', 'grid_values']

@st.composite
def st_bad(draw):
  return {'spec': draw(st_any()), 'how': draw(st.sampled_from(BAD)),
          'pick': draw(st.integers(0, 9)), 'key': draw(st.sampled_from(['prob', 'pscale', 'attrs']))}

@law(LAWS, st_bad, quick=700)
def refuses(case, ctx):
  """ Inconsistent specifications raise rather than yield a distribution. """
  import probayes as pb
  spec, how = case['spec'], case['how']
  name, vals, dims = pieces(spec)
  prob = pm.from_linear(pm.linear_of(spec), spec['pscale'])
  arrays = [k for k in spec['order'] if dims[k] is not None]
  scalars = [k for k in spec['order'] if dims[k] is None]
  n = prob.ndim
  if how == 'extra_axis' and n:
    prob = np.stack([prob, prob], axis=case['pick'] % (n + 1))
  elif how == 'short_axis' and n:
    axis = case['pick'] % n
    prob = np.concatenate([prob, prob], axis=axis)
  elif how == 'scalar_prob' and n:
    prob = 0.5
  elif how == 'transposed' and n > 1 and prob.shape != prob.T.shape:
    prob = prob.T
  elif how == 'array_for_singleton' and not n:
    prob = np.array([0.5, 0.5])
  elif how == 'scalar_dim' and scalars:
    dims[scalars[case['pick'] % len(scalars)]] = 0
  elif how == 'missing_dim' and arrays:
    dims.pop(arrays[case['pick'] % len(arrays)])
  elif how == 'matrix_values' and arrays:
    key = arrays[case['pick'] % len(arrays)]
    vals[key] = np.tile(np.ravel(vals[key]), (2, 1)) if vals[key].size > 1 \
                else np.ones((2, 2))
  elif how == 'grid_values': # as many values as probabilities, but in two dimensions
    rows, cols = 2 + case['pick'] % 2, 2 + case['pick'] // 2 % 2
    grid = np.arange(rows * cols, dtype=float).reshape(rows, cols)
    name, vals, dims = 'x', {'x': grid}, {'x': 0}
    if case['pick'] % 4 == 3:
      name, vals, dims = 'x,y', {'x': grid, 'y': np.ravel(grid)}, {'x': 0, 'y': 0}
    prob = pm.from_linear(np.full(rows * cols, 1. / rows / cols), spec['pscale'])
  elif how == 'list_values' and arrays:
    key = arrays[case['pick'] % len(arrays)]
    vals[key] = vals[key].tolist()
  elif how == 'reserved':
    pass
  elif how == 'unnamed' and scalars and len(spec['order']) > 1:
    key = scalars[case['pick'] % len(scalars)]
    name = '|'.join(','.join(k for k in part.split(',') if k != key)
                    for part in name.split('|'))
    if name.startswith('|') or name.endswith('|'):
      skip()
  elif how == 'share_sizes' and n > 1 and len(set(prob.shape)) > 1:
    i = int(np.argmax(np.diff(prob.shape) != 0))
    keys = [[k for k in arrays if dims[k] == d] for d in (i, i + 1)]
    for key in keys[1]:
      dims[key] = i
    for key in arrays:
      if dims[key] > i:
        dims[key] -= 1
    shape = list(prob.shape)
    prob = np.zeros(shape[:i + 1] + shape[i + 2:]) + 0.5
  else:
    skip()
  ctx.interesting(any(a['size'] > 1 for a in spec['axes']) or how in ('reserved', 'grid_values'))
  ctx.tag(how)
  try:
    if how == 'grid_values' and case['key'] == 'prob':
      dist = pb.Distribution(name, vals, dims=dims)
    elif how == 'reserved':
      dist = pb.Distribution(case['key'], {case['key']: np.arange(2)}, dims={case['key']: 0})
    else:
      dist = pb.PD(name, vals, dims=dims, prob=prob, pscale=spec['pscale'])
  except Exception:
    return
  broken("{}: accepted as {} with dims {} shape {} and probabilities of shape {}", how,
         dist.name, dict(dist.dims), dist.shape, np.shape(getattr(dist, 'prob', None)))
LAWS[-1].floor = 0.2
