"""Reference model of probability tables, independent of the library.

A *spec* is plain data describing a distribution:
  {'axes': [{'keys': ['x'], 'size': 3, 'style': 'int'}, ...],   # dimension order
   'scalars': [['k', 2.5], ...],                                # singleton keys
   'order': ['k', 'x', ...],                                    # dictionary order
   'cond': ['y'],                                               # conditional keys
   'pscale': 1.0 | complex, 'rng': int, 'zeros': bool, 'spread': bool}

`values_of` gives the numpy values of each key, `linear_of` the true (linear)
probability array; `build` makes the library object.  A `Table` maps a frozen
assignment {(key, value), ...} to a linear probability.
"""
import collections
import itertools
import math
import numpy as np
from pbt.core import broken, expect

# -----------------------------------------------------------------------------
def coef(pscale):
  """ The coefficient a scale stands for (own reading of the convention). """
  if isinstance(pscale, complex):
    return math.exp(pscale.real if pscale.imag == 0. else -pscale.real)
  return float(pscale)

def to_linear(prob, pscale):
  prob = np.asarray(prob, dtype=float)
  if isinstance(pscale, complex):
    off = pscale.real if pscale.imag == 0. else -pscale.real
    with np.errstate(over='ignore', under='ignore'):
      return np.exp(prob + off)
  return prob * float(pscale)

def from_linear(prob, pscale):
  prob = np.asarray(prob, dtype=float)
  if isinstance(pscale, complex):
    off = pscale.real if pscale.imag == 0. else -pscale.real
    with np.errstate(divide='ignore'):
      logp = np.log(prob)
    logp = np.where(prob > 0., logp - off, -1.7976931348623158e+308)
    return logp
  return prob / float(pscale)

# -----------------------------------------------------------------------------
def axis_values(axis, key_index):
  size, style, salt = axis['size'], axis['style'], axis.get('salt', 0)
  base = np.arange(size)
  if style == 'int':
    vals = base + salt
  elif style == 'neg':
    vals = base[::-1] * 2 - salt
  elif style == 'float':
    vals = base * 0.5 - 1.25 + salt
  elif style == 'shuffled':
    vals = np.random.RandomState(salt + size).permutation(size) * 1.5 - 1.
  elif style == 'bool':
    vals = np.array([False, True])[:size]
  elif style == 'fine': # inexact and closely spaced
    vals = 0.1 * (base + 1) / (salt + 3.) - 0.7 * (salt % 2)
  elif style == 'big':
    vals = (base - salt) * 1003 + 10 ** 4
  else:
    raise ValueError(style)
  if key_index and style != 'bool':
    vals = vals * (key_index + 1) + key_index
    if style == 'shuffled':
      vals = np.random.RandomState(salt + 7 * key_index).permutation(vals)
    elif (salt + key_index) % 2:
      vals = vals[::-1]
  elif key_index:
    vals = ~vals
  return vals

def values_of(spec):
  vals = {}
  for axis in spec['axes']:
    for j, key in enumerate(axis['keys']):
      vals[key] = axis_values(axis, j)
  for key, val in spec['scalars']:
    vals[key] = val
  return vals

def dims_of(spec):
  dims = {key: None for key, _ in spec['scalars']}
  for i, axis in enumerate(spec['axes']):
    for key in axis['keys']:
      dims[key] = i
  return dims

def linear_of(spec):
  """ The linear probabilities, as an array (or a float if no axes). """
  rng = np.random.RandomState(spec['rng'])
  shape = tuple(axis['size'] for axis in spec['axes'])
  prob = rng.uniform(0.05, 1., size=shape)
  if spec.get('spread'):
    prob = 10. ** rng.uniform(-12, 1., size=shape)
  if spec.get('zeros'):
    prob = np.where(rng.uniform(size=shape) < 0.3, 0., prob)
  if not shape:
    return float(prob)
  return prob

def build(spec, cls=None):
  import probayes as pb
  vals, dims = values_of(spec), dims_of(spec)
  order = spec['order']
  marg = [key for key in order if key not in spec['cond']]
  cond = [key for key in order if key in spec['cond']]
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  dic = collections.OrderedDict((key, vals[key]) for key in order)
  kdims = collections.OrderedDict((key, dims[key]) for key in order)
  prob = from_linear(linear_of(spec), spec['pscale'])
  if not spec['axes']:
    prob = float(prob)
  return pb.PD(name, dic, dims=kdims, prob=prob, pscale=spec['pscale'])

# -----------------------------------------------------------------------------
def plain(val):
  """ A hashable python scalar standing for a value. """
  if isinstance(val, (set, frozenset)):
    return '{' + ','.join(sorted(str(plain(v)) for v in val)) + '}'
  if hasattr(val, 'item'):
    val = val.item()
  if isinstance(val, bool):
    return float(val)
  if isinstance(val, (int, float)):
    return float(val)
  return val

class Table:
  """ marg, cond: lists of keys; cells: {frozenset((key, value)): prob} """
  def __init__(self, marg, cond, cells):
    self.marg, self.cond, self.cells = list(marg), list(cond), cells

  @property
  def keys(self):
    return self.marg + self.cond

  @staticmethod
  def of_spec(spec):
    vals, dims = values_of(spec), dims_of(spec)
    linear = np.asarray(linear_of(spec))
    order = spec['order']
    cells = {}
    for idx in itertools.product(*[range(n) for n in linear.shape]):
      cell = frozenset((key, plain(vals[key] if dims[key] is None
                                   else vals[key][idx[dims[key]]]))
                       for key in order)
      cells[cell] = float(linear[idx])
    return Table([k for k in order if k not in spec['cond']],
                 [k for k in order if k in spec['cond']], cells)

  @staticmethod
  def of_pd(dist):
    """ Reads a library distribution through its public attributes only. """
    check_shape(dist)
    linear = np.asarray(to_linear(dist.prob, dist.pscale))
    dims = dict(dist.dims)
    cells = {}
    rav = {key: (None if dims.get(key) is None else np.ravel(dist[key]))
           for key in dist.keys()}
    for idx in itertools.product(*[range(n) for n in linear.shape]):
      cell = frozenset((key, plain(dist[key] if rav[key] is None
                                   else rav[key][idx[dims[key]]]))
                       for key in dist.keys())
      if cell in cells:
        broken("duplicate cell {} in {}", sorted(cell), dist.name)
      cells[cell] = float(linear[idx])
    return Table(dist.marg.keys(), dist.cond.keys(), cells)

  def marginal(self, keep):
    """ Sums out every marginal key that is not in keep. """
    keep = set(keep)
    gone = set(k for k in self.marg if k not in keep)
    cells = collections.defaultdict(list)
    for cell, prob in self.cells.items():
      cells[frozenset((k, v) for k, v in cell if k not in gone)].append(prob)
    return Table([k for k in self.marg if k in keep], self.cond,
                 {cell: math.fsum(p) for cell, p in cells.items()})

  def conditional(self, keys):
    """ P(A, keys | B) -> P(A | B, keys) """
    keys = set(keys)
    group = collections.defaultdict(list)
    given = keys | set(self.cond)
    pick = lambda cell: frozenset((k, v) for k, v in cell if k in given)
    for cell, prob in self.cells.items():
      group[pick(cell)].append(prob)
    total = {g: math.fsum(p) for g, p in group.items()}
    # Conditional on an event of probability zero is undefined (None)
    cells = {cell: (prob / total[pick(cell)] if total[pick(cell)] > 0 else None)
             for cell, prob in self.cells.items()}
    return Table([k for k in self.marg if k not in keys],
                 self.cond + [k for k in self.marg if k in keys], cells)

  def sliced(self, values):
    want = {(k, plain(v)) for k, v in values.items()}
    return Table(self.marg, self.cond,
                 {c: p for c, p in self.cells.items() if want <= c})

  @staticmethod
  def product(*tables):
    """ Natural join with multiplied probabilities. """
    marg = [k for t in tables for k in t.marg]
    cond = []
    for t in tables:
      for k in t.cond:
        if k not in marg and k not in cond:
          cond.append(k)
    cells = {frozenset(): 1.}
    for t in tables:
      new = {}
      for c0, p0 in cells.items():
        d0 = dict(c0)
        for c1, p1 in t.cells.items():
          if all(k not in d0 or d0[k] == v for k, v in c1):
            new[c0 | c1] = p0 * p1
      cells = new
    return Table(marg, cond, cells)

# -----------------------------------------------------------------------------
def check_shape(dist):
  """ Consistency of dims, shape, values and probabilities of any PD. """
  dims = dict(dist.dims)
  expect(set(dims.keys()) == set(dist.keys()),
         "dims keys {} but value keys {}", list(dims), list(dist.keys()))
  names = list(dist.marg.keys()) + list(dist.cond.keys())
  expect(len(names) == len(set(names)) and set(names) == set(dist.keys()),
         "named keys {} but value keys {}", names, list(dist.keys()))
  prob = np.asarray(dist.prob)
  used = sorted(set(d for d in dims.values() if d is not None))
  expect(used == list(range(prob.ndim)),
         "dims {} for probabilities of shape {}", dims, prob.shape)
  for key, dim in dims.items():
    val = dist[key]
    if dim is None:
      expect(not isinstance(val, np.ndarray) or val.ndim == 0,
             "array value for {} without dimension", key)
    else:
      want = [1] * prob.ndim
      want[dim] = prob.shape[dim]
      expect(list(np.shape(val)) == want,
             "values of {} have shape {} rather than {}", key, np.shape(val), want)
    # What the name says about a variable agrees with its values
    label = dist.marg[key] if key in dist.marg else dist.cond[key]
    if label != key:
      said = label[len(key) + 1:]
      expect(label.startswith(key + '='), "{} is called {!r}", key, label)
      if isinstance(val, (set, frozenset)):
        good = said in ('{}', str(val))
      else:
        good = said == '[]' if dim is not None else said == str(val)
        good = good or said == str(val)
      expect(good, "{} with values {!r} is called {!r}", key, val, label)
  expect(list(dist.shape) == list(prob.shape), "shape {} but probabilities {}",
         dist.shape, prob.shape)

def close(a, b, rtol=1e-8, atol=1e-290):
  if a == b:
    return True
  if not (math.isfinite(a) and math.isfinite(b)):
    return False
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))

def same_table(got, want, what, rtol=1e-8, roles=True):
  if roles:
    expect(set(got.marg) == set(want.marg) and set(got.cond) == set(want.cond),
           "{}: expected ({}|{}), found ({}|{})", what, ','.join(want.marg),
           ','.join(want.cond), ','.join(got.marg), ','.join(got.cond))
  expect(set(got.cells) == set(want.cells),
         "{}: cells differ: missing {} unexpected {}", what,
         [sorted(c) for c in set(want.cells) - set(got.cells)][:2],
         [sorted(c) for c in set(got.cells) - set(want.cells)][:2])
  top = max([abs(p) for p in want.cells.values() if p is not None] + [0.])
  for cell, prob in want.cells.items():
    if prob is None:
      expect(0. <= got.cells[cell] <= 1. + 1e-9, "{}: {!r} at {}", what,
             got.cells[cell], sorted(cell))
    elif not close(got.cells[cell], prob, rtol, max(1e-300, 1e-290 * top)):
      broken("{}: at {} probability {!r} should be {!r}", what, sorted(cell),
             got.cells[cell], prob)

def same_pd(dist, want, what, rtol=1e-8, roles=True):
  same_table(Table.of_pd(dist), want, what, rtol, roles)

# -----------------------------------------------------------------------------
KEYS = ['x', 'y', 'z', 'w', 'alpha', "x'", 'm_b', 'xy', 'x_0', 'Y']

def st_pscale(st, simple=False):
  opts = [1.0, 1.0, 0j, 0j]
  if not simple:
    opts += [0.25, 3.0, complex(1.5, 0.), complex(-2., 0.), complex(1., 0.)]
  return st.sampled_from(opts)

def st_spec(st, keys=None, min_axes=0, max_axes=3, max_size=4, max_scalars=1,
            shared=True, reorder=False, cond='some', pscale=None, min_marg=1,
            styles=('int', 'neg', 'float', 'shuffled', 'bool', 'fine', 'big'), min_size=1):
  """ Strategy of distribution specs. """
  keys = keys or KEYS

  @st.composite
  def spec(draw):
    n_axes = draw(st.integers(min_axes, max_axes))
    if n_axes == max_axes == 3 and draw(st.integers(0, 5)) == 5:
      n_axes = 4
    # An occasional long axis
    large = draw(st.integers(0, 7)) == 7 and n_axes < 3 and max_size > 3
    pool = list(draw(st.permutations(keys)))
    axes = []
    for k in range(n_axes):
      n_keys = 1
      spare = len(pool) - (n_axes - k) - max_scalars - 1
      if shared and spare > 0 and draw(st.integers(0, 4)) == 4:
        n_keys = min(spare + 1, draw(st.sampled_from([2, 2, 2, 3])))
      style = draw(st.sampled_from(list(styles)))
      size = draw(st.sampled_from([n for n in (2, 3, 4, 1, 5, 6) if min_size <= n <= (2 if style == 'bool' else max_size)]))
      axes.append({'keys': [pool.pop() for _ in range(n_keys)], 'size': size,
                   'style': style, 'salt': draw(st.integers(0, 3))})
      if large and style != 'bool':
        axes[-1]['size'] = draw(st.sampled_from([7, 8, 11, 17]))
        large = False
    lo = 1 if not n_axes else 0
    scalars = [[pool.pop(), draw(st.sampled_from([0, 1, 2.5, -1, True, False, 0.1, -1000]))]
               for _ in range(draw(st.integers(lo, max(lo, max_scalars))))]
    order = [k for a in axes for k in a['keys']] + [k for k, _ in scalars]
    if scalars and draw(st.booleans()):
      k = order.pop()
      order.insert(draw(st.integers(0, len(order))), k)
    if reorder:
      order = list(draw(st.permutations(order)))
    cond_keys = []
    if cond == 'some' and len(order) > min_marg:
      n_cond = draw(st.integers(0, len(order) - min_marg))
      if draw(st.booleans()):
        n_cond = 0
      groups = [a['keys'] for a in axes] + [[k] for k, _ in scalars]
      for group in list(draw(st.permutations(groups))):
        if len(cond_keys) + len(group) <= n_cond:
          cond_keys.extend(group)
    # Marginal keys precede conditional keys unless reordering
    if not reorder:
      order = [k for k in order if k not in cond_keys] + \
              [k for k in order if k in cond_keys]
      axes.sort(key=lambda a: order.index(a['keys'][0]))
    return {'axes': axes, 'scalars': scalars, 'order': order,
            'cond': [k for k in order if k in cond_keys],
            'pscale': draw(pscale or st_pscale(st)),
            'rng': draw(st.integers(0, 999)),
            'zeros': draw(st.booleans()), 'spread': draw(st.booleans())}
  return spec()

def groups_of(spec, only_marg=False, scalars=False):
  """ Sets of keys that live and die together (share a dimension). """
  out = [list(a['keys']) for a in spec['axes']]
  if scalars:
    out += [[k] for k, _ in spec['scalars']]
  if only_marg:
    out = [g for g in out if not any(k in spec['cond'] for k in g)]
  return out

def split(st, draw, groups, min_out=1, min_keep=1):
  """ Splits groups of keys randomly into (out, keep), if there are enough. """
  if len(groups) < min_out + min_keep:
    return None, None
  perm = list(draw(st.permutations(groups)))
  n_out = draw(st.integers(min_out, len(groups) - min_keep))
  return perm[:n_out], perm[n_out:]

def flat(groups):
  return [key for group in groups for key in group]
