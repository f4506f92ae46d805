"""Change of variables: redistributing probability over new variables."""
import collections
import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, arr

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("random distributions over 1-3 axes (plus conditions) whose cells are mapped by "
        "arbitrary functions of position onto 1-2 new variables with ascending grids "
        "(values inside, on, below and above the grid); non-trivial: more than one cell "
        "and at least two target bins receive positive probability")

@st.composite
def st_case(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=3, max_size=4, max_scalars=1,
                         reorder=draw(st.booleans()), keys=['x', 'y', 'z', 'w', 'v'],
                         shared=draw(st.booleans())))
  targets = []
  for name in ['p', 'm'][:draw(st.sampled_from([1, 2]))]:
    n = draw(st.sampled_from([2, 3, 4, 5, 1]))
    start = draw(st.integers(-3, 1))
    targets.append({'name': name, 'edges': [start + i * draw(st.sampled_from([1, 2, 0.5]))
                                            if i == 0 else None for i in range(n)],
                    'step': draw(st.sampled_from([0.5, 1., 2.])),
                    'rng': draw(st.integers(0, 999)), 'int': draw(st.booleans())})
  return {'spec': spec, 'targets': targets, 'scalar': draw(st.booleans()),
          'kwds': draw(st.booleans()), 'flip': draw(st.booleans())}

@law(LAWS, st_case, quick=700)
def redistribute(case, ctx):
  import probayes as pb
  spec = case['spec']
  dist = pm.build(spec)
  linear = pm.linear_of(spec)
  dims, vals = pm.dims_of(spec), pm.values_of(spec)
  names, grids, maps = [], [], []
  for target in case['targets']:
    n = len(target['edges'])
    edges = target['edges'][0] + np.arange(n) * target['step']
    rng = np.random.RandomState(target['rng'])
    image = rng.uniform(edges[0] - 1., edges[-1] + 1., size=linear.shape)
    if target['int']:
      image = edges[rng.randint(0, n, size=linear.shape)]
    names.append(target['name'])
    grids.append(edges)
    maps.append(image)
  new_vals = collections.OrderedDict(zip(names, grids))
  new_dims = collections.OrderedDict((k, i) for i, k in enumerate(names))
  if case['flip'] and len(names) == 2:
    new_dims = collections.OrderedDict((k, 1 - i) for i, k in enumerate(names))
  if case['scalar']:
    new_vals['c'], new_dims['c'] = 1.5, None
  distribution = pb.Distribution(','.join(new_vals), new_vals, dims=new_dims)
  mapping = dict(zip(names, maps))
  out = dist.remarginalise(distribution, **mapping) if case['kwds'] \
        else dist.remarginalise(distribution, mapping)
  # Brute force: every cell goes to the last grid value not exceeding its image
  cells = collections.defaultdict(list)
  shape = linear.shape
  cond_vals = {k: np.ravel(vals[k]) for k in spec['cond'] if dims[k] is not None}
  keys = names + list(cond_vals)
  axes = [g for g in grids] + [cond_vals[k] for k in cond_vals]
  for idx in itertools.product(*[range(n) for n in shape]):
    cell = []
    for name, grid, image in zip(names, grids, maps):
      below = [v for v in grid if v <= image[idx]]
      cell.append((name, pm.plain(below[-1] if below else grid[0])))
    cell += [(k, pm.plain(cond_vals[k][idx[dims[k]]])) for k in cond_vals]
    cells[frozenset(cell)].append(linear[idx])
  fixed = [('c', 1.5)] if case['scalar'] else []
  fixed += [(k, pm.plain(vals[k])) for k in spec['cond'] if dims[k] is None]
  cond_dims = sorted({dims[k] for k in cond_vals})
  want = {}
  for idx in itertools.product(*[range(len(g)) for g in grids],
                               *[range(shape[d]) for d in cond_dims]):
    cell = [(k, pm.plain(g[i])) for k, g, i in zip(names, grids, idx)]
    for k in cond_vals:
      cell.append((k, pm.plain(cond_vals[k][idx[len(grids) + cond_dims.index(dims[k])]])))
    want[frozenset(cell + fixed)] = float(np.sum(cells.get(frozenset(cell), [0.])))
  table = pm.Table(names + (['c'] if case['scalar'] else []), spec['cond'], want)
  pm.same_pd(out, table, "remarginalise to {}".format(names))
  got = pm.to_linear(out.prob, out.pscale)
  expect(np.isclose(got.sum(), linear.sum(), rtol=1e-8), "mass {} became {}",
         linear.sum(), got.sum())
  ctx.interesting(linear.size > 1 and sum(p > 0 for p in want.values()) > 1)
