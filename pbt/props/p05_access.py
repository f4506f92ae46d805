"""Slicing, sorting, relabelling, re-laying out and rescaling keep every
value-to-probability association."""
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("random distributions P(A|B) over 1-4 axes (shared dimensions, scalars, unsorted "
        "and repeated values, permuted key/axis order, all scales); non-trivial: the "
        "operation selects, moves or renames at least one array variable of size >= 2")

def st_any(**kwds):
  opts = dict({'min_axes': 1, 'max_axes': 4, 'max_size': 4, 'max_scalars': 2,
               'reorder': True}, **kwds)
  return pm.st_spec(st, **opts)

def sized(spec, keys):
  return any(a['size'] > 1 and set(a['keys']) & set(keys) for a in spec['axes'])

# -----------------------------------------------------------------------------
@st.composite
def st_slice(draw):
  spec = draw(st_any())
  groups = pm.groups_of(spec)
  out, _ = pm.split(st, draw, groups, 1, 0)
  picks = {}
  for group in out:
    axis = [a for a in spec['axes'] if a['keys'] == group][0]
    idx = draw(st.integers(0, axis['size'] - 1))
    for key in (group if draw(st.booleans()) else draw(st.permutations(group))[:1]):
      picks[key] = idx
  return {'spec': spec, 'picks': picks, 'keepdims': draw(st.booleans()),
          'scalars': [k for k, _ in spec['scalars'] if draw(st.integers(0, 2)) == 2]}

@law(LAWS, st_slice, quick=900)
def slicing(case, ctx):
  spec, picks = case['spec'], case['picks']
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  vals, dims = pm.values_of(spec), pm.dims_of(spec)
  values = {k: vals[k][i].item() for k, i in picks.items()}
  values.update({k: vals[k] for k in case['scalars']})
  out = dist(values, keepdims=True) if case['keepdims'] else dist(values)
  pm.same_pd(out, table.sliced(values), "slice at {}".format(values))
  gone = {dims[k] for k in picks}
  if case['keepdims']:
    expect(np.ndim(out.prob) == len(spec['axes']), "keepdims gave {} axes", np.ndim(out.prob))
  else:
    expect(np.ndim(out.prob) == len(spec['axes']) - len(gone),
           "slicing {} axes of {} gave {}", len(gone), len(spec['axes']), np.ndim(out.prob))
    for key, val in values.items():
      name = (out.cond if key in spec['cond'] else out.marg)[key]
      expect(name == "{}={}".format(key, val), "{} at {} is called {!r}", key, val, name)
  pm.same_pd(dist, table, "operand after slicing")
  ctx.interesting(sized(spec, picks))

# -----------------------------------------------------------------------------
@st.composite
def st_repeats(draw):
  n = draw(st.integers(1, 6))
  m = draw(st.integers(1, 3))
  xs = [draw(st.integers(0, 2)) for _ in range(n)]
  return {'x': xs, 'm': m, 'axis': draw(st.integers(0, 1)), 'rng': draw(st.integers(0, 99)),
          'share': draw(st.booleans()), 'value': draw(st.integers(0, 3)),
          's': draw(st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=n, max_size=n))),
          'both': draw(st.one_of(st.none(), st.integers(0, 2))),
          'log': draw(st.booleans()), 'keepdims': draw(st.booleans())}

@law(LAWS, st_repeats, quick=500)
def slicing_repeats(case, ctx):
  """ Values occurring several times (samples): every occurrence is selected. """
  import probayes as pb
  n, m, axis = len(case['x']), case['m'], case['axis']
  x, y, s = np.array(case['x']), np.arange(m) * 1., np.arange(n)
  if case['s'] is not None:
    s = np.array(case['s'])
  prob = np.random.RandomState(case['rng']).uniform(0.1, 1., size=(n, m))
  dims = {'x': 0, 'y': 1}
  vals = {'x': x, 'y': y}
  if case['share']:
    vals['s'], dims['s'] = s, 0
  raw = prob if axis == 0 else prob.T
  dims = {k: (d if axis == 0 else 1 - d) for k, d in dims.items()}
  pscale = 0j if case['log'] else 1.
  dist = pb.PD(','.join(vals), vals, dims=dims, prob=pm.from_linear(raw, pscale), pscale=pscale)
  both = case['share'] and case['both'] is not None # variables of the same dimension
  hit = np.nonzero(np.logical_and(x == case['value'], s == case['both'] if both else True))[0]
  values = {'x': case['value'], 's': case['both']} if both else {'x': case['value']}
  out = dist(values, keepdims=case['keepdims'])
  got = pm.to_linear(out.prob, pscale)
  want = prob[hit] if axis == 0 else prob[hit].T
  if len(hit) == 1 and not case['keepdims']:
    want = prob[hit[0]]
    if case['share']:
      expect(out['s'] == s[hit[0]], "s is {} for x={}", out['s'], case['value'])
  elif len(hit) and case['share']:
    expect(np.array_equal(np.ravel(out['s']), s[hit]), "s is {} for x={}",
           np.ravel(out['s']), case['value'])
  expect(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-9),
         "x={} of {}: {} rather than {}", case['value'], case['x'], got.tolist(), want.tolist())
  ctx.interesting(len(hit) > 0 and n > 1)

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st.tuples(st_any(), st.integers(0, 9)), quick=400)
def sorting(case, ctx):
  spec, pick = case
  key = spec['order'][pick % len(spec['order'])]
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  out = dist.sorted(key)
  pm.same_pd(out, table, "sorted({})".format(key))
  if pm.dims_of(spec)[key] is not None:
    vals = np.ravel(out[key])
    expect(np.all(vals[1:] >= vals[:-1]), "sorted({}) left {}", key, vals.tolist())
  pm.same_pd(dist, table, "operand after sorting")
  ctx.interesting(sized(spec, [key]))

@st.composite
def st_rename(draw):
  spec = draw(st_any())
  fresh = ['p', 'q_1', "z'", 'beta', 'omega', 'x_2', 'yy']
  picks = [k for k in spec['order'] if draw(st.booleans())]
  return {'spec': spec, 'map': dict(zip(picks, list(draw(st.permutations(fresh)))))}

@law(LAWS, st_rename, quick=300)
def renaming(case, ctx):
  spec, keymap = case['spec'], case['map']
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  new = lambda k: keymap.get(k, k)
  want = pm.Table([new(k) for k in table.marg], [new(k) for k in table.cond],
                  {frozenset((new(k), v) for k, v in c): p for c, p in table.cells.items()})
  out = dist.rekey(dict(keymap))
  pm.same_pd(out, want, "rekey({})".format(keymap))
  pm.same_pd(dist, table, "operand after renaming")
  ctx.interesting(sized(spec, keymap))

@st.composite
def st_clash(draw):
  spec = draw(st_any(min_axes=1))
  order = spec['order']
  keymap = {}
  if len(order) > 1:
    a, b = draw(st.permutations(order))[:2]
    keymap = {a: b} if draw(st.booleans()) else {a: 'same', b: 'same'}
    for key in order:
      if key not in keymap and key != b and draw(st.booleans()):
        keymap[key] = 'new_' + str(len(keymap))
  return {'spec': spec, 'map': keymap, 'plain': draw(st.booleans())}

@law(LAWS, st_clash, quick=100, floor=0.3)
def renaming_clash(case, ctx):
  """ Two variables are never given the same name. """
  import probayes as pb
  if not case['map']:
    skip()
  dist = pm.build(case['spec'])
  if case['plain']:
    dist = pb.Distribution(','.join(dist.keys()), dict(dist), dims=dist.dims)
  ctx.interesting()
  try:
    out = dist.rekey(dict(case['map']))
  except Exception:
    return
  broken("rekey({}) of {} accepted as {} with {}", case['map'], dist.name, out.name, list(out.keys()))

@st.composite
def st_relayout(draw):
  spec = draw(st_any())
  n = len(spec['axes'])
  return {'spec': spec, 'perm': list(draw(st.permutations(range(n)))),
          'order': list(draw(st.permutations(spec['order'])))}

@law(LAWS, st_relayout, quick=400)
def relayout(case, ctx):
  """ Changing the order of dimensions (and keys) permutes axes, nothing else. """
  import probayes as pb
  spec, perm = case['spec'], case['perm']
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  old = pm.dims_of(spec)
  dims = {k: None if old[k] is None else perm[old[k]] for k in case['order']}
  out = dist.redim(dims)
  pm.same_pd(out, table, "redim({})".format(dims))
  expect({k: out.dims[k] for k in dims} == dims, "requested {} got {}", dims, dict(out.dims))
  ctx.interesting(perm != sorted(perm) and sized(spec, spec['order']))
LAWS[-1].floor = 0.2

@law(LAWS, lambda: st.tuples(st_any(min_axes=0), pm.st_pscale(st), pm.st_pscale(st)), quick=400)
def rescaled(case, ctx):
  spec, a, b = case
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  out = dist.rescaled(a)
  pm.same_pd(out, table, "rescaled({})".format(a))
  expect(isinstance(out.pscale, complex) == isinstance(a, complex) and out.pscale == a,
         "scale {} rather than {}", out.pscale, a)
  again = out.rescaled(b)
  pm.same_pd(again, table, "rescaled({}).rescaled({})".format(a, b))
  pm.same_pd(dist, table, "operand after rescaling")
  ctx.interesting(str(a) != str(spec['pscale']))

@st.composite
def st_lookup(draw):
  spec = draw(st_any())
  keys = [k for k in spec['order'] if draw(st.booleans())] or spec['order'][:1]
  return {'spec': spec, 'keys': keys, 'role': draw(st.sampled_from(['keys', 'marg', 'cond'])),
          'as_dist': draw(st.booleans()), 'all': draw(st.integers(0, 4)) == 4}

@law(LAWS, st_lookup, quick=300)
def looking_up(case, ctx):
  """ Values are looked up by key (shared dimensions as joint tuples). """
  import probayes as pb
  spec = case['spec']
  dist = pm.build(spec)
  vals, dims = pm.values_of(spec), pm.dims_of(spec)
  keys = case['keys']
  if case['role'] != 'keys':
    keys = [k for k in spec['order'] if (k in spec['cond']) == (case['role'] == 'cond')]
    got = dist(case['role'])
  elif case['as_dist']:
    used = {dims[k] for k in keys if dims[k] is not None}
    if sorted(used) != list(range(len(used))):
      skip() # the dimensions are kept, and therefore have to be contiguous
    got = dist.lookup(keys, as_dist=True)
    expect(isinstance(got, pb.Distribution) and not isinstance(got, pb.PD), "a {}", type(got))
    expect({k: got.dims[k] for k in keys} == {k: dims[k] for k in keys},
           "dimensions {} rather than {}", dict(got.dims), dims)
    expect(sorted(got.name.split(',')) == sorted(keys), "named {}", got.name)
  elif case['all']:
    keys = spec['order']
    got = dist.lookup(None)
  else:
    got = dist.lookup(keys)
  if case['role'] != 'keys' or not case['as_dist']:
    single = [dims[key] for key in got if ',' not in key and dims[key] is not None]
    joint = [dims[key.split(',')[0]] for key in got if ',' in key]
    expect(len(set(single + joint)) == len(single + joint), "variables of one dimension apart in {}", list(got))
  flat = {}
  expect(sorted(k for key in got for k in key.split(',')) == sorted(keys),
         "looked up {} rather than {}", list(got), keys)
  for key, val in got.items():
    if ',' in key:
      subkeys = key.split(',')
      expect(isinstance(val, tuple) and len(val) == len(subkeys), "{}: {}", key, val)
      expect(len({dims[k] for k in subkeys}) == 1, "{} do not share a dimension", key)
      flat.update(zip(subkeys, val))
    else:
      flat[key] = val
  expect(set(flat) == set(keys), "looked up {} rather than {}", sorted(flat), sorted(keys))
  for key in keys:
    expect(np.array_equal(np.ravel(flat[key]), np.ravel(vals[key])),
           "{}: {} rather than {}", key, flat[key], vals[key])
  ctx.interesting(sized(spec, keys))
