"""Product rule: multiplying distributions joins them cell by cell."""
import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("a pool of 2-5 variables (arrays of size 1-4 or scalars) is split into 2-3 "
        "factors P(A|C) P(B|A,C) ..., each with its own axis order, key order and "
        "scale; non-trivial: at least one array variable is shared between factors "
        "or at least two array variables are joined")

NAMES = ['x', 'y', 'z', 'w', 'alpha', "x'"]

@st.composite
def st_factors(draw, n_factors=None, simple=False, free_cond=True):
  n_fac = n_factors or draw(st.sampled_from([2, 2, 3]))
  n_var = draw(st.integers(n_fac, 5))
  names = list(draw(st.permutations(NAMES)))[:n_var]
  variables = []
  for name in names:
    style = draw(st.sampled_from(['int', 'neg', 'float', 'shuffled', 'bool', 'scalar']))
    sizes = [1, 2] if style == 'bool' else [2, 3, 4, 1]
    variables.append({'name': name, 'style': style, 'salt': draw(st.integers(0, 3)),
                      'size': draw(st.sampled_from(sizes))})
  # Common conditional variables of every factor
  n_cond = draw(st.integers(0, n_var - n_fac)) if free_cond else 0
  cond, rest = names[:n_cond], names[n_cond:]
  # The first n_fac variables seed each factor; others are dealt out
  owners = list(range(n_fac)) + [draw(st.integers(0, n_fac - 1))
                                 for _ in rest[n_fac:]]
  factors = []
  for i in range(n_fac):
    marg = [name for name, owner in zip(rest, owners) if owner == i]
    given = [name for name, owner in zip(rest, owners)
             if owner < i and draw(st.booleans())]
    keys = list(draw(st.permutations(marg + given + cond)))
    dims = list(draw(st.permutations(keys)))
    labels = [draw(st.booleans()) for _ in keys]
    factors.append({'marg': marg, 'given': given + cond, 'keys': keys, 'dims': dims,
                    'labels': labels, 'pscale': draw(pm.st_pscale(st, simple)),
                    'rng': draw(st.integers(0, 999)), 'zeros': draw(st.booleans())})
  order = list(draw(st.permutations(range(n_fac))))
  return {'vars': variables, 'cond': cond, 'factors': [factors[i] for i in order]}

def var_values(var):
  if var['style'] == 'scalar':
    return [0, 1, 2.5, -3][var['salt']]
  return pm.axis_values(var, 0)

def make_factor(case, factor):
  """ Returns (PD, Table) for one factor. """
  import probayes as pb
  vals = {v['name']: var_values(v) for v in case['vars']}
  axes = [k for k in factor['dims'] if isinstance(vals[k], np.ndarray)]
  shape = tuple(len(vals[k]) for k in axes)
  rng = np.random.RandomState(factor['rng'])
  prob = rng.uniform(0.05, 1., size=shape)
  if factor['zeros']:
    prob = np.where(rng.uniform(size=shape) < 0.25, 0., prob)
  marg = [k for k in factor['keys'] if k in factor['marg']]
  cond = [k for k in factor['keys'] if k not in factor['marg']]
  label = dict(zip(factor['keys'], factor['labels']))
  # An array variable may be labelled 'x' or 'x=[]' in the name
  text = lambda k: k + '=[]' if label[k] and k in axes else k
  name = ','.join(map(text, marg))
  if cond:
    name += '|' + ','.join(map(text, cond))
  dims = {k: (axes.index(k) if k in axes else None) for k in factor['keys']}
  raw = pm.from_linear(prob, factor['pscale'])
  dist = pb.PD(name, {k: vals[k] for k in marg + cond}, dims={k: dims[k] for k in marg + cond},
               prob=raw if shape else float(raw), pscale=factor['pscale'])
  cells = {}
  for idx in itertools.product(*[range(n) for n in shape]):
    cell = frozenset((k, pm.plain(vals[k] if dims[k] is None else vals[k][idx[dims[k]]]))
                     for k in factor['keys'])
    cells[cell] = float(prob[idx])
  return dist, pm.Table(marg, cond, cells)

def nontrivial(case):
  arrays = {v['name'] for v in case['vars'] if v['style'] != 'scalar' and v['size'] > 1}
  use = [set(f['keys']) & arrays for f in case['factors']]
  joined = set().union(*use)
  return len(joined) > 1 or any(a & b for a, b in itertools.combinations(use, 2))

@law(LAWS, st_factors, quick=1200, floor=0.4)
def joint(case, ctx):
  import probayes as pb
  pairs = [make_factor(case, f) for f in case['factors']]
  dists, tables = [p[0] for p in pairs], [p[1] for p in pairs]
  want = pm.Table.product(*tables)
  out = pb.product(*dists)
  pm.same_pd(out, want, "product of {}".format([d.name for d in dists]))
  for dist, table in pairs:
    pm.same_pd(dist, table, "operand after product")
  ctx.interesting(nontrivial(case))

@law(LAWS, lambda: st_factors(n_factors=2), quick=600, floor=0.4)
def operator(case, ctx):
  """ The * operator, in either order. """
  (a, ta), (b, tb) = [make_factor(case, f) for f in case['factors']]
  want = pm.Table.product(ta, tb)
  pm.same_pd(a * b, want, "{} * {}".format(a.name, b.name))
  pm.same_pd(b * a, want, "{} * {}".format(b.name, a.name))
  ctx.interesting(nontrivial(case))

@law(LAWS, lambda: st_factors(n_factors=3, free_cond=False), quick=500, floor=0.4)
def associative(case, ctx):
  """ Successive products, where each partial product is itself a valid one. """
  pairs = [make_factor(case, f) for f in case['factors']]
  # Order factors so that conditions are supplied by preceding marginals
  pairs.sort(key=lambda p: len(p[1].cond))
  have, ordered = set(), []
  while pairs:
    ready = [p for p in pairs if set(p[1].cond) <= have]
    if not ready:
      skip()
    ordered.append(ready[0])
    pairs.remove(ready[0])
    have |= set(ready[0][1].marg)
  (a, ta), (b, tb), (c, tc) = ordered
  want = pm.Table.product(ta, tb, tc)
  pm.same_pd((a * b) * c, want, "({} * {}) * {}".format(a.name, b.name, c.name))
  ctx.interesting(nontrivial(case))

@law(LAWS, lambda: st.tuples(st_factors(n_factors=2),
                             pm.st_pscale(st) | st.sampled_from(['log', 1, 2])), quick=300)
def requested_scale(case, ctx):
  """ A requested output scale changes the representation, not the probabilities. """
  import probayes as pb
  case, named = case
  pscale = 0j if named == 'log' else named
  pairs = [make_factor(case, f) for f in case['factors']]
  out = pb.product(*[p[0] for p in pairs], pscale=named)
  expect(isinstance(out.pscale, complex) == isinstance(pscale, complex)
         and out.pscale == pscale, "scale {} rather than {}", out.pscale, pscale)
  pm.same_pd(out, pm.Table.product(*[p[1] for p in pairs]), "product at scale")
  ctx.interesting(nontrivial(case))

@st.composite
def st_scalars(draw):
  case = draw(st_factors(simple=draw(st.booleans())))
  for var in case['vars']:
    var['style'] = 'scalar'
  scales = [1., complex(1., 0.), 0j, 2.]
  if draw(st.booleans()):
    for factor in case['factors']:
      factor['pscale'] = draw(st.sampled_from(scales))
  return case, draw(st.sampled_from([None] + scales))

@law(LAWS, st_scalars, quick=300)
def single_cells(case, ctx):
  """ Products of single probabilities on any mixture of scales. """
  import probayes as pb
  case, pscale = case
  pairs = [make_factor(case, f) for f in case['factors']]
  kwds = {} if pscale is None else {'pscale': pscale}
  out = pb.product(*[p[0] for p in pairs], **kwds)
  if pscale is not None:
    expect(isinstance(out.pscale, complex) == isinstance(pscale, complex)
           and out.pscale == pscale, "scale {} rather than {}", out.pscale, pscale)
  pm.same_pd(out, pm.Table.product(*[p[1] for p in pairs]), "product of single probabilities")
  ctx.interesting(len({str(f['pscale']) for f in case['factors']} | {str(pscale)}) > 1)

@st.composite
def st_bad(draw):
  case = draw(st_factors(n_factors=2))
  how = ['values', 'marginal', 'one', 'reverse', 'roll', 'shorten', 'scalar']
  return {'case': case, 'how': draw(st.sampled_from(how)),
          'pick': draw(st.integers(0, 9))}

def unlabelled(dist):
  """ The name of a distribution without any values. """
  return '|'.join(','.join(keys) for keys in [dist.marg, dist.cond] if keys)

@law(LAWS, st_bad, quick=600, floor=0.1)
def refuses_incompatible(case, ctx):
  """ A condition whose values differ from those of the marginal supplying it, or
  two factors over the same marginal variable, must be refused. """
  import probayes as pb
  how, pick, case = case['how'], case['pick'], case['case']
  (a, ta), (b, tb) = [make_factor(case, f) for f in case['factors']]
  if how == 'marginal':
    try:
      out = a * a
    except (AssertionError, ValueError):
      ctx.interesting()
      return
    if all(v['style'] == 'scalar' for v in case['vars'] if v['name'] in a.keys()):
      skip()
    broken("product of {} with itself gave {}", a.name, out.name)
  supplied = [k for k in tb.cond if k in ta.marg] or \
             [k for k in ta.cond if k in tb.marg + tb.cond]
  if not supplied:
    skip()
  key = supplied[pick % len(supplied)]
  target = b if key in tb.cond else a
  vals, dims, prob, dim = dict(target), dict(target.dims), target.prob, target.dims[key]
  if not isinstance(vals[key], np.ndarray):
    if how not in ['values', 'one']:
      skip()
    vals[key] = vals[key] + 1
  elif how == 'values':
    vals[key] = vals[key] + 2.
  else:
    size = vals[key].size
    flat = np.ravel(vals[key])
    if size < 2:
      skip()
    if how == 'one': # all but one of them agree
      flat = flat.astype(float)
      flat[pick % size] += 2.
    elif how == 'reverse':
      flat, prob = flat[::-1], np.flip(prob, dim)
    elif how == 'roll':
      flat, prob = np.roll(flat, 1), np.roll(prob, 1, dim)
    elif how == 'shorten':
      flat, prob = flat[:-1], np.take(prob, range(size - 1), axis=dim)
    else: # a single one of the values
      flat, prob = flat[pick % size], np.take(prob, pick % size, axis=dim)
      dims = {k: None if k == key or d is None else d - (d > dim) for k, d in dims.items()}
      vals = {k: v if k == key else np.ravel(v) if dims[k] is not None else v
              for k, v in vals.items()}
    vals[key] = flat
  moved = pb.PD(unlabelled(target), vals, dims=dims, prob=prob if np.ndim(prob) else float(prob),
                pscale=target.pscale)
  ctx.interesting()
  try:
    out = a * moved if target is b else moved * b
  except (AssertionError, ValueError):
    return
  if how in ['reverse', 'roll']: # values are the same ones: pairing them up is right too
    pm.same_pd(out, pm.Table.product(ta, tb), "product over reordered values")
    return
  broken("product over disagreeing values of {} gave {}", key, out.name)

# -----------------------------------------------------------------------------
@st.composite
def st_sharing(draw):
  names = list(draw(st.permutations(NAMES)))
  seeds, names = names[:2], names[2:] # a marginal variable of each factor's own
  groups = []
  for _ in range(draw(st.integers(1, 3))):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    if len(names) < n:
      break
    groups.append({'keys': names[:n], 'size': draw(st.integers(1, 3))})
    names = names[n:]
  roles = [draw(st.sampled_from(['given', 'given', 'common', 'first'])) for _ in groups]
  factors = []
  for i in range(2):
    marg, cond = list(seeds[i:i + 1]), []
    for group, role in zip(groups, roles):
      if i == 0 or role == 'common':
        (cond if role == 'common' else marg).extend(group['keys'])
      elif role == 'given': # some or all of them
        cond.extend(draw(st.permutations(group['keys']))[:draw(st.integers(1, len(group['keys'])))])
    factors.append({'marg': list(draw(st.permutations(marg))), 'cond': list(draw(st.permutations(cond))),
                    'axes': list(draw(st.permutations(range(len(groups) + 1)))),
                    'pscale': draw(pm.st_pscale(st)), 'rng': draw(st.integers(0, 999))})
  return {'groups': groups, 'seeds': seeds, 'sizes': [draw(st.integers(1, 3)) for _ in seeds],
          'factors': factors, 'swap': draw(st.booleans())}

@law(LAWS, st_sharing, quick=300, floor=0.4)
def sharing(case, ctx):
  """ Variables sharing a dimension vary together in the product too. """
  import probayes as pb
  vals, axis_of, sizes = {}, {}, []
  for i, group in enumerate(case['groups']):
    sizes.append(group['size'])
    for j, key in enumerate(group['keys']):
      vals[key], axis_of[key] = np.arange(group['size']) * (1. - 2. * (j % 2)) + 10. * j, i
  pairs = []
  for i, factor in enumerate(case['factors']):
    keys = factor['marg'] + factor['cond']
    for key in keys:
      if key in case['seeds']:
        vals[key], axis_of[key] = np.arange(case['sizes'][i]) + 0.5, len(case['groups'])
    used = [a for a in factor['axes'] if a in {axis_of[k] for k in keys}]
    shape = tuple((sizes + [case['sizes'][i]])[a] for a in used)
    dims = {k: used.index(axis_of[k]) for k in keys}
    prob = np.random.RandomState(factor['rng']).uniform(0.05, 1., size=shape)
    name = ','.join(factor['marg']) + ('|' + ','.join(factor['cond']) if factor['cond'] else '')
    dist = pb.PD(name, {k: vals[k] for k in keys}, dims=dims, prob=pm.from_linear(prob, factor['pscale']),
                 pscale=factor['pscale'])
    cells = {frozenset((k, pm.plain(vals[k][idx[dims[k]]])) for k in keys): float(prob[idx])
             for idx in itertools.product(*[range(n) for n in shape])}
    pairs.append((dist, pm.Table(factor['marg'], factor['cond'], cells)))
  if case['swap']:
    pairs = pairs[::-1]
  (a, ta), (b, tb) = pairs
  out = a * b
  pm.same_pd(out, pm.Table.product(ta, tb), "{} * {}".format(a.name, b.name))
  for group in case['groups']:
    expect(len({out.dims[k] for k in group['keys']}) == 1, "{} at dimensions {}", group['keys'], dict(out.dims))
  ctx.interesting(any(len(g['keys']) > 1 and g['size'] > 1 for g in case['groups']))

# -----------------------------------------------------------------------------
@st.composite
def st_repeated(draw):
  names = list(draw(st.permutations(NAMES)))
  sets, names = names[:draw(st.integers(1, 2))], names[2:]
  scalars, names = names[:draw(st.integers(0, 1))], names[1:]
  arrays = names[:draw(st.integers(0, 2))]
  n = draw(st.integers(2, 3))
  cond = [k for k in arrays + scalars if draw(st.booleans())]
  return {'sets': sets, 'scalars': scalars, 'arrays': arrays, 'cond': cond,
          'sizes': [draw(st.integers(1, 4)) for _ in arrays],
          'counts': [[draw(st.integers(1, 9)) for _ in sets] for _ in range(n)],
          'dims': [draw(st.permutations(range(len(arrays)))) for _ in range(n)],
          'orders': [draw(st.permutations(arrays + scalars)) for _ in range(n)],
          'labels': [draw(st.booleans()) for _ in range(n)],
          'scales': [draw(pm.st_pscale(st)) for _ in range(n)],
          'bad': draw(st.sampled_from([None, None, None, 'value', 'mixed'])),
          'pick': draw(st.integers(0, 9)), 'rng': draw(st.integers(0, 999))}

@law(LAWS, st_repeated, quick=300, floor=0.2)
def repeated(case, ctx):
  """ Factors in which variables stand for numbers of observations (x={n}) multiply at every
  combination of the values they share, the numbers being added; unless values disagree. """
  import probayes as pb
  rng = np.random.RandomState(case['rng'])
  arrays, sets, bad = case['arrays'], case['sets'], case['bad']
  vals = {k: np.arange(n) * 0.5 + i for i, (k, n) in enumerate(zip(arrays, case['sizes']))}
  vals.update({k: 2.5 for k in case['scalars']})
  marg = [k for k in vals if k not in case['cond']]
  total = np.ones(case['sizes'])
  dists = []
  for i, counts in enumerate(case['counts']):
    mine = dict(vals)
    if bad and i == len(case['counts']) - 1:
      if bad == 'value' and vals:
        key = sorted(vals)[case['pick'] % len(vals)]
        mine[key] = vals[key] + 1.
      elif bad == 'mixed':
        mine[sets[0]] = 3
      else:
        skip()
    lin = rng.uniform(0.05, 1., size=case['sizes'])
    total = total * lin
    dims = dict(zip(arrays, case['dims'][i]))
    raw = pm.from_linear(np.transpose(lin, np.argsort(case['dims'][i])) if arrays else lin,
                         case['scales'][i])
    label = lambda k: k + '={}' if k in sets and case['labels'][i] else k
    name = ','.join(map(label, sets + marg))
    if case['cond']:
      name += '|' + ','.join(case['cond'])
    order = {k: {c} for k, c in zip(sets, counts)}
    order.update({k: mine[k] for k in case['orders'][i]})
    if isinstance(mine.get(sets[0]), int):
      order[sets[0]] = mine[sets[0]]
    dists.append(pb.PD(name, order, dims={k: dims.get(k) for k in order},
                       prob=raw if arrays else float(raw), pscale=case['scales'][i]))
  ctx.interesting(bool(vals))
  ctx.tag('bad' if bad else 'good')
  if bad:
    try:
      out = pb.product(*dists)
    except (AssertionError, ValueError):
      return
    broken("product over disagreeing values gave {} of {}", out.name, dict(out))
  out = pb.product(*dists)
  for key, counts in zip(sets, zip(*case['counts'])):
    expect(out[key] == {sum(counts)}, "{} is {} after observations {}", key, out[key], counts)
  expect(set(out.marg) == set(sets + marg) and set(out.cond) == set(case['cond']),
         "({}|{})", list(out.marg), list(out.cond))
  for key, val in vals.items():
    expect(np.array_equal(np.ravel(out[key]), np.ravel(val)), "values of {} changed", key)
    expect((out.dims[key] is None) == (key not in arrays), "dims {}", dict(out.dims))
  got = pm.to_linear(out.prob, out.pscale)
  if arrays:
    got = np.transpose(got, [out.dims[k] for k in arrays])
  expect(got.shape == total.shape and np.allclose(got, total, rtol=1e-8),
         "product {} rather than {}", got.tolist(), total.tolist())
