"""Random fields: joint probabilities over combinations of values."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, num, arr
from pbt.props import p12_variables as pv
from pbt.props import p14_random_variables as pr

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("random fields of 1-4 random variables (float intervals with open / closed limits and "
        "transformations, integer sets, booleans; uniform, tabulated or callable probabilities; each "
        "on its own scale) with default, tabulated, scalar, callable or multivariate normal joint "
        "probabilities on any scale, evaluated at counts, scalars, arrays and shared values; "
        "non-trivial: the result has at least one dimension, or the field two variables")

NAMES = ['x', 'y', 'n', 'b', 'zeta', 'k_1']

# -----------------------------------------------------------------------------
def raw_of(lin, scale):
  """ Probabilities on a scale; single ones as a float. """
  raw = pm.from_linear(lin, scale)
  return raw if np.ndim(raw) else float(raw)

@st.composite
def st_rv(draw, spec=None, probs=True):
  spec = spec or draw(st.one_of(pv.st_float_var(), pv.st_discrete_var()))
  prob = draw(st.sampled_from(['default', 'default', 'table' if spec['type'] != 'float' else
                               'callable'])) if probs else 'default'
  if prob == 'callable':
    spec = dict(spec, ufun=None)
  weights = [draw(st.floats(0.01, 1.)) for _ in pv.declared(spec)] if prob == 'table' else None
  return {'spec': spec, 'scale': draw(pr.st_scale()), 'prob': prob, 'weights': weights,
          'mu': draw(st.floats(-3., 3.)), 'sd': draw(st.floats(0.5, 20.))}

def make_rv(name, rv):
  import probayes as pb
  spec, scale = rv['spec'], pr.norm(rv['scale'])
  kwds = {}
  if rv['prob'] == 'table':
    lin = np.array(rv['weights']) / sum(rv['weights'])
    kwds['prob'] = raw_of(lin, scale)
  elif rv['prob'] == 'callable':
    mu, sd = rv['mu'], rv['sd']
    kwds['prob'] = lambda x: raw_of(pr.gauss(x, mu, sd), scale)
  return pv.make(name, spec, cls=lambda *a, **k: pb.RV(*a, pscale=rv['scale'], **k, **kwds))

def prob_of(rv, vals):
  """ Reference probabilities of an array of values. """
  spec = rv['spec']
  flat = [v for v in np.ravel(vals).tolist()]
  if rv['prob'] == 'callable':
    out = [float(pr.gauss(v, rv['mu'], rv['sd'])) for v in flat]
  elif rv['prob'] == 'table':
    table = dict(zip(pv.declared(spec), np.array(rv['weights']) / sum(rv['weights'])))
    out = [float(table.get(v, 0.)) for v in flat]
  else:
    tol = 1e-9 * (1. + max(abs(v) for v in spec['lims'])) if spec['type'] == 'float' else 0.
    p = pr.mass(spec)
    out = [p if pr.is_inside(spec, v) or
           (spec['type'] == 'float' and spec['lims'][0] - tol < v < spec['lims'][1] + tol)
           else 0. for v in flat]
  return np.array(out, dtype=float).reshape(np.shape(vals))

@st.composite
def st_values(draw, names, specs, outside=False, random=True, scalars=True,
              joint=True):
  how = {}
  for name in names:
    spec = specs[name]
    kinds = ['count', 'count', 'array'] + (['scalar', 'one'] if scalars else []) + \
            (['random'] if random else [])
    kind = draw(st.sampled_from(kinds))
    if kind == 'count':
      how[name] = ['count', draw(st.integers(1, 4))]
    elif kind == 'random':
      how[name] = ['count', -draw(st.integers(1, 4))]
    elif kind == 'one':
      how[name] = ['count', 0]
    else:
      if spec['type'] == 'float':
        pool = st.floats(0.05, 0.95).map(lambda f: spec['lims'][0] +
                                         f * (spec['lims'][1] - spec['lims'][0]))
        if outside and not spec.get('ufun'):
          pool = pool | st.sampled_from([spec['lims'][0] - 1., spec['lims'][1] + 2.])
      else:
        pool = st.sampled_from(pv.declared(spec))
        if outside and spec['type'] == 'int':
          pool = pool | st.just(max(pv.declared(spec)) + 1)
      how[name] = [kind, draw(st.lists(pool, min_size=1, max_size=4))]
  shared = []
  if joint and len(names) > 1 and draw(st.integers(0, 2)) == 0:
    shared = draw(st.permutations(names))[:draw(st.integers(2, len(names)))]
    count = draw(st.integers(1, 5)) * draw(st.sampled_from([1, -1]) if random else st.just(1))
    if draw(st.booleans()):
      for name in shared:
        how[name] = ['count', count]
    else: # values that belong together
      for name in shared:
        spec = specs[name]
        pool = st.floats(0.05, 0.95).map(lambda f, s=spec: s['lims'][0] +
                 f * (s['lims'][1] - s['lims'][0])) if spec['type'] == 'float' else \
               st.sampled_from(pv.declared(spec))
        how[name] = ['array', draw(st.lists(pool, min_size=abs(count), max_size=abs(count)))]
      if scalars and draw(st.integers(0, 2)) == 2: # one with a single value for all of those of others
        name = draw(st.sampled_from(shared))
        how[name] = draw(st.sampled_from([['scalar', how[name][1][:1]], ['count', 0]]))
  return {'how': how, 'shared': shared, 'order': draw(st.permutations(names)),
          'by': draw(st.sampled_from(['dict', 'dict', 'kwds', 'var']))}

def args_of(case, specs, made):
  """ (args, kwds) to evaluate a field with. """
  how, shared = case['how'], case['shared']
  def value(name):
    kind = how[name]
    dtype = {'float': float, 'int': int, 'bool': bool}[specs[name]['type']]
    if kind[0] == 'count':
      return {kind[1]}
    return dtype(kind[1][0]) if kind[0] == 'scalar' else np.array(kind[1], dtype=dtype)
  out = {}
  by = case['by']
  for name in case['order']:
    if name not in shared:
      out[made[name] if by == 'var' else name] = value(name)
  if shared:
    key = tuple(made[name] for name in shared) if by == 'var' else ','.join(shared)
    vals = [value(name) for name in shared]
    sets = all(isinstance(val, set) for val in vals)
    out[key] = vals[0] if sets and all(val == vals[0] for val in vals) else vals
  if by == 'kwds' and not shared:
    return (), out
  return (out,), {}

def check_joint(dist, names, specs, case, want, scale, what, rtol=1e-8, roots=()):
  """ Values, dimensions and probability of every combination of values. """
  dim = pv.check_values(dist, names, specs, case['how'], case['shared'])
  expect(set(dist.marg.keys()) == set(names) - set(roots) and set(dist.cond.keys()) == set(roots),
         "{}: p({}|{})", what, dist.marg, dist.cond)
  vals = {name: dist[name] for name in names}
  ref = np.asarray(want(vals), dtype=float)
  lin = pr.linear(dist.prob, dist.pscale, what)
  if scale is not None:
    expect(isinstance(dist.pscale, complex) == isinstance(scale, complex) and
           abs(dist.pscale - scale) < 1e-9, "{}: scale {} rather than {}", what, dist.pscale, scale)
  expect(lin.ndim == dim, "{}: {} dimensions rather than {}", what, lin.ndim, dim)
  ref = np.broadcast_to(ref, lin.shape) if ref.ndim <= lin.ndim else ref
  expect(ref.shape == lin.shape, "{}: shape {} rather than {}", what, lin.shape, ref.shape)
  expect(np.allclose(lin, ref, rtol=rtol, atol=1e-290 + 1e-13 * float(np.max(ref, initial=0.))),
         "{}: at {} probabilities {} rather than {}", what,
         {k: np.ravel(v).tolist() for k, v in vals.items()}, lin.tolist(), ref.tolist())
  back = dist.rescaled(1.)
  expect(np.allclose(arr(back.prob), ref, rtol=rtol, atol=1e-290 + 1e-13 * float(np.max(ref, initial=0.))),
         "{}: rescaled {} rather than {}", what, back.prob, ref.tolist())
  return dim

def expected_scale(rvs):
  """ Scale of the product of factors. """
  scales = [pr.norm(rv['scale']) for rv in rvs]
  if not any(isinstance(scale, complex) for scale in scales):
    return float(np.prod(scales))
  return complex(sum(scale.real if isinstance(scale, complex) else math.log(scale)
                     for scale in scales), 0.)

# -----------------------------------------------------------------------------
@st.composite
def st_independent(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 4))]
  rvs = {name: draw(st_rv()) for name in names}
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}, outside=True))
  case.update({'names': names, 'rvs': rvs, 'scale': draw(st.sampled_from([None, None, 1., 2., 'log',
                                                                          1.5 + 0j])),
               'make': draw(st.sampled_from(['RF', 'and', 'and_right', 'nested', 'grow', 'grow_set', 'grow_list',
                                             'grow_tuple', 'grow_field', 'grow_dict']))})
  return case

def make_field(case, made):
  import probayes as pb
  names = case['names']
  rvs = [made[name] for name in names]
  if len(rvs) == 1 or case['make'] == 'RF':
    return pb.RF(*rvs)
  if case['make'].startswith('grow'): # variables added to those of another field
    field = pb.RF(*rvs[:-1] if case['make'] in ('grow', 'grow_set') else rvs[:1])
    more = rvs[field.nvars:]
    field.add_var({'grow': lambda: more[0], 'grow_set': lambda: set(more), 'grow_list': lambda: list(more),
                   'grow_tuple': lambda: tuple(more), 'grow_field': lambda: pb.RF(*more),
                   'grow_dict': lambda: {rv.name: rv for rv in more}}[case['make']]())
    return field
  if case['make'] == 'nested' and len(rvs) > 2:
    return (rvs[0] & rvs[1]) & pb.RF(*rvs[2:])
  if case['make'] == 'and_right':
    field = rvs[-1]
    for rv in rvs[-2::-1]:
      field = rv & field
    return field
  field = rvs[0]
  for rv in rvs[1:]:
    field = field & rv
  return field

@law(LAWS, st_independent, quick=900)
def independent(case, ctx):
  """ Without a joint probability, p(x,y,...) = p(x) p(y) ... on any mixture of scales. """
  import probayes as pb
  names, rvs = case['names'], case['rvs']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  scale = expected_scale([rvs[name] for name in names])
  if case['scale'] is not None:
    field.set_prob(pscale=case['scale'])
    scale = pr.norm(case['scale'])
  args, kwds = args_of(case, specs, made)
  dist = field(*args, **kwds)
  def want(vals):
    out = 1.
    for name in names:
      out = out * prob_of(rvs[name], vals[name])
    return out
  dim = check_joint(dist, names, specs, case, want, scale, "independent")

  # The variables are the field's, in order, and no others can be added
  expect(list(field.keylist) == names and field.name == ','.join(names) and field.nvars == len(names) and
         [field[i] for i in range(len(names))] == [made[name] for name in names], "variables {} rather than {}",
         field.keylist, names)
  lengths = [made[name].length for name in names]
  expect(abs(field.eval_length() - math.sqrt(sum(l**2 for l in lengths))) <= 1e-9 * (1. + sum(lengths)),
         "length {} of a field of lengths {}", field.eval_length(), lengths)
  for bad in (made[names[0]], [made[name] for name in names], 'other', [pb.RV('other'), 1.], []):
    try:
      field.add_var(bad)
    except Exception:
      expect(list(field.keylist) == names and field.number_of_nodes() == len(names),
             "variables became {} after refusing {}", field.keylist, bad)
      continue
    broken("{} accepted by a field of {}", bad, names)

  # The joint probability as a formula, as far as that of every variable is one
  if all(rvs[name]['prob'] == 'default' and specs[name].get('ufun') is None for name in names):
    inside = 1.
    for name in names:
      inside *= pr.mass(specs[name])
    got = getattr(field.prob, '_expr', field.prob)
    lin = float(pr.linear(float(got), field.pscale, "formula"))
    expect(abs(lin - inside) <= 1e-9 * inside, "probability {} (scale {}) rather than {}", got, field.pscale, inside)
  ctx.tag(case['make'])
  ctx.tag('dim{}'.format(dim), 'shared' if case['shared'] else 'separate')
  ctx.interesting(dim > 0 or len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_callable(draw):
  names = draw(st.permutations(['x', 'y', 'n', 'b']))[:draw(st.integers(1, 3))]
  rvs = {name: draw(st_rv(probs=False)) for name in names}
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}))
  case.update({'names': names, 'rvs': rvs, 'scale': draw(pr.st_scale()), 'make': 'RF',
               'kind': draw(st.sampled_from(['lambda', 'lambda', 'kwds', 'order', 'passdims',
                                            'default_scale'])),
               'coefs': [draw(st.sampled_from([-1.5, -0.5, 0.25, 1., 2.])) for _ in names]})
  return case

@law(LAWS, st_callable, quick=400)
def callable_joint(case, ctx):
  """ A joint probability function is evaluated with each value of each variable. """
  names, rvs = case['names'], case['rvs']
  specs = {name: rvs[name]['spec'] for name in names}
  if case['kind'] != 'default_scale':
    for name in names:
      rvs = dict(rvs, **{name: dict(rvs[name], scale=1.)})
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  scale = expected_scale([rvs[n] for n in names]) if case['kind'] == 'default_scale' \
          else pr.norm(case['scale'])
  def lin(vals, shift=0.):
    u = 0.1
    for i, name in enumerate(names):
      u = u + case['coefs'][i] * np.tanh(0.1 * np.asarray(vals[name], dtype=float) + 0.2 * i)
    return 1. / (1. + np.exp(-u)) + shift
  def raw(vals, shift=0.):
    return raw_of(lin(vals, shift), scale)
  seen = {}
  kwds = {} if case['kind'] == 'default_scale' else {'pscale': case['scale']}
  shift = 0.
  if case['kind'] in ('lambda', 'default_scale'):
    field.set_prob(lambda **vals: raw(vals), **kwds)
  elif case['kind'] == 'kwds':
    shift = 0.5
    field.set_prob(lambda shift, **vals: raw(vals, shift), shift=0.5, **kwds)
  elif case['kind'] == 'order':
    order = {name: i for i, name in enumerate(reversed(names))}
    field.set_prob(lambda *vals: raw(dict(zip(reversed(names), vals))), order=order, **kwds)
  else:
    def fun(dims=None, **vals):
      seen['dims'] = dims
      return raw(vals)
    field.set_prob(fun, passdims=True, **kwds)
  args, kwds = args_of(case, specs, made)
  dist = field(*args, **kwds)
  dim = check_joint(dist, names, specs, case, lambda vals: lin(vals, shift), scale, case['kind'])
  if case['kind'] == 'passdims':
    expect(all(seen['dims'].get(k) == dist.dims[k] for k in names), "dims passed {} rather than {}",
           seen['dims'], dist.dims)
  field.set_prob()
  back = field(*args, **kwds)
  def product(vals):
    out = 1.
    for name in names:
      out = out * prob_of(rvs[name], vals[name])
    return out
  check_joint(back, names, specs, case, product, None, "probability unset")
  ctx.tag(case['kind'])
  ctx.interesting(dim > 0 or len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_table(draw):
  names = draw(st.permutations(['n', 'm', 'b', 'k']))[:draw(st.integers(1, 3))]
  rvs = {}
  for name in names:
    spec = draw(pv.st_discrete_var())
    if spec['type'] == 'int':
      vals = spec['vals'][:4]
      spec = dict(spec, vals=vals, how='list' if spec['how'] == 'type' else spec['how'])
    rvs[name] = draw(st_rv(spec=spec, probs=False))
    rvs[name]['scale'] = 1.
  size = int(np.prod([len(pv.declared(rvs[name]['spec'])) for name in names]))
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}, outside=True))
  case.update({'names': names, 'rvs': rvs, 'scale': draw(pr.st_scale()), 'make': 'RF',
               'weights': [draw(st.floats(0.01, 1.)) for _ in range(size)],
               'scalar': draw(st.integers(0, 4)) == 0})
  return case

@law(LAWS, st_table, quick=400)
def tabulated(case, ctx):
  """ An array of joint probabilities is indexed by the position of values in their sets; a
  single number is the probability of every combination. """
  names, rvs = case['names'], case['rvs']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  scale = pr.norm(case['scale'])
  sets = [pv.declared(specs[name]) for name in names]
  lin = np.array(case['weights']).reshape([len(s) for s in sets])
  lin = lin / np.sum(lin)
  if case['scalar']:
    lin = np.full(lin.shape, 1. / lin.size)
    field.set_prob(float(raw_of(1. / lin.size, scale)), pscale=case['scale'])
  else:
    field.set_prob(raw_of(lin, scale), pscale=case['scale'])
  def want(vals):
    grid = np.broadcast_arrays(*[np.asarray(vals[name]) for name in names])
    out = np.zeros(grid[0].shape)
    for idx in np.ndindex(*grid[0].shape):
      cell = [g[idx].item() for g in grid]
      if all(v in s for v, s in zip(cell, sets)):
        out[idx] = lin[tuple(s.index(v) for v, s in zip(cell, sets))]
    return out
  args, kwds = args_of(case, specs, made)
  dim = check_joint(field(*args, **kwds), names, specs, case, want, scale, "table")
  full = field()
  every = {'how': {name: ['omit'] for name in names}, 'shared': []}
  check_joint(full, names, specs, every, want, scale, "all values")
  total = float(np.sum(pr.linear(full.prob, full.pscale, "all values")))
  expect(abs(total - 1.) < 1e-8, "probabilities sum to {}", total)
  ctx.tag('scalar' if case['scalar'] else 'table')
  ctx.interesting(dim > 0 or len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_mvn(draw):
  n = draw(st.integers(1, 4))
  names = draw(st.permutations(['x', 'y', 'u', 'v']))[:n]
  rvs = {name: draw(st_rv(spec=draw(pv.st_float_var(ufun='')), probs=False)) for name in names}
  for name in names:
    rvs[name]['spec'] = dict(rvs[name]['spec'], ufun=None)
    lo = draw(st.floats(-4., 1.))
    rvs[name]['spec']['lims'] = [lo, lo + draw(st.floats(1., 6.))]
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}))
  log = draw(st.booleans())
  for name in names:
    rvs[name]['scale'] = 'log' if log else 1.
  case.update({'names': names, 'rvs': rvs, 'make': draw(st.sampled_from(['RF', 'and'])), 'log': log,
               'mean': [draw(st.floats(-2., 2.)) for _ in names],
               'root': [[draw(st.floats(-1., 1.)) for _ in names] for _ in names],
               'kwds': draw(st.booleans())})
  return case

def cov_of(case):
  root = np.array(case['root'])
  return root.dot(root.T) + 0.3 * np.eye(len(root))

def mvn_pdf(vals, mean, cov):
  """ Density of a multivariate normal, from its definition. """
  grid = np.broadcast_arrays(*[np.asarray(v, dtype=float) for v in vals])
  diff = np.stack(grid, axis=-1) - np.asarray(mean)
  maha = np.einsum('...i,ij,...j->...', diff, np.linalg.inv(cov), diff)
  return np.exp(-0.5 * maha) / np.sqrt((2. * np.pi) ** len(mean) * np.linalg.det(cov))

@law(LAWS, st_mvn, quick=300)
def multivariate(case, ctx):
  """ A multivariate normal pairs the mean and covariance with the variables in their order. """
  import scipy.stats
  names, rvs = case['names'], case['rvs']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  if len(names) == 1:
    import probayes as pb
    field = pb.RF(made[names[0]])
  cov = cov_of(case)
  if case['kwds']:
    field.set_prob(scipy.stats.multivariate_normal, mean=case['mean'], cov=cov)
  else:
    field.set_prob(scipy.stats.multivariate_normal, case['mean'], cov)
  args, kwds = args_of(case, specs, made)
  dist = field(*args, **kwds)
  dim = check_joint(dist, names, specs, case,
                    lambda vals: mvn_pdf([vals[name] for name in names], case['mean'], cov),
                    0j if case['log'] else 1., "multivariate normal", rtol=1e-6)
  ctx.interesting(len(names) > 1)
  ctx.tag('n{}'.format(len(names)), 'dim{}'.format(dim))

# -----------------------------------------------------------------------------
@st.composite
def st_iid(draw):
  names = draw(st.permutations(['x', 'y', 'n', 'b']))[:draw(st.integers(2, 3))]
  rvs = {name: draw(st_rv()) for name in names}
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}, random=False,
                        scalars=draw(st.integers(0, 2)) == 0, joint=False))
  iid = draw(st.permutations(names))[:draw(st.integers(1, len(names)))]
  case.update({'names': names, 'rvs': rvs, 'make': 'RF', 'iid': iid})
  return case

@law(LAWS, st_iid, quick=300)
def iid(case, ctx):
  """ With independent and identically distributed observations of some variables, the
  probability is the product over all observations. """
  names, rvs = case['names'], case['rvs']
  if case['shared']:
    skip()
  case['by'] = 'dict'
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  args, kwds = args_of(case, specs, made)
  iids = [name for name in case['iid'] if case['how'][name][0] != 'scalar' and
          case['how'][name] != ['count', 0]]
  if not iids or any(k == ['count', 0] for k in case['how'].values()):
    skip()
  full = field(*args)
  dist = field(*args, iid=iids)
  keep = [name for name in names if name not in iids]
  lin = pr.linear(full.prob, full.pscale, "joint")
  axes = tuple(full.dims[name] for name in iids)
  want = np.prod(lin, axis=axes)
  for name in keep:
    expect(np.array_equal(np.ravel(dist[name]), np.ravel(full[name])), "{} became {}", name,
           dist[name])
  for name in iids:
    expect(dist[name] == {np.size(full[name])}, "{} observations of {}: {}", np.size(full[name]),
           name, dist[name])
  got = pr.linear(dist.prob, dist.pscale, "iid")
  expect(got.shape == want.shape, "shape {} rather than {}", got.shape, want.shape)
  expect(np.allclose(got, want, rtol=1e-7, atol=1e-290), "iid {}: {} rather than {}", iids,
         got.tolist(), want.tolist())
  ctx.interesting(any(np.size(full[name]) > 1 for name in iids))

# -----------------------------------------------------------------------------
@st.composite
def st_propose(draw):
  case = draw(st_independent())
  case.update({'suffix': draw(st.sampled_from(["'", "_new", None])), 'prop': draw(st.booleans()),
               'scale': None})
  return case

@law(LAWS, st_propose, quick=200)
def propose(case, ctx):
  """ Proposals are distributions over renamed variables with the proposition (or else the joint)
  probability. """
  names, rvs = case['names'], case['rvs']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  if any(rvs[name]['prob'] == 'table' for name in names) and case['prop']:
    pass
  field = make_field(case, made)
  if not hasattr(field, 'propose'):
    skip()
  lin = lambda **vals: 0.2 + 0.1 * sum(np.tanh(np.asarray(v, dtype=float)) for v in vals.values()) / len(vals)
  scale = expected_scale([rvs[name] for name in names])
  if case['prop']:
    field.set_prop(lambda **vals: raw_of(lin(**vals), scale))
  args, kwds = args_of(case, specs, made)
  if case['suffix'] != "'":
    kwds = dict(kwds, suffix=case['suffix'])
  if not args and len(kwds) <= 1 and case['suffix'] != "'":
    skip()
  dist = field.propose(*args, **kwds)
  suffix = case['suffix'] or ''
  expect(set(dist.keys()) == {name + suffix for name in names}, "variables {}", list(dist.keys()))
  vals = {name: dist[name + suffix] for name in names}
  want = 1.
  if case['prop']:
    want = lin(**vals)
  else:
    for name in names:
      want = want * prob_of(rvs[name], vals[name])
  for name in names:
    kind = case['how'][name]
    if kind[0] in ('scalar', 'array'):
      given = kind[1][:1] if kind[0] == 'scalar' else kind[1]
      expect(np.ravel(vals[name]).tolist() == list(given), "{} became {}", given, vals[name])
  got = pr.linear(dist.prob, dist.pscale, "proposal")
  want = np.asarray(want, dtype=float)
  expect(got.shape == want.shape and
         np.allclose(got, want, rtol=1e-8, atol=1e-290 + 1e-13 * float(np.max(want, initial=0.))),
         "proposal {} rather than {}", got.tolist(), want.tolist())
  ctx.tag('prop' if case['prop'] else 'prob')
  ctx.interesting(len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_redefine(draw):
  names = draw(st.permutations(['x', 'y', 'n', 'b']))[:draw(st.integers(1, 3))]
  rvs = {name: draw(st_rv()) for name in names}
  name = draw(st.sampled_from(names))
  other = draw(st_rv(spec=rvs[name]['spec']))
  if other['prob'] == 'callable' and rvs[name]['spec'].get('ufun'):
    other = dict(other, prob='default')
  other = dict(other, scale=rvs[name]['scale'], spec=rvs[name]['spec'])
  case = draw(st_values(names, {key: rvs[key]['spec'] for key in names}))
  case.update({'names': names, 'rvs': rvs, 'make': 'RF', 'which': name, 'other': other})
  return case

@law(LAWS, st_redefine, quick=200, floor=0.15)
def redefined(case, ctx):
  """ A field follows the current probabilities of its variables; evaluation has no effect upon
  later evaluations. """
  names, rvs, which = case['names'], dict(case['rvs']), case['which']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  args, kwds = args_of(case, specs, made)
  def want(vals):
    out = 1.
    for name in names:
      out = out * prob_of(rvs[name], vals[name])
    return out
  check_joint(field(*args, **kwds), names, specs, case, want, None, "first")
  other = case['other']
  scale = pr.norm(other['scale'])
  if other['prob'] == 'table':
    made[which].set_prob(raw_of(np.array(other['weights']) / sum(other['weights']), scale))
  elif other['prob'] == 'callable':
    mu, sd = other['mu'], other['sd']
    made[which].set_prob(lambda x: raw_of(pr.gauss(x, mu, sd), scale))
  else:
    made[which].set_prob()
  rvs[which] = other
  for _ in range(2):
    check_joint(field(*args, **kwds), names, specs, case, want, None, "redefined")
  ctx.interesting(case['rvs'][which]['prob'] != other['prob'] or other['prob'] != 'default')

# -----------------------------------------------------------------------------
@st.composite
def st_marginals(draw):
  names = draw(st.permutations(['n', 'm', 'b', 'k']))[:draw(st.integers(2, 3))]
  rvs = {}
  for name in names:
    spec = draw(pv.st_discrete_var())
    if spec['type'] == 'int' and spec['how'] != 'type':
      spec = dict(spec, vals=spec['vals'][:4])
    rvs[name] = draw(st_rv(spec=spec))
  return {'names': names, 'rvs': rvs, 'make': draw(st.sampled_from(['RF', 'and', 'nested']))}

@law(LAWS, st_marginals, quick=200)
def marginals(case, ctx):
  """ The joint of independent discrete variables sums to one, marginalises to the variables, and
  conditioning upon one has no effect upon the others. """
  names, rvs = case['names'], case['rvs']
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  joint = field()
  total = float(np.sum(pr.linear(joint.prob, joint.pscale, "joint")))
  expect(abs(total - 1.) < 1e-8, "joint sums to {}", total)
  for name in names:
    marg = joint.marginal(name)
    want = prob_of(rvs[name], np.array(pv.declared(rvs[name]['spec'])))
    got = pr.linear(marg.prob, marg.pscale, "marginal")
    expect(np.allclose(np.ravel(got), want, rtol=1e-7), "marginal of {}: {} rather than {}", name,
           got.tolist(), want.tolist())
    own = made[name]()
    expect(np.allclose(pr.linear(own.prob, own.pscale, "rv"), want, rtol=1e-7), "{}: {}", name,
           own.prob)
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_symbolic(draw):
  family = draw(st.sampled_from(['normal', 'normal', 'exponential', 'expression', 'laplace']))
  names = draw(st.permutations(['x', 'mu', 's', 'y_2']))
  names = names[:{'exponential': 2, 'expression': draw(st.integers(1, 3))}.get(family, 3)]
  fields = draw(st.permutations(names))
  specs = {}
  for i, name in enumerate(names):
    spec = draw(pv.st_float_var(ufun=''))
    lo = draw(st.floats(0.3, 3.)) if i == len(names) - 1 or family == 'exponential' else \
         draw(st.floats(-3., 1.))
    specs[name] = dict(spec, ufun=None, lims=[lo, lo + draw(st.floats(0.5, 4.))])
  case = draw(st_values(fields, specs))
  case.update({'family': family, 'names': names, 'fields': fields, 'specs': specs,
               'scale': draw(st.sampled_from([None, 1., 'log'])),
               'rv_log': draw(st.booleans()),
               'coefs': [draw(st.sampled_from([0.25, 0.5, 1., 2.])) for _ in names]})
  return case

@law(LAWS, st_symbolic, quick=64, chunk=8, thorough=600)
def symbolic(case, ctx):
  """ A joint probability given symbolically, as a SymPy distribution of one variable the parameters of which are the
  others or as an expression, has its value at each combination of values. """
  import probayes as pb
  import sympy
  import sympy.stats
  names, fields, specs, family = case['names'], case['fields'], case['specs'], case['family']
  rv_scale = 'log' if case['rv_log'] else 1.
  made = {name: pv.make(name, specs[name], cls=lambda *a, **k: pb.RV(*a, pscale=rv_scale, **k))
          for name in fields}
  field = pb.RF(*[made[name] for name in fields])
  sym = [made[name][:] for name in names]
  kwds = {} if case['scale'] is None else {'pscale': case['scale']}
  scale = pr.norm(rv_scale if case['scale'] is None else case['scale'])
  log = isinstance(scale, complex)
  coefs = case['coefs']
  if family == 'normal':
    field.set_prob(sympy.stats.Normal(*sym), **kwds)
    fun = lambda x, m, s: np.exp(-0.5 * ((x - m) / s)**2) / (s * math.sqrt(2. * math.pi))
  elif family == 'laplace':
    field.set_prob(sympy.stats.Laplace(*sym), **kwds)
    fun = lambda x, m, s: np.exp(-np.abs(x - m) / s) / (2. * s)
  elif family == 'exponential':
    field.set_prob(sympy.stats.Exponential(*sym), **kwds)
    fun = lambda x, rate: rate * np.exp(-rate * x)
  else:
    expr = sum(-c * v**2 for c, v in zip(coefs, sym))
    field.set_prob(expr if log else sympy.exp(expr), **kwds)
    fun = lambda *args: np.exp(sum(-c * v**2 for c, v in zip(coefs, args)))
  args, kwds = args_of(case, specs, made)
  dist = field(*args, **kwds)
  dim = check_joint(dist, fields, specs, case,
                    lambda vals: fun(*[np.asarray(vals[name], dtype=float) for name in names]),
                    scale, family, rtol=1e-6)
  ctx.tag(family, 'log' if log else 'linear')
  ctx.interesting(dim > 0)

# -----------------------------------------------------------------------------
@st.composite
def st_same(draw):
  n = draw(st.integers(1, 4))
  names = draw(st.permutations(NAMES))[:n]
  kind = draw(st.sampled_from(['count', 'value', 'none']))
  base = draw(st.one_of(pv.st_float_var(ufun=''), pv.st_discrete_var()))
  rvs = {}
  for name in names:
    spec = draw(st.one_of(pv.st_float_var(), pv.st_discrete_var()))
    if kind == 'value':
      spec = base
    elif kind == 'none' and spec['type'] == 'float':
      spec = draw(pv.st_discrete_var())
    rvs[name] = draw(st_rv(spec=spec))
  value = draw(st.floats(0.05, 0.95)) if base['type'] == 'float' else \
          draw(st.sampled_from(pv.declared(base)))
  if base['type'] == 'float':
    value = base['lims'][0] + value * (base['lims'][1] - base['lims'][0])
  return {'names': names, 'rvs': rvs, 'make': 'RF', 'kind': kind, 'value': value,
          'count': draw(st.integers(0, 4))}

@law(LAWS, st_same, quick=150)
def same(case, ctx):
  """ A number of values or a value passed by itself is that of every variable; nothing asks for every
  value of discrete variables. """
  names, rvs, kind = case['names'], case['rvs'], case['kind']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  if len(names) == 1:
    import probayes as pb
    field = pb.RF(made[names[0]])
  if kind == 'count':
    args, how = ({case['count']},), ['count', case['count']]
  elif kind == 'value':
    args, how = (case['value'],), ['scalar', [case['value']]]
  else:
    args, how = (), ['omit']
  dist = field(*args)
  def want(vals):
    out = 1.
    for name in names:
      out = out * prob_of(rvs[name], vals[name])
    return out
  check_joint(dist, names, specs, {'how': {name: how for name in names}, 'shared': []}, want,
              expected_scale([rvs[name] for name in names]), kind)
  prop = field.propose(*args, suffix=None)
  if kind != 'count' or case['count'] > 0:
    check_joint(prop, names, specs, {'how': {name: how for name in names}, 'shared': []}, want,
                expected_scale([rvs[name] for name in names]), kind + ' proposed')
  lengths = [made[name].length for name in names]
  expect(abs(field.eval_length() - math.sqrt(sum(l**2 for l in lengths))) <= 1e-9 * (1. + sum(lengths)),
         "length {} of a field of lengths {}", field.eval_length(), lengths)

  others = list(reversed([made[name] for name in names]))
  import probayes as pb
  if len(names) > 1:
    expect(field == pb.RF(*others), "fields of the same variables are unequal")
    part = pb.RF(*others[1:])
    expect(not (field == part) and not (part == field) and field != part and part != field,
           "fields of different variables are equal")
  for name in names:
    expect(field[name] is made[name], "field[{!r}] is {!r}", name, field[name])
  for i, name in enumerate(names):
    expect(field[i] is made[name], "field[{}] is {!r}", i, field[i])
  ctx.tag(kind)
  ctx.interesting(len(names) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_iid_function(draw):
  names = draw(st.permutations(['x', 'y', 'n', 'b']))[:draw(st.integers(2, 4))]
  rvs = {name: dict(draw(st_rv(probs=False)), scale=1.) for name in names}
  specs = {name: rvs[name]['spec'] for name in names}
  case = draw(st_values(names, specs, random=False))
  iid = draw(st.permutations(names))[:draw(st.integers(1, len(names) - 1))]
  how = case['how']
  if len(names) > 2 and draw(st.booleans()): # others that share a dimension and others again
    iid, shared = [iid[0]], [name for name in names if name != iid[0]]
    shared = draw(st.permutations(shared))[:2]
    count = draw(st.integers(2, 4))
    for name in shared:
      pool = specs[name]
      pool = st.floats(0.05, 0.95).map(lambda f, s=pool: s['lims'][0] + f * (s['lims'][1] - s['lims'][0])) \
             if pool['type'] == 'float' else st.sampled_from(pv.declared(pool))
      how[name] = ['array', draw(st.lists(pool, min_size=count, max_size=count))]
    case['shared'] = shared
  for name in names: # no singletons
    if (how[name][0] == 'count' and how[name][1] < 2) or \
        (how[name][0] == 'array' and len(how[name][1]) < 2) or \
        (how[name][0] == 'scalar' and name in iid):
      how[name] = ['count', draw(st.integers(2, 4))]
      case['shared'] = []
  case.update({'names': names, 'rvs': rvs, 'make': 'RF', 'iid': iid, 'tran': draw(st.booleans()),
               'scale': draw(st.sampled_from([1., 'log'])),
               'coefs': [draw(st.sampled_from([-1.5, -0.5, 0.25, 1., 2.])) for _ in names]})
  return case

@law(LAWS, st_iid_function, quick=200)
def iid_function(case, ctx):
  """ The product over observations may be carried out by the probability function itself, given
  the dimensions. """
  names, rvs, iids = case['names'], case['rvs'], case['iid']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  field = make_field(case, made)
  if any(case['how'][name][0] == 'scalar' or case['how'][name] == ['count', 0] for name in iids) or \
      any(case['how'][name] == ['count', 0] for name in names):
    skip()
  if case['shared'] and 0 < len(set(case['shared']) & set(iids)) < len(case['shared']):
    skip()
  scale = pr.norm(case['scale'])
  def lin(vals):
    u = 0.1
    for i, name in enumerate(names):
      u = u + case['coefs'][i] * np.tanh(0.1 * np.asarray(vals[name], dtype=float) + 0.2 * i)
    return 1. / (1. + np.exp(-u))
  def fun(dims=None, **vals):
    axes = tuple({dims[name] for name in iids})
    return raw_of(np.prod(lin(vals), axis=axes), scale)
  args, kwds = args_of(case, specs, made)
  field.set_prob(lambda **vals: raw_of(lin(vals), scale), pscale=case['scale'])
  full = field(*args, **kwds)
  if any(np.size(full[name]) < 2 for name in iids) or \
      any(np.ndim(full[name]) and np.size(full[name]) < 2 for name in names):
    # singletons have no dimension
    skip()
  joint = pr.linear(full.prob, full.pscale, "joint")
  want = np.prod(joint, axis=tuple({full.dims[name] for name in iids}))
  given = []
  def every(dims=None, **vals):
    given.append(dims)
    return raw_of(lin(vals), scale)
  field.set_prob(every, passdims=True, pscale=case['scale'])
  if case['tran']:
    field.set_tran(0. if scale != 1. else 1.)
  for what, call in [('called', field), ('proposed', lambda *args, **kwds: field.propose(*args, suffix=None, **kwds))]:
    dist = call(*args, **kwds)
    dims_given = given.pop(0)
    expect(dims_given is not None and dict(dims_given) == dict(full.dims), "{}: dimensions given {}", what, dims_given)
    expect(not given, "{} more than once", what)
    got = pr.linear(dist.prob, dist.pscale, what)
    expect(got.shape == joint.shape and np.allclose(got, joint, rtol=1e-9), "{}: {} rather than {}", what, got.tolist(),
           joint.tolist())
  field.set_prob(fun, passdims=True, pscale=case['scale'])
  dist = field(*args, iid=iids, **kwds)
  keep = [name for name in names if name not in iids]
  for name in keep:
    expect(np.array_equal(np.ravel(dist[name]), np.ravel(full[name])), "{} became {}", name, dist[name])
  for name in iids:
    expect(dist[name] == {np.size(full[name])} and dist.dims[name] is None, "{} observations of {}: {}",
           np.size(full[name]), name, dist[name])
  dims = sorted({full.dims[name] for name in keep if full.dims[name] is not None})
  for name in keep:
    there = full.dims[name]
    expect(dist.dims[name] == (None if there is None else dims.index(there)), "dimension of {}: {}", name,
           dist.dims[name])
  got = pr.linear(dist.prob, dist.pscale, "iid")
  expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-290),
         "iid {}: {} rather than {}", iids, got.tolist(), want.tolist())
  ctx.interesting(any(np.size(full[name]) > 1 for name in iids))
