"""Stochastic dependences: conditional probabilities, their joints, and exact inference."""
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, arr
from pbt.props import p12_variables as pv
from pbt.props import p14_random_variables as pr
from pbt.props import p17_fields as pf
from pbt.props.p17_fields import raw_of, st_rv, make_rv, prob_of, st_values, args_of, \
    check_joint, expected_scale, make_field

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("stochastic dependences of 1-3 leaf variables upon 1-3 root variables (built with |, & or SD "
        "from variables, fields or dependences) with tabulated or callable conditional probabilities "
        "on any scale, alone or in parallel, evaluated conditionally or jointly at counts, scalars, "
        "arrays, shared values and independent observations; "
        "non-trivial: a result of at least one dimension, or several roots or leafs")

NAMES = ['x', 'y', 'n', 'b', 'zeta', 'k_1']

# -----------------------------------------------------------------------------
@st.composite
def st_graph(draw):
  names = draw(st.permutations(['x', 'y', 'z', 'u', 'v', 'w']))
  sizes = [draw(st.integers(1, 3)) for _ in range(2)]
  groups = [names[:sizes[0]], names[sizes[0]:sum(sizes)]]
  rest = names[sum(sizes):]
  if draw(st.booleans()) and rest:
    groups.append(rest[:draw(st.integers(1, len(rest)))])
    if len(rest) > len(groups[-1]):
      groups.append(rest[len(groups[-1]):])
  return {'stochastic': draw(st.booleans()), 'groups': groups,
          'kind': draw(st.sampled_from(['bar', 'bar', 'SD', 'and_right', 'and_left', 'common',
                                        'parallel', 'alone', 'multi', 'disjoint']))}

@law(LAWS, st_graph, quick=600)
def graph(case, ctx):
  """ Every leaf variable depends upon every root variable of the dependences declared, in the
  order declared, and declaring dependences has no effect upon their constituents. """
  import probayes as pb
  groups, kind = case['groups'], case['kind']
  if case['stochastic']:
    V, F, D = pb.RV, pb.RF, pb.SD
  else:
    V, F, D = pb.Variable, pb.Field, pb.Dependence
  made = {name: V(name, vtype=int, vset=range(2)) for group in groups for name in group}
  fields = []
  def one(group):
    if len(group) == 1:
      return made[group[0]]
    fields.append((F(*[made[name] for name in group]), list(group)))
    return fields[-1][0]
  def seen(obj):
    return (obj.name, sorted(v.name for v in obj.nodes), list(obj.keylist),
            sorted((a.name, b.name) for a, b in obj.edges))
  leafs, roots = list(groups[0]), list(groups[1])
  third = list(groups[2]) if len(groups) > 2 else None
  ordered = True
  edges = {(b, a) for a in leafs for b in roots}
  parts = []
  if kind == 'alone':
    m, roots, edges = D(one(leafs)), [], set()
  elif kind == 'bar' or third is None and kind not in ('SD',):
    m = one(leafs) | one(roots)
  elif kind == 'SD':
    m = D(one(leafs), one(roots))
  elif kind == 'multi':
    m = D(one(leafs), one(third), one(roots))
    leafs = leafs + third
    edges = {(b, a) for a in leafs for b in roots}
  else:
    dep = one(leafs) | one(roots)
    if kind == 'and_right':
      parts = [dep]
      before = [seen(part) for part in parts]
      m = dep & one(third)
      leafs = leafs + third
      edges = {(b, a) for a in leafs for b in roots}
    elif kind == 'and_left':
      parts = [dep]
      before = [seen(part) for part in parts]
      m = one(third) & dep
      leafs = third + leafs
      edges = {(b, a) for a in leafs for b in roots}
    elif kind == 'common': # two groups dependent upon the same roots
      parts = [dep, one(third) | one(roots)]
      before = [seen(part) for part in parts]
      m = parts[0] & parts[1]
      leafs, ordered = leafs + third, False
      edges = {(b, a) for a in leafs for b in roots}
    elif kind == 'disjoint' and len(groups) > 3: # unrelated dependences
      parts = [dep, one(third) | one(groups[3])]
      before = [seen(part) for part in parts]
      m = parts[0] & parts[1] if len(leafs) > 1 else D(*parts)
      edges |= {(b, a) for a in third for b in groups[3]}
      leafs, roots, ordered = leafs + third, roots + list(groups[3]), False
    else:
      parts = [dep, one(leafs) | one(third)]
      before = [seen(part) for part in parts]
      m = D(*parts)
      roots = roots + third
      edges = {(b, a) for a in leafs for b in roots}
  expect(isinstance(m, D), "{} declares a {}", kind, type(m))
  got = {(a.name, b.name) for a, b in m.edges}
  expect(got == edges, "{}: edges {} rather than {}", kind, sorted(got), sorted(edges))
  names = [m.leafs.keylist, m.roots.keylist if roots and m.roots is not None else []]
  for have, want, what in zip(names, [leafs, roots], ['leafs', 'roots']):
    expect(list(have) == want if ordered else sorted(have) == sorted(want),
           "{}: {} {} rather than {}", kind, what, have, want)
  expect(sorted(v.name for v in m.nodes) == sorted(leafs + roots), "{}: vertices {}", kind, m.nodes)
  expect(sorted(m.keylist) == sorted(leafs + roots), "{}: keys {}", kind, m.keylist)
  if ordered:
    expect(list(m.keylist) == leafs + roots, "{}: keys {}", kind, m.keylist)
    name = ','.join(leafs) + ('|' + ','.join(roots) if roots else '')
    expect(m.name == name, "{}: name {} rather than {}", kind, m.name, name)
  for part, was in zip(parts, before if parts else []):
    expect(seen(part) == was, "{}: {} became {}", kind, was, seen(part))
  for field, group in fields:
    expect([v.name for v in field.varlist] == group and list(field.keylist) == group and
           [v.name for v in field.nodes] == group, "{}: field of {} became {}", kind, group, field.varlist)
  for key in leafs + roots:
    expect(m[key] is made[key], "{}: variable {} is {}", kind, key, m[key])
  ctx.tag(kind)
  ctx.interesting(len(leafs) + len(roots) > 2)

# -----------------------------------------------------------------------------
def sd_of(case, made):
  """ A conditional dependence declared as the case asks for. """
  import probayes as pb
  leafs, roots = case['leafs'], case['roots']
  def one(group, field=False):
    if len(group) == 1 and not field:
      return made[group[0]]
    if case['make'] == 'and' and len(group) > 1:
      out = made[group[0]]
      for name in group[1:]:
        out = out & made[name]
      return out
    return pb.RF(*[made[name] for name in group])
  if case['make'] == 'SD':
    return pb.SD(one(leafs, True), one(roots, True))
  return one(leafs) | one(roots)

@st.composite
def st_dependence(draw, discrete=False, most=4, **kwds):
  n = draw(st.integers(2, most))
  names = draw(st.permutations(NAMES))[:n]
  split = draw(st.integers(1, n - 1))
  rvs = {}
  for name in names:
    spec = None
    if discrete:
      spec = draw(pv.st_discrete_var())
      if spec['type'] == 'int':
        spec = dict(spec, vals=spec['vals'][:4], how='list' if spec['how'] == 'type' else spec['how'])
    rvs[name] = draw(st_rv(spec=spec, probs=name in names[split:]))
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}, **kwds))
  case.update({'names': names, 'leafs': names[:split], 'roots': names[split:], 'rvs': rvs,
               'scale': draw(pr.st_scale()), 'make': draw(st.sampled_from(['bar', 'and', 'SD']))})
  return case

def table_of(case, leafs, roots, rvs, weights):
  """ A table of conditional probabilities and its reference function. """
  sets = {name: pv.declared(rvs[name]['spec']) for name in leafs + roots}
  shape = [len(sets[name]) for name in leafs + roots]
  size = int(np.prod(shape))
  lin = np.array([weights[i % len(weights)] * (1. + 0.37 * (i % 5)) for i in range(size)]).reshape(shape)
  lin = lin / np.sum(lin, axis=tuple(range(len(leafs))), keepdims=True)
  def want(vals):
    grid = np.broadcast_arrays(*[np.asarray(vals[name]) for name in leafs + roots])
    out = np.zeros(grid[0].shape)
    for idx in np.ndindex(*grid[0].shape):
      cell = [g[idx].item() for g in grid]
      out[idx] = lin[tuple(sets[name].index(v) for name, v in zip(leafs + roots, cell))]
    return out
  return lin, want

def check_product(dist, names, case, want, what):
  """ A joint distribution has the values asked for and the probability of every combination. """
  expect(set(dist.keys()) == set(names), "{}: keys {}", what, list(dist.keys()))
  expect(set(dist.marg.keys()) == set(names) and not dist.cond, "{}: p({}|{})", what, dist.marg,
         dist.cond)
  vals = {name: dist[name] for name in names}
  for name in names:
    kind = case['how'][name]
    flat = np.ravel(vals[name]).tolist()
    if kind[0] in ('scalar', 'array'):
      given = kind[1][:1] if kind[0] == 'scalar' else kind[1]
      expect(flat == list(given), "{}: {} = {} became {}", what, name, given, flat)
    elif kind[0] == 'count':
      expect(len(flat) == max(1, abs(kind[1])), "{}: {} {} became {}", what, name, kind, flat)
  ref = np.asarray(want(vals), dtype=float)
  got = pr.linear(dist.prob, dist.pscale, what)
  expect(got.shape == np.broadcast(*vals.values()).shape == ref.shape,
         "{}: shape {} rather than {}", what, got.shape, ref.shape)
  expect(np.allclose(got, ref, rtol=1e-8, atol=1e-290 + 1e-13 * float(np.max(ref, initial=0.))),
         "{}: at {} probabilities {} rather than {}", what,
         {k: np.ravel(v).tolist() for k, v in vals.items()}, got.tolist(), ref.tolist())

def roots_prob(case, vals):
  out = 1.
  for name in case['roots']:
    out = out * prob_of(case['rvs'][name], vals[name])
  return out

def plain(rvs, names):
  """ Variables on a linear scale, for fields of which only the joint probability matters. """
  return {k: dict(v, scale=1.) if k in names else v for k, v in rvs.items()}

@st.composite
def st_table(draw):
  case = draw(st_dependence(discrete=True))
  case.update({'weights': draw(st.lists(st.floats(0.01, 1.), min_size=7, max_size=7)),
               'again': draw(st.lists(st.floats(0.01, 1.), min_size=7, max_size=7))})
  return case

@law(LAWS, st_table, quick=500)
def tabulated(case, ctx):
  """ A table of conditional probabilities is indexed by leafs then roots; conditional
  distributions are normalised for every value of the roots; joint distributions multiply by the
  probabilities of the roots, and are normalised overall. """
  names, rvs, roots = case['names'], plain(case['rvs'], case['leafs']), case['roots']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  m = sd_of(case, made)
  scale = pr.norm(case['scale'])
  args, kwds = args_of(case, specs, made)
  for i, weights in enumerate((case['weights'], case['again'])):
    lin, want = table_of(case, case['leafs'], roots, rvs, weights)
    m.set_prob(raw_of(lin, scale), pscale=case['scale'])
    dim = check_joint(m(*args, **kwds), names, specs, case, want, scale, "conditional", roots=roots)
    if i:
      continue
    joint = m(*args, joint=True, **kwds)
    check_product(joint, names, case, lambda vals: want(vals) * roots_prob(case, vals), "joint")
    every = {'how': {name: ['omit'] for name in names}, 'shared': []}
    full = m()
    check_joint(full, names, specs, every, want, scale, "all values", roots=roots)
    axes = tuple(full.dims[name] for name in case['leafs'])
    sums = np.sum(pr.linear(full.prob, full.pscale, "all values"), axis=axes)
    expect(np.allclose(sums, 1.), "conditional probabilities sum to {}", sums)
    both = m(joint=True)
    check_product(both, names, every, lambda vals: want(vals) * roots_prob(case, vals),
                  "joint of all values")
    total = float(np.sum(pr.linear(both.prob, both.pscale, "joint of all values")))
    expect(abs(total - 1.) < 1e-8, "joint sums to {}", total)
  ctx.tag('leafs{}roots{}'.format(len(case['leafs']), len(roots)),
          'shared' if case['shared'] else 'separate')
  ctx.interesting(dim > 0 or len(names) > 2)

# -----------------------------------------------------------------------------
@st.composite
def st_callable(draw):
  case = draw(st_dependence(most=3))
  case.update({'kind': draw(st.sampled_from(['lambda', 'lambda', 'order', 'kwds', 'default_scale'])),
               'coefs': [draw(st.sampled_from([-1.5, -0.5, 0.25, 1., 2.])) for _ in range(3)]})
  return case

@law(LAWS, st_callable, quick=400)
def callable_conditional(case, ctx):
  """ A conditional probability function is evaluated with each value of each variable. """
  names, rvs, roots = case['names'], case['rvs'], case['roots']
  if case['kind'] != 'default_scale':
    rvs = plain(rvs, case['leafs'])
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  m = sd_of(case, made)
  scale = expected_scale([rvs[n] for n in names]) if case['kind'] == 'default_scale' \
          else pr.norm(case['scale'])
  def lin(vals):
    u = 0.1
    for i, name in enumerate(names):
      u = u + case['coefs'][i] * np.tanh(0.1 * np.asarray(vals[name], dtype=float) + 0.2 * i)
    return 1. / (1. + np.exp(-u))
  raw = lambda vals: raw_of(lin(vals), scale)
  kwds = {} if case['kind'] == 'default_scale' else {'pscale': case['scale']}
  if case['kind'] == 'order':
    order = {name: i for i, name in enumerate(reversed(names))}
    m.set_prob(lambda *vals: raw(dict(zip(reversed(names), vals))), order=order, **kwds)
  elif case['kind'] == 'kwds':
    order = {name: 'arg_' + name for name in names}
    m.set_prob(lambda **vals: raw({k[4:]: v for k, v in vals.items()}), order=order, **kwds)
  else:
    m.set_prob(lambda **vals: raw(vals), **kwds)
  args, kwds = args_of(case, specs, made)
  dim = check_joint(m(*args, **kwds), names, specs, case, lin, scale, case['kind'], roots=roots)
  check_product(m(*args, joint=True, **kwds), names, case,
                lambda vals: lin(vals) * roots_prob(case, vals), "joint")
  ctx.tag(case['kind'])
  ctx.interesting(dim > 0)

# -----------------------------------------------------------------------------
@st.composite
def st_parallel(draw):
  n = draw(st.integers(3, 4))
  names = draw(st.permutations(NAMES))[:n]
  nleafs = draw(st.integers(1, n - 2))
  rvs = {}
  for name in names:
    spec = draw(pv.st_discrete_var())
    if spec['type'] == 'int':
      spec = dict(spec, vals=spec['vals'][:3], how='list' if spec['how'] == 'type' else spec['how'])
    rvs[name] = draw(st_rv(spec=spec, probs=name in names[nleafs:]))
  case = draw(st_values(names, {name: rvs[name]['spec'] for name in names}, random=False))
  parts = len(names) - nleafs
  case.update({'names': names, 'leafs': names[:nleafs], 'roots': names[nleafs:], 'rvs': rvs,
               'scales': [draw(pr.st_scale()) for _ in range(parts)], 'make': 'bar',
               'weights': [draw(st.lists(st.floats(0.01, 1.), min_size=7, max_size=7))
                           for _ in range(parts)],
               'request': draw(st.one_of(st.none(), pr.st_scale()))})
  return case

@law(LAWS, st_parallel, quick=300)
def parallel(case, ctx):
  """ Parallel dependences of the same leafs have the product of their probabilities. """
  import probayes as pb
  names, rvs, leafs = case['names'], plain(case['rvs'], case['leafs']), case['leafs']
  specs = {name: rvs[name]['spec'] for name in names}
  made = {name: make_rv(name, rvs[name]) for name in names}
  deps, wants = [], []
  field = made[leafs[0]] if len(leafs) == 1 else pb.RF(*[made[name] for name in leafs])
  for root, scale, weights in zip(case['roots'], case['scales'], case['weights']):
    dep = field | made[root]
    lin, want = table_of(case, leafs, [root], rvs, weights)
    dep.set_prob(raw_of(lin, pr.norm(scale)), pscale=scale)
    deps.append(dep)
    wants.append(want)
  m = pb.SD(*deps)
  scale = None
  if case['request'] is not None:
    scale = pr.norm(case['request'])
    m.set_prob(pscale=case['request'])
  args, kwds = args_of(case, specs, made)
  def want(vals):
    out = 1.
    for func in wants:
      out = out * func(vals)
    return out
  dim = check_joint(m(*args, **kwds), names, specs, case, want, scale, "parallel", roots=case['roots'])
  check_product(m(*args, joint=True, **kwds), names, case,
                lambda vals: want(vals) * roots_prob(case, vals), "joint of parallel")
  every = {'how': {name: ['omit'] for name in names}, 'shared': []}
  check_joint(m(), names, specs, every, want, scale, "parallel of all values", roots=case['roots'])
  ctx.interesting(dim > 0)

# -----------------------------------------------------------------------------
@st.composite
def st_inference(draw):
  roots = draw(st.permutations(['mu', 'sd', 'k']))[:draw(st.integers(1, 3))]
  rvs = {'x': draw(st_rv(spec=draw(pv.st_float_var(ufun='')), probs=False))}
  rvs['x']['spec'] = dict(rvs['x']['spec'], ufun=None, lims=[-50., 50.])
  for name in roots:
    spec = draw(pv.st_float_var(ufun='')) if name != 'k' else draw(pv.st_discrete_var())
    if name != 'k':
      lo = draw(st.floats(-3., 3.)) if name == 'mu' else draw(st.floats(0.5, 2.))
      spec = dict(spec, lims=[lo, lo + draw(st.floats(0.5, 4.))], ufun=None)
    elif spec['type'] == 'int':
      spec = dict(spec, vals=spec['vals'][:4], how='list' if spec['how'] == 'type' else spec['how'])
    rvs[name] = draw(st_rv(spec=spec))
  return {'roots': roots, 'rvs': rvs, 'log': draw(st.booleans()),
          'data': draw(st.lists(st.floats(-6., 6.), min_size=1, max_size=6)),
          'counts': [draw(st.integers(2, 5)) for _ in roots],
          'share': len(roots) > 1 and draw(st.integers(0, 3)) == 0,
          'route': draw(st.sampled_from(['joint', 'product', 'conditionalise']))}

@law(LAWS, st_inference, quick=300)
def inference(case, ctx):
  """ The posterior given independent observations is the likelihood of all of them multiplied by
  the prior, normalised; whichever way it is evaluated. """
  import probayes as pb
  roots, rvs = case['roots'], case['rvs']
  scale = 0j if case['log'] else 1.
  rvs = dict(rvs, x=dict(rvs['x'], scale='log' if case['log'] else 1.))
  made = {name: make_rv(name, rvs[name]) for name in ['x'] + roots}
  m = made['x'] | (made[roots[0]] if len(roots) == 1 else pb.RF(*[made[name] for name in roots]))
  def lin(x, **pars):
    mu = np.asarray(pars.get('mu', 0.), dtype=float) + 0.1 * np.asarray(pars.get('k', 0.), dtype=float)
    sd = np.asarray(pars.get('sd', 1.), dtype=float)
    return np.exp(-0.5 * ((x - mu) / sd) ** 2.) / (sd * np.sqrt(2. * np.pi))
  m.set_prob(lambda **vals: raw_of(lin(**vals), scale), pscale='log' if case['log'] else 1.)
  data = np.array(case['data'])
  vals = {'x': data}
  if case['share']:
    vals[','.join(roots)] = {-case['counts'][0]}
  else:
    for name, count in zip(roots, case['counts']):
      vals[name] = {count}
  joint = None
  if case['route'] == 'product':
    like = m(vals, iid=True)
    prior = m.roots(like('cond'))
    joint = prior * like
    expect(set(like.cond.keys()) == set(roots), "likelihood p({}|{})", like.marg, like.cond)
  else:
    joint = m(vals, iid=True, joint=True)
  expect(not joint.cond and set(joint.marg.keys()) == set(roots + ['x']), "joint p({}|{})",
         joint.marg, joint.cond)
  expect(joint['x'] == {len(data)}, "{} observations: {}", len(data), joint['x'])
  grid = {name: np.asarray(joint[name]) for name in roots}
  shape = np.broadcast(*grid.values()).shape
  want = np.ones(shape)
  for value in data:
    want = want * lin(value, **grid)
  for name in roots:
    want = want * prob_of(rvs[name], grid[name])
  got = pr.linear(joint.prob, joint.pscale, "joint")
  expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-290),
         "joint {} rather than {}", got.tolist(), want.tolist())
  if not np.sum(want) > 1e-200:
    skip()
  post = joint.conditionalise('x')
  total = pr.linear(post.prob, post.pscale, "posterior")
  expect(set(post.cond.keys()) == {'x'} and set(post.marg.keys()) == set(roots),
         "posterior p({}|{})", post.marg, post.cond)
  expect(np.allclose(total, want / np.sum(want), rtol=1e-7), "posterior {} rather than {}",
         total.tolist(), (want / np.sum(want)).tolist())
  if not case['share'] and len(roots) > 1:
    for name in roots:
      marg = post.marginal(name)
      axes = tuple(i for i in range(want.ndim) if i != joint.dims[name])
      ref = np.sum(want, axis=axes) / np.sum(want)
      have = pr.linear(marg.prob, marg.pscale, "marginal posterior")
      expect(np.allclose(np.ravel(have), ref, rtol=1e-7), "posterior of {}: {} rather than {}", name,
             have.tolist(), ref.tolist())
  ctx.tag(case['route'], 'roots{}'.format(len(roots)))
  ctx.interesting(len(data) > 1 or len(roots) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_symbolic(draw):
  lo, low = draw(st.floats(-3., 2.)), draw(st.floats(0.4, 2.))
  return {'mu': [lo, lo + draw(st.floats(0.5, 4.))], 'sd': [low, low + draw(st.floats(0.5, 4.))],
          'data': draw(st.lists(st.floats(-6., 6.), min_size=1, max_size=6)),
          'counts': [draw(st.integers(2, 5)) for _ in range(2)], 'log': draw(st.booleans()),
          'ufun': draw(st.sampled_from([None, 'log', 'log'])), 'swap': draw(st.booleans()),
          'family': draw(st.sampled_from(['normal', 'normal', 'expression', 'laplace'])),
          'iid': draw(st.sampled_from([True, True, False])), 'joint': draw(st.booleans()),
          'by': draw(st.sampled_from(['var', 'key']))}

@law(LAWS, st_symbolic, quick=48, chunk=6, thorough=500)
def symbolic(case, ctx):
  """ A conditional probability may be a SymPy distribution or expression, the parameters of which are the
  roots; roots may have a symbolic change of variables. """
  import probayes as pb
  import sympy
  import sympy.stats
  scale = 'log' if case['log'] else 1.
  mu = pb.RV('mu', vtype=float, vset=list(case['mu']))
  sd = pb.RV('sd', vtype=float, vset=list(case['sd']))
  x = pb.RV('x', vtype=float, vset={-pb.OO, pb.OO})
  if case['ufun']:
    sd.set_ufun(sympy.log(sd[:]))
  model = pb.SD(pb.RF(x), pb.RF(sd, mu) if case['swap'] else pb.RF(mu, sd))
  if case['family'] == 'normal':
    model.set_prob(sympy.stats.Normal(x[:], mean=mu[:], std=sd[:]), pscale=scale)
    like = lambda v, m, s: np.exp(-0.5 * ((v - m) / s)**2) / (s * np.sqrt(2. * np.pi))
  elif case['family'] == 'laplace':
    model.set_prob(sympy.stats.Laplace(x[:], mu[:], sd[:]), pscale=scale)
    like = lambda v, m, s: np.exp(-np.abs(v - m) / s) / (2. * s)
  else:
    expr = -(x[:] - mu[:])**2 / (1. + sd[:])
    model.set_prob(expr if case['log'] else sympy.exp(expr), pscale=scale)
    like = lambda v, m, s: np.exp(-(v - m)**2 / (1. + s))
  data = np.array(case['data'])
  key = (lambda v: v) if case['by'] == 'var' else (lambda v: v.name)
  vals = {key(x): data, key(mu): {case['counts'][0]}, key(sd): {case['counts'][1]}}
  kwds = {}
  if case['iid']:
    kwds['iid'] = True
  if case['joint']:
    kwds['joint'] = True
  dist = model(vals, **kwds)
  roots = {'mu', 'sd'}
  expect(set(dist.cond) == (set() if case['joint'] else roots), "p({}|{})", dist.marg, dist.cond)
  grid = {k: np.asarray(dist[k], dtype=float) for k in ('mu', 'sd')}
  for name, n in zip(('mu', 'sd'), case['counts']):
    u = np.log if name == 'sd' and case['ufun'] else (lambda v: v)
    ends = u(np.array(case[name]))
    expect(np.allclose(u(np.ravel(grid[name])), np.linspace(ends[0], ends[1], n)), "{}: {}", name, grid[name])
  if case['iid']:
    expect(dist['x'] == {len(data)}, "{} observations: {}", len(data), dist['x'])
    want = 1.
    for v in data:
      want = want * like(v, grid['mu'], grid['sd'])
  else:
    want = like(np.asarray(dist['x']), grid['mu'], grid['sd'])
  if case['joint']:
    want = want / (case['mu'][1] - case['mu'][0])
    if case['ufun']: # as the random variable itself has it (P14)
      prior = sd({'sd': np.ravel(grid['sd'])})
      want = want * np.reshape(pr.linear(prior.prob, prior.pscale, "prior"), grid['sd'].shape)
    else:
      want = want / (case['sd'][1] - case['sd'][0])
  got = pr.linear(dist.prob, dist.pscale, "symbolic")
  expect(got.shape == np.shape(want) and np.allclose(got, want, rtol=1e-6, atol=1e-290),
         "{}: {} rather than {}", case['family'], got.tolist(), np.asarray(want).tolist())
  ctx.tag(case['family'], 'iid' if case['iid'] else 'grid')
  ctx.interesting()
