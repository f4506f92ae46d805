"""Conditioning and division: definition of conditional probability, Bayes rule."""
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("random joint or conditional distributions over 1-4 axes and up to 2 scalars; "
        "a random subset of marginal variables becomes the condition (or the divisor); "
        "non-trivial: the resulting conditional has at least two different probabilities")

@st.composite
def st_case(draw, min_keep=1, scalars_too=True, **kwds):
  n_axes = draw(st.sampled_from([2, 3, 4, 1]))
  kwds = dict({'min_axes': n_axes, 'max_axes': n_axes, 'max_size': 4,
               'max_scalars': 2, 'min_marg': 2, 'reorder': draw(st.booleans())}, **kwds)
  spec = draw(pm.st_spec(st, **kwds))
  groups = pm.groups_of(spec, only_marg=True)
  scalars = [k for k, _ in spec['scalars'] if k not in spec['cond']]
  add = scalars if scalars and scalars_too and (len(groups) < 2 or draw(st.booleans())) else []
  out, keep = pm.split(st, draw, groups, 0 if add else 1, min_keep)
  keys = pm.flat(out or []) + add
  return {'spec': spec, 'keys': list(draw(st.permutations(keys))) if keys else []}

def check_case(case):
  """ At least one key conditioned, at least one array-valued marginal left. """
  spec, keys = case['spec'], case['keys']
  left = [a for a in spec['axes'] for k in a['keys']
          if k not in keys and k not in spec['cond']]
  if not keys or not left:
    skip()
  return spec, keys

def varied(table):
  return len(set(table.cells.values()) - {None}) > 1

@law(LAWS, st_case, quick=1000)
def conditionalise(case, ctx):
  spec, keys = check_case(case)
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  want = table.conditional(keys)
  out = dist.conditionalise(keys[0] if len(keys) == 1 else keys)
  pm.same_pd(out, want, "conditionalise({})".format(keys))
  pm.same_pd(dist, table, "operand after conditionalise")
  ctx.interesting(varied(want))

@law(LAWS, st_case, quick=600)
def divide_by_marginal(case, ctx):
  """ P(A, K | B) / P(K | B) = P(A | B, K), whichever way the divisor is laid out. """
  spec, keys = check_case(case)
  scalars = [k for k, _ in spec['scalars'] if k not in spec['cond']]
  if not set(scalars) <= set(keys):
    skip()
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  divisor = table.marginal(keys)
  want = table.conditional(keys)
  marg = dist.marginal(keys)
  out = dist / marg
  pm.same_pd(out, want, "division by P({})".format(keys))
  ctx.interesting(varied(want))

@st.composite
def st_layout(draw):
  case = draw(st_case(min_keep=1, scalars_too=False, max_scalars=0))
  return {'case': case, 'seed': draw(st.integers(0, 99)),
          'pscale': draw(pm.st_pscale(st))}

@law(LAWS, st_layout, quick=400)
def divisor_layout(case, ctx):
  """ The layout (axis order, scale) of the divisor does not matter. """
  import probayes as pb
  spec, keys = check_case(case['case'])
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  divisor, want = table.marginal(keys), table.conditional(keys)
  given = keys + spec['cond']
  axes = [a for a in spec['axes'] if a['keys'][0] in given]
  perm = np.random.RandomState(case['seed']).permutation(len(axes))
  axes = [axes[i] for i in perm]
  vals = pm.values_of(spec)
  shape = tuple(a['size'] for a in axes)
  prob = np.zeros(shape)
  for idx in np.ndindex(*shape):
    prob[idx] = divisor.cells[frozenset(
      (k, pm.plain(vals[k][i])) for a, i in zip(axes, idx) for k in a['keys'])]
  names = [k for a in axes for k in a['keys']]
  marg = [k for k in names if k in keys]
  cond = [k for k in names if k not in keys]
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  other = pb.PD(name, {k: vals[k] for k in marg + cond},
                dims={k: d for d, a in enumerate(axes) for k in a['keys']},
                prob=pm.from_linear(prob, case['pscale']), pscale=case['pscale'])
  out = dist / other
  pm.same_pd(out, want, "division by {} laid out as {}".format(name, dict(other.dims)))
  ctx.interesting(varied(want))
  if list(perm) != sorted(perm):
    ctx.tag('permuted')

@law(LAWS, st_case, quick=500)
def chain_rule(case, ctx):
  """ P(K|B) P(A|B,K) = P(A,K|B) """
  spec, keys = check_case(case)
  scalars = [k for k, _ in spec['scalars'] if k not in spec['cond']]
  if not set(scalars) <= set(keys):
    skip()
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  marg, cond = dist.marginal(keys), dist.conditionalise(keys)
  out = marg * cond
  pm.same_pd(out, table, "P(K) P(A|K) for K={}".format(keys))
  ctx.interesting(varied(table))

@st.composite
def st_bayes(draw):
  sizes = [draw(st.sampled_from([2, 3, 4, 1, 5])) for _ in range(3)]
  return {'sizes': sizes, 'rng': draw(st.integers(0, 9999)),
          'pscales': [draw(pm.st_pscale(st)) for _ in range(2)],
          'zeros': draw(st.booleans()), 'order': draw(st.booleans()),
          'pick': draw(st.integers(0, 4))}

@law(LAWS, st_bayes, quick=400)
def posterior(case, ctx):
  """ Prior times likelihood, conditioned on data, is the brute-force posterior. """
  import probayes as pb
  n, m, l = case['sizes']
  rng = np.random.RandomState(case['rng'])
  prior = rng.uniform(0.05, 1., size=n)
  like = rng.uniform(0.05, 1., size=(m, l, n))
  if case['zeros']:
    like = np.where(rng.uniform(size=like.shape) < 0.3, 0., like)
    prior = np.where(rng.uniform(size=n) < 0.2, 0., prior)
  prior = prior / max(prior.sum(), 1e-300)
  like = like / np.maximum(like.sum(axis=(0, 1), keepdims=True), 1e-300)
  h, d, e = np.arange(n) * 0.5, np.arange(m), -np.arange(l)
  p0, p1 = case['pscales']
  pprior = pb.PD('h', {'h': h}, prob=pm.from_linear(prior, p0), pscale=p0)
  plike = pb.PD('d,e|h', {'d': d, 'e': e, 'h': h},
                prob=pm.from_linear(like, p1), pscale=p1)
  joint = pprior * plike if case['order'] else plike * pprior
  post = joint.conditionalise(['d', 'e'])
  brute = prior[None, None, :] * like
  i, j = case['pick'] % m, case['pick'] % l
  total = brute[i, j].sum()
  sliced = post({'d': d[i], 'e': e[j]})
  expect(set(sliced.marg.keys()) == {'h'} and set(sliced.cond.keys()) == {'d', 'e'},
         "posterior is {}", sliced.name)
  got = pm.to_linear(sliced.prob, sliced.pscale)
  if total > 0:
    expect(np.allclose(np.ravel(got), brute[i, j] / total, rtol=1e-8, atol=1e-200),
           "posterior {} rather than {}", np.ravel(got), brute[i, j] / total)
    # Conditioning on the observed scalars only gives the same answer
    obs = joint({'d': d[i], 'e': e[j]}).conditionalise(['d', 'e'])
    got = pm.to_linear(obs.prob, obs.pscale)
    expect(np.allclose(np.ravel(got), brute[i, j] / total, rtol=1e-8, atol=1e-200),
           "posterior given scalars {} rather than {}", np.ravel(got), brute[i, j] / total)
    ctx.interesting(n > 1)

@st.composite
def st_offset(draw):
  return {'n': draw(st.integers(2, 5)), 'm': draw(st.integers(1, 4)),
          'rng': draw(st.integers(0, 9999)), 'spread': draw(st.sampled_from([1., 20., 300.])),
          'offset': draw(st.sampled_from([0., -50., -720., -2000., -1e5, 500., 900.]))}

@law(LAWS, st_offset, quick=200)
def evidence_scale_free(case, ctx):
  """ On a log scale, normalising by conditioning on scalar data must not depend
  on how small (or large) the evidence is. """
  import probayes as pb
  rng = np.random.RandomState(case['rng'])
  logp = -rng.uniform(0., case['spread'], size=(case['n'], case['m']))
  dist = pb.PD('x,y,d', {'x': np.arange(case['n']), 'y': np.arange(case['m']), 'd': 1.},
               dims={'x': 0, 'y': 1, 'd': None}, prob=logp + case['offset'], pscale='log')
  out = dist.conditionalise('d')
  want = np.exp(logp - logp.max())
  want = want / want.sum()
  got = pm.to_linear(out.prob, out.pscale)
  expect(np.allclose(got, want, rtol=1e-6, atol=1e-280),
         "offset {}: {} rather than {}", case['offset'], got.tolist(), want.tolist())
  ctx.interesting(case['offset'] != 0.)

# -----------------------------------------------------------------------------
@st.composite
def st_part(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=3, max_size=4, max_scalars=2,
                         reorder=draw(st.booleans())))
  keys = draw(st.permutations(spec['order']))[:draw(st.integers(1, len(spec['order'])))]
  return {'spec': spec, 'keys': keys}

@law(LAWS, st_part, quick=300, floor=0.1)
def any_keys(case, ctx):
  """ Conditioning on any selection of variables is either exact or refused: refused if it
  includes a condition or only part of the variables sharing a dimension. """
  spec, keys = case['spec'], case['keys']
  marg = [k for k in spec['order'] if k not in spec['cond']]
  dims = pm.dims_of(spec)
  rest = [k for k in marg if k not in keys]
  if set(keys) <= set(marg) and not [k for k in rest if dims[k] is not None]:
    skip() # nothing with values is left
  shares = any(set(rest) & set(a['keys']) and set(keys) & set(a['keys']) for a in spec['axes'])
  refusable = shares or not set(keys) <= set(marg)
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  try:
    out = dist.conditionalise(keys)
  except (AssertionError, ValueError, KeyError):
    if not refusable:
      raise
    ctx.interesting(shares)
    return
  expect(set(keys) <= set(marg), "{} of ({}|{}) accepted", keys, marg, spec['cond'])
  if any(dims[k] is None for k in keys):
    skip()
  pm.same_pd(out, table.conditional(keys), "conditionalise({}) of ({}|{})".format(
    keys, marg, spec['cond']))
  ctx.interesting(bool(rest))
