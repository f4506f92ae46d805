"""Sum rule: marginalising is exact summation over the removed variables."""
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("random distributions P(A|B) over 1-4 axes (shared dimensions, scalars, "
        "linear/log scales, permuted key order, zeros); non-trivial: at least one "
        "axis of size >= 2 is summed out and at least one key is kept")

@st.composite
def st_case(draw):
  spec = draw(pm.st_spec(st, min_axes=2, max_axes=4, max_size=4, max_scalars=2,
                         reorder=draw(st.booleans())))
  groups = pm.groups_of(spec, only_marg=True)
  scalar = [k for k, _ in spec['scalars'] if k not in spec['cond']]
  gone, _ = pm.split(st, draw, groups, 1, 0 if scalar else 1)
  return {'spec': spec, 'gone': pm.flat(gone or []), 'flip': draw(st.booleans())}

@law(LAWS, st_case, quick=600)
def marginalise(case, ctx):
  spec, gone = case['spec'], list(case['gone'])
  if case['flip']:
    gone.reverse()
  rest = [k for k in spec['order'] if k not in gone]
  if not gone or not [k for k in rest if k not in spec['cond']]:
    skip()
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  pm.same_pd(dist, table, "constructed distribution")
  out = dist.marginalise(gone[0] if len(gone) == 1 else gone)
  pm.same_pd(out, table.marginal(rest), "marginalise({})".format(gone))
  expect(type(out.pscale) == type(dist.pscale) and out.pscale == dist.pscale,
         "scale {} became {}", dist.pscale, out.pscale)
  ctx.interesting(any(a['size'] > 1 and a['keys'][0] in gone for a in spec['axes']))

@law(LAWS, st_case, quick=600)
def marginal(case, ctx):
  spec, gone = case['spec'], list(case['gone'])
  keep = [k for k in spec['order'] if k not in gone and k not in spec['cond']]
  if case['flip']:
    keep.reverse()
  if not keep:
    skip()
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  out = dist.marginal(keep[0] if len(keep) == 1 else keep)
  pm.same_pd(out, table.marginal(keep), "marginal({})".format(keep))
  ctx.interesting(any(a['size'] > 1 and a['keys'][0] in gone for a in spec['axes']))

@law(LAWS, st_case, quick=300)
def order_irrelevant(case, ctx):
  """ Summing out variables one at a time, in any order, or all at once. """
  spec = case['spec']
  groups = [g for g in pm.groups_of(spec, only_marg=True) if g[0] in case['gone']]
  rest = [k for k in spec['order'] if k not in case['gone'] and k not in spec['cond']]
  if len(groups) < 2 or not rest:
    skip()
  dist = pm.build(spec)
  once = dist.marginalise(case['gone'])
  step = dist
  for group in (reversed(groups) if case['flip'] else groups):
    step = step.marginalise(group)
  pm.same_pd(step, pm.Table.of_pd(once), "stepwise against joint marginalisation")
  ctx.interesting()
LAWS[-1].floor = 0.05

@st.composite
def st_part(draw):
  spec = draw(pm.st_spec(st, min_axes=1, max_axes=4, max_size=4, max_scalars=2,
                         reorder=draw(st.booleans())))
  marg = [k for k in spec['order'] if k not in spec['cond']]
  keys = draw(st.permutations(marg))[:draw(st.integers(1, len(marg)))]
  if draw(st.integers(0, 4)) == 4 and spec['cond']:
    keys[0] = spec['cond'][0]
  return {'spec': spec, 'keys': keys, 'how': draw(st.sampled_from(['out', 'keep']))}

@law(LAWS, st_part, quick=300, floor=0.1)
def any_keys(case, ctx):
  """ Any selection of variables is either summed out exactly or, if some are conditions or share
  their dimension with one that is not selected, refused. """
  spec, keys = case['spec'], case['keys']
  marg = [k for k in spec['order'] if k not in spec['cond']]
  keep = keys if case['how'] == 'keep' else [k for k in marg if k not in keys]
  gone = set(marg) - set(keep)
  shares = any(gone & set(a['keys']) and set(keep) & set(a['keys']) for a in spec['axes'])
  dist, table = pm.build(spec), pm.Table.of_spec(spec)
  refusable = shares or not keep or not gone or not set(keys) <= set(marg) or \
              not [a for a in spec['axes'] if gone & set(a['keys'])] or \
              any(gone & set([k]) for k, _ in spec['scalars'])
  try:
    out = dist.marginal(keys) if case['how'] == 'keep' else dist.marginalise(keys)
  except (AssertionError, ValueError, KeyError):
    if not refusable:
      raise
    ctx.interesting(shares)
    return
  expect(set(keys) <= set(marg), "{} of ({}|{}) accepted", keys, marg, spec['cond'])
  pm.same_pd(out, table.marginal(keep), "{} {} of ({}|{})".format(case['how'], keys, marg,
                                                                spec['cond']))
  ctx.interesting(bool(gone) and bool(keep))
