"""Histories: chains of inference steps agree with a reference table at every
step, and do not depend on the scale on which they are carried out."""
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("a random joint distribution over 2-4 axes is taken through 2-8 random inference "
        "steps (marginalise, conditionalise, chain-rule product, division, slice, sort, "
        "rename, relayout, rescale, serialise/restore), three times in parallel: on a linear, a "
        "logarithmic and a mixed scale, each compared with the reference table after every "
        "step; non-trivial: at least two applicable steps besides renaming and sorting")

OPS = ['marginalise', 'marginal', 'conditionalise', 'chain', 'divide', 'slice', 'sort',
       'rename', 'relayout', 'rescale', 'serial']

@st.composite
def st_history(draw):
  spec = draw(pm.st_spec(st, min_axes=2, max_axes=4, max_size=3, max_scalars=1, min_size=1,
                         cond='some' if draw(st.booleans()) else 'none', shared=True,
                         reorder=draw(st.booleans())))
  steps = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 63)),
                        min_size=2, max_size=8))
  return {'spec': spec, 'steps': steps}

class State:
  """ The same distribution in three representations, and its table. """
  def __init__(self, spec):
    self.table = pm.Table.of_spec(spec)
    self.pds = [pm.build(dict(spec, pscale=p)) for p in (1., 0j, spec['pscale'])]

  def groups(self, marg_only=True):
    """ Sets of array-valued keys sharing a dimension. """
    pd = self.pds[0]
    out = {}
    for key in sorted(pd.keys()):
      if pd.dims[key] is not None:
        out.setdefault(pd.dims[key], []).append(key)
    groups = [out[d] for d in sorted(out)]
    if marg_only:
      groups = [g for g in groups if all(k in pd.marg for k in g)]
    return groups

  def scalars(self):
    pd = self.pds[0]
    return [k for k in sorted(pd.keys()) if pd.dims[k] is None and k in pd.marg]

  def set(self, pds, table, what):
    for pd, label in zip(pds, ('linear', 'log', 'mixed')):
      pm.same_pd(pd, table, "{} ({})".format(what, label), rtol=1e-7)
    self.pds, self.table = list(pds), table

def choose(groups, seed, min_out=1, min_keep=1):
  """ Deterministic random split by seed. """
  if len(groups) < min_out + min_keep:
    return None
  rng = np.random.RandomState(seed)
  perm = rng.permutation(len(groups))
  n_out = rng.randint(min_out, len(groups) - min_keep + 1)
  return [k for i in perm[:n_out] for k in groups[i]]

def undefined(table):
  return any(p is None for p in table.cells.values())

def step(state, op, seed):
  """ Applies one operation; returns whether it was applicable. """
  import probayes as pb
  pds, table = state.pds, state.table
  scalars = state.scalars()
  groups = state.groups()
  if op == 'marginalise':
    keys = choose(groups, seed)
    if keys is None:
      return False
    rest = [k for k in table.marg if k not in keys]
    state.set([pd.marginalise(keys) for pd in pds], table.marginal(rest), op + str(keys))
  elif op == 'marginal':
    gone = choose(groups, seed)
    if gone is None:
      return False
    rest = [k for k in table.marg if k not in gone]
    state.set([pd.marginal(rest) for pd in pds], table.marginal(rest), op + str(rest))
  elif op == 'conditionalise':
    keys = choose(groups, seed)
    if keys is None:
      return False
    keys = keys + (scalars if seed % 2 else [])
    want = table.conditional(keys)
    if undefined(want):
      return False
    state.set([pd.conditionalise(keys) for pd in pds], want, op + str(keys))
  elif op in ('chain', 'divide'):
    keys = choose(groups, seed)
    if keys is None:
      return False
    keys = keys + scalars
    want = table.conditional(keys)
    if undefined(want):
      return False
    margs = [pd.marginal(keys) for pd in pds]
    if op == 'divide':
      state.set([pd / marg for pd, marg in zip(pds, margs)], want, op + str(keys))
    else:
      conds = [pd.conditionalise(keys) for pd in pds]
      if seed % 3 == 0:   # factors of different representations
        margs = margs[1:] + margs[:1]
      state.set([m * c if seed % 2 else c * m for m, c in zip(margs, conds)], table,
                op + str(keys))
  elif op == 'slice':
    groups = state.groups(marg_only=False)
    keys = choose(groups, seed, 1, 0)
    left = [g for g in state.groups() if not set(g) & set(keys or [])]
    if keys is None or (not left and table.cond):
      return False
    pd = pds[0]
    values = {}
    for group in groups:
      if group[0] in keys:
        vals = np.ravel(pd[group[0]])
        values[group[0]] = vals[seed % len(vals)].item()
    state.set([p(values) for p in pds], table.sliced(values), op + str(values))
  elif op == 'sort':
    keys = sorted(table.keys)
    key = keys[seed % len(keys)]
    state.set([pd.sorted(key) for pd in pds], table, op + key)
    return False
  elif op == 'rename':
    keys = sorted(table.keys)
    old = keys[seed % len(keys)]
    new = old + '_' + str(seed)
    while new in keys:
      new += '_'
    name = lambda k: new if k == old else k
    want = pm.Table(map(name, table.marg), map(name, table.cond),
                    {frozenset((name(k), v) for k, v in c): p
                     for c, p in table.cells.items()})
    state.set([pd.rekey({old: new}) for pd in pds], want, op + old)
    return False
  elif op == 'relayout':
    pd = pds[0]
    if pd.issingleton:
      return False
    outs = []
    for pd in pds:
      perm = np.random.RandomState(seed).permutation(pd.ndim)
      outs.append(pd.redim({k: None if d is None else int(perm[d])
                            for k, d in pd.dims.items()}))
    state.set(outs, table, op)
  elif op == 'rescale':
    pscale = [2.0, 0.5, complex(1.5, 0.), 0j, 1.][seed % 5]
    state.set([pds[0], pds[1], pds[2].rescaled(pscale)], table, op)
  elif op == 'serial':
    state.set([pb.deserialise(pb.serialise(pd))[0] for pd in pds], table, op)
  return True

@law(LAWS, st_history, quick=700)
def histories(case, ctx):
  state = State(case['spec'])
  state.set(state.pds, state.table, "start")
  done = 0
  for op, seed in case['steps']:
    if not state.table.cells:
      break
    if step(state, op, seed):
      ctx.tag(op)
      done += 1
    # Summaries agree whichever the scale
    top = [k for k in state.table.marg if state.pds[0].dims[k] is not None]
    if top:
      means = [pd.expectation(top) for pd in state.pds]
      for key in top:
        ref = np.asarray(means[0][key], dtype=float)
        for mean in means[1:]:
          expect(np.allclose(np.asarray(mean[key], dtype=float), ref, rtol=1e-6, atol=1e-6),
                 "expectation of {} depends on scale: {} and {}", key, ref, mean[key])
  ctx.interesting(done >= 2)
