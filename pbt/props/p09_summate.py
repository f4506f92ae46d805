"""Collecting samples: summation of singleton distributions."""
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, arr

LAWS = []
SCALE = 6 # multiplies the numbers of quick cases
RULE = ("1-12 singleton distributions over the same 1-4 variables (values, or counts left "
        "by products; some variables conditional), on one scale; non-trivial: at least "
        "two distributions whose values or probabilities differ")

@st.composite
def st_case(draw):
  names = list(draw(st.permutations(['x', 'y', 'z', "x'", 'alpha'])))[:draw(st.integers(1, 4))]
  n_cond = draw(st.integers(0, len(names) - 1))
  kinds = [draw(st.sampled_from(['float', 'int', 'bool', 'set'])) for _ in names]
  n = draw(st.integers(1, 8))
  pscale = draw(pm.st_pscale(st))
  rows = []
  for _ in range(n):
    row = []
    for kind in kinds:
      row.append({'float': st.floats(-5, 5), 'int': st.integers(-3, 3),
                  'bool': st.booleans(), 'set': st.integers(0, 5)}[kind])
    rows.append([draw(s) for s in row] + [draw(st.floats(0.01, 1.))])
  return {'names': names, 'n_cond': n_cond, 'kinds': kinds, 'rows': rows, 'pscale': pscale}

def build_rows(case):
  import probayes as pb
  names, k = case['names'], len(case['names']) - case['n_cond']
  name = ','.join(names[:k]) + ('|' + ','.join(names[k:]) if case['n_cond'] else '')
  dists = []
  for row in case['rows']:
    vals = {n: ({v} if kind == 'set' else v)
            for n, kind, v in zip(names, case['kinds'], row)}
    raw = float(pm.from_linear(row[-1], case['pscale']))
    dists.append(pb.PD(name, vals, prob=raw, pscale=case['pscale']))
  return dists

def verify(out, case, what):
  names, k = case['names'], len(case['names']) - case['n_cond']
  expect(list(out.marg) == names[:k] and list(out.cond) == names[k:], "{}: named {}",
         what, out.name)
  expect(str(out.pscale) == str(case['pscale']), "{}: scale {}", what, out.pscale)
  lin = np.ravel(pm.to_linear(out.prob, case['pscale']))
  want = np.array([row[-1] for row in case['rows']])
  expect(lin.shape == want.shape and np.allclose(lin, want, rtol=1e-9),
         "{}: probabilities {} rather than {}", what, lin.tolist(), want.tolist())
  for i, (name, kind) in enumerate(zip(names, case['kinds'])):
    col = [row[i] for row in case['rows']]
    if kind == 'set':
      expect(out[name] == {sum(col)}, "{}: {} is {} rather than {}", what, name,
             out[name], {sum(col)})
      expect(out.dims[name] is None, "{}: {} has a dimension", what, name)
    else:
      expect(np.ravel(out[name]).tolist() == col, "{}: {} is {} rather than {}", what,
             name, np.ravel(out[name]).tolist(), col)
      expect(out.dims[name] == 0, "{}: {} at dimension {}", what, name, out.dims[name])

@law(LAWS, st_case, quick=500)
def concatenates(case, ctx):
  import probayes as pb
  if all(kind == 'set' for kind in case['kinds']):
    skip()
  dists = build_rows(case)
  out = pb.summate(*dists)
  verify(out, case, "summate")
  if len(dists) == 2:
    verify(dists[0] + dists[1], case, "operator")
  ctx.interesting(len(set(map(str, case['rows']))) > 1)

@law(LAWS, st_case, quick=200, thorough=1000)
def pairwise_operator(case, ctx):
  import probayes as pb
  if all(kind == 'set' for kind in case['kinds']) or len(case['rows']) < 2:
    skip()
  case = dict(case, rows=case['rows'][:2])
  dists = build_rows(case)
  verify(dists[0] + dists[1], case, "operator")
  ctx.interesting(case['rows'][0] != case['rows'][1])

@st.composite
def st_bad(draw):
  return {'case': draw(st_case()), 'how': draw(st.sampled_from(['scale', 'keys', 'roles', 'mixed'])),
          'pick': draw(st.integers(0, 9))}

@law(LAWS, st_bad, quick=200)
def refuses_mixing(case, ctx):
  """ Distributions of different variables, roles or scales are not mixed up. """
  import probayes as pb
  how, pick, case = case['how'], case['pick'], case['case']
  if len(case['rows']) < 2:
    skip()
  dists = build_rows(case)
  i = pick % len(dists)
  d = dists[i]
  names, key = case['names'], case['names'][pick // 2 % len(case['names'])]
  same = '|'.join(','.join(keys) for keys in [d.marg, d.cond] if keys)
  if how == 'scale':
    other = 2.0 if isinstance(case['pscale'], complex) else complex(0.5, 0.)
    if case['pscale'] == 1. and pick % 2: # not to be confused with an offset of unity
      other = 1. if isinstance(case['pscale'], complex) else complex(1., 0.)
    dists[i] = pb.PD(same, dict(d), prob=d.prob, pscale=other)
  elif how == 'keys':
    dists[i] = d.rekey({key: 'other'})
  elif how == 'roles':
    if len(names) < 2:
      skip()
    name = ','.join(names) if case['n_cond'] else ','.join(names[:-1]) + '|' + names[-1]
    dists[i] = pb.PD(name, dict(d), prob=d.prob, pscale=d.pscale)
  else:
    vals = dict(d)
    vals[key] = 1.5 if isinstance(d[key], set) else {2}
    dists[i] = pb.PD(same, vals, prob=d.prob, pscale=d.pscale)
  ctx.interesting()
  try:
    out = pb.summate(*dists)
  except Exception:
    return
  broken("{}: mixed sum accepted as {}", how, out.name)

@law(LAWS, lambda: st.lists(st.dictionaries(st.sampled_from('abcd'), st.integers(0, 9)),
                            min_size=1, max_size=6), quick=150)
def iteration_of_dictionaries(case, ctx):
  """ A sequence of dictionaries becomes a dictionary of sequences. """
  import probayes as pb
  got = pb.iterdict(case)
  keys = set().union(*[set(d) for d in case])
  expect(set(got) == keys, "keys {} rather than {}", sorted(got), sorted(keys))
  for key in keys:
    want = [d[key] for d in case if key in d]
    expect(list(got[key]) == want, "{}: {} rather than {}", key, got[key], want)
  ctx.interesting(len(case) > 1 and bool(keys))
