"""Empirical frequencies of observed data, and inference from them."""
import collections
import itertools
import numpy as np
import probayes as pb
from hypothesis import strategies as st
from pbt.core import law, expect, broken, num, arr
from probayes.likelihoods import int_to_bin, bin_to_int
from probayes.rf_utils import slice_by_keyvals

LAWS = []
SCALE = 5 # multiplies the numbers of quick cases
RULE = ("tables of 1-40 observations of 1-4 binary variables, with and without baseline "
        "counts, queried through fields and dependences at all combinations of values; "
        "non-trivial: two or more variables of which both values were observed, or "
        "integers of two or more bits")

@st.composite
def st_data(draw):
  cols = draw(st.integers(1, 4))
  bits = draw(st.lists(st.integers(0, 2**cols - 1), min_size=draw(st.sampled_from([1, 6, 12])), max_size=40))
  return {'cols': cols, 'rows': bits, 'base': draw(st.sampled_from([0, 0, 1, 2, 0.5])),
          'perm': draw(st.permutations(range(cols))),
          'fixed': [draw(st.sampled_from([None, None, False, True]))
                    for _ in range(cols)]}

def table(case):
  cols = case['cols']
  rows = [[bool(row >> k & 1) for k in range(cols)] for row in case['rows']]
  tally = collections.Counter(tuple(row) for row in rows)
  counts = {key: tally[key] + case['base']
            for key in itertools.product([False, True], repeat=cols)}
  return np.array(rows, dtype=bool).reshape([len(rows), cols]), counts

def busy(data):
  return data.shape[1] > 1 and all(0 < col.sum() < len(col) for col in data.T)

@law(LAWS, st_data, quick=300, floor=0.1)
def counting(case, ctx):
  """ Each cell counts the rows holding that combination of values. """
  data, counts = table(case)
  before = data.copy()
  got = pb.bool_perm_freq(data, base_freq=case['base'])
  expect(np.all(data == before), "the data were altered")
  expect(np.shape(got) == (2,) * case['cols'], "shape is {}", np.shape(got))
  for key, val in counts.items():
    cell = got[tuple(int(k) for k in key)]
    expect(num(cell) == val, "{} counted {} times rather than {}", key, cell, val)
  plain = pb.bool_perm_freq(data)
  expect(plain.sum() == len(data), "counts sum to {}", plain.sum())
  ctx.interesting(busy(data))

@law(LAWS, st_data, quick=200, floor=0.1)
def relative(case, ctx):
  """ Relative frequencies are a field's joint probabilities at every query. """
  data, counts = table(case)
  total = sum(counts.values())
  labels = ['v{}'.format(k) for k in range(case['cols'])]
  func, freq = pb.bool_perm_freq(data, labels, case['base'])
  expect(np.isclose(arr(freq).sum(), 1.), "relative frequencies sum to {}", freq.sum())
  for key, val in counts.items():
    expect(np.isclose(num(freq[tuple(int(k) for k in key)]), val / total),
           "{} has relative frequency {} rather than {}", key,
           freq[tuple(int(k) for k in key)], val / total)
  if case['cols'] == 1:
    return
  variables = [pb.RV(label, vtype=bool) for label in labels]
  field = pb.RF(*variables)
  field.set_prob(func, passdims=True)
  fixed = {labels[k]: v for k, v in enumerate(case['fixed']) if v is not None}
  keys = [labels[k] for k in case['perm'] if labels[k] in fixed]
  spec = {key: fixed[key] for key in keys}
  pd = field(spec) if spec else field()
  free = [k for k in range(case['cols']) if case['fixed'][k] is None]
  expect(np.size(pd.prob) == 2 ** len(free), "{} probabilities for {}",
         np.size(pd.prob), spec)
  probs = arr(pd.prob).reshape([2] * len(free))
  for cell in itertools.product([False, True], repeat=len(free)):
    key = list(case['fixed'])
    for k, v in zip(free, cell):
      key[k] = v
    want = counts[tuple(key)] / total
    expect(np.isclose(num(probs[tuple(int(v) for v in cell)]), want),
           "P{} is {} rather than {}", key, probs[tuple(int(v) for v in cell)], want)
  for k in free:
    expect([bool(v) for v in np.ravel(pd[labels[k]])] == [False, True],
           "values of {} are {}", labels[k], pd[labels[k]])
  # Marginals and conditionals agree with counting
  if not spec:
    first = pd.marginal(labels[0])
    share = [sum(v for key, v in counts.items() if key[0] == val) / total
             for val in (False, True)]
    expect(np.allclose(np.ravel(first.prob), share), "marginal {} rather than {}",
           first.prob, share)
    if min(share) > 0:
      cond = pd.conditionalise(labels[0])
      want = np.array([[counts[(val,) + rest] / total / share[int(val)]
                        for rest in itertools.product([False, True],
                                                      repeat=case['cols'] - 1)]
                       for val in (False, True)])
      dim = cond.dims[labels[0]]
      got = np.moveaxis(arr(cond.prob), dim, 0).reshape([2, -1])
      expect(np.allclose(got, want), "conditional {} rather than {}", got, want)
  ctx.interesting(busy(data))

@law(LAWS, st_data, quick=150, floor=0.1)
def dependence(case, ctx):
  """ As likelihoods: the probability of leafs tabulated for each root. """
  if case['cols'] < 2:
    return
  data, counts = table(case)
  total = sum(counts.values())
  labels = ['v{}'.format(k) for k in range(case['cols'])]
  func, _ = pb.bool_perm_freq(data, labels, case['base'])
  variables = [pb.RV(label, vtype=bool) for label in labels]
  leaf = variables[0]
  root = variables[1] if case['cols'] == 2 else pb.RF(*variables[1:])
  sd = leaf | root
  sd.set_prob(func, passdims=True)
  fixed = {labels[k]: v for k, v in enumerate(case['fixed']) if v is not None}
  pd = sd(fixed) if fixed else sd()
  free = [k for k in range(case['cols']) if case['fixed'][k] is None]
  probs = arr(pd.prob).reshape([2] * len(free))
  for cell in itertools.product([False, True], repeat=len(free)):
    key = list(case['fixed'])
    for k, v in zip(free, cell):
      key[k] = v
    want = counts[tuple(key)] / total
    expect(np.isclose(num(probs[tuple(int(v) for v in cell)]), want),
           "value for {} is {} rather than {}", key,
           probs[tuple(int(v) for v in cell)], want)
  ctx.interesting(busy(data))

@st.composite
def st_bits(draw):
  return {'nums': draw(st.lists(st.integers(0, 2**20), min_size=1, max_size=6)),
          'pad': draw(st.integers(0, 24)), 'kind': draw(st.sampled_from(['list', 'array']))}

@law(LAWS, st_bits, quick=300)
def binary(case, ctx):
  """ Integers and their binary representations are converted both ways. """
  nums, pad = case['nums'], case['pad']
  one = int_to_bin(nums[0], pad)
  want = [c == '1' for c in format(nums[0], 'b').zfill(pad)]
  expect([bool(v) for v in one] == want, "{} is {} rather than {}", nums[0], one, want)
  expect(num(bin_to_int(one)) == nums[0], "{} came back as {}", nums[0], bin_to_int(one))
  many = int_to_bin(np.array(nums) if case['kind'] == 'array' else list(nums), pad)
  width = max(pad, max(len(format(n, 'b')) for n in nums))
  expect(many.shape == (len(nums), width), "shape is {} rather than {}", many.shape,
         (len(nums), width))
  for n, row in zip(nums, many):
    expect([bool(v) for v in row] == [c == '1' for c in format(n, 'b').zfill(width)],
           "{} is {}", n, row)
  back = bin_to_int(many if case['kind'] == 'array' else many.astype(int).tolist())
  expect([int(v) for v in back] == nums, "{} came back as {}", nums, back)
  ctx.interesting(max(nums) > 1)

@st.composite
def st_slice(draw):
  sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
  return {'sizes': sizes, 'base': [draw(st.integers(-3, 3)) for _ in sizes],
          'fixed': [draw(st.one_of(st.none(), st.integers(0, n - 1))) for n in sizes]}

@law(LAWS, st_slice, quick=200)
def slicing(case, ctx):
  """ Slicing a table by values gives the cells at those values. """
  sizes = case['sizes']
  prob = np.arange(int(np.prod(sizes)), dtype=float).reshape(sizes)
  vals, dims, spec, spec_dims, index = {}, {}, {}, {}, []
  n_free = sum(fix is None for fix in case['fixed'])
  run = 0
  for k, (size, base, fix) in enumerate(zip(sizes, case['base'], case['fixed'])):
    key = 'k{}'.format(k)
    shape = [1] * len(sizes)
    shape[k] = size
    vals[key] = (np.arange(size) * 2 + base).reshape(shape)
    dims[key] = k
    if fix is None:
      shape = [1] * n_free
      shape[run] = size
      spec[key], spec_dims[key] = (np.arange(size) * 2 + base).reshape(shape), run
      run += 1
      index.append(slice(None))
    else:
      spec[key], spec_dims[key] = fix * 2 + base, None
      index.append(fix)
  want = prob[tuple(index)]
  calls = [(dims, spec_dims)]
  if all(size > 1 for size in sizes): # dimensions are evident from the shapes of values
    calls += [(None, None), (dims, None), (None, spec_dims)]
  for given in calls:
    got = slice_by_keyvals(spec, vals, prob, *given)
    expect(np.shape(got) == np.shape(want) and np.all(got == want),
           "slicing by {} with dimensions {} gave {} rather than {}", spec, given, got, want)
  if len(calls) > 1:
    got = slice_by_keyvals(spec, vals, prob)
    expect(np.all(got == want), "slicing by {} without dimensions gave {}", spec, got)
  ctx.tag('guessed' if len(calls) > 1 else 'given')
  ctx.interesting(0 < n_free < len(sizes) or n_free > 1)

@st.composite
def st_mismatch(draw):
  sizes = draw(st.lists(st.integers(2, 3), min_size=1, max_size=3))
  return {'sizes': sizes, 'base': [draw(st.integers(-3, 3)) for _ in sizes],
          'which': draw(st.integers(0, len(sizes) - 1)), 'boolean': draw(st.booleans()),
          'how': draw(st.sampled_from(['reverse', 'roll', 'one', 'repeat', 'shift', 'absent'])),
          'dims': draw(st.booleans())}

@law(LAWS, st_mismatch, quick=100)
def mismatch(case, ctx):
  """ Values in another order than tabulated, or never tabulated, are not given the
  probabilities of others. """
  sizes = [2] * len(case['sizes']) if case['boolean'] else case['sizes']
  prob = 1. + np.arange(int(np.prod(sizes)), dtype=float).reshape(sizes)
  vals, spec, dims = {}, {}, {}
  which, how = case['which'], case['how']
  for k, (size, base) in enumerate(zip(sizes, case['base'])):
    shape = [1] * len(sizes)
    shape[k] = size
    val = np.array([False, True]) if case['boolean'] else np.arange(size) * 2 + base
    key = 'k{}'.format(k)
    vals[key], spec[key], dims[key] = val.reshape(shape), val.reshape(shape), k
    if k != which:
      continue
    if how == 'reverse':
      val = val[::-1]
    elif how == 'roll':
      val = np.roll(val, 1)
    elif how == 'one':
      val = np.where(np.arange(size) == 0, val[-1], val)
    elif how == 'repeat':
      val = np.repeat(val[-1], size)
    elif not case['boolean']:
      val = val + 2 if how == 'shift' else val + 1
    else:
      val = np.logical_not(val)
    spec[key] = val.reshape(shape)
  # The cell of each combination of values, if any was tabulated
  flat = [[np.ravel(vals[key]).tolist() for key in vals], [np.ravel(spec[key]).tolist() for key in vals]]
  want = [prob[tuple(have.index(v) for have, v in zip(flat[0], cell))]
          if all(v in have for have, v in zip(flat[0], cell)) else None
          for cell in itertools.product(*flat[1])]
  try:
    got = slice_by_keyvals(spec, vals, prob, *((dims, dims) if case['dims'] else ()))
  except (AssertionError, ValueError, IndexError, KeyError):
    got = None
  if got is not None:
    expect(np.ravel(got).tolist() == want, "slicing {} by {} gave {} rather than {}", vals, spec, got, want)
  # A scalar that was not tabulated
  key = 'k{}'.format(which)
  if not case['boolean']:
    spec[key] = max(flat[0][which]) + 1
    sdims = {k: None if k == key else d - (d > which) for k, d in dims.items()}
    for k in spec:
      if k != key:
        spec[k] = np.reshape(spec[k], [s for d, s in enumerate(spec[k].shape) if d != which])
    try:
      got = slice_by_keyvals(spec, vals, prob, dims, sdims)
    except (AssertionError, ValueError, IndexError, KeyError):
      got = np.empty(0)
    expect(np.size(got) == 0, "slicing by an absent value {} gave {}", spec, got)
  # Through the function of relative frequencies
  if case['boolean']:
    data = np.array([[c for c in cell] for n, cell in enumerate(itertools.product([False, True], repeat=len(sizes)))
                     for _ in range(n + 1)], dtype=bool).reshape([-1, len(sizes)])
    func, freq = pb.bool_perm_freq(data, list(vals))
    ask = {k: np.reshape(s, np.shape(vals[k])) for k, s in spec.items()}
    try:
      got = func(ask, dims=dims)
    except (AssertionError, ValueError, IndexError, KeyError):
      got = None
    total = data.shape[0]
    if got is not None:
      expect(np.allclose(np.ravel(got), np.array(want) / total), "frequencies of {} are {} rather than {}", ask,
             got, np.array(want) / total)
  ctx.tag(how)
  ctx.interesting(how in ('reverse', 'roll', 'one') or not case['boolean'])
