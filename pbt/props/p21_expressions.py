"""Expressions: one calling interface for constants, functions and symbols."""
import numpy as np
from hypothesis import strategies as st
import probayes as pb
from pbt.core import law, expect, broken, skip, num, arr

LAWS = []
RULE = ("constants, callables with preset arguments, order and delta mappings, tuples "
        "and dictionaries of them, random symbolic expression trees over up to three "
        "symbols at scalars and mutually broadcastable arrays, invertible symbolic "
        "transformations, and functionals over two fields; non-trivial: a call with "
        "both preset and given arguments, a mapping of two or more keys, an expression "
        "of two or more symbols or with an array, an inverse, or a functional holding "
        "two or more functions")

def refused(func, what):
  try:
    val = func()
  except Exception:
    return
  broken("{} was accepted, giving {!r}", what, val)

def copy(obj):
  if isinstance(obj, np.ndarray):
    return obj.copy()
  if isinstance(obj, dict):
    return {k: copy(v) for k, v in obj.items()}
  return obj

class Recorder:
  """ A function that reports how it was called. """
  def __init__(self, tag):
    self.tag = tag
  def __call__(self, *args, **kwds):
    return (self.tag, args, kwds)

def same(got, tag, args, kwds, what):
  expect(isinstance(got, tuple) and len(got) == 3, "{} gave {!r}", what, got)
  expect(got == (tag, tuple(args), dict(kwds)),
         "{} called function {} with {} {}, rather than {} with {} {}", what,
         got[0], got[1], got[2], tag, tuple(args), dict(kwds))

KEYS = ['a', 'b', 'c', 'k', 'values']
ST_INT = st.integers(-9, 9)

# -----------------------------------------------------------------------------
@st.composite
def st_plain(draw):
  multi = draw(st.sampled_from(['none', 'tuple', 'dict']))
  n = 1 if multi == 'none' else draw(st.integers(1, 4))
  preset = draw(st.lists(ST_INT, max_size=2))
  pkwds = draw(st.dictionaries(st.sampled_from(KEYS), ST_INT, max_size=2))
  style = draw(st.sampled_from(['position', 'keywords', 'both', 'dict', 'nothing']))
  args = draw(st.lists(ST_INT, min_size=1, max_size=3)) \
         if style in ('position', 'both') else []
  kwds = draw(st.dictionaries(st.sampled_from(KEYS), ST_INT, min_size=1, max_size=3)) \
         if style in ('keywords', 'both', 'dict') else {}
  return {'multi': multi, 'n': n, 'preset': [] if style == 'dict' else preset,
          'pkwds': pkwds, 'style': style, 'args': args, 'kwds': kwds,
          'lam': draw(st.booleans()), 'which': draw(st.integers(0, n - 1))}

def make(multi, funcs):
  if multi == 'none':
    return funcs[0], [None]
  if multi == 'tuple':
    return tuple(funcs), list(range(len(funcs)))
  keys = ['f{}'.format(i) for i in range(len(funcs))]
  return dict(zip(keys, funcs)), keys

def lam(rec):
  return lambda *args, **kwds: rec(*args, **kwds)

@law(LAWS, st_plain, quick=400, floor=0.2)
def callables(case, ctx):
  """ Preset arguments come first, given keywords override preset ones. """
  recs = [Recorder(i) for i in range(case['n'])]
  if case['lam']:
    recs = [lam(rec) for rec in recs]
  obj, keys = make(case['multi'], recs)
  expr = pb.Expression(obj, *case['preset'], **case['pkwds'])
  expect(expr.callable is True, "callable is {}", expr.callable)
  expect(bool(expr.ismulti) == (case['multi'] != 'none'), "ismulti is {}", expr.ismulti)
  expect(bool(expr.islambda) == case['lam'], "islambda is {}", expr.islambda)
  expect(not expr.isscalar and not expr.isiconic, "mistaken for scalar or symbol")
  args, kwds, pkwds = case['args'], case['kwds'], case['pkwds']
  def call(func):
    if case['style'] == 'dict':
      given = dict(kwds)
      out = func(given)
      expect(given == kwds, "the dictionary passed was altered: {}", given)
      return out
    return func(*args, **kwds)
  which = keys[case['which']]
  want = (case['preset'] + args, {**pkwds, **kwds})
  if case['multi'] == 'none':
    same(call(expr), 0, *want, "Expression()")
    same(call(expr[None]), 0, *want, "Expression[None]()")
    refused(lambda: expr[0], "indexing a single expression")
  else:
    same(call(expr[which]), case['which'], *want, "Expression[{!r}]()".format(which))
    refused(lambda: call(expr), "calling a multiple expression without a key")
    refused(lambda: expr['nokey'], "an unknown key")
    expect(set(keys) <= set(expr.keys), "keys are {}", expr.keys)
    if case['multi'] == 'tuple':
      same(call(expr[-1]), case['n'] - 1, *want, "Expression[-1]()")
      refused(lambda: expr[case['n']], "an index beyond the last")
    expect(expr[:] is obj, "Expression[:] is {!r}", expr[:])
  ctx.tag(case['style'], case['multi'])
  ctx.interesting((case['preset'] or pkwds) and (args or kwds))

# -----------------------------------------------------------------------------
ST_CONST = st.one_of(ST_INT, st.floats(-5, 5).map(lambda v: round(v, 3)), st.booleans(),
                     st.text('abc', max_size=3),
                     st.lists(ST_INT, min_size=1, max_size=3).map(lambda v: ('arr', v)))

@st.composite
def st_const(draw):
  multi = draw(st.sampled_from(['none', 'tuple', 'dict']))
  n = 1 if multi == 'none' else draw(st.integers(1, 4))
  if draw(st.booleans()):
    vals = draw(st.lists(ST_CONST.filter(lambda v: not isinstance(v, tuple)),
                         min_size=n, max_size=n))
  else:
    vals = draw(st.lists(ST_CONST.filter(lambda v: isinstance(v, tuple)),
                         min_size=n, max_size=n))
  return {'multi': multi, 'vals': vals, 'lam': draw(st.booleans())}

@law(LAWS, st_const, quick=200)
def constants(case, ctx):
  """ Constants (or functions without arguments) are returned as they are. """
  vals = [np.array(v[1]) if isinstance(v, tuple) else v for v in case['vals']]
  funcs = [(lambda v: lambda: v)(v) for v in vals] if case['lam'] else vals
  obj, keys = make(case['multi'], funcs)
  expr = pb.Expression(obj)
  expect(bool(expr.callable) == case['lam'], "callable is {}", expr.callable)
  for key, val in zip(keys, vals):
    call = expr if key is None else expr[key]
    got = call()
    expect(got is val or np.all(got == val), "{!r} became {!r}", val, got)
    expect(type(got) is type(val), "{!r} became {!r}", val, got)
    refused(lambda: call(1), "an argument for a constant")
  if case['multi'] != 'none':
    refused(lambda: expr(), "calling a multiple expression without a key")
  if not case['lam']:
    refused(lambda: pb.Expression(obj, 1), "preset arguments for a constant")
  ctx.interesting(case['multi'] != 'none' or case['lam'])

# -----------------------------------------------------------------------------
NAMES = ['x', 'y', 'z', 'w']

@st.composite
def st_mapping(draw):
  kind = draw(st.sampled_from(['order', 'delta']))
  keys = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
  n_pos = draw(st.integers(0, len(keys)))
  base = draw(st.integers(0, 1))
  pos = draw(st.permutations(range(base, base + n_pos)))
  mapping, names = [], draw(st.permutations(['x', 'y', 'z', 'w', 'u', 'v']))
  for i, key in enumerate(keys):
    if i < n_pos:
      val = pos[i]
    else:
      val = draw(st.sampled_from([None, names[i], names[i]]))
    primed = kind == 'delta' and draw(st.booleans())
    mapping.append((key + "'" if primed else key, val))
  mapping = draw(st.permutations(mapping))
  extra = draw(st.dictionaries(st.sampled_from(['p', 'q']), ST_INT, max_size=2))
  vals = {k: draw(ST_INT) for k in keys}
  succ = {k: draw(ST_INT) for k in keys}
  return {'kind': kind, 'mapping': list(mapping), 'extra': extra, 'vals': vals,
          'succ': succ, 'style': draw(st.sampled_from(['kwds', 'dict'])),
          'pkwds': draw(st.dictionaries(st.just('preset'), ST_INT, max_size=1)),
          'multi': draw(st.sampled_from(['none', 'tuple', 'dict'])),
          'late': draw(st.booleans())}

@law(LAWS, st_mapping, quick=400)
def mappings(case, ctx):
  """ Order moves or renames arguments, delta passes differences instead. """
  mapping = dict(case['mapping'])
  given = dict(case['extra'])
  for key in case['mapping']:
    bare = key[0].rstrip("'")
    given[bare] = case['vals'][bare]
    if key[0] != bare:
      given[key[0]] = case['succ'][bare]
  n_args = max([v + 1 for v in mapping.values() if isinstance(v, int)], default=0)
  args, kwds = [None] * n_args, {**case['pkwds'], **case['extra']}
  for key, val in mapping.items():
    bare = key.rstrip("'")
    value = given[key] - given[bare] if key != bare else given[key]
    if isinstance(val, int):
      args[val] = value
    elif val is not None:
      kwds[val] = value
  recs = [Recorder(i) for i in range(1 if case['multi'] == 'none' else 2)]
  obj, keys = make(case['multi'], recs)
  passed = dict(mapping)
  if case['late']:
    expr = pb.Expression(obj, **case['pkwds'])
    (expr.set_order if case['kind'] == 'order' else expr.set_delta)(passed)
  else:
    expr = pb.Expression(obj, **case['pkwds'], **{case['kind']: passed})
  expect(getattr(expr, case['kind']) == mapping, "{} is {}", case['kind'],
         getattr(expr, case['kind']))
  func = expr if keys[-1] is None else expr[keys[-1]]
  for _ in range(2): # repeated calls agree
    if case['style'] == 'dict':
      values = dict(given)
      got = func(values)
      expect(values == given, "the dictionary passed was altered: {}", values)
    else:
      got = func(**given)
    same(got, len(keys) - 1, args, kwds, "{} {} of {}".format(
      case['kind'], mapping, given))
  expect(passed == mapping, "the mapping was altered: {}", passed)
  other = expr.set_delta if case['kind'] == 'order' else expr.set_order
  again = expr.set_order if case['kind'] == 'order' else expr.set_delta
  refused(lambda: other(dict(mapping)), "both order and delta")
  refused(lambda: again({'x': 0, 'y': 2}), "a gap in the positions")
  refused(lambda: again({'x': 1, 'y': 3}), "a gap in the positions")
  refused(lambda: again({'x': 1.5}), "a fractional position")
  expect(getattr(expr, case['kind']) == mapping and
         getattr(expr, 'delta' if case['kind'] == 'order' else 'order') is None,
         "order and delta after refusals are {} and {}", expr.order, expr.delta)
  same(func(**given), len(keys) - 1, args, kwds, "{} {} of {} after refusals".format(
    case['kind'], mapping, given))
  ctx.tag(case['kind'])
  ctx.interesting(len(mapping) > 1)

# -----------------------------------------------------------------------------
CONTENTS = ['constant', 'array', 'plain', 'lambda', 'ordered', 'differences', 'tuple',
            'dict', 'constants', 'symbolic', 'symbols', 'invertible', 'nothing']

@st.composite
def st_rewritten(draw):
  return {'steps': draw(st.lists(st.sampled_from(CONTENTS), min_size=2, max_size=6)),
          'later': draw(st.lists(st.sampled_from(['none', 'none', 'order', 'delta',
                                                  'clear']), min_size=6, max_size=6)),
          'nums': draw(st.lists(ST_INT, min_size=6, max_size=6))}

def content(kind, n):
  """ Arguments to express, with what calls of it are to give. """
  import sympy
  x, y = sympy.Symbol('x'), sympy.Symbol('y')
  if kind == 'nothing':
    return (None,), {}, [(None, (), {}, None)]
  if kind == 'constant':
    return (n,), {}, [(None, (), {}, n)]
  if kind == 'array':
    return (np.arange(3) + n,), {}, [(None, (), {}, [n, n + 1, n + 2])]
  if kind == 'constants':
    return ((n, n + 1),), {}, [(0, (), {}, n), (1, (), {}, n + 1), (-1, (), {}, n + 1)]
  if kind == 'plain':
    return (Recorder(n), n), {'k': 2}, [(None, (3,), {'x': 4},
                                        (n, (n, 3), {'k': 2, 'x': 4}))]
  if kind == 'lambda':
    return ((lambda a: a + n),), {}, [(None, (3,), {}, 3 + n)]
  if kind == 'ordered':
    return (Recorder(n),), {'order': {'x': 1, 'y': 0}}, \
      [(None, (), {'x': 4, 'y': 5}, (n, (5, 4), {}))]
  if kind == 'differences':
    return (Recorder(n),), {'delta': {"x'": 0}}, \
      [(None, (), {'x': 4, "x'": 7}, (n, (3,), {}))]
  if kind == 'tuple':
    return ((Recorder(n), Recorder(n + 1)), 8), {}, \
      [(0, (3,), {}, (n, (8, 3), {})), (-1, (), {}, (n + 1, (8,), {}))]
  if kind == 'dict':
    return ({'a': Recorder(n), 'b': Recorder(n + 1)},), {'k': 1}, \
      [('a', (3,), {}, (n, (3,), {'k': 1})), ('b', (), {}, (n + 1, (), {'k': 1}))]
  if kind == 'symbolic':
    return (x * y + n,), {}, [(None, (), {'x': 2., 'y': 3.}, 6. + n)]
  if kind == 'symbols':
    return ((x + n, 2 * y),), {}, [(0, (), {'x': 2.}, 2. + n), (-1, (), {'y': 3.}, 6.)]
  return (2 * x + n,), {'invertible': True}, \
    [(0, (3.,), {}, 6. + n), (None, (3.,), {}, 6. + n), (-1, (6. + n,), {}, 3.)]

TRAITS = ['args', 'order', 'delta', 'callable', 'islambda', 'ismulti', 'isscalar',
          'isiconic', 'inverse', 'invertible', 'keys', 'symbols']

@law(LAWS, st_rewritten, quick=64, chunk=8)
def rewritten(case, ctx):
  """ A replaced expression has the traits and values of the new one alone. """
  expr = pb.Expression()
  for kind, later, n in zip(case['steps'], case['later'], case['nums']):
    args, kwds, calls = content(kind, n)
    expr.set_expr(*args, **dict(kwds))
    fresh = pb.Expression(*args, **dict(kwds))
    for trait in TRAITS:
      got, want = getattr(expr, trait), getattr(fresh, trait)
      expect(type(got) is type(want) and got == want,
             "{} after {} is {!r} rather than {!r}", trait, case['steps'], got, want)
    for trait in ('invexpr', 'derinv'):
      got, want = getattr(expr, trait), getattr(fresh, trait)
      expect((got is None) == (want is None) and
             (got is None or got.expr == want.expr),
             "{} after {} is {!r} rather than {!r}", trait, case['steps'], got, want)
    expect(expr.expr is args[0], "expression is {!r} rather than {!r}", expr.expr, args[0])
    keys = {key for key, *_ in calls}
    for key in [None, 0, 1, 2, -1, 'a', 'b']:
      if key not in keys and key not in fresh.keys:
        refused(lambda: expr[key], "{!r} of {}".format(key, kind))
    for key, cargs, ckwds, want in calls:
      iconic = kind in ('symbolic', 'symbols')
      func = expr if key is None and not expr.ismulti else expr[key]
      got = func(dict(ckwds)) if iconic else func(*cargs, **ckwds)
      if isinstance(want, (tuple, type(None))):
        expect(got == want, "{!r} of {} after {} gave {!r} rather than {!r}", key, kind,
               case['steps'], got, want)
      else:
        expect(np.allclose(arr(got), want), "{!r} of {} after {} gave {!r} rather than "
               "{!r}", key, kind, case['steps'], got, want)
    if kind in ('plain', 'lambda', 'tuple', 'dict') and later != 'none':
      if later == 'order':
        expr.set_order({'q': 'r'})
      elif later == 'delta':
        expr.set_delta({"q": 'r'})
      else:
        expr.set_order({'q': 'r'})
        expr.set_order()
      if kind == 'dict':
        want = {'k': 1, ('q' if later == 'clear' else 'r'): 5}
        expect(expr['b'](q=5) == (n + 1, (), want), "after setting {}: {!r}", later,
               expr['b'](q=5))
  ctx.tag(case['steps'][-1])
  ctx.interesting(len(set(case['steps'])) > 1)

# -----------------------------------------------------------------------------
# Symbolic expressions as nested lists, with an evaluator of their own
UNARY = {'exp': lambda v: np.exp(np.minimum(v, 5.)), 'sin': np.sin, 'cos': np.cos,
         'tanh': np.tanh, 'atan': np.arctan, 'sq': lambda v: v * v,
         'neg': lambda v: -v, 'abs': np.abs, 'sqrt1': lambda v: np.sqrt(1 + v * v),
         'log1': lambda v: np.log(1 + v * v), 'inv1': lambda v: 1 / (1 + v * v),
         'step': lambda v: np.where(v > 0.25, 1., -1.)}
BINARY = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
          '/': lambda a, b: a / (2 + np.abs(b)), 'max': np.maximum, 'min': np.minimum}

def to_sympy(tree, symbols):
  import sympy
  head = tree[0]
  if head == 'sym':
    return symbols[tree[1]]
  if head == 'num':
    return sympy.Rational(tree[1], tree[2])
  if head == 'float':
    return sympy.Float(tree[1])
  args = [to_sympy(sub, symbols) for sub in tree[1:]]
  if len(args) == 1:
    val = args[0]
    return {'exp': lambda: sympy.exp(sympy.Min(val, 5)), 'sin': lambda: sympy.sin(val),
            'cos': lambda: sympy.cos(val), 'tanh': lambda: sympy.tanh(val),
            'atan': lambda: sympy.atan(val), 'sq': lambda: val**2, 'neg': lambda: -val,
            'abs': lambda: sympy.Abs(val), 'sqrt1': lambda: sympy.sqrt(1 + val**2),
            'log1': lambda: sympy.log(1 + val**2), 'inv1': lambda: 1/(1 + val**2),
            'step': lambda: sympy.Piecewise((1, val > sympy.Rational(1, 4)),
                                            (-1, True))}[head]()
  a, b = args
  return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
          '/': lambda: a / (2 + sympy.Abs(b)), 'max': lambda: sympy.Max(a, b),
          'min': lambda: sympy.Min(a, b)}[head]()

def evaluate(tree, vals):
  head = tree[0]
  if head == 'sym':
    return np.asarray(vals[tree[1]], dtype=float)
  if head == 'num':
    return np.asarray(tree[1] / tree[2])
  if head == 'float':
    return np.asarray(float(tree[1]))
  args = [evaluate(sub, vals) for sub in tree[1:]]
  return UNARY[head](*args) if len(args) == 1 else BINARY[head](*args)

def st_tree(symbols, depth=3):
  leaf = st.one_of(
    st.sampled_from(symbols).map(lambda s: ['sym', s]),
    st.sampled_from(symbols).map(lambda s: ['sym', s]),
    st.tuples(st.integers(-4, 4), st.integers(1, 3)).map(lambda v: ['num', *v]),
    st.sampled_from([0.5, -1.25, 2.75]).map(lambda v: ['float', v]))
  def extend(inner):
    return st.one_of(
      st.tuples(st.sampled_from(sorted(UNARY)), inner).map(list),
      st.tuples(st.sampled_from(sorted(BINARY)), inner, inner).map(list),
      st.tuples(st.sampled_from(['+', '-', '*', '/']), inner, inner).map(list))
  tree = leaf
  for _ in range(depth):
    tree = st.one_of(leaf, extend(tree), extend(tree))
  return tree

ST_COORD = st.integers(-12, 12).map(lambda v: v / 4)

@st.composite
def st_iconic(draw):
  symbols = draw(st.lists(st.sampled_from(['x', 'y', 'z']), min_size=1, max_size=3,
                          unique=True))
  n_trees = draw(st.sampled_from([1, 1, 1, 2]))
  trees = [draw(st_tree(symbols)) for _ in range(n_trees)]
  calls = []
  for _ in range(2):
    vals, sizes = {}, {}
    layout = draw(st.sampled_from(['scalar', 'vector', 'grid', 'mixed']))
    n = draw(st.integers(1, 4))
    for i, sym in enumerate(symbols):
      if layout == 'scalar' or (layout == 'mixed' and draw(st.booleans())):
        vals[sym] = draw(st.one_of(ST_COORD, st.integers(-3, 3), st.booleans()))
      elif layout == 'grid':
        size = draw(st.integers(1, 3))
        vals[sym] = ['arr', draw(st.lists(ST_COORD, min_size=size, max_size=size)), i]
      else:
        vals[sym] = ['arr', draw(st.lists(ST_COORD, min_size=n, max_size=n)), None]
    calls.append({'vals': vals, 'ints': draw(st.booleans()),
                  'style': draw(st.sampled_from(['kwds', 'dict', 'symbols', 'mixed'])),
                  'extra': draw(st.sampled_from([None, 'scalar', 'array']))})
  return {'symbols': symbols, 'trees': trees, 'calls': calls,
          'multi': draw(st.sampled_from(['tuple', 'dict'])) if n_trees > 1 else 'none',
          'vars': draw(st.booleans())}

def realise(val, n_syms, ints):
  if not isinstance(val, list):
    return val
  out = np.array(val[1])
  if ints and np.all(out == np.round(out)):
    out = out.astype(int)
  if val[2] is not None:
    shape = [1] * n_syms
    shape[val[2]] = out.size
    out = out.reshape(shape)
  return out

@law(LAWS, st_iconic, quick=72, chunk=8)
def symbolic(case, ctx):
  """ A symbolic expression has the value of the formula at every argument. """
  import sympy
  if case['vars']:
    variables = {s: pb.Variable(s, vtype=float) for s in case['symbols']}
    symbols = {s: v[:] for s, v in variables.items()}
  else:
    symbols = {s: sympy.Symbol(s) for s in case['symbols']}
  forms = [to_sympy(tree, symbols) for tree in case['trees']]
  if len({form.is_Number for form in forms}) > 1:
    skip() # numbers and formulas are not mixed
  obj, keys = make(case['multi'], forms)
  expr = pb.Expression(obj)
  expect(expr.isiconic is True and (len(keys) > 1 or expr.callable is True),
         "not a symbolic expression")
  free = set().union(*[{s.name for s in form.free_symbols} for form in forms])
  expect(set(expr.symbols) == free, "symbols are {} rather than {}",
         list(expr.symbols), sorted(free))
  for call in case['calls']:
    given = {s: realise(call['vals'][s], len(symbols), call['ints'])
             for s in case['symbols']}
    passed = {symbols[s] if call['style'] == 'symbols' or
              (call['style'] == 'mixed' and i % 2) else s: v
              for i, (s, v) in enumerate(given.items())}
    if call['extra']:
      passed['other'] = 2. if call['extra'] == 'scalar' else np.arange(5.)
    before = copy(passed)
    for i, key in enumerate(keys):
      func = expr if key is None else expr[key]
      wants = evaluate(case['trees'][i], given)
      got = func(**passed) if call['style'] == 'kwds' else func(passed)
      used = [given[s.name] for s in forms[i].free_symbols]
      if not used:
        expect(np.allclose(arr(got), float(forms[i]), rtol=1e-6, atol=1e-8),
               "constant {} gave {!r}", forms[i], got)
        continue
      shape = np.broadcast_shapes(*[np.shape(v) for v in used])
      full = np.broadcast_shapes(*[np.shape(v) for v in given.values()])
      vals = arr(got, "values of {}".format(forms[i]))
      expect(vals.shape == shape, "{} at {} has shape {} rather than {}",
             forms[i], given, vals.shape, shape)
      if not shape:
        expect(np.isscalar(got) or isinstance(got, np.ndarray),
               "{} at {} is not a number but {!r}", forms[i], given, type(got))
      expect(np.allclose(np.broadcast_to(vals, full), np.broadcast_to(wants, full),
                         rtol=1e-6, atol=1e-8),
             "{} at {} is {} rather than {}", forms[i], given, got, wants)
      ctx.interesting(len(used) > 1 or shape)
    if case['multi'] == 'tuple':
      last = expr[-1](dict(passed))
      expect(np.allclose(arr(last), arr(expr[len(keys) - 1](dict(passed)))),
             "[-1] is not the last expression")
    for key in passed:
      expect(np.all(passed[key] == before[key]), "the values passed were altered")

# -----------------------------------------------------------------------------
def specials():
  """ Functions that have no counterpart in NumPy, and their references. """
  import sympy
  import scipy.special as sc
  return {
    'besselj': (lambda v: sympy.besselj(0, v), lambda v: sc.jv(0, v)),
    'lowergamma': (lambda v: sympy.lowergamma(2.5, v), lambda v: sc.gammainc(2.5, v) * sc.gamma(2.5)),
    'uppergamma': (lambda v: sympy.uppergamma(1.5, v), lambda v: sc.gammaincc(1.5, v) * sc.gamma(1.5)),
    'digamma': (lambda v: sympy.digamma(v), sc.digamma),
    'zeta': (lambda v: sympy.zeta(v + 1), lambda v: sc.zeta(v + 1.)),
    'square': (lambda v: v ** 2, lambda v: v ** 2),
    'exp': (lambda v: sympy.exp(-v), lambda v: np.exp(-v)),
    'twice': (lambda v: 2 * v, lambda v: 2. * v),
  }

@st.composite
def st_special(draw):
  names = draw(st.permutations(['x', 'y', 'z', 'I', 'gamma', 'S', 'E_0']))[:draw(st.integers(1, 3))]
  funs = [draw(st.sampled_from(sorted(specials()))) for _ in names]
  dims = draw(st.permutations(range(len(names))))
  shape = draw(st.sampled_from(['grid', 'grid', 'grid', 'line', 'scalar', 'mixed']))
  vals = [draw(st.lists(st.floats(0.25, 4.), min_size=2, max_size=4)) for _ in names]
  return {'names': names, 'funs': funs, 'dims': list(dims), 'shape': shape, 'vals': vals,
          'given': draw(st.permutations(range(len(names)))), 'how': draw(st.sampled_from(['dict', 'kwds'])),
          'class': draw(st.sampled_from(['Expr', 'Expression']))}

@law(LAWS, st_special, quick=48, chunk=8)
def special(case, ctx):
  """ Expressions with functions that NumPy does not have, or with symbols of any name, are evaluated over scalars
  and arrays of any dimensions as those with them are. """
  import sympy
  import probayes as pb
  names, shape = case['names'], case['shape']
  table = specials()
  expr, n = sympy.Integer(0), len(names)
  for i, (name, fun) in enumerate(zip(names, case['funs'])):
    expr = expr + (i + 1) * table[fun][0](sympy.Symbol(name))
  values = {}
  for i, (name, vals, dim) in enumerate(zip(names, case['vals'], case['dims'])):
    if shape == 'scalar' or shape == 'mixed' and dim == n - 1:
      values[name] = vals[0]
    elif shape == 'line':
      values[name] = np.array(vals[:2])
    else:
      values[name] = np.array(vals).reshape([len(vals) if d == dim else 1 for d in range(n)])
  want = sum((i + 1.) * table[fun][1](values[name]) for i, (name, fun) in enumerate(zip(names, case['funs'])))
  given = {names[i]: values[names[i]] for i in case['given']}
  obj = pb.Expr(expr) if case['class'] == 'Expr' else pb.Expression(expr)
  call = obj if case['class'] == 'Expr' else obj[None]
  for _ in range(2):
    got = call(dict(given)) if case['how'] == 'dict' or case['class'] == 'Expr' else call(**given)
    expect(np.shape(got) == np.shape(want), "{} over {} has shape {}", expr,
           {k: np.shape(v) for k, v in given.items()}, np.shape(got))
    expect(np.allclose(arr(got), want, rtol=1e-6, atol=1e-9), "{} of {} is {} rather than {}", expr, given, got, want)
  ctx.tag(shape, str(n))
  ctx.interesting(np.size(want) > 1)

# -----------------------------------------------------------------------------
@law(LAWS, st_iconic, quick=40, chunk=8)
def simplification(case, ctx):
  """ Rewriting an expression over real symbols and back does not alter it. """
  import sympy
  symbols = {s: sympy.Symbol(s) for s in case['symbols']}
  tree = case['trees'][0]
  form = to_sympy(tree, symbols)
  expr = pb.Expression(form)
  wrapped = pb.expr.Expr(form)
  given = {s: realise(case['calls'][0]['vals'][s], 3, False) for s in case['symbols']}
  given = {s: float(np.ravel(v)[0]) for s, v in given.items()}
  wants = evaluate(tree, given)
  expect(wrapped[:] == form, "[:] is {}", wrapped[:])
  simple = wrapped.simplify()
  expect(simple.free_symbols <= form.free_symbols, "simplify() of {} gave {}", form, simple)
  got = num(simple.subs({symbols[s]: v for s, v in given.items()}), "simplified value")
  expect(np.isclose(got, wants, rtol=1e-6, atol=1e-8),
         "{} simplified as {} is {} rather than {}", form, simple, got, wants)
  real = wrapped.subre()
  expect(all(s.is_real for s in real.free_symbols), "subre() gave {}", real.free_symbols)
  expect(len(real.free_symbols) <= len(form.free_symbols), "subre() gave {}", real)
  # Substituting a name for another
  remap = {'other': case['symbols'][0]}
  mapped = type(wrapped)(form, remap=remap)
  passed = dict(given)
  if case['symbols'][0] in {s.name for s in form.free_symbols}:
    passed['other'] = passed.pop(case['symbols'][0])
    symbolic = {sympy.Symbol(k): v for k, v in passed.items()}
    for given in (passed, symbolic):
      expect(np.isclose(num(mapped(given), "value"), wants, rtol=1e-6, atol=1e-8),
             "{} remapped at {} is {} rather than {}", form, given, mapped(given), wants)
  ctx.interesting(len(form.free_symbols) > 0)
LAWS[-1].floor = 0.1

# -----------------------------------------------------------------------------
INVERTIBLE = {
  'linear': (lambda sp, x, a, b: a * x + b, lambda v, a, b: a * v + b, None),
  'exp': (lambda sp, x, a, b: sp.exp(a * x + b), lambda v, a, b: np.exp(a * v + b), None),
  'negexp': (lambda sp, x, a, b: b - sp.exp(-x), lambda v, a, b: b - np.exp(-v), None),
  'log': (lambda sp, x, a, b: sp.log(x) + b, lambda v, a, b: np.log(v) + b, 'pos'),
  'square': (lambda sp, x, a, b: x**2 + b, lambda v, a, b: v**2 + b, 'pos'),
  'sqrt': (lambda sp, x, a, b: sp.sqrt(x) + b, lambda v, a, b: np.sqrt(v) + b, 'pos'),
  'recip': (lambda sp, x, a, b: a / x + b, lambda v, a, b: a / v + b, 'pos'),
  'mobius': (lambda sp, x, a, b: x / (1 + x), lambda v, a, b: v / (1 + v), 'pos'),
}

@st.composite
def st_inv(draw):
  kind = draw(st.sampled_from(sorted(INVERTIBLE)))
  return {'kind': kind, 'a': draw(st.sampled_from([1, 2, -1, -3, 0.5])),
          'b': draw(st.sampled_from([0, 1, -2, 0.25])),
          'vals': [v / 8 for v in draw(st.lists(st.integers(
            1 if INVERTIBLE[kind][2] else -16, 24), min_size=1, max_size=5))],
          'dims': draw(st.integers(1, 2))}

@law(LAWS, st_inv, quick=48, chunk=8)
def inverses(case, ctx):
  """ Inverses undo the transformation and derivatives are its slope. """
  import sympy
  x = sympy.Symbol('x')
  form, func, _ = INVERTIBLE[case['kind']]
  a, b = case['a'], case['b']
  if case['kind'] == 'exp' and a not in (1, -1):
    a = 1 # several complex roots
  expr = pb.Expression(form(sympy, x, a, b), invertible=True)
  vals = np.array(case['vals'])
  if case['dims'] == 2:
    vals = vals.reshape([1, -1])
  wants = func(vals, a, b)
  eps = 1e-6
  slope = (func(vals + eps, a, b) - func(vals - eps, a, b)) / (2 * eps)
  for what, call in (('[0]', expr[0]), ('[None]', expr[None])):
    expect(np.allclose(arr(call(vals)), wants, rtol=1e-9), "{} gave {} rather than {}",
           what, call(vals), wants)
    expect(np.shape(call(vals)) == vals.shape, "{} has shape {}", what,
           np.shape(call(vals)))
  for what in (1, -1):
    back = arr(expr[what](wants))
    expect(back.shape == vals.shape and np.allclose(back, vals, atol=1e-6),
           "the inverse of {} is {} rather than {}", wants, back, vals)
  one, want = float(vals.ravel()[0]), float(wants.ravel()[0])
  expect(np.isclose(num(expr[0](one)), want), "at {} is {}", one, expr[0](one))
  expect(np.isclose(num(expr[0]({'x': one})), want), "at {} is {}", one, expr[0]({'x': one}))
  expect(np.isclose(num(expr[-1](want)), one, atol=1e-6), "inverse of {} is {}", want,
         expr[-1](want))
  expect(np.allclose(arr(expr.derinv({'x': vals})), slope, rtol=1e-4, atol=1e-4),
         "derivative at {} is {} rather than {}", vals, expr.derinv({'x': vals}), slope)
  expect(np.isclose(num(expr.derinv({'x': one})), slope.ravel()[0], rtol=1e-4, atol=1e-4),
         "derivative at {} is {}", one, expr.derinv({'x': one}))
  refused(lambda: pb.Expression((x, x + 1), invertible=True), "inverting a tuple")
  ctx.interesting(len(set(case['vals'])) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_func(draw):
  outs = draw(st.lists(st.sampled_from(['a', 'b', 'c']), min_size=1, max_size=3,
                       unique=True))
  inps = draw(st.lists(st.sampled_from(['x', 'y', 'z']), min_size=1, max_size=3,
                       unique=True))
  iconic = draw(st.booleans())
  left, funcs = list(outs), []
  while left:
    n = 1 if iconic else draw(st.integers(1, len(left)))
    out, left = left[:n], left[n:]
    inp = draw(st.lists(st.sampled_from(inps), min_size=1, max_size=len(inps), unique=True))
    tree = ['+', draw(st_tree(inp, 1)), ['*', ['num', draw(st.integers(1, 3)), 1],
                                         ['sym', inp[0]]]]
    for sym in inp[1:]:
      tree = ['+', tree, ['sym', sym]]
    funcs.append({'out': out, 'inp': inp, 'tree': tree,
                  'args': [] if iconic else draw(st.lists(ST_INT, max_size=1)),
                  'kwds': {} if iconic else
                          draw(st.dictionaries(st.just('k'), ST_INT, max_size=1)),
                  'form': draw(st.sampled_from(['names', 'string', 'vars', 'single']))})
  return {'outs': outs, 'inps': inps, 'iconic': iconic, 'funcs': funcs,
          'vals': {k: draw(ST_COORD) for k in inps}, 'array': draw(st.booleans()),
          'bad': draw(st.booleans()),
          'preset': {} if iconic else
                    draw(st.dictionaries(st.just('q'), ST_INT, max_size=1))}

@law(LAWS, st_func, quick=64, chunk=8)
def functionals(case, ctx):
  """ Each function of a functional is given its own inputs and no others. """
  var = {k: pb.Variable(k, vtype=float) for k in case['outs'] + case['inps']}
  def field(keys):
    out = var[keys[0]] if len(keys) > 1 else pb.Field(var[keys[0]])
    for key in keys[1:]:
      out = out & var[key]
    return out
  functional = pb.Functional(field(case['outs']), field(case['inps']), **case['preset'])
  expect(len(functional) == 0 and not functional, "not empty at first")
  def names(keys, form):
    if form == 'string':
      return ','.join(keys)
    if form == 'vars':
      return tuple(var[k] for k in keys)
    if form == 'single' and len(keys) == 1:
      return var[keys[0]]
    return tuple(keys)
  def refusals():
    if not case['bad']:
      return
    size = len(functional)
    unknown = (lambda: functional.add_func('nothere', var[case['inps'][0]][:] + 1)) \
              if case['iconic'] else \
              (lambda: functional.add_func({'nothere': case['inps'][0]}, Recorder(0)))
    refused(unknown, "an unknown output")
    target = left[0] if left else None
    if target and not case['iconic']:
      refused(lambda: functional.add_func({target: 'nothere'}, Recorder(0)),
              "an unknown input")
      refused(lambda: functional.add_func(target, Recorder(0)),
              "a function without inputs")
    expect(len(functional) == size, "a refused function was added")
  left = list(case['outs'])
  refusals()
  for i, func in enumerate(case['funcs']):
    if case['iconic']:
      form = to_sympy(func['tree'], {k: var[k][:] for k in case['inps']})
      key = func['out'][0]
      expect(var[key].dexpr is None and var[key][:].name == key, "{} was defined as {}", key, var[key].dexpr)
      functional.add_func(names(func['out'], func['form']), form)
      expect(var[key].dexpr == form and (form == 0 or var[key][:] == form), "{} = {} defined as {}", key, form,
             var[key].dexpr)
    else:
      functional.add_func({names(func['out'], func['form']):
                           names(func['inp'], func['form'])},
                          Recorder(i), *func['args'], **func['kwds'])
    left = [k for k in left if k not in func['out']]
    expect(len(functional) == i + 1 and functional.ndeps == i + 1 and bool(functional),
           "holds {} functions rather than {}", len(functional), i + 1)
    expect(bool(functional.isiconic) == case['iconic'], "isiconic is {}",
           functional.isiconic)
    refusals()
  first = case['funcs'][0]
  again = var[first['inp'][0]][:] if case['iconic'] else Recorder(0)
  spec = tuple(first['out']) if case['iconic'] else {tuple(first['out']): first['inp'][0]}
  refused(lambda: functional.add_func(spec, again), "a second function for one output")
  expect(len(functional) == len(case['funcs']), "a refused function was added")
  vals = {k: np.array([v, v + 1.]) if case['array'] and case['iconic'] else v
          for k, v in case['vals'].items()}
  for i, func in enumerate(case['funcs']):
    out = frozenset(func['out'])
    if not case['iconic']:
      expect(functional.deps[out] == frozenset(func['inp']), "inputs are {}",
             functional.deps[out])
    for form in ('names', 'string', 'vars'):
      if case['iconic']:
        wants = evaluate(func['tree'], vals)
        got = functional[names(func['out'], form)](dict(vals))
        sympy_form = to_sympy(func['tree'], {k: var[k][:] for k in case['inps']})
        if sympy_form.free_symbols:
          expect(np.allclose(arr(got), wants, rtol=1e-6, atol=1e-8),
                 "{} at {} is {} rather than {}", sympy_form, vals, got, wants)
      else:
        got = functional[names(func['out'], form)](**vals)
        kwds = {k: vals[k] for k in func['inp']}
        kwds.update(func['kwds'])
        kwds.update(case['preset'])
        same(got, i, func['args'], kwds, "functional[{}]".format(func['out']))
  ctx.tag('iconic' if case['iconic'] else 'callable')
  ctx.interesting(len(case['funcs']) > 1)
