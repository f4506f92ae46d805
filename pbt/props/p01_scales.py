"""Probability scales: representation never changes the probability."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip

LAWS = []
SCALE = 6 # multiplies the numbers of quick cases
RULE = ("scalars and arrays (1-3 axes) of linear probabilities 0 or 1e-200..1e3, "
        "represented on random scales (coefficients, logarithms, offset logarithms); "
        "non-trivial: the two scales involved differ and some probability is positive")

SCALES = [None, 1, 1.0, 'log', 'ln', 0, 0., 0j, 2, 0.25, 3.0, 1e-5, 1e6, complex(1., 0.),
          complex(1.5, 0.), complex(-2., 0.), complex(30., 0.), complex(-200., 0.)]

def norm(scale):
  """ Own reading of the scale convention. """
  if scale is None:
    return 1.
  if isinstance(scale, str):
    return 0j
  if isinstance(scale, complex):
    return scale
  return 0j if scale == 0 else float(scale)

def is_unit(scale):
  scale = norm(scale)
  return scale == 1. and not isinstance(scale, complex)

@st.composite
def st_prob(draw):
  """ Linear probabilities, as nested plain data. """
  one = st.one_of(st.floats(1e-6, 1.), st.sampled_from([0., 1., 1e-200, 1e-30, 0.5, 3., 1000.]))
  kind = draw(st.sampled_from(['array', 'scalar', 'array2', 'array3', 'int']))
  if kind == 'scalar':
    return draw(one)
  if kind == 'int':
    return [draw(st.integers(0, 3)) for _ in range(draw(st.integers(1, 4)))]
  if kind == 'array':
    return [draw(one) for _ in range(draw(st.integers(1, 5)))]
  shape = [draw(st.integers(1, 3)) for _ in range(2 if kind == 'array2' else 3)]
  flat = [draw(one) for _ in range(int(np.prod(shape)))]
  return np.reshape(flat, shape).tolist()

def st_scale():
  return st.sampled_from(SCALES)

def represent(linear, scale):
  """ The library-side representation of linear probabilities on a scale. """
  arr = np.asarray(linear)
  if arr.ndim and arr.dtype.kind == 'i' and is_unit(scale):
    return arr.copy()
  raw = pm.from_linear(np.asarray(linear, dtype=float), norm(scale))
  return float(raw) if raw.ndim == 0 else raw

def agree(got, scale, linear, what, rtol=1e-9):
  got = np.asarray(got, dtype=float)
  want = np.asarray(linear, dtype=float)
  expect(got.shape == want.shape, "{}: shape {} rather than {}", what, got.shape, want.shape)
  expect(not np.any(np.isnan(got)), "{}: NaN in {}", what, got.tolist())
  lin = pm.to_linear(got, norm(scale))
  ok = np.isclose(lin, want, rtol=rtol, atol=1e-290) | (lin == want)
  expect(np.all(ok), "{}: stands for {} rather than {}", what, lin.tolist(), want.tolist())

@law(LAWS, lambda: st.tuples(st_prob(), st_scale(), st_scale()), quick=1500)
def rescaling(case, ctx):
  from probayes.pscales import rescale
  linear, a, b = case
  before = represent(linear, a)
  keep = np.copy(before)
  after = rescale(before, a, b)
  expect(np.array_equal(keep, before), "rescale modified its input")
  agree(after, b, linear, "rescale {} -> {}".format(a, b))
  back = rescale(after, b, a)
  agree(back, a, linear, "rescale {} -> {} -> {}".format(a, b, a))
  # Zero probabilities stay exactly zero, whichever way round
  zero = np.asarray(linear, dtype=float) == 0.
  lin = pm.to_linear(np.asarray(back, dtype=float), norm(a))
  expect(np.all(lin[zero] == 0.), "zero probability became {}", lin.tolist())
  if is_unit(a):
    one = rescale(before, b)
    agree(one, b, linear, "rescale(prob, {})".format(b))
  ctx.interesting(str(norm(a)) != str(norm(b)) and np.any(np.asarray(linear) > 0))

@law(LAWS, lambda: st.tuples(st_prob(), st_scale(), st_scale(), st_scale()), quick=400)
def rescaling_composes(case, ctx):
  from probayes.pscales import rescale
  linear, a, b, c = case
  direct = rescale(represent(linear, a), a, c)
  via = rescale(rescale(represent(linear, a), a, b), b, c)
  agree(via, c, linear, "{} -> {} -> {}".format(a, b, c))
  agree(direct, c, linear, "{} -> {}".format(a, c))
  ctx.interesting(len({str(norm(s)) for s in (a, b, c)}) > 1)

@law(LAWS, st_scale, quick=100, floor=0.)
def convention(case, ctx):
  from probayes.pscales import eval_pscale, iscomplex, prob_coef, logp_offs
  got, want = eval_pscale(case), norm(case)
  expect(iscomplex(got) == isinstance(want, complex) and got == want,
         "scale {!r} evaluates to {!r} rather than {!r}", case, got, want)
  expect(pm.close(prob_coef(case), pm.coef(want), 1e-12), "coefficient of {!r}: {}",
         case, prob_coef(case))
  expect(abs(logp_offs(case) - math.log(pm.coef(want))) < 1e-9, "offset of {!r}: {}",
         case, logp_offs(case))
  ctx.interesting()

@law(LAWS, st_prob, quick=400)
def safe_logarithm(case, ctx):
  """ Logarithms of zero do not poison arithmetic; exponentials never overflow. """
  from probayes.pscales import log_prob, exp_logp
  prob = np.asarray(case, dtype=float)
  arg = float(prob) if prob.ndim == 0 else prob
  logp = np.asarray(log_prob(arg))
  expect(logp.shape == prob.shape, "shape changed")
  expect(np.all(np.isfinite(logp)), "log_prob({}) = {}", case, logp.tolist())
  pos = prob > 0
  expect(np.allclose(logp[pos], np.log(prob[pos]), rtol=1e-12, atol=0), "logarithm wrong")
  expect(np.all(logp[~pos] < -1e300), "log of zero is {}", logp.tolist())
  back = np.asarray(exp_logp(float(logp) if logp.ndim == 0 else logp))
  expect(np.allclose(back, prob, rtol=1e-9, atol=0.), "exp(log({})) = {}", case, back.tolist())
  big = logp * 0. + 800.
  huge = np.asarray(exp_logp(float(big) if big.ndim == 0 else big))
  expect(np.all(np.isfinite(huge)) and np.all(huge > 1e300), "exp(800) = {}", huge.tolist())
  ctx.interesting(prob.ndim > 0 or prob > 0)

@st.composite
def st_product(draw):
  n = draw(st.integers(1, 4))
  shape = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
  probs = []
  for _ in range(n):
    size = int(np.prod(shape)) if shape else 1
    flat = [draw(st.one_of(st.floats(1e-6, 1.), st.sampled_from([0., 1., 1e-40])))
            for _ in range(size)]
    probs.append(np.reshape(flat, shape).tolist() if shape else flat[0])
  case = {'probs': probs, 'scales': [norm(draw(st.sampled_from(
    [1., 0j, 1., 0j, 2., 0.25, complex(1.5, 0.), complex(-2., 0.), complex(1., 0.)])))
    for _ in range(n)]}
  if draw(st.booleans()):
    case['use_logp'] = draw(st.booleans())
  if draw(st.booleans()):
    case['pscale'] = draw(st.sampled_from([1., 0j, 2., complex(1.5, 0.)]))
  return case

@law(LAWS, st_product, quick=800)
def product_of_arrays(case, ctx):
  from probayes.pscales import prod_rule, prod_pscale
  args = [represent(p, s) for p, s in zip(case['probs'], case['scales'])]
  keep = [np.copy(a) for a in args]
  kwds = {k: case[k] for k in ('use_logp', 'pscale') if k in case}
  prob, scale = prod_rule(*args, pscales=list(case['scales']), **kwds)
  want = np.prod([np.asarray(p, dtype=float) for p in case['probs']], axis=0)
  expect(np.all(want >= 0), "harness")
  if 'pscale' in case:
    expect(scale == case['pscale'] and
           isinstance(scale, complex) == isinstance(case['pscale'], complex),
           "requested scale {} gave {}", case['pscale'], scale)
  elif 'use_logp' in case:
    expect(isinstance(scale, complex) == case['use_logp'], "use_logp={} gave scale {}",
           case['use_logp'], scale)
  else:
    logs = any(isinstance(s, complex) for s in case['scales'])
    expect(isinstance(scale, complex) == logs, "scales {} gave {}", case['scales'], scale)
    expect(scale == prod_pscale(list(case['scales'])), "product scale inconsistent")
  agree(prob, scale, want, "product rule", 1e-8)
  expect(all(np.array_equal(a, k) for a, k in zip(args, keep)), "operands modified")
  ctx.interesting(len(args) > 1 and np.any(want > 0))

@st.composite
def st_division(draw):
  shape = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
  def one():
    size = int(np.prod(shape)) if shape else 1
    flat = [draw(st.one_of(st.floats(1e-6, 1.), st.sampled_from([0., 1., 1e-40])))
            for _ in range(size)]
    return np.reshape(flat, shape).tolist() if shape else flat[0]
  scales = [1., 0j, None, 2., 0.25, complex(1.5, 0.), complex(-2., 0.)]
  return {'top': one(), 'bottom': one(),
          'scales': draw(st.one_of(st.none(), st.tuples(st.sampled_from(scales),
                                                        st.sampled_from(scales)))),
          'pscale': draw(st.one_of(st.none(), st.sampled_from([1., 0j, 'log', 2.])))}

@law(LAWS, st_division, quick=600)
def division(case, ctx):
  from probayes.pscales import div_prob
  top, bottom = np.asarray(case['top'], float), np.asarray(case['bottom'], float)
  sa, sb = case['scales'] or (None, None)
  a, b = represent(case['top'], sa), represent(case['bottom'], sb)
  out = div_prob(a, b, *(case['scales'] or ()), pscale=case['pscale'])
  scale = case['pscale'] if case['pscale'] is not None else sa
  lin = pm.to_linear(np.asarray(out, float), norm(scale))
  expect(np.shape(lin) == top.shape, "shape {}", np.shape(lin))
  expect(not np.any(np.isnan(np.asarray(out, float))), "NaN in {}", np.asarray(out).tolist())
  ok = bottom > 0
  want = np.where(ok, top / np.where(ok, bottom, 1.), 0.)
  expect(np.allclose(lin[ok], want[ok], rtol=1e-8, atol=1e-280),
         "{} / {} = {} rather than {}", top.tolist(), bottom.tolist(), lin.tolist(), want.tolist())
  zz = ~ok & (top == 0)
  expect(np.all(lin[zz] == 0.), "0/0 gave {}", lin.tolist())
  ctx.interesting(np.any(want > 0))
