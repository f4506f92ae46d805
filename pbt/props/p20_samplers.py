"""Stochastic processes: the histories of samplers."""
import collections
import math
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, num, arr
from pbt.props import p12_variables as pv
from pbt.props import p14_random_variables as pr
from pbt.props import p17_fields as pf
from pbt.props.p17_fields import raw_of

LAWS = []
SCALE = 4 # multiplies the numbers of quick cases
RULE = ("histories of 1-3 interleaved samplers of a stochastic process over 1-3 variables (or of "
        "parameters given data), with Metropolis, Hastings, Gibbs or custom acceptance, fixed, random "
        "or callable deltas, transition matrices or functions, propositions or none, and "
        "probabilities on any scale, consumed by iteration, in walks of several lengths or alternately; "
        "non-trivial: at least one sample rejected and one accepted, or over three samples")

NAMES = ['x', 'y', 'zeta']

# -----------------------------------------------------------------------------
def plain(dist, names, suffix=''):
  return {name: num(dist[name + suffix]) for name in names}

def lin_of(dist, what):
  lin = pr.linear(dist.prob, dist.pscale, what)
  expect(np.ndim(lin) == 0, "{}: probability {}", what, lin)
  return float(lin)

def close(a, b, rtol=1e-9):
  return abs(a - b) <= rtol * (1e-290 + abs(b))

class Chain:
  """ Follows the history of one sampler. """
  def __init__(self, names, start, target, tran, move, what, accept='score', given=(), states=None):
    self.names, self.state, self.target, self.tran = names, dict(start), target, tran
    self.move, self.what, self.accept, self.given = move, what, accept, given
    self.prob = None          # probability of the current state
    self.n = 0
    self.samples, self.thresholds, self.visited = [], [], []

  def check(self, s):
    what = "{} sample {}".format(self.what, self.n)
    names = self.names
    pred, succ = plain(s.q, names), plain(s.q, names, "'")
    for name in names:
      expect(pred[name] == self.state[name], "{}: steps from {}={} rather than {}", what, name,
             pred[name], self.state[name])
    self.move(pred, succ, what)
    expect(set(s.q.marg) == {n + "'" for n in names} and set(s.q.cond) == set(names),
           "{}: proposal p({}|{})", what, s.q.marg, s.q.cond)
    if self.tran is not None:
      q = lin_of(s.q, what + " proposal")
      expect(close(q, self.tran(pred, succ)), "{}: proposal probability {} rather than {}", what, q,
             self.tran(pred, succ))
    expect(set(s.p.keys()) == set(names) | set(self.given), "{}: probability of {}", what, list(s.p))
    at = plain(s.p, names)
    expect(at == succ, "{}: evaluated at {} rather than {}", what, at, succ)
    p = lin_of(s.p, what)
    want = self.target(succ)
    expect(close(p, want, 1e-8), "{}: probability at {} is {} rather than {}", what, succ, p, want)
    if self.prob is None:
      expect(s.o is None, "{}: predecessor {}", what, s.o)
    else:
      expect(s.o is not None and close(lin_of(s.o, what), self.prob, 1e-8) and
             plain(s.o, names) == self.state, "{}: predecessor {} of probability {} rather than {} of {}",
             what, None if s.o is None else plain(s.o, names), s.o and s.o.prob, self.state, self.prob)
    if self.accept == 'score':
      if self.prob is None:
        expect(s.s is None, "{}: score {}", what, s.s)
      else:
        score = min(1., want / self.prob) if self.prob > 0. else None
        if score is not None:
          expect(abs(num(s.s) - score) <= 1e-7 * score + 1e-12, "{}: score {} rather than {}", what,
                 s.s, score)
      t = num(s.t, "threshold")
      expect(0. <= t <= 1., "{}: threshold {}", what, t)
      self.thresholds.append(t)
      ok = self.prob is None or num(s.s) >= t
      expect(bool(s.u) == ok and s.u is not False, "{}: score {} at threshold {} and update {}", what,
             s.s, t, s.u)
    else:
      ok = True
      if self.accept == 'all':
        expect(s.u is True, "{}: update {}", what, s.u)
    if ok:
      expect(s.v is s.p or (plain(s.v, names) == succ and close(lin_of(s.v, what), want, 1e-8)),
             "{}: verdict {} when accepted", what, s.v)
      self.state, self.prob = succ, want
    else:
      expect(plain(s.v, names) == self.state and close(lin_of(s.v, what), self.prob, 1e-8),
             "{}: verdict {} when rejected", what, plain(s.v, names))
    self.samples.append(s)
    self.visited.append((dict(self.state), self.prob, succ, want, ok))
    self.n += 1

  def summary(self, out, what, keys=True):
    names = self.names
    for attr, pick in (('v', lambda row: (row[0], row[1])), ('p', lambda row: (row[2], row[3]))):
      dist = getattr(out, attr)
      expect(set(dist.keys()) == set(names) | set(self.given), "{}.{}: {}", what, attr, list(dist))
      for name in names:
        got = np.ravel(dist[name]).tolist()
        want = [pick(row)[0][name] for row in self.visited]
        expect(got == want, "{}.{}: {} is {} rather than {}", what, attr, name, got, want)
      got = np.ravel(pr.linear(dist.prob, dist.pscale, what))
      want = np.array([pick(row)[1] for row in self.visited])
      expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-8, atol=1e-290),
             "{}.{}: probabilities {} rather than {}", what, attr, got, want)
    for name in names:
      got = np.ravel(out.q[name + "'"]).tolist()
      want = [row[2][name] for row in self.visited]
      expect(got == want, "{}.q: {} is {} rather than {}", what, name, got, want)
    expect([bool(u) for u in out.u] == [row[4] for row in self.visited], "{}.u is {} rather than {}",
           what, out.u, [row[4] for row in self.visited])
    for attr in ('s', 't'):
      got = getattr(out, attr)
      want = [getattr(s, attr) for s in self.samples if getattr(s, attr) is not None]
      expect((got is None and not want) or
             (len(got) == len(want) and all(a is b or num(a) == num(b) or num(a) != num(a) and num(b) != num(b)
                                            for a, b in zip(got, want))),
             "{}.{} is {} rather than {}", what, attr, got, want)
    olds = [s.o for s in self.samples if s.o is not None]
    if not olds:
      expect(out.o is None, "{}.o is {}", what, out.o)
    else:
      for name in names:
        got = np.ravel(out.o[name]).tolist()
        want = [num(o[name]) for o in olds]
        expect(got == want, "{}.o: {} is {} rather than {}", what, name, got, want)
      got = np.ravel(pr.linear(out.o.prob, out.o.pscale, what))
      want = [lin_of(o, what) for o in olds]
      expect(np.allclose(got, want, rtol=1e-8, atol=1e-290), "{}.o: probabilities {} rather than {}", what, got,
             want)

def consume(process, sampler, chain, how, stop):
  """ Exhausts a sampler. """
  samples = []
  if how == 'iterate':
    samples = [s for s in sampler]
  elif how == 'walk':
    samples = list(process.walk(sampler))
  elif how == 'next':
    while True:
      try:
        samples.append(next(sampler))
      except StopIteration:
        break
  else: # walks of several lengths
    for i in range(stop):
      if len(samples) < stop:
        part = list(process.walk(sampler, stop=1 + i % 3))
        expect(len(part) == min(1 + i % 3, stop - len(samples)), "walk of {} of {} after {}: {} samples",
               1 + i % 3, stop, len(samples), len(part))
        samples.extend(part)
  for s in samples:
    chain.check(s)
  expect(len(samples) == stop, "{} samples rather than {} by {}", len(samples), stop, how)
  return samples

# -----------------------------------------------------------------------------
def target_of(case, names):
  """ An unnormalised density, zero in places if 'hat'. """
  mu, sd, hat = case['mu'], case['sd'], case['hat']
  def target(vals):
    u = 0.
    for i, name in enumerate(names):
      u = u - 0.5 * ((np.asarray(vals[name], dtype=float) - mu[i]) / sd[i]) ** 2.
    out = np.exp(u)
    if hat:
      out = out * (np.abs(np.asarray(vals[names[0]], dtype=float)) < 1.5)
    return out
  return target

@st.composite
def st_mcmc(draw, deltas=('fixed', 'size', 'each', 'callable', 'callable')):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
  n = len(names)
  return {'names': names, 'mu': [draw(st.floats(-1., 1.)) for _ in names],
          'sd': [draw(st.floats(0.3, 2.)) for _ in names], 'hat': draw(st.integers(0, 3)) == 0,
          'scale': draw(pr.st_scale()), 'score': draw(st.sampled_from(['metropolis', 'metropolis',
                                                                      'hastings', 'mixed'])),
          'delta': draw(st.sampled_from(deltas)), 'size': [draw(st.floats(0.1, 2.)) for _ in names],
          'tran': draw(st.sampled_from(['constant', 'distance'])),
          'start': [draw(st.floats(-1., 1.)) for _ in names],
          'stop': draw(st.integers(1, 8)), 'by': draw(st.sampled_from(['key', 'var'])),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks'])),
          'order': draw(st.permutations(['prob', 'tran', 'delta'])),
          'again': draw(st.booleans()), 'rng': draw(st.integers(0, 999))}

def make_process(case, joint=None):
  """ (process, variables, target, transition, move) """
  import probayes as pb
  names, scale = case['names'], pr.norm(case['scale'])
  made = {name: pb.RV(name, vtype=float, vset=(-np.inf, np.inf)) for name in names}
  process = pb.SP(pb.RF(*[made[name] for name in names])) if len(names) > 1 else \
            pb.SP(made[names[0]])
  target = target_of(case, names)
  size = case['size']
  if case['tran'] == 'constant':
    tran = lambda pred, succ: 0.5
  else:
    tran = lambda pred, succ: float(np.exp(-0.1 * sum((succ[k] - pred[k]) ** 2 for k in names)))
  rng = np.random.RandomState(case['rng'])
  drawn = []
  def callable_delta():
    vals = dict(zip(names, (rng.normal(size=len(names)) * size).tolist()))
    drawn.append(vals)
    return process.Delta(**vals)
  def raw(lin):
    return raw_of(lin, scale)
  def do(which):
    if which == 'prob':
      process.set_prob(lambda **vals: raw(target(vals)), pscale=case['scale'])
    elif which == 'tran':
      process.set_tran(lambda **k: raw_of(tran({m: k[m] for m in names}, {m: k[m + "'"] for m in names}),
                                          scale))
    elif case['delta'] == 'fixed':
      process.set_delta(dict(zip(names, size)))
    elif case['delta'] == 'size':
      process.set_delta([size[0]])
    elif case['delta'] == 'each':
      process.set_delta(process.Delta(**{k: [d] for k, d in zip(names, size)}))
    else:
      process.set_delta(callable_delta)
  # The scale of transitions is that of the process, set with its probability
  for which in case['order']:
    do(which)
  def move(pred, succ, what):
    for i, name in enumerate(names):
      d = succ[name] - pred[name]
      if case['delta'] == 'fixed':
        expect(abs(d - size[i]) < 1e-9, "{}: {} moved by {} rather than {}", what, name, d, size[i])
      elif case['delta'] == 'callable':
        expect(any(abs(d - vals[name]) < 1e-9 * (1. + abs(succ[name])) for vals in drawn[-40:]),
               "{}: {} moved by {} not among the deltas drawn", what, name, d)
      else:
        expect(abs(d) <= size[i if case['delta'] == 'each' else 0] + 1e-9, "{}: {} moved by {}", what,
               name, d)
  if case['score'] == 'mixed':
    process.set_scores('hastings')
    process.set_update('metropolis')
  else:
    process.set_scores(case['score'])
  return process, made, target, tran, move

def start_of(case, made, shift=0.):
  vals = {k: v + shift for k, v in zip(case['names'], case['start'])}
  return vals, ({made[k]: v for k, v in vals.items()} if case['by'] == 'var' else dict(vals))

@law(LAWS, st_mcmc, quick=500, floor=0.2)
def history(case, ctx):
  """ Every sample of a sampler proposes a step from the state last accepted, with its
  probability and score, and accepts it if and only if the score reaches the threshold. """
  process, made, target, tran, move = make_process(case)
  state, arg = start_of(case, made)
  chain = Chain(case['names'], state, target, tran, move, case['score'])
  sampler = process.sampler(arg, stop=case['stop'])
  samples = consume(process, sampler, chain, case['consume'], case['stop'])
  chain.summary(process(samples), "summary")
  if case['again']:
    state, arg = start_of(case, made, 0.25)
    second = Chain(case['names'], state, target, tran, move, "second " + case['score'])
    sampler = process.sampler(arg, stop=case['stop'])
    second.summary(process(consume(process, sampler, second, 'iterate', case['stop'])), "second")
  oks = [row[4] for row in chain.visited]
  ctx.tag(case['score'], case['delta'], 'rejected' if not all(oks) else 'accepted')
  ctx.interesting(len(oks) > 3 or not all(oks))

# -----------------------------------------------------------------------------
@st.composite
def st_interleaved(draw):
  case = draw(st_mcmc(deltas=('fixed', 'size', 'callable')))
  k = draw(st.integers(2, 3))
  case.update({'shifts': [draw(st.floats(-1., 1.)) for _ in range(k)],
               'ops': draw(st.lists(st.integers(0, k - 1), min_size=3, max_size=25)),
               'stops': [draw(st.sampled_from([None, None, 3, 6])) for _ in range(k)],
               'lazy': draw(st.booleans())})
  return case

@law(LAWS, st_interleaved, quick=300)
def interleaved(case, ctx):
  """ Samplers of one process used alternately have independent histories. """
  process, made, target, tran, move = make_process(case)
  samplers, chains = {}, {}
  def begin(i):
    state, arg = start_of(case, made, case['shifts'][i])
    kwds = {} if case['stops'][i] is None else {'stop': case['stops'][i]}
    samplers[i] = process.sampler(arg, **kwds)
    chains[i] = Chain(case['names'], state, target, tran, move, "sampler {}".format(i))
  if not case['lazy']:
    for i in range(len(case['shifts'])):
      begin(i)
  for i in case['ops']:
    if i not in samplers:
      begin(i)
    stop = case['stops'][i]
    try:
      sample = next(samplers[i])
    except StopIteration:
      expect(stop is not None and chains[i].n == stop, "sampler {} stopped after {} of {}", i,
             chains[i].n, stop)
      continue
    expect(stop is None or chains[i].n < stop, "sampler {} continues after {}", i, stop)
    chains[i].check(sample)
  for i, chain in chains.items():
    if chain.n:
      chain.summary(process(chain.samples), "summary {}".format(i))
  ctx.interesting(len([c for c in chains.values() if c.n > 1]) > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_controls(draw):
  case = draw(st_mcmc(deltas=('fixed', 'size', 'callable')))
  k = draw(st.integers(1, 3))
  case.update({'shifts': [draw(st.floats(-1., 1.)) for _ in range(k)],
               'stops': [draw(st.sampled_from([None, 3, 6])) for _ in range(k)],
               'by_id': draw(st.booleans()), 'unset': draw(st.sampled_from(['', '', '', 'update', 'all', 'thresh'])),
               'ops': draw(st.lists(st.tuples(st.sampled_from(['next', 'next', 'walk', 'reset', 'keep']),
                                              st.integers(0, k - 1), st.integers(1, 4)),
                                    min_size=3, max_size=15))})
  return case

@law(LAWS, st_controls, quick=300)
def controls(case, ctx):
  """ Counters and last samples are those of the sampler asked for; walks of samplers without an end are as
  long as requested; resetting a sampler starts its history again, or only its count; unset criteria accept. """
  process, made, target, tran, move = make_process(case)
  unset = case['unset']
  if unset in ('update', 'all'):
    process.set_update(None)
  if unset in ('thresh', 'all'):
    process.set_scores(None)
  if unset == 'all':
    process.set_thresh()
  n = len(case['shifts'])
  samplers, chains, starts, lasts, counts = [], [], [], [None] * n, [0] * n
  for i in range(n):
    state, arg = start_of(case, made, case['shifts'][i])
    kwds = {} if case['stops'][i] is None else {'stop': case['stops'][i]}
    samplers.append(process.sampler(arg, **kwds))
    starts.append(dict(state))
    chains.append(Chain(case['names'], state, target, tran, move, "sampler {}".format(i),
                        accept='score' if not unset else 'any'))
  ended = [False] * n
  resets = 0
  for op, i, count in case['ops']:
    chain, stop, sampler = chains[i], case['stops'][i], samplers[i]
    ref = i if case['by_id'] else sampler
    if ended[i]:
      expect(next(sampler, None) is None, "sampler {} continues after its end", i)
      continue
    if op in ('reset', 'keep'):
      process.reset(ref, reset_last=(op == 'reset'))
      counts[i] = 0
      resets += 1
      if op == 'reset':
        lasts[i] = None
      if lasts[i] is None:
        chains[i] = chain = Chain(case['names'], starts[i], target, tran, move, "sampler {} reset".format(i),
                                  accept=chain.accept)
    else:
      count = count if op == 'walk' else 1
      got = list(process.walk(sampler, stop=count)) if op == 'walk' else [s for s in [next(sampler, None)]
                                                                        if s is not None]
      due = count if stop is None else min(count, stop - counts[i])
      expect(len(got) == due, "{} of {} after {} of {}: {} samples", op, count, counts[i], stop, len(got))
      for s in got:
        if unset:
          unlike = [name for name, val in (('s', unset == 'update'), ('t', unset in ('update', 'thresh')))
                    if (getattr(s, name) is not None) != (val and not (name == 's' and s.o is None))]
          expect(not unlike, "without {}: score {}, threshold {}", unset, s.s, s.t)
          expect((s.u is None) if unset != 'thresh' else (s.u is True), "without {}: update {}", unset, s.u)
        chain.check(s)
        if s.v is s.p:
          lasts[i] = s
      counts[i] += len(got)
      if due < count:
        ended[i] = True
        counts[i], lasts[i] = 0, None
    for j in range(n):
      ref = j if case['by_id'] else samplers[j]
      expect(process.get_sampler(j) is samplers[j] and process.get_sampler(ref) is samplers[j],
             "sampler {} is another", j)
      expect(process.get_counter(ref) == counts[j], "sampler {} counts {} rather than {}", j,
             process.get_counter(ref), counts[j])
      last = process.get_last(ref)
      expect((last is None) == (lasts[j] is None), "sampler {}: last {}", j, last)
      if last is not None:
        expect(last.p is lasts[j].p and last.q is lasts[j].q, "sampler {}: last is not the last accepted", j)
  expect(list(process.get_sampler()) == samplers, "samplers {}", process.get_sampler())
  ctx.tag(unset or 'set', 'resets' if resets else 'no resets')
  ctx.interesting(resets > 0 or n > 1)

# -----------------------------------------------------------------------------
@law(LAWS, lambda: st_mcmc(deltas=('callable',)), quick=16, chunk=2)
def convergence(case, ctx):
  """ Thresholds are uniform and independent, and the chain converges upon the target. """
  import scipy.stats
  case = dict(case, hat=False, names=case['names'][:1], stop=1200, size=[2.4 * case['sd'][0]])
  process, made, target, tran, move = make_process(case)
  state, arg = start_of(case, made)
  chain = Chain(case['names'], state, target, tran, lambda *a: None, case['score'])
  samples = consume(process, process.sampler(arg, stop=case['stop']), chain, 'iterate', case['stop'])
  p = scipy.stats.kstest(chain.thresholds, 'uniform').pvalue
  expect(p > 1e-9, "thresholds are not uniform (p={})", p)
  vals = np.array([row[0][case['names'][0]] for row in chain.visited])
  z = (vals - case['mu'][0]) / case['sd'][0]
  # The integrated autocorrelation time at this scale of proposals is about 7 or less
  se = math.sqrt(20. / len(z))
  expect(abs(np.mean(z)) < 7. * se and abs(np.mean(z ** 2) - 1.) < 7. * math.sqrt(2.) * se,
         "standardised samples of mean {} and mean square {}", np.mean(z), np.mean(z ** 2))
  ctx.interesting()

# -----------------------------------------------------------------------------
@st.composite
def st_asymmetric(draw):
  case = draw(st_mcmc(deltas=('fixed', 'callable')))
  case.update({'score': 'hastings', 'hat': False, 'strict': False, 'tran': 'constant',
               'shift': draw(st.floats(-1., 1.)), 'scale': draw(st.sampled_from([1., 'log']))})
  return case

@law(LAWS, st_asymmetric, quick=150)
def asymmetric(case, ctx):
  """ Hastings scores correct for asymmetric proposals, or (a known finding) are those of
  Metropolis; nothing in between. """
  names, scale, shift = case['names'], pr.norm(case['scale']), case['shift']
  process, made, target, tran, move = make_process(case)
  def fun(sign):
    return lambda pred, succ: float(np.exp(-0.2 * sum((succ[k] - pred[k] - sign * shift) ** 2
                                                      for k in names)))
  def lib(sign):
    return lambda **k: raw_of(fun(sign)({m: k[m] for m in names}, {m: k[m + "'"] for m in names}), scale)
  process.set_tran((lib(1.), lib(-1.)))
  state, arg = start_of(case, made)
  chain = Chain(names, state, target, fun(1.), move, "hastings", accept='score')
  last, rows = None, 0
  for s in process.sampler(arg, stop=case['stop']):
    pred, succ = plain(s.q, names), plain(s.q, names, "'")
    fwd, rev = fun(1.)(pred, succ), fun(-1.)(pred, succ)
    expect(close(lin_of(s.q, "proposal"), fwd), "proposal probability {} rather than {}", s.q.prob, fwd)
    if s.r is not None:
      back = lin_of(s.r, "reverse")
      expect(close(back, rev) or (close(back, fwd) and not case['strict']), "reverse proposal from {} to "
             "{} has probability {} rather than {}", pred, succ, back, rev)
    if last is not None:
      ratio = target(succ) / last
      right = [min(1., ratio * rev / fwd), min(1., ratio * fwd / rev)] # either role of the pair
      known = [] if case['strict'] else [min(1., ratio)]
      expect(any(abs(num(s.s) - score) <= 1e-7 for score in right + known), "score {} rather than {}",
             s.s, right)
      rows += 1
    if s.u:
      last = target(succ)
    expect((s.u is True) == (s.s is None or num(s.s) >= s.t), "score {} at threshold {}: {}", s.s, s.t,
           s.u)
  ctx.interesting(rows > 0 and abs(shift) > 1e-3)

# -----------------------------------------------------------------------------
@st.composite
def st_bayes(draw):
  return {'mu': [draw(st.floats(-2., 0.)), draw(st.floats(0.5, 3.))],
          'sd': [draw(st.floats(0.2, 1.)), draw(st.floats(1.5, 4.))],
          'ufun': draw(st.booleans()), 'scale': draw(st.sampled_from([1., 'log', 'log', 2., 1.5 + 0j])),
          'prior': draw(st.sampled_from(['log', 1., 'log'])), 'joint': draw(st.sampled_from([True, True, False])),
          'data': draw(st.lists(st.floats(-3., 3.), min_size=1, max_size=6)),
          'size': draw(st.floats(0.01, 0.2)), 'pair': draw(st.booleans()),
          'start': [draw(st.floats(0.3, 0.7)) for _ in range(2)], 'stop': draw(st.integers(1, 8)),
          'score': draw(st.sampled_from(['metropolis', 'hastings', 'mixed'])),
          'ref': draw(st.sampled_from(['name', 'object'])),
          'by': draw(st.sampled_from(['key', 'var'])),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks']))}

@law(LAWS, st_bayes, quick=300)
def posterior(case, ctx):
  """ Sampling parameters given data: each sample has the probability of the parameters and all
  data, and parameters stay within their limits. """
  import probayes as pb
  mu = pb.RV('mu', vtype=float, vset=tuple(case['mu']), pscale=case['prior'])
  sd = pb.RV('sd', vtype=float, vset=tuple(case['sd']), pscale=case['prior'])
  x = pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
  if case['ufun']:
    sd.set_ufun((np.log, np.exp))
  paras, stats = pb.RF(mu, sd), pb.RF(x)
  process = pb.SP(stats, paras)
  scale = pr.norm(case['scale'])
  def like(x, mu, sd):
    return np.exp(-0.5 * ((x - mu) / sd) ** 2.) / (sd * np.sqrt(2. * np.pi))
  process.set_prob(lambda x, mu, sd: raw_of(like(x, mu, sd), scale), pscale=case['scale'])
  one = 0. if case['prior'] == 'log' else 1.
  tran = lambda **k: one
  paras.set_tran((tran, tran) if case['pair'] else tran)
  paras.set_delta([case['size']], scale=True, bound=True)
  process.set_tran('roots' if case['ref'] == 'name' else paras)
  process.set_delta('roots' if case['ref'] == 'name' else paras)
  if case['score'] == 'mixed':
    process.set_scores('hastings')
    process.set_update('metropolis')
  else:
    process.set_scores(case['score'])
  lims = {'mu': case['mu'], 'sd': case['sd']}
  mean = {k: lims[k][0] + f * (lims[k][1] - lims[k][0]) for k, f in zip(['mu', 'sd'], case['start'])}
  data = np.array(case['data'])
  lengths = {'mu': case['mu'][1] - case['mu'][0], 'sd': math.log(case['sd'][1] / case['sd'][0])
             if case['ufun'] else case['sd'][1] - case['sd'][0]}
  def target(vals):
    out = 1.
    for val in case['data']:
      out = out * like(val, vals['mu'], vals['sd'])
    if case['joint']: # priors are uniform
      out = out / lengths['mu'] / lengths['sd']
      if case['ufun']:
        out = out * jacobian(vals['sd'])
    return out
  jacobian = lambda v: 1.
  if case['ufun']: # as the random variable itself has it (P14)
    ref = pb.RV('ref', vtype=float, vset=tuple(case['sd']))
    ref.set_ufun((np.log, np.exp))
    jacobian = lambda v: float(ref({'ref': v}).prob) * lengths['sd']
  def move(pred, succ, what):
    for k in ('mu', 'sd'):
      expect(lims[k][0] - 1e-9 <= succ[k] <= lims[k][1] + 1e-9, "{}: {} at {} outside {}", what, k,
             succ[k], lims[k])
      u = np.log if case['ufun'] and k == 'sd' else (lambda v: v)
      expect(abs(u(succ[k]) - u(pred[k])) <= case['size'] * lengths[k] * (1. + 1e-9) + 1e-9,
             "{}: {} moved from {} to {}", what, k, pred[k], succ[k])
  chain = Chain(['mu', 'sd'], mean, target, lambda p, s: 1., move, "posterior", given=['x'])
  arg = {mu: mean['mu'], sd: mean['sd']} if case['by'] == 'var' else dict(mean)
  obs = {x: data} if case['by'] == 'var' else {'x': data}
  kwds = {'joint': True} if case['joint'] else {}
  sampler = process.sampler(arg, obs, stop=case['stop'], iid=True, **kwds)
  samples = consume(process, sampler, chain, case['consume'], case['stop'])
  for s in samples:
    expect(s.p['x'] == {len(data)}, "data is {}", s.p['x'])
  out = process(samples)
  chain.summary(out, "summary")
  expect(set(out.v.cond) == (set() if case['joint'] else {'mu', 'sd'}), "p({}|{})", out.v.marg, out.v.cond)
  if case['joint']:
    cond = process(samples, conditionalise=True)
    expect(set(cond.v.cond.keys()) == {'x'} and set(cond.v.marg.keys()) == {'mu', 'sd'},
           "conditionalised p({}|{})", cond.v.marg, cond.v.cond)
    got = np.ravel(pr.linear(cond.v.prob, cond.v.pscale, "conditionalised"))
    want = np.array([row[1] for row in chain.visited])
    if len(want) > 1:
      expect(np.allclose(got, want / np.sum(want), rtol=1e-7), "conditionalised {} rather than {}", got,
             want / np.sum(want))
    for make in (list, tuple, collections.deque): # of distributions by themselves
      for flag in (None, False, True):
        kwds = {} if flag is None else {'conditionalise': flag}
        dist = process(make([s.v for s in samples]), **kwds)
        expect(set(dist.cond.keys()) == ({'x'} if flag else set()) and set(dist.keys()) == {'x', 'mu', 'sd'},
               "distributions by themselves, conditionalise={}: p({}|{})", flag, dist.marg, dist.cond)
        got = np.ravel(pr.linear(dist.prob, dist.pscale, "distributions"))
        ref = want / np.sum(want) if flag else want
        if len(want) > 1:
          expect(got.shape == ref.shape and np.allclose(got, ref, rtol=1e-7), "distributions by themselves, "
                 "conditionalise={}: {} rather than {}", flag, got, ref)
        for k in ('mu', 'sd'):
          expect(np.ravel(dist[k]).tolist() == [row[0][k] for row in chain.visited], "distributions by "
                 "themselves: {} is {}", k, dist[k])
  ctx.tag('joint' if case['joint'] else 'conditional', case['score'])
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_rejection(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
  return {'names': names, 'mu': [draw(st.floats(-1., 1.)) for _ in names],
          'sd': [draw(st.floats(0.3, 2.)) for _ in names], 'hat': draw(st.booleans()),
          'scale': draw(pr.st_scale()), 'half': [draw(st.floats(0.5, 3.)) for _ in names],
          'stop': draw(st.integers(1, 10)), 'prop': draw(st.booleans()),
          'update': draw(st.sampled_from(['bool', 'numpy', 'int', 'none', 'unset'])),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks'])),
          'suffix': draw(st.sampled_from(['default', 'default', 'off'])),
          'level': draw(st.floats(0.1, 1.))}

@law(LAWS, st_rejection, quick=300)
def rejection(case, ctx):
  """ Samples from a proposition are independent of one another; their scores, thresholds and
  verdicts are those of the functions given; rejected samples are excluded from summaries. """
  import probayes as pb
  names, scale = case['names'], pr.norm(case['scale'])
  rvs = [pb.RV(name, [-h, h]) for name, h in zip(names, case['half'])]
  process = pb.SP(pb.RF(*rvs)) if len(rvs) > 1 else pb.SP(rvs[0])
  target = target_of(case, names)
  prop = lambda vals: 1. / (1. + sum(np.asarray(vals[k], dtype=float) ** 2 for k in names))
  process.set_prob(lambda **vals: raw_of(target(vals), scale), pscale=case['scale'])
  process.set_prop(lambda **vals: raw_of(prop(vals), scale))
  process.set_scores(lambda opqr: float(opqr.p.rescaled(1.).prob))
  process.set_thresh(np.random.uniform, low=0., high=case['level'])
  if case['update'] == 'bool':
    process.set_update(lambda stu: stu.s >= stu.t)
  elif case['update'] == 'numpy':
    process.set_update(lambda stu: np.greater_equal(stu.s, stu.t))
  elif case['update'] == 'int':
    process.set_update(lambda stu: int(stu.s >= stu.t))
  elif case['update'] == 'none':
    process.set_update(lambda stu: True if stu.s >= stu.t else None)
  kwds = {'suffix': False} if case['suffix'] == 'off' else {}
  sampler = process.sampler({0}, stop=case['stop'], **kwds)
  if case['consume'] == 'walk':
    samples = list(process.walk(sampler))
  elif case['consume'] == 'walks':
    samples = []
    for _ in range(case['stop']):
      if len(samples) < case['stop']:
        samples.extend(process.walk(sampler, stop=2))
  else:
    samples = [s for s in sampler]
  expect(len(samples) == case['stop'], "{} samples rather than {}", len(samples), case['stop'])
  tail = '' if case['suffix'] == 'off' else "'"
  oks, seen = [], []
  for i, s in enumerate(samples):
    vals = plain(s.q, names, tail)
    expect(set(s.q.keys()) == {n + tail for n in names}, "proposal of {}", list(s.q))
    for k, h in zip(names, case['half']):
      expect(-h <= vals[k] <= h, "sample {}: {}={} outside of {}", i, k, vals[k], h)
    expect(plain(s.p, names) == vals, "sample {}: evaluated at {} rather than {}", i, plain(s.p, names), vals)
    expect(close(lin_of(s.q, "proposal"), float(prop(vals)), 1e-8), "sample {}: proposition {} rather than "
           "{}", i, s.q.prob, prop(vals))
    expect(close(lin_of(s.p, "probability"), float(target(vals)), 1e-8), "sample {}: probability {} rather "
           "than {}", i, s.p.prob, target(vals))
    expect(s.o is None and s.r is None, "sample {}: predecessor {}, reverse {}", i, s.o, s.r)
    expect(abs(num(s.s) - float(target(vals))) < 1e-9, "sample {}: score {}", i, s.s)
    expect(0. <= num(s.t) <= case['level'], "sample {}: threshold {}", i, s.t)
    ok = num(s.s) >= s.t
    want = {'none': True if ok else None, 'unset': None}.get(case['update'], ok)
    expect(s.u == want and (s.u is None) == (want is None), "sample {}: update {} rather than {}", i, s.u, want)
    oks.append(ok)
    seen.append(vals)
  expect(len({str(v) for v in seen}) == len(seen), "samples repeat: {}", seen)
  keep = [v for v, ok in zip(seen, oks) if case['update'] in ('none', 'unset') or ok]
  if keep:
    out = process(samples)
    for name in names:
      expect(np.ravel(out.p[name]).tolist() == [v[name] for v in keep] and
             np.ravel(out.q[name + tail]).tolist() == [v[name] for v in keep], "summary: {} is {} rather "
             "than {}", name, out.p[name], [v[name] for v in keep])
    got = np.ravel(pr.linear(out.p.prob, out.p.pscale, "summary"))
    expect(np.allclose(got, [float(target(v)) for v in keep], rtol=1e-8), "summary: probabilities {}", got)
  ctx.tag(case['update'], 'some' if any(oks) and not all(oks) else 'all')
  ctx.interesting(any(oks) and not all(oks) or len(oks) > 3)

# -----------------------------------------------------------------------------
@st.composite
def st_rejection_given(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
  return {'names': names, 'half': [draw(st.floats(0.5, 3.)) for _ in names],
          'data': draw(st.lists(st.floats(-3., 3.), min_size=1, max_size=5)),
          'scale': draw(pr.st_scale()), 'prior': draw(st.sampled_from(['log', None])),
          'ref': draw(st.sampled_from(['object', 'roots', 'none'])), 'one': draw(st.booleans()),
          'iid': draw(st.booleans()), 'joint': draw(st.booleans()), 'start': draw(st.sampled_from(['set', 'dict'])),
          'stop': draw(st.integers(1, 6)), 'suffix': draw(st.sampled_from(['default', 'off'])),
          'scored': draw(st.booleans()), 'consume': draw(st.sampled_from(['iterate', 'walk']))}

@law(LAWS, st_rejection_given, quick=200)
def rejection_given(case, ctx):
  """ Parameters proposed by the proposition of their field, each with the probability of the data given them. """
  import probayes as pb
  names, scale, log = case['names'], pr.norm(case['scale']), case['prior'] == 'log'
  rvs = [pb.RV(name, vtype=float, vset=(-h, h), pscale=case['prior']) for name, h in zip(names, case['half'])]
  obs = pb.RV('obs', vtype=float, vset=(-np.inf, np.inf))
  paras = pb.RF(*rvs)
  process = pb.SP(obs if case['one'] else pb.RF(obs), paras)
  like = lambda obs, vals: np.exp(-0.2 * (np.asarray(obs, dtype=float) - sum((i + 1.) * vals[k]
                                                                          for i, k in enumerate(names))) ** 2)
  process.set_prob(lambda obs, **vals: raw_of(like(obs, vals), scale), pscale=case['scale'])
  prop = lambda vals: 1. / (1. + sum(np.asarray(vals[k], dtype=float) ** 2 for k in names))
  if case['ref'] != 'none':
    paras.set_prop(lambda **vals: raw_of(prop(vals), 0j if log else 1.))
    process.set_prop(paras if case['ref'] == 'object' else 'roots')
  if case['scored']:
    process.set_scores(lambda opqr: 0.25)
    process.set_thresh(np.random.uniform)
    process.set_update(lambda stu: stu.s >= stu.t)
  kwds = {}
  if case['iid']:
    kwds['iid'] = True
  if case['joint']:
    kwds['joint'] = True
  data = np.array(case['data'])
  start = {0} if case['start'] == 'set' and case['ref'] != 'none' else {name: {0} for name in names}
  suffix = case['suffix'] == 'off' and case['ref'] != 'none'
  if case['ref'] == 'none': # no proposals: probabilities only
    arg = (dict(start, obs=data),)
  else:
    arg = (start, {'obs': data})
  if suffix:
    kwds['suffix'] = False
  sampler = process.sampler(*arg, stop=case['stop'], **kwds)
  samples = list(process.walk(sampler)) if case['consume'] == 'walk' else [s for s in sampler]
  expect(len(samples) == case['stop'], "{} samples rather than {}", len(samples), case['stop'])
  tail = '' if suffix else "'"
  seen, oks = [], []
  for i, s in enumerate(samples):
    p = s if case['ref'] == 'none' else s.p
    vals = plain(p, names)
    for k, h in zip(names, case['half']):
      expect(-h <= vals[k] <= h, "sample {}: {}={} outside of {}", i, k, vals[k], h)
    if case['ref'] != 'none':
      expect(set(s.q.keys()) == {k + tail for k in names} and plain(s.q, names, tail) == vals,
             "sample {}: proposed {} but evaluated {}", i, dict(s.q), vals)
      expect(close(lin_of(s.q, "proposal"), float(prop(vals)), 1e-8), "sample {}: proposition {} rather than {}",
             i, s.q.prob, prop(vals))
      expect(s.o is None and s.r is None, "sample {}: predecessor {}, reverse {}", i, s.o, s.r)
      if case['scored']:
        expect(s.s == 0.25 and bool(s.u) == (0.25 >= s.t), "sample {}: score {}, threshold {}, update {}", i,
               s.s, s.t, s.u)
    expect(set(p.cond.keys()) == (set() if case['joint'] else set(names)), "sample {}: p({}|{})", i, p.marg,
           p.cond)
    want = np.array([float(like(v, vals)) for v in case['data']])
    if case['iid']:
      want = np.prod(want)
      expect(p['obs'] == {len(data)}, "sample {}: data is {}", i, p['obs'])
    else:
      expect(np.ravel(p['obs']).tolist() == data.tolist(), "sample {}: data is {}", i, p['obs'])
    if case['joint']:
      want = want / np.prod([2. * h for h in case['half']])
    got = np.asarray(pr.linear(p.prob, p.pscale, "sample"), dtype=float)
    expect(got.size == want.size and np.allclose(np.ravel(got), np.ravel(want), rtol=1e-7, atol=1e-290),
           "sample {}: probability {} rather than {}", i, got, want)
    seen.append(vals)
    oks.append(case['ref'] == 'none' or not case['scored'] or bool(s.u))
  expect(len({str(v) for v in seen}) == len(seen), "samples repeat: {}", seen)
  if any(oks) and case['iid']:
    out = process(samples)
    out = out if case['ref'] == 'none' else out.p
    for name in names:
      want = [v[name] for v, ok in zip(seen, oks) if ok]
      expect(np.ravel(out[name]).tolist() == want, "summary: {} is {} rather than {}", name, out[name], want)
  ctx.tag(case['ref'], 'iid' if case['iid'] else 'separate', 'joint' if case['joint'] else 'conditional')
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_markov(draw):
  n = draw(st.integers(2, 4))
  cols = []
  for _ in range(n):
    w = [draw(st.sampled_from([0., 1., 0.5, 0.25, 0.7])) for _ in range(n)]
    w[draw(st.integers(0, n - 1))] += 1.
    cols.append([v / sum(w) for v in w])
  return {'n': n, 'cols': cols, 'start': draw(st.integers(0, n - 1)), 'stop': draw(st.integers(1, 12)),
          'field': draw(st.booleans()), 'low': draw(st.integers(-3, 3)),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks'])),
          'count': draw(st.booleans())}

@law(LAWS, st_markov, quick=300)
def markov(case, ctx):
  """ A process over a variable with a transition matrix is its Markov chain. """
  import probayes as pb
  n, low = case['n'], case['low']
  matrix = np.array(case['cols']).T
  x = pb.RV('x', range(low, low + n))
  x.set_tran(matrix)
  process = pb.SP(pb.RF(x)) if case['field'] else pb.SP(x)
  chain = Chain(['x'], {'x': case['start'] + low}, lambda vals: 1. / n,
                lambda p, s: matrix[int(s['x']) - low, int(p['x']) - low],
                lambda p, s, what: expect(s['x'] in range(low, low + n) and
                  matrix[int(s['x']) - low, int(p['x']) - low] > 0., "{}: impossible {} to {}", what,
                  p['x'], s['x']), "chain", accept='all')
  sampler = process.sampler({'x': case['start'] + low}, stop=case['stop'])
  samples = list(process.walk(sampler)) if case['consume'] != 'iterate' else [s for s in sampler]
  expect(len(samples) == case['stop'], "{} samples rather than {}", len(samples), case['stop'])
  state = case['start'] + low
  path = []
  for i, s in enumerate(samples):
    pred, succ = num(s.q['x']), num(s.q["x'"])
    expect(pred == state, "step {} from {} rather than {}", i, pred, state)
    chain.move({'x': pred}, {'x': succ}, "step {}".format(i))
    want = matrix[int(succ) - low, int(pred) - low]
    expect(close(lin_of(s.q, "step"), want), "step {} from {} to {} has probability {} rather than {}", i,
           pred, succ, s.q.prob, want)
    expect(num(s.p['x']) == succ and close(lin_of(s.p, "state"), 1. / n), "step {}: p({})={}", i, s.p['x'],
           s.p.prob)
    path.append(succ)
    state = succ
  out = process(samples)
  expect(np.ravel(out.q["x'"]).tolist() == path, "summary {} rather than {}", out.q["x'"], path)
  expect(np.ravel(out.q['x']).tolist() == ([case['start'] + low] + path)[:-1], "summary from {}", out.q['x'])
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_plain(draw):
  names = draw(st.permutations(['x', 'y', 'n', 'b']))[:draw(st.integers(2, 3))]
  rvs = {name: draw(pf.st_rv()) for name in names}
  return {'names': names, 'rvs': rvs, 'stop': draw(st.sampled_from([1, 2, 3, 4, 5, 6, 5, 6, draw(st.integers(20, 400))])),
          'endless': draw(st.sampled_from([False, False, True])),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks'])),
          'arg': draw(st.sampled_from(['set', 'count', 'none']))}

@law(LAWS, st_plain, quick=200)
def ordinary(case, ctx):
  """ Without proposals, samples are random values with their probability. """
  import probayes as pb
  names, rvs = case['names'], case['rvs']
  made = {name: pf.make_rv(name, rvs[name]) for name in names}
  process = pb.SP(pb.RF(*[made[name] for name in names]))
  if case['endless']:
    sampler = process.sampler({0}) if case['arg'] == 'set' else process.sampler()
  elif case['arg'] == 'count':
    sampler = process.sampler(case['stop'])
  elif case['arg'] == 'set':
    sampler = process.sampler({0}, stop=case['stop'])
  else:
    sampler = process.sampler(stop=case['stop'])
  if case['endless']:
    samples = list(process.walk(sampler, stop=case['stop']))
  else:
    samples = list(process.walk(sampler)) if case['consume'] != 'iterate' else [s for s in sampler]
  expect(len(samples) == case['stop'], "{} samples rather than {}", len(samples), case['stop'])
  cells = []
  for s in samples:
    vals = {}
    for name in names:
      expect(np.ndim(s[name]) == 0, "{} is {}", name, s[name])
      vals[name] = np.ravel(s[name])[0].item() if isinstance(s[name], np.generic) else s[name]
      spec = rvs[name]['spec']
      if spec['type'] == 'float':
        expect(spec['lims'][0] - pv.tol_of(spec) <= vals[name] <= spec['lims'][1] + pv.tol_of(spec),
               "{}={} outside of {}", name, vals[name], spec['lims'])
      else:
        expect(vals[name] in pv.declared(spec), "{}={} is not in {}", name, vals[name], pv.declared(spec))
    want = 1.
    for name in names:
      want = want * float(pf.prob_of(rvs[name], np.array([vals[name]]))[0])
    expect(close(lin_of(s, "sample"), want, 1e-8), "at {} probability {} rather than {}", vals, s.prob, want)
    cells.append((vals, want))
  out = process(samples)
  for name in names:
    expect(np.ravel(out[name]).tolist() == [c[0][name] for c in cells], "summary: {} is {} rather than {}",
           name, out[name], [c[0][name] for c in cells])
  got = np.ravel(pr.linear(out.prob, out.pscale, "summary"))
  expect(np.allclose(got, [c[1] for c in cells], rtol=1e-8), "summary: probabilities {}", got)
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_gibbs(draw):
  n = draw(st.integers(2, 3))
  return {'names': draw(st.permutations(NAMES))[:n], 'tsteps': draw(st.sampled_from([None, 1])),
          'root': [[draw(st.floats(-1., 1.)) for _ in range(n)] for _ in range(n)],
          'mean': [draw(st.floats(-1., 1.)) for _ in range(n)], 'log': draw(st.booleans()),
          'start': [draw(st.floats(-2., 2.)) for _ in range(n)], 'stop': draw(st.integers(1, 8)),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks']))}

@law(LAWS, st_gibbs, quick=150)
def gibbs(case, ctx):
  """ Gibbs samples are all accepted, each from the last, with the joint probability; with one
  variable at a time, all others stay. """
  import probayes as pb
  import scipy.stats
  names, n = case['names'], len(case['names'])
  root = np.array(case['root'])
  cov = root.dot(root.T) + 0.3 * np.eye(n)
  rvs = [pb.RV(name, vtype=float, vset=(-50., 50.), pscale='log' if case['log'] else None) for name in names]
  process = pb.SP(pb.RF(*rvs))
  process.set_prob(scipy.stats.multivariate_normal, case['mean'], cov.tolist())
  kwds = {} if case['tsteps'] is None else {'tsteps': case['tsteps']}
  process.set_tran(scipy.stats.multivariate_normal, case['mean'], cov.tolist(), **kwds)
  process.set_scores('gibbs')
  step = [0]
  def move(pred, succ, what):
    due = names if case['tsteps'] is None else [names[step[0] % n]]
    for name in names:
      expect((pred[name] != succ[name]) == (name in due), "{}: {} from {} to {} when {} due", what, name,
             pred[name], succ[name], due)
    step[0] += 1
  start = dict(zip(names, case['start']))
  chain = Chain(names, start, lambda vals: float(pf.mvn_pdf([vals[k] for k in names], case['mean'], cov)),
                lambda p, s: 1., move, "gibbs", accept='all')
  sampler = process.sampler(dict(start), stop=case['stop'])
  samples = consume(process, sampler, chain, case['consume'], case['stop'])
  for s in samples:
    expect(np.isnan(s.s) and np.isnan(s.t), "score {}, threshold {}", s.s, s.t)
  chain.summary(process(samples), "summary")
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_given(draw):
  n = draw(st.integers(2, 3))
  return {'names': draw(st.permutations(NAMES))[:n], 'tsteps': draw(st.sampled_from([None, 1, 1, 2])),
          'coefs': [[draw(st.integers(-2, 2)) for _ in range(n + 1)] for _ in range(n)],
          'start': [draw(st.integers(-4, 4)) for _ in range(n)], 'stop': draw(st.integers(1, 8)),
          'data': draw(st.lists(st.integers(-5, 5), min_size=1, max_size=5)),
          'joint': draw(st.booleans()), 'log': draw(st.booleans()),
          'both': draw(st.booleans()),
          'consume': draw(st.sampled_from(['iterate', 'walk', 'next', 'walks']))}

@law(LAWS, st_given, quick=150)
def gibbs_given(case, ctx):
  """ Parameters sampled from conditional functions given data: every sample is accepted, follows from the last
  by the conditional functions due, and has the probability of all data and its parameters. """
  import probayes as pb
  names, n, data = case['names'], len(case['names']), np.array(case['data'], dtype=float)
  scale = 'log' if case['log'] else 1.
  rvs = [pb.RV(name, vtype=float, vset=(-11., 11.)) for name in names]
  obs = pb.RV('obs', vtype=float, vset=(-np.inf, np.inf))
  aux = pb.RV('aux', vtype=float, vset=(-np.inf, np.inf))
  paras = pb.RF(*rvs)
  stats = obs & aux if case['both'] else pb.RF(obs)
  def new(vals, i):
    row = case['coefs'][i]
    return float((sum(c * v for c, v in zip(row, vals)) + row[-1] * np.sum(data)) % 21. - 10.5 + 0.25 * i)
  def sampler(data, unknown=None, **values):
    return new([num(values[name]) for name in names], names.index(unknown))
  kwds = {} if case['tsteps'] is None else {'tsteps': case['tsteps']}
  paras.set_tfun(sampler, data=data, **kwds)
  process = pb.SP(stats, paras)
  process.set_tfun(paras)
  def like(x, vals, aux=0.):
    return np.exp(-0.01 * (x - 0.3 * aux - sum((i + 1) * v for i, v in enumerate(vals))) ** 2.)
  def prob(obs, aux=0., **values):
    return raw_of(like(np.asarray(obs, dtype=float), [values[name] for name in names], aux), pr.norm(scale))
  process.set_prob(prob, pscale=scale)
  process.set_scores('gibbs')
  auxs = np.arange(len(data)) * 0.5
  def target(vals):
    out = 1. if not case['joint'] else (1. / 22.) ** n
    for x, a in zip(data, auxs if case['both'] else [0.] * len(data)):
      out = out * like(x, [vals[name] for name in names], a)
    return float(out)
  step = [0]
  def move(pred, succ, what):
    per = -(-n // (case['tsteps'] or n))
    at = (step[0] % per) * (case['tsteps'] or n)
    now = [pred[name] for name in names]
    for i in range(at, min(n, at + (case['tsteps'] or n))):
      now[i] = new(now, i)
    expect([succ[name] for name in names] == now, "{}: from {} to {} rather than {}", what, pred, succ, now)
    step[0] += 1
  given = ['obs', 'aux'] if case['both'] else ['obs']
  start = dict(zip(names, [float(v) for v in case['start']]))
  chain = Chain(names, start, target, lambda p, s: 1., move, "gibbs given data", accept='all', given=given)
  kwds = {'joint': True} if case['joint'] else {}
  values = {'obs,aux': [data, auxs]} if case['both'] else {'obs': data}
  sampler_ = process.sampler(dict(start), values, stop=case['stop'], iid=True, **kwds)
  samples = consume(process, sampler_, chain, case['consume'], case['stop'])
  for s in samples:
    expect(s.p['obs'] == {len(data)}, "data is {}", s.p['obs'])
  out = process(samples)
  chain.summary(out, "summary")
  expect(set(out.v.cond) == (set() if case['joint'] else set(names)), "p({}|{})", out.v.marg, out.v.cond)
  ctx.tag('tsteps{}'.format(case['tsteps']))
  ctx.interesting(case['stop'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_opqr(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
  return {'names': names, 'mu': [draw(st.floats(-1., 1.)) for _ in names],
          'sd': [draw(st.floats(0.3, 2.)) for _ in names], 'hat': draw(st.booleans()),
          'scale': draw(pr.st_scale()), 'start': [draw(st.floats(-1., 1.)) for _ in names],
          'step': [draw(st.floats(-0.2, 0.2)) for _ in names], 'kind': draw(st.sampled_from(['prop', 'tran'])),
          'n': draw(st.integers(1, 4)), 'suffix': draw(st.sampled_from(['default', 'off']))}

@law(LAWS, st_opqr, quick=150)
def resampled(case, ctx):
  """ A sample passed back continues from its proposal: a proposition is re-evaluated at the same values, and
  a transition goes on from the successor, handing on its probability. """
  import probayes as pb
  names, scale = case['names'], pr.norm(case['scale'])
  rvs = [pb.RV(name, [-3., 3.]) for name in names]
  process = pb.SD(pb.RF(*rvs)) if len(rvs) > 1 else pb.SD(rvs[0])
  target = target_of(case, names)
  other = lambda vals: 1. / (1. + sum(np.asarray(vals[k], dtype=float) ** 2 for k in names))
  process.set_prob(lambda **vals: raw_of(target(vals), scale), pscale=case['scale'])
  state = dict(zip(names, case['start']))
  kwds = {}
  if case['kind'] == 'prop':
    process.set_prop(lambda **vals: raw_of(other(vals), scale))
    if case['suffix'] == 'off':
      kwds = {'suffix': False}
  else:
    process.set_tran(lambda **vals: raw_of(other(vals), scale))
    process.set_delta(dict(zip(names, case['step'])) if len(names) > 1 else case['step'][0])
  before = None
  arg = dict(state)
  for i in range(case['n']):
    s = process.sample(arg, **kwds)
    what = "{} {}".format(case['kind'], i)
    if case['kind'] == 'prop':
      suffix = '' if kwds else "'"
      expect(plain(s.q, names, suffix) == state, "{}: proposed {} rather than {}", what, dict(s.q), state)
      expect(close(lin_of(s.q, what), float(other(state))), "{}: proposal probability {}", what, s.q.prob)
      expect(s.o is None and s.r is None, "{}: o={}, r={}", what, s.o, s.r)
    else:
      pred = state
      expect(plain(s.q, names) == pred, "{}: from {} rather than {}", what, dict(s.q), pred)
      state = plain(s.q, names, "'")
      for name, step in zip(names, case['step']):
        expect(abs(state[name] - pred[name] - step) < 1e-9, "{}: {} moved by {} rather than {}", what, name,
               state[name] - pred[name], step)
      expect(close(lin_of(s.q, what), float(other(pred))), "{}: transition probability {}", what, s.q.prob)
      expect((s.o is None) if before is None else (s.o is before), "{}: predecessor {}", what, s.o)
    expect(plain(s.p, names) == state and close(lin_of(s.p, what), float(target(state)), 1e-8),
           "{}: at {} probability {} rather than {}", what, dict(s.p), s.p.prob, target(state))
    before = s.p
    arg = s
  ctx.tag(case['kind'])
  ctx.interesting(case['n'] > 1)

# -----------------------------------------------------------------------------
@st.composite
def st_anew(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
  vec = lambda lo, hi: [draw(st.floats(lo, hi)) for _ in names]
  return {'names': names, 'start': vec(-1., 1.), 'scale': draw(st.sampled_from([1., 'log', 2.])),
          'specs': [{'kind': draw(st.sampled_from(['plain', 'prop', 'tran', 'tran'])), 'size': vec(0.1, 2.),
                     'coef': draw(st.sampled_from([0.25, 0.5, 2.])), 'prob': draw(st.sampled_from([0.5, 1., 3.])),
                     'accept': draw(st.sampled_from(['none', 'metropolis', 'gibbs', 'custom'])),
                     'stop': draw(st.integers(1, 3))}
                    for _ in range(draw(st.integers(2, 4)))]}

@law(LAWS, st_anew, quick=150)
def respecified(case, ctx):
  """ Samples follow the probability, proposals and acceptance specified last, or their absence. """
  import probayes as pb
  names, scale = case['names'], pr.norm(case['scale'])
  made = [pb.RV(name, vtype=float, vset=[-40., 40.]) for name in names]
  process = pb.SP(pb.RF(*made))
  kinds = []
  for spec in case['specs']:
    kind, coef, size, accept = spec['kind'], spec['coef'], spec['size'], spec['accept']
    kinds.append((kind, accept))
    what = "after {}".format(kinds)
    target = lambda vals, c=spec['prob']: c * math.exp(-0.01 * sum(abs(num(vals[n])) for n in names))
    process.set_prob(lambda target=target, **vals: raw_of(target(vals), scale), pscale=case['scale'])
    process.set_tran(None)
    process.set_prop(None)
    process.set_delta(None)
    step = lambda vals, c=coef: c * math.exp(-sum(abs(num(vals[n + "'"]) - num(vals[n])) for n in names))
    offer = lambda vals, c=coef: c * math.exp(-sum(abs(num(vals[n])) for n in names))
    if kind == 'prop':
      process.set_prop(lambda offer=offer, **vals: raw_of(offer(vals), scale))
    elif kind == 'tran':
      process.set_tran(lambda step=step, **vals: raw_of(step(vals), scale))
      process.set_delta(dict(zip(names, size)))
    process.set_scores(None)
    process.set_thresh(None)
    process.set_update(None)
    if accept == 'custom':
      process.set_scores(lambda opqr, c=coef: c)
      process.set_thresh(lambda c=coef: c + 1.)
      process.set_update(lambda stu: None if stu.s is None else False)
    elif accept != 'none':
      process.set_scores(accept)
    expect((process.tran is None) == (kind != 'tran') and (process.prop is None) == (kind != 'prop'),
           "{}: transition {} and proposition {}", what, process.tran, process.prop)
    arg = {0} if kind == 'prop' else dict(zip(names, case['start']))
    last = None if kind == 'prop' else dict(arg)
    n = 0
    for s in process.sampler(arg, stop=spec['stop']):
      if kind == 'plain':
        expect(not hasattr(s, 'q') or not hasattr(s, 's'), "{}: sample {}", what, s)
        at = plain(s, names)
        expect(at == last and close(lin_of(s, what), target(at), 1e-8), "{}: {} with probability {}", what, at, s.prob)
        n += 1
        continue
      if kind == 'tran':
        pred, succ = plain(s.q, names), plain(s.q, names, "'")
        expect(pred == last, "{}: from {} rather than {}", what, pred, last)
        expect(all(abs(succ[k] - pred[k] - d) < 1e-9 for k, d in zip(names, size)), "{}: from {} to {} rather than by {}",
               what, pred, succ, size)
        want = step({**pred, **{k + "'": v for k, v in succ.items()}})
      else:
        succ = plain(s.q, names, "'" if names[0] + "'" in s.q else '')
        want = offer(succ)
      expect(close(lin_of(s.q, what), want, 1e-8), "{}: proposed with probability {} rather than {}", what, s.q.prob, want)
      at = plain(s.p, names)
      expect(at == succ and close(lin_of(s.p, what), target(at), 1e-8), "{}: probability {} at {}", what, s.p.prob, at)
      taken = True
      if accept == 'none':
        expect(s.s is None and s.t is None and s.u is None, "{}: score {}, threshold {}, update {}", what, s.s, s.t, s.u)
      elif accept == 'custom':
        expect(s.s == coef and s.t == coef + 1. and s.u is False, "{}: score {}, threshold {}, update {}", what, s.s,
               s.t, s.u)
        taken = n == 0
      elif accept == 'gibbs':
        expect(s.u is True and num(s.s) != num(s.s) and num(s.t) != num(s.t), "{}: score {}, threshold {}, update {}",
               what, s.s, s.t, s.u)
      else:
        expect((s.s is None) == (s.o is None) and 0. <= num(s.t) <= 1., "{}: score {}, threshold {}", what, s.s, s.t)
        taken = s.u is True
        expect(taken == (s.s is None or num(s.s) >= num(s.t)), "{}: score {}, threshold {}, update {}", what, s.s,
               s.t, s.u)
      if kind == 'tran' and taken:
        last = succ
      n += 1
    expect(n == spec['stop'], "{}: {} samples rather than {}", what, n, spec['stop'])
  ctx.tag(*set(kind for kind, _ in kinds))
  ctx.interesting(len(set(kind for kind, _ in kinds)) > 1)
