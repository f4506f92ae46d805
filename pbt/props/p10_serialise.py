"""Serialisation and HDF5 persistence."""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import pdmodel as pm
from pbt.core import law, expect, skip, broken, arr

LAWS = []
SCALE = 2 # multiplies the numbers of quick cases
RULE = ("1-3 random distributions with different names (conditions, shared dimensions, "
        "scalars, counts left by products, all scales), with and without auxiliary data; "
        "non-trivial: at least one distribution has an axis of size >= 2")

@st.composite
def st_dists(draw):
  out = []
  for _ in range(draw(st.sampled_from([1, 2, 3]))):
    spec = draw(pm.st_spec(st, min_axes=0, max_axes=3, max_size=4, max_scalars=2,
                           reorder=draw(st.booleans()), min_marg=1))
    groups = pm.groups_of(spec, only_marg=True)
    prod = draw(st.booleans()) and draw(st.booleans()) and bool(groups)
    plain = draw(st.integers(0, 3)) == 0 and not spec['cond']
    out.append({'spec': spec, 'plain': plain, 'count': draw(st.one_of(st.none(), st.integers(0, 50000))),
                'prod': groups[0] if prod and not plain else []})
  return out

def build_all(case):
  import probayes as pb
  dists, names = [], set()
  for item in case:
    dist = pm.build(item['spec'])
    if item['prod']:
      dist = dist.prod(item['prod'])
      if item['count'] is not None: # as if of that many observations
        vals = {k: {item['count']} if k in item['prod'] else v for k, v in dist.items()}
        dist = pb.PD(dist.name, vals, dims=dist.dims, prob=dist.prob, pscale=dist.pscale)
    if item['plain']:
      dist = pb.Distribution(','.join(dist.keys()), dict(dist), dims=dist.dims)
    name = dist.short_name
    if name in names:
      skip()
    names.add(name)
    dists.append(dist)
  return dists

def snapshot(dist):
  """ Everything observable about a distribution, as plain data. """
  import probayes as pb
  snap = {'keys': sorted(dist.keys()), 'vals': {}, 'dims': {}}
  for key in dist.keys():
    val = dist[key]
    snap['vals'][key] = pm.plain(val) if dist.dims[key] is None else np.ravel(val).tolist()
    dim = dist.dims[key]
    expect(dim is None or not isinstance(dim, str), "dimension of {} is {!r}", key, dim)
    snap['dims'][key] = None if dim is None else int(dim)
  snap['short'] = dist.short_name
  if isinstance(dist, pb.PD):
    snap['marg'], snap['cond'] = list(dist.marg.keys()), list(dist.cond.keys())
    snap['prob'] = arr(dist.prob).tolist()
    pscale = complex(dist.pscale) if np.iscomplexobj(dist.pscale) else float(dist.pscale)
    snap['pscale'] = repr(pscale)
  else:
    snap['size'] = int(dist.size)
  return snap

def compare(before, after, what):
  for key in before:
    expect(key in after and before[key] == after[key], "{}: {} was {} and is {}",
           what, key, before[key], after.get(key))

def sized(case):
  return any(a['size'] > 1 for item in case for a in item['spec']['axes'])

@law(LAWS, st_dists, quick=400)
def in_memory(case, ctx):
  import probayes as pb
  dists = build_all(case)
  before = [snapshot(d) for d in dists]
  back = pb.deserialise(pb.serialise(*dists))
  expect(len(back) == len(dists), "{} distributions became {}", len(dists), len(back))
  for b, d in zip(before, back):
    compare(b, snapshot(d), "deserialised")
  for b, d in zip(before, dists):
    compare(b, snapshot(d), "original after serialisation")
  ctx.interesting(sized(case))

@law(LAWS, st_dists, quick=400)
def on_disk(case, ctx):
  import probayes as pb
  dists = build_all(case)
  before = [snapshot(d) for d in dists]
  with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'dist.hdf')
    pb.write_dist(path, *dists)
    for b, d in zip(before, dists):
      compare(b, snapshot(d), "original after writing")
    back = pb.read_dist(path)
    expect(len(back) == len(dists), "{} distributions became {}", len(dists), len(back))
    for b, d in zip(before, back):
      compare(b, snapshot(d), "read back")
    # Writing what was read gives the same again
    pb.write_dist(path, *back)
    for b, d in zip(before, pb.read_dist(path)):
      compare(b, snapshot(d), "second generation")
  ctx.interesting(sized(case))

@st.composite
def st_aux(draw):
  aux = {}
  for i in range(draw(st.integers(0, 3))):
    name = draw(st.sampled_from(['aux data', 'more data', 'a b', 'run 1 of 2'])) + str(i)
    aux[name] = {}
    for j in range(draw(st.integers(0, 3))):
      sub = draw(st.sampled_from(['u', 'v', 'w w', 'prob', 'attrs'])) + str(j)
      kind = draw(st.sampled_from(['int', 'float', 'bool']))
      n = draw(st.integers(0, 4))
      aux[name][sub] = [kind, [draw(st.integers(0, 5)) for _ in range(n)]]
  return {'dists': draw(st_dists()), 'aux': aux}

@law(LAWS, st_aux, quick=250)
def auxiliary(case, ctx):
  """ Auxiliary arrays travel alongside the distributions without mixing. """
  import probayes as pb
  dists = build_all(case['dists'])
  before = [snapshot(d) for d in dists]
  aux = {name: {sub: np.array(vals, dtype={'int': int, 'float': float, 'bool': bool}[kind])
                for sub, (kind, vals) in group.items()}
         for name, group in case['aux'].items()}
  with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'dist.hdf')
    pb.write_serialised(path, pb.serialise(*dists), aux)
    serialised, got = pb.read_serialised(path)
  expect(set(got) == set(aux), "auxiliary groups {} rather than {}", sorted(got), sorted(aux))
  for name in aux:
    expect(set(got[name]) == set(aux[name]), "{}: {}", name, sorted(got[name]))
    for sub in aux[name]:
      expect(np.array_equal(got[name][sub], aux[name][sub]) and
             got[name][sub].dtype == aux[name][sub].dtype, "{}/{}: {} rather than {}",
             name, sub, got[name][sub], aux[name][sub])
  back = pb.deserialise(serialised)
  expect(len(back) == len(dists), "{} distributions became {}", len(dists), len(back))
  for b, d in zip(before, back):
    compare(b, snapshot(d), "read back")
  ctx.interesting(bool(aux))
