"""C34: model files, wind datasets and wind statistics."""

import contextlib
import importlib.machinery
import os
import pickle
import shutil
import sys
import tempfile

import gin
import jax.numpy as jnp
import numpy as np
import scipy.stats
from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import require, require_array_close, require_close, require_raises, sub

from balloon_learning_environment.generative import dataset_wind_field_reservoir
from balloon_learning_environment.models import models
from balloon_learning_environment.utils import wind

FILES = {'offlineskies22': 'offlineskies22_decoder.msgpack',
         'perciatelli44': 'perciatelli44.pb'}
PACKAGE = 'balloon_learning_environment.models'


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(dir=os.environ.get('TMPDIR'))
  try:
    yield d
  finally:
    shutil.rmtree(d)


@contextlib.contextmanager
def places(d):
  """Moves the working directory and the data of the models package to d."""
  spec = sys.modules[PACKAGE].__spec__
  loader, cwd = spec.loader, os.getcwd()
  os.makedirs(f'{d}/package')
  os.makedirs(f'{d}/cwd/balloon_learning_environment/models')
  open(f'{d}/package/__init__.py', 'w').close()
  spec.loader = importlib.machinery.SourceFileLoader(
      PACKAGE, f'{d}/package/__init__.py')
  os.chdir(f'{d}/cwd')
  try:
    yield f'{d}/package', f'{d}/cwd/balloon_learning_environment/models'
  finally:
    os.chdir(cwd)
    spec.loader = loader


@sub('C34', 'models', lambda: st.fixed_dictionaries(dict(
    model=st.sampled_from(sorted(FILES)), salt=gen.ui(0, 10**6),
    path=st.sampled_from([None, None, 'empty', None, 'there', 'missing', 'directory',
                          'relative', 'odd [1]* name']),
    how=st.sampled_from(['argument', 'gin']),
    package=st.booleans(), cwd=st.booleans(), other=st.booleans(),
    size=st.sampled_from([0, 1, 5, 1000, 300000]))), quick=600,
     thorough=20000,
     rule='model files at a given path, in the package, in the working '
     'directory, or nowhere; non-trivial: a file in two places, or none')
def model_files(case, ctx):
  r = fakes.rnd(case['salt'])
  name = FILES[case['model']]
  load = getattr(models, f'load_{case["model"]}')
  data = {}

  def put(where, path):
    data[where] = r.bytes(case['size']) + where.encode()
    with open(path, 'wb') as f:
      f.write(data[where])

  gin.clear_config()
  with scratch() as d, places(d) as (package, cwd):
    if case['package']:
      put('package', f'{package}/{name}')
    if case['cwd']:
      put('cwd', f'{cwd}/{name}')
    if case['other']:
      for k, v in FILES.items():
        if k != case['model']:
          put('x', f'{package}/{v}')
          put('x', f'{cwd}/{v}')
    path = None
    if case['path'] is not None:
      path = f'{d}/{case["path"]}'
      if case['path'] == 'directory':
        os.makedirs(path)
      elif case['path'] == 'empty':
        path = ''
      elif case['path'] == 'relative':
        put('path', f'{d}/cwd/file')
        path = 'file'
      elif case['path'] != 'missing':
        put('path', path)
    args = {}
    if path is not None:
      if case['how'] == 'gin':
        gin.parse_config([f'load_{case["model"]}.path = {path!r}'])
      else:
        args = dict(path=path)
    if case['path'] in ('missing', 'directory', 'empty'):
      require_raises(ValueError, lambda: load(**args), 'unreadable path')
    elif path is None and not data.keys() & {'package', 'cwd'}:
      require_raises(RuntimeError, load, 'no model')
    else:
      want = next(data[k] for k in ('path', 'package', 'cwd') if k in data)
      got = load(**args)
      require(isinstance(got, bytes), 'bytes')
      require(got == want, 'model', got=got[-12:], want=want[-12:])
  gin.clear_config()
  ctx.label('found' if data else 'nothing')
  ctx.nontrivial(len(data) != 1)


def dataset(salt, n, dims):
  """Rows that are all different, and recognisable by their first value."""
  a = fakes.rnd(salt).normal(size=(n, *dims)).astype(np.float32)
  a.reshape(n, -1)[:, 0] = np.arange(n)
  return a


def rows(batch):
  return [int(v) for v in np.asarray(batch).reshape(len(batch), -1)[:, 0]]


def check_batches(res, data, n_eval, sizes, what):
  """Fetches batches; returns the rows of each."""
  n = len(data)
  out = []
  for b in sizes:
    batch = res.get_batch(b)
    require(batch.shape == (b,) + data.shape[1:], f'{what}: shape of a batch',
            got=batch.shape)
    i = rows(batch)
    require(len(set(i)) == b, f'{what}: rows are distinct', got=i)
    require(all(0 <= k < n - n_eval for k in i), f'{what}: training rows',
            got=i, n=n, n_eval=n_eval)
    require(np.array_equal(np.asarray(batch), data[i]), f'{what}: whole rows')
    e = np.asarray(res.get_eval_batch())
    require(e.shape == (n_eval,) + data.shape[1:], f'{what}: evaluation shape',
            got=e.shape)
    require(np.array_equal(e, data[n - n_eval:]), f'{what}: evaluation rows')
    out.append(i)
  return out


dims = st.lists(st.integers(1, 4), min_size=1, max_size=4)


@sub('C34', 'reservoir', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), n=st.integers(1, 40), e=st.integers(0, 40),
    dims=dims, seeds=st.tuples(gen.seeds(), gen.seeds()).map(list),
    sizes=st.lists(st.integers(0, 40), min_size=1, max_size=5),
    host=st.booleans())), quick=200, thorough=8000,
     rule='batches of wind datasets of generated size; non-trivial: a batch of '
     'at least two rows and evaluation rows')
def reservoir(case, ctx):
  n = case['n']
  n_eval = min(case['e'], n - 1)
  data = dataset(case['salt'], n, case['dims'])
  sizes = [1 + s % (n - n_eval) for s in case['sizes']]
  make = lambda seed: dataset_wind_field_reservoir.DatasetWindFieldReservoir(
      data if case['host'] else jnp.asarray(data), eval_batch_size=n_eval,
      rng_seed=seed)
  s0, s1 = case['seeds']
  a, b, c = make(s0), make(s0), make(s1)
  got = check_batches(a, data, n_eval, sizes, 'reservoir')
  c.get_batch(1)    # Another reservoir does not interfere.
  again = check_batches(b, data, n_eval, sizes, 'again')
  require(got == again, 'the same batches from the same seed')
  require_raises(ValueError, lambda: a.get_batch(n - n_eval + 1),
                 'more rows than there are')
  ctx.nontrivial(max(sizes) > 1 and n_eval > 0)


@sub('C34', 'sampling', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), n=st.integers(3, 25), e=st.integers(0, 5),
    b=st.integers(1, 24))), quick=24, thorough=800,
     rule='the frequencies of rows, of their places in batches, and of '
     'repetitions of batches, over 400 batches; non-trivial: always')
def sampling(case, ctx):
  n, e = case['n'], case['e']
  b = min(case['b'], n)
  data = dataset(0, n + e, [2])
  reps = 400
  res = dataset_wind_field_reservoir.DatasetWindFieldReservoir(
      jnp.asarray(data), eval_batch_size=e, rng_seed=case['seed'])
  other = dataset_wind_field_reservoir.DatasetWindFieldReservoir(
      jnp.asarray(data), eval_batch_size=e, rng_seed=case['seed'] + 1)
  count, first, same, shared = np.zeros(n), np.zeros(n), 0, 0
  last = None
  for _ in range(reps):
    i = rows(res.get_batch(b))
    count[i] += 1
    first[i[0]] += 1
    same += i[0] == last
    last = i[0]
    shared += i[0] == rows(other.get_batch(b))[0]
  alpha = 1e-9 / (2 * n + 2)
  for k in range(n):
    p = scipy.stats.binomtest(int(count[k]), reps, b / n).pvalue
    require(p > alpha, 'frequency of a row', row=k, got=count[k],
            want=reps * b / n)
    p = scipy.stats.binomtest(int(first[k]), reps, 1 / n).pvalue
    require(p > alpha, 'frequency of a row in front', row=k, got=first[k])
  require(scipy.stats.binomtest(int(same), reps - 1, 1 / n).pvalue > alpha,
          'successive batches are independent', got=same, n=n)
  require(scipy.stats.binomtest(int(shared), reps, 1 / n).pvalue > alpha,
          'seeds are independent', got=shared, n=n)
  ctx.nontrivial()


@sub('C34', 'shards', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), dims=dims, e=st.integers(0, 30), seed=gen.seeds(),
    sizes=st.lists(st.integers(1, 60), min_size=1, max_size=3),
    missing=st.one_of(st.none(), st.none(), st.integers(0, 199)))), quick=24,
     thorough=600,
     rule='datasets in directories of 200 shards of different sizes; '
     'non-trivial: none is missing')
def shards(case, ctx):
  r = fakes.rnd(case['salt'], 1)
  sizes = [int(v) for v in r.integers(1, 4, 200)]
  data = dataset(case['salt'], sum(sizes), case['dims'])
  cuts = np.cumsum([0] + sizes)
  with scratch() as d:
    for i in [int(v) for v in r.permutation(200)] + [200, 9999]:
      if i == case['missing']:
        continue
      with open(f'{d}/batch{i:04d}.pickle', 'wb') as f:
        pickle.dump(data[cuts[i]:cuts[i + 1]] if i < 200 else -data[:3], f)
    make = lambda x: dataset_wind_field_reservoir.DatasetWindFieldReservoir(
        x, eval_batch_size=case['e'], rng_seed=case['seed'])
    if case['missing'] is not None:
      require_raises(Exception, lambda: make(d), 'missing shard')
      return
    a, b = make(d), make(jnp.asarray(data))
  got = check_batches(a, data, case['e'], case['sizes'], 'shards')
  require(got == check_batches(b, data, case['e'], case['sizes'], 'array'),
          'the same batches from files and from memory')
  default = dataset_wind_field_reservoir.DatasetWindFieldReservoir(data)
  require(np.array_equal(default.get_eval_batch(), data[-10:]),
          'ten evaluation rows by default')
  ctx.nontrivial()


@sub('C34', 'speeds', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), shape=st.lists(st.integers(1, 5), min_size=4,
                                          max_size=4),
    scale=st.sampled_from([1e-3, 1.0, 30.0, 1e4]), still=st.booleans())),
     quick=160, thorough=6000,
     rule='speeds of generated wind fields; non-trivial: always')
def speeds(case, ctx):
  r = fakes.rnd(case['salt'])
  f = r.normal(size=(*case['shape'], 2)) * case['scale']
  if case['still']:
    f[r.random(case['shape']) < 0.5] = 0.0
  want = np.hypot(f[..., 0], f[..., 1])
  got = wind.wind_field_speeds(f)
  require_array_close(got, want, 'speeds', rel=1e-5, abs_=1e-30)
  require_close(wind.mean_speed_in_wind_field(f), want.mean(), 'mean speed',
                rel=1e-5, abs_=1e-30)
  f = f[::-1] * 0.5 + 1.0    # Another one of the same shape.
  want = np.hypot(f[..., 0], f[..., 1])
  require_array_close(wind.wind_field_speeds(f), want, 'speeds', rel=1e-5,
                      abs_=1e-30)
  require_close(wind.mean_speed_in_wind_field(f), want.mean(), 'mean speed',
                rel=1e-5, abs_=1e-30)
  ctx.nontrivial()


@sub('C34', 'station_keeping', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), n=st.integers(3, 60),
    kind=st.sampled_from(['free', 'cone', 'grid', 'column']),
    shift=gen.uf(0, 3), width=gen.uf(0.05, 2 * np.pi),
    scale=st.sampled_from([0.1, 1.0, 20.0]))), quick=3000, thorough=100000,
     rule='columns of winds with the origin clearly inside or outside of '
     'their hull, by the largest angle without wind; non-trivial: inside, or '
     'a cone of more than 2 rad')
def station_keeping(case, ctx):
  r = fakes.rnd(case['salt'])
  n, k = case['n'], case['kind']
  ang = r.random() * 2 * np.pi
  if k == 'free':
    w = r.normal(size=(n, 2)) + case['shift'] * np.array(
        [np.cos(ang), np.sin(ang)])
  elif k == 'cone':
    a = ang + r.uniform(0, case['width'], n)
    w = np.stack([np.cos(a), np.sin(a)], 1) * r.uniform(0.2, 3, (n, 1))
  elif k == 'grid':
    w = r.integers(-4, 5, (n, 2)) + np.round(
        case['shift'] * np.array([np.cos(ang), np.sin(ang)]) * 2)
  else:
    w = np.cumsum(r.normal(size=(n, 2)), 0) * 0.5 + r.normal(size=2)
  w = w * case['scale']
  s = np.linalg.svd(w - w.mean(0), compute_uv=False)
  if s[1] < 1e-3 * s[0]:    # All in a line: no hull.
    return
  nz = w[np.linalg.norm(w, axis=1) > 0]
  if len(nz) < len(w):
    # A calm level: the origin belongs to the hull.
    want, margin = True, 1.0
    # The hull is given by the outer points; the origin may be one of them.
    t = np.sort(np.arctan2(nz[:, 1], nz[:, 0]))
    gap = np.diff(np.append(t, t[0] + 2 * np.pi)).max()
    margin = np.pi - gap
    if margin < 1e-6:
      return
  else:
    t = np.sort(np.arctan2(w[:, 1], w[:, 0]))
    gap = np.diff(np.append(t, t[0] + 2 * np.pi)).max()
    want, margin = bool(gap < np.pi), abs(gap - np.pi)
    if margin < 1e-6:
      return
  before = w.copy()
  got = wind.is_station_keeping_winds(w)
  require(bool(got) == want, 'station keeping winds', got=bool(got), want=want,
          gap=gap)
  require(np.array_equal(w, before), 'the column is left alone')
  order = r.permutation(n)
  require(bool(wind.is_station_keeping_winds(w[order])) == want, 'permuted')
  ctx.label('inside' if want else 'outside')
  ctx.nontrivial(want or 2 * np.pi - gap > 2)
