"""C17: ground-truth wind is the forecast plus a seeded, blended noise."""

import datetime as dt
import math

import opensimplex

# Recording stand-in for the noise library, installed before the code under test
# is imported, so that it works however the code refers to the class.
_REAL = opensimplex.OpenSimplex


class Recorder:
  """What the code asked of its simplex generators, and the answers."""
  log = None


class Spy(_REAL):

  def noise4d(self, *args, **kw):
    v = super().noise4d(*args, **kw)
    if Recorder.log is not None:
      Recorder.log.append((id(self), tuple(float(a) for a in args), float(v)))
    return v


opensimplex.OpenSimplex = Spy

import jax
import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env import simplex_wind_noise
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

# The published harmonics: weight, km, km, Pa, hours.
U = [(0.1445, 702.269, 2116.987, 2587.802, 245.0),
     (0.2766, 1483.570, 752.124, 646.208, 16.39),
     (0.2627, 276.810, 147.040, 587.702, 3.836),
     (0.2137, 10214.525, 1512.216, 965.629, 41.780),
     (0.1025, 181.286, 420.942, 8500.0, 245.0)]
V = [(0.2716, 1974.228, 2028.814, 713.697, 26.435),
     (0.2684, 699.738, 541.845, 632.116, 9.530),
     (0.2348, 217.750, 196.522, 686.825, 3.546),
     (0.1186, 47.500, 43.048, 66.553, 8.424),
     (0.1066, 3663.291, 232.023, 7499.741, 225.0)]
MAGNITUDE = math.sqrt(1.02 / 0.0569)


def D(m):
  return units.Distance(m=m)


def points(n=1, m=6):
  pressure = st.one_of(gen.uf(4500, 14500), gen.uf(4500, 14500),
                       gen.uf(1500, 40000), st.sampled_from(
                           [8000., 10000., 12000., 5000., 14000., 7999.999]))
  far = st.one_of(gen.uf(-8e5, 8e5), gen.uf(-8e5, 8e5), gen.uf(-5e6, 5e6))
  p = st.tuples(far, far, pressure, st.one_of(
      gen.ui(0, 200 * 3600), gen.uf(0, 200 * 3600))).map(list)
  return st.lists(p, min_size=n, max_size=m)


def at(f, p):
  w = f(D(p[0]), D(p[1]), p[2], dt.timedelta(seconds=p[3]))
  return (float(w.u.meters_per_second), float(w.v.meters_per_second))


class Affine(wind_field.WindField):
  """A forecast with a different value everywhere."""

  def __init__(self):
    super().__init__()
    self.resets = []

  def reset_forecast(self, key, date_time):
    self.resets.append((np.asarray(key).tolist(), date_time))

  def get_forecast(self, x, y, pressure, elapsed_time):
    return wind_field.WindVector(
        units.Velocity(mps=x.km * 0.01 + pressure * 1e-3),
        units.Velocity(mps=-y.km * 0.02 + elapsed_time.total_seconds() * 1e-4))


def static(p):
  q = p[2]
  return ((10., 0.) if q < 8000 else (0., 10.) if q < 10000 else
          (-10., 0.) if q < 12000 else (0., -10.))


def make(kind):
  return (wind_field.SimpleStaticWindField() if kind == 'static' else Affine())


@sub('C17', 'truth', lambda: st.fixed_dictionaries(dict(
    kind=st.sampled_from(['static', 'affine']), seed=gen.seeds(),
    seed2=gen.seeds(), pts=points(2, 6), order=st.randoms(use_true_random=False)
    .map(lambda r: r.randrange(720)), t0=gen.timestamps(), t1=gen.timestamps())),
     quick=320, thorough=12000, rule='a wind field is reset and queried at '
     'generated points in two orders, twice, and from two instances: truth = '
     'forecast + noise, the noise depends on the key only; non-trivial: the two '
     'seeds differ and noise is not zero')
def truth(case, ctx):
  wf, other = make(case['kind']), make(case['kind'])
  key = jax.random.PRNGKey(case['seed'])
  wf.reset(key, ble.utc(case['t0']))
  # Another instance, with another past, forecasts queried in between.
  other.reset(jax.random.PRNGKey(case['seed2']), ble.utc(case['t0']))
  pts = case['pts']
  far = [at(other.get_ground_truth, p) for p in pts]
  other.reset(key, ble.utc(case['t1']))
  shuffled = sorted(range(len(pts)), key=lambda i: (i * 7 + case['order']) % 11)
  seen = {}
  for i in shuffled:
    at(other.get_forecast, pts[i])
    seen[i] = at(other.get_ground_truth, pts[i])
  moved = False
  for i, p in enumerate(pts):
    truth_ = at(wf.get_ground_truth, p)
    forecast = at(wf.get_forecast, p)
    if case['kind'] == 'static':
      require(forecast == static(p), 'static forecast', got=forecast, p=p)
    require(seen[i] == truth_, 'same key, same point, different wind',
            first=truth_, second=seen[i])
    require(at(wf.get_ground_truth, p) == truth_, 'query is not repeatable')
    noise = (truth_[0] - forecast[0], truth_[1] - forecast[1])
    require(all(math.isfinite(n) and abs(n) <= 10.0 for n in noise),
            'noise is not bounded', noise=noise)
    require(noise[0] != noise[1] or noise == (0, 0),
            'both components have the same noise')
    if truth_ != far[i]:
      moved = True
  if case['seed'] != case['seed2']:
    require(moved, 'different seeds give the same wind')
    ctx.nontrivial()
  # The noise varies with every coordinate, everywhere.
  noise_at = lambda p: np.subtract(at(wf.get_ground_truth, p),
                                   at(wf.get_forecast, p))
  for p in pts[:2]:
    base = noise_at(p)
    for k, d in enumerate((3e4, 3e4, 100.0, 7200.0)):
      for sign in (1, -1):
        q = list(p)
        q[k] += sign * d
        if q[3] >= 0:
          require(np.abs(noise_at(q) - base).min() > 1e-9,
                  'the noise does not vary', coordinate='xypt'[k], p=p, q=q)
  # The forecast of a column is that of its points.
  p = pts[0]
  col = wf.get_forecast_column(D(p[0]), D(p[1]), [q[2] for q in pts],
                               dt.timedelta(seconds=p[3]))
  require(len(col) == len(pts), 'length of a column')
  for q, w in zip(pts, col):
    one = at(wf.get_forecast, [p[0], p[1], q[2], p[3]])
    require((float(w.u.meters_per_second), float(w.v.meters_per_second)) == one,
            'column differs from single forecast', got=w, want=one)
  if case['kind'] == 'affine':
    require([d for _, d in wf.resets] == [ble.utc(case['t0'])],
            'the forecast is reset once, with the date')
    a = [k for k, _ in wf.resets][0]
    b = [k for k, _ in other.resets]
    require(a == b[1], 'the forecast key depends on more than the key')
    if case['seed'] != case['seed2']:
      require(a != b[0], 'the forecast key ignores the key')


@sub('C17', 'noise', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), pts=points(2, 4), seed2=gen.seeds())), quick=320, thorough=12000,
     rule='u and v are the documented blend of five scaled simplex harmonics '
     'each, whose generators are recorded while they are queried; non-trivial: '
     'the generators were observed')
def noise_(case, ctx):
  model = wind_field.SimplexWindNoise()
  model.reset_wind_noise(jax.random.PRNGKey(case['seed']), ble.utc(0))
  logs, values = [], []
  for p in case['pts']:
    Recorder.log = []
    try:
      values.append(at(model.get_wind_noise, p))
    finally:
      logs.append(Recorder.log)
      Recorder.log = None
  # Right after a query nearby, and right after a reset.
  near = list(case['pts'][-1])
  got = []
  for k, d in enumerate((0.4, 0.4, 0.4, 0.4)):
    q = list(near)
    q[k] += d
    at(model.get_wind_noise, near)
    got.append((q, at(model.get_wind_noise, q)))
  x, y, t = D(near[0]), D(near[1]), dt.timedelta(seconds=near[3])
  model.get_wind_noise(x, y, near[2], t)
  model.reset_wind_noise(jax.random.PRNGKey(case['seed2']), ble.utc(0))
  w = model.get_wind_noise(x, y, near[2], t)
  fresh = wind_field.SimplexWindNoise()
  fresh.reset_wind_noise(jax.random.PRNGKey(case['seed2']), ble.utc(0))
  require((float(w.u.mps), float(w.v.mps)) == at(fresh.get_wind_noise, near),
          'noise after a reset')
  fresh.reset_wind_noise(jax.random.PRNGKey(case['seed']), ble.utc(0))
  for q, v in got[::-1]:
    require(at(fresh.get_wind_noise, q) == v, 'noise after a query nearby',
            at=q)
  if any(len(l) != 10 for l in logs):
    ctx.label('generators not observed')
    return
  ctx.nontrivial()
  require(len({g for g, _, _ in logs[0]}) == 10,
          'harmonics share a noise generator')
  table = U + V
  offs = {}
  for p, log, val in zip(case['pts'], logs, values):
    q = (p[0] / 1000.0, p[1] / 1000.0, p[2], p[3] / 3600.0)
    for g, args, n in log:
      offs.setdefault(g, []).append((args, q, n))
  rows = {}
  for g, obs in offs.items():
    fits = []
    for i, h in enumerate(table):
      os_ = [[a[k] - q[k] / h[k + 1] for k in range(4)] for a, q, _ in obs]
      if all(abs(o[k] - os_[0][k]) < 1e-6 * (1 + abs(obs[0][0][k]))
             for o in os_ for k in range(4)) and all(
                 abs(v) <= 1.0 + 1e-6 for v in os_[0]):
        fits.append(i)
    rows[g] = fits
    require(fits, 'a harmonic does not have the documented spacings',
            observed=[(a, q) for a, q, _ in obs])
  if any(len(f) != 1 for f in rows.values()):
    ctx.label('ambiguous harmonics')
    return
  require(sorted(f[0] for f in rows.values()) == list(range(10)),
          'a documented harmonic is missing', rows=list(rows.values()))
  offsets = [tuple(round(x, 6) for x in (
      obs[0][0][k] - obs[0][1][k] / table[rows[g][0]][k + 1] for k in range(4)))
             for g, obs in offs.items()]
  require(len(set(offsets)) == 10, 'harmonics share their offset')
  for log, val in zip(logs, values):
    for which, lo in ((0, 0), (1, 5)):
      ns = {rows[g][0]: n for g, _, n in log}
      ws = [table[i][0] for i in range(lo, lo + 5)]
      blend = sum(table[i][0] * ns[i] for i in range(lo, lo + 5)) * MAGNITUDE
      tot, sq = sum(ws), sum(w * w for w in ws)
      require_close(val[which], blend / tot * math.sqrt(tot / sq),
                    'blend of the harmonics', rel=1e-9, abs_=1e-9)


@sub('C17', 'continuity', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), p=points(1, 1), d=gen.uf(-1, 1), axis=st.integers(0, 3))),
     quick=160, thorough=4000,
     rule='nearby points (100 m, 1 Pa, 1 min) have similar noise, distant ones '
     'do not; non-trivial: always')
def continuity(case, ctx):
  model = wind_field.SimplexWindNoise()
  model.reset_wind_noise(jax.random.PRNGKey(case['seed']), ble.utc(0))
  p = list(case['p'][0])
  a = at(model.get_wind_noise, p)
  step = [100.0, 100.0, 1.0, 60.0][case['axis']]
  q = list(p)
  q[case['axis']] += step * case['d']
  b = at(model.get_wind_noise, q)
  require(abs(a[0] - b[0]) < 0.6 and abs(a[1] - b[1]) < 0.6,
          'noise jumps', a=a, b=b, p=p, q=q)
  ctx.nontrivial()


@sub('C17', 'variance', lambda: st.fixed_dictionaries(dict(seed=gen.seeds())),
     quick=16, thorough=400,
     rule='600 points spread over one noise field: neither constant nor larger '
     'than documented, u and v uncorrelated over fields; non-trivial: always')
def variance(case, ctx):
  model = wind_field.SimplexWindNoise()
  model.reset_wind_noise(jax.random.PRNGKey(case['seed']), ble.utc(0))
  rng = np.random.default_rng(case['seed'])
  xs = np.array([at(model.get_wind_noise, [
      rng.uniform(-5e7, 5e7), rng.uniform(-5e7, 5e7), rng.uniform(5e3, 14e3),
      rng.uniform(0, 3e7)]) for _ in range(600)])
  for k in range(2):
    var = xs[:, k].var()
    require(0.5 < var < 1.9, 'variance of the noise', got=var, component=k)
  corr = np.corrcoef(xs[:, 0], xs[:, 1])[0, 1]
  require(abs(corr) < 0.4, 'u and v are correlated', corr=corr)
  ctx.nontrivial()


@sub('C17', 'rejects', lambda: st.fixed_dictionaries(dict(
    which=st.text(max_size=3).filter(lambda s: s not in ('u', 'v')),
    p=points(1, 1))), quick=100, thorough=1000,
     rule='unknown components and queries before a reset are rejected; '
     'non-trivial: always')
def rejects(case, ctx):
  require_raises(RuntimeError, lambda: simplex_wind_noise.NoisyWindComponent(
      which=case['which']), 'unknown component', which=case['which'])
  p = case['p'][0]
  require_raises(ValueError, lambda: at(
      wind_field.SimplexWindNoise().get_wind_noise, p), 'noise before reset')
  require_raises(NotImplementedError, lambda: wind_field.WindVector(
      units.Velocity(mps=1), units.Velocity(mps=1)).add((1.0, 2.0)),
                 'adding something that is no wind')
  ctx.nontrivial()
