"""C19: the wind estimate is the GP posterior of the recent observations."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st
from ref import windgp
from vlib import gen
from vlib.core import require, require_close, sub

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units


class Forecast(wind_field.WindField):

  def __init__(self, k):
    super().__init__()
    self.k = k

  def reset_forecast(self, key, date_time):
    pass

  def value(self, x, y, p, t):
    return np.array([x * 1e-5 * self.k + (p - 8000) * 1e-3,
                     -y * 2e-5 + t * 1e-4 * self.k])

  def get_forecast(self, x, y, pressure, elapsed_time):
    u, v = self.value(x.meters, y.meters, pressure,
                      elapsed_time.total_seconds())
    return wind_field.WindVector(units.Velocity(mps=float(u)),
                                 units.Velocity(mps=float(v)))


def D(m):
  return units.Distance(m=m)


def op():
  frac = st.sampled_from([0, 0, 0, 0.5, 0.875])
  obs = st.tuples(st.just('o'), gen.uf(-3e5, 3e5), gen.uf(-3e5, 3e5),
                  gen.uf(5000, 14000), st.one_of(
                      gen.ui(0, 8 * 3600), gen.ui(0, 7200), st.sampled_from([0, 180, 21600])),
                  gen.uf(-30, 30), gen.uf(-30, 30), frac).map(
                      lambda o: list(o[:4]) + [o[4] + o[7]] + list(o[5:7]))
  qry = st.tuples(st.just('q'), gen.uf(-3e5, 3e5), gen.uf(-3e5, 3e5),
                  st.lists(gen.uf(5000, 14000), min_size=1, max_size=4),
                  st.one_of(gen.ui(0, 15 * 3600), gen.ui(0, 4 * 3600),
                            st.sampled_from([21600, 21599, 21601, 0])),
                  st.booleans(), frac).map(
                      lambda o: list(o[:4]) + [o[4] + o[6], o[5]])
  return st.one_of(obs, obs, obs, obs, obs, obs, qry, qry,
                   st.sampled_from([['r', 2.0], ['r', None]]),
                   st.tuples(st.just('again'), gen.uf(0, 1), st.sampled_from(
                       [1, 2, 3, 5, 6])).map(list))


@sub('C19', 'histories', lambda: st.fixed_dictionaries(dict(
    k=st.sampled_from([0.0, 1.0]), ops=st.lists(op(), min_size=2, max_size=14),
    last=op().filter(lambda o: o[0] == 'q'))), quick=2400, thorough=100000,
     rule='histories of observations, resets and queries against an exact GP '
     'posterior of the deviations from the forecast over the last six hours; '
     'non-trivial: a query after at least two observations')
def histories(case, ctx):
  fc = Forecast(case['k'])
  gp = wind_gp.WindGP(fc)
  locs, errs, told = [], [], []
  ops = list(case['ops']) + [case['last']]
  while ops:
    o = ops.pop(0)
    if o[0] == 'again':  # The same once more, but for one observation.
      replay = [list(a) for a in told]
      if replay:
        replay[int(o[1] * (len(replay) - 1e-9))][o[2]] *= 0.9
      ops = [['r', None]] + replay + ops
      ctx.label('the same again, nearly')
    elif o[0] == 'o':
      _, x, y, p, t, u, v = o
      told.append(o)
      gp.observe(D(x), D(y), p, dt.timedelta(seconds=t), wind_field.WindVector(
          units.Velocity(mps=u), units.Velocity(mps=v)))
      locs.append([x, y, p, float(t)])
      errs.append(np.array([u, v]) - fc.value(x, y, p, t))
    elif o[0] == 'r':
      if o[1] is not None:     # Otherwise with the forecast it has.
        fc = Forecast(o[1])
      gp.reset(fc)
      locs, errs, told = [], [], []
      ctx.label('reset')
    else:
      _, x, y, ps, t, at_obs = o
      if at_obs and locs:
        x, y, p, t = locs[-1]
        ps = [p] + ps[1:]
      qs = [[x, y, p, float(t)] for p in ps]
      mean, var = windgp.predict(locs, errs, qs)
      # query_batch must not depend on what it was asked before.
      m, d = gp.query_batch(np.array(qs))
      require(m.shape == (len(ps), 2) and d.shape == (len(ps),), 'shapes')
      for i, p in enumerate(ps):
        want = mean[i] + fc.value(x, y, p, t)
        for c in range(2):
          require_close(m[i, c], want[c], 'mean wind', rel=1e-6, abs_=1e-5,
                        query=qs[i], n=len(locs))
        require_close(d[i], var[i], 'uncertainty', rel=1e-6, abs_=1e-6,
                      query=qs[i], n=len(locs))
        require(-1e-9 <= d[i] <= 1 + 1e-9, 'uncertainty outside [0, 1]')
      m1, d1 = gp.query(D(x), D(y), ps[0], dt.timedelta(seconds=t))
      require(np.allclose(m1, m[0], atol=1e-6) and abs(d1 - d[0]) < 1e-6,
              'a single query differs from the batch')
      ctx.nontrivial(len(locs) >= 2)
      ctx.label('stale observations', any(abs(l[3] - t) >= 21600 for l in locs))
      ctx.label('all stale', bool(locs) and all(
          abs(l[3] - t) >= 21600 for l in locs))


@sub('C19', 'learning', lambda: st.fixed_dictionaries(dict(
    x=gen.uf(-3e5, 3e5), y=gen.uf(-3e5, 3e5), p=gen.uf(5000, 14000),
    t=gen.ui(0, 40000), u=gen.uf(-30, 30), v=gen.uf(-30, 30),
    far=gen.uf(1, 30))), quick=800, thorough=20000,
     rule='after one observation the estimate there is nearly the measurement '
     'with little uncertainty, and far away it is the forecast with full '
     'uncertainty; further observations never increase it; non-trivial: always')
def learning(case, ctx):
  fc = Forecast(1.0)
  gp = wind_gp.WindGP(fc)
  x, y, p = case['x'], case['y'], case['p']
  t = dt.timedelta(seconds=case['t'])
  w = wind_field.WindVector(units.Velocity(mps=case['u']),
                            units.Velocity(mps=case['v']))
  prior, unc = gp.query(D(x), D(y), p, t)
  want = fc.value(x, y, p, case['t'])
  require(np.allclose(prior, want, atol=1e-9), 'prior is the forecast')
  require(abs(unc - 1) < 1e-9, 'certain without observations', got=unc)
  gp.observe(D(x), D(y), p, t, w)
  m, d = gp.query(D(x), D(y), p, t)
  alpha = 1 - windgp.NOISE2 / (windgp.NOISE2 + windgp.SIGMA2)
  for c, v in enumerate((case['u'], case['v'])):
    require_close(m[c], want[c] + alpha * (v - want[c]), 'mean at measurement',
                  rel=1e-7, abs_=1e-7)
  require_close(d, 1 - alpha, 'uncertainty at the measurement', rel=1e-5)
  q = p + 326.0 * case['far']
  m2, d2 = gp.query(D(x), D(y), q, t)
  require(d2 > d, 'uncertainty does not grow with distance')
  gp.observe(D(x), D(y), q, t, w)
  d3 = gp.query(D(x), D(y), p, t)[1]
  require(d3 <= d + 1e-9, 'an observation increased the uncertainty')
  ctx.nontrivial()


@sub('C19', 'long', lambda: st.fixed_dictionaries(dict(
    n=gen.ui(60, 600), every=st.sampled_from([180, 180, 60, 30, 600]),
    seed=gen.ui(0, 2**32 - 1), back=st.lists(gen.ui(0, 250), min_size=1,
                                             max_size=3))), quick=64,
     thorough=2000,
     rule='a long flight with regular observations, queried now and in its '
     'past, against the same posterior; non-trivial: more than six hours or '
     'more than 200 observations')
def long_flight(case, ctx):
  rng = np.random.default_rng(case['seed'])
  n, every = case['n'], case['every']
  fc = Forecast(1.0)
  gp = wind_gp.WindGP(fc)
  xy = np.cumsum(rng.normal(0, 1500, (n, 2)), axis=0)
  ps = 9000 + 3000 * np.sin(np.cumsum(rng.normal(0, 0.1, n)))
  uv = rng.normal(0, 6, (n, 2))
  locs, errs = [], []
  for i in range(n):
    x, y, p, t = float(xy[i, 0]), float(xy[i, 1]), float(ps[i]), i * every
    gp.observe(D(x), D(y), p, dt.timedelta(seconds=t), wind_field.WindVector(
        units.Velocity(mps=float(uv[i, 0])),
        units.Velocity(mps=float(uv[i, 1]))))
    locs.append([x, y, p, float(t)])
    errs.append(uv[i] - fc.value(x, y, p, t))
  for b in [0] + case['back']:
    x, y, p, t = locs[max(0, n - 1 - b)]
    qs = [[x, y, q, t] for q in (p, p + 200.0, 6000.0, 12000.0)]
    mean, var = windgp.predict(locs, errs, qs)
    m, d = gp.query_batch(np.array(qs))
    for i, q in enumerate(qs):
      want = mean[i] + fc.value(*q)
      for c in range(2):
        require_close(m[i, c], want[c], 'mean wind', rel=1e-6, abs_=1e-5,
                      query=q, n=n)
      require_close(d[i], var[i], 'uncertainty', rel=1e-6, abs_=1e-6, query=q,
                    n=n)
  ctx.nontrivial(n > 200 or n * every > 21600)
