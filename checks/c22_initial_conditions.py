"""C22: where, when and how flights start."""

import datetime as dt
import math

import jax
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from vlib import ble
from vlib import blank
from vlib import envs
from vlib import fields
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.utils import sampling
from ref import physics

LO, HI = dt.datetime(2011, 1, 1, tzinfo=ble.UTC), dt.datetime(
    2014, 12, 31, tzinfo=ble.UTC)


def arena(wf=None, seed=0):
  return balloon_arena.BalloonArena(blank.Blank, wf or envs.WINDS['static'](), seed)


@sub('C22', 'starts', lambda: st.fixed_dictionaries(dict(
    seeds=st.lists(gen.seeds(), min_size=1, max_size=3), wind=envs.winds())),
     quick=480, thorough=30000,
     rule='arena resets: place, time, pressure and infrared in their documented '
     'ranges, equilibrium, healthy flight system, one observation of a fresh '
     'feature constructor; non-trivial: always')
def starts(case, ctx):
  wf = envs.WINDS[case['wind']]()
  a = arena(wf, 3)
  for seed in case['seeds']:
    blank.Blank.made.clear()
    sampler = getattr(wf, 'verif_sampler', None)
    n = len(sampler.calls) if sampler else None
    obs = a.reset(seed)
    st_ = a.get_simulator_state()
    s = st_.balloon_state
    d = ble.state_dict(s)
    require(math.hypot(d['x'], d['y']) <= 200e3 + 1e-6, 'start beyond 200 km',
            x=d['x'], y=d['y'])
    require(-10 <= d['center_lat'] <= 10 and -175 <= d['center_lng'] <= 175,
            'station out of range', lat=d['center_lat'], lng=d['center_lng'])
    require(LO <= s.date_time < HI, 'start time', got=s.date_time)
    require(s.date_time.utcoffset() == dt.timedelta(0), 'start time is UTC')
    ref = ble.ref_atmosphere(st_.atmosphere)
    floor = ref.at_height(50000 * physics.FOOT)['pressure']
    # The sampler's bounds are rounded to single precision.
    require(6500 - 0.01 <= d['pressure'] <= floor + 0.01, 'start pressure',
            got=d['pressure'], floor=floor)
    require(225.0 <= d['upwelling_infrared'] <= 315.0 + 1e-3,
            'upwelling infrared', got=d['upwelling_infrared'])
    require(d['status'] == 'OK' and d['elapsed'] == 0 and
            d['last_command'] == 1 and d['power_safety_layer_enabled'],
            'a fresh flight')
    require_close(d['charge_wh'] / d['capacity_wh'], 0.95, 'initial charge',
                  abs_=1e-3)
    require(not s.navigation_is_paused, 'navigation is paused at the start')
    # In equilibrium.
    p = stable_init.calculate_stable_params_for_pressure(
        s.pressure, s.envelope_volume_base, s.envelope_volume_dv_pressure,
        s.envelope_mass, s.payload_mass, s.mols_lift_gas, s.latlng,
        s.date_time, s.upwelling_infrared, st_.atmosphere)
    for k in ('ambient_temperature', 'internal_temperature', 'mols_air',
              'envelope_volume', 'superpressure'):
      require_close(d[k], getattr(p, k), f'{k} at the start', rel=1e-9,
                    abs_=1e-7)
    require(len(blank.Blank.made) == 1, 'one feature constructor per flight',
            n=len(blank.Blank.made))
    f = blank.Blank.made[0]
    require(f is a.feature_constructor and f.given[0] is st_.wind_field and
            f.given[1] is st_.atmosphere, 'feature constructor wiring')
    require(len(f.seen) == 1 and f.seen[0][0] == d, 'first observation',
            n=len(f.seen))
    w = envs.wind_of(st_.wind_field.get_ground_truth(
        s.x, s.y, s.pressure, s.time_elapsed))
    require(f.seen[0][1] == w, 'observed wind is the truth', got=f.seen[0][1],
            want=w)
    require(obs[0] == 1, 'first features')
    if n is not None:
      calls = sampler.calls
      require(len(calls) == n + 1 and calls[-1][1] == s.date_time,
              'the wind field starts with the flight')
    a.step(ble.CMD[1])
    require(len(f.seen) == 2 and f.seen[1][0] == ble.state_dict(
        a.get_balloon_state()), 'observation after a step')
  ctx.nontrivial()


def tails(u, msg, shares):
  """Both ends of what should be uniform in [0, 1] are as full as they should.
  """
  u = np.asarray(u)
  for q in shares:
    for name, n in (('lowest', int(np.sum(u < q))),
                    ('highest', int(np.sum(u > 1 - q)))):
      p = stats.binomtest(n, len(u), q).pvalue
      require(p > 1e-9, f'{msg}: {name} part of its range', share=q, got=n,
              want=q * len(u))


def ks(sample, cdf, msg):
  p = stats.kstest(sample, cdf).pvalue
  require(p > 1e-7, f'{msg}: not the documented distribution', p=p,
          mean=float(np.mean(sample)))


@sub('C22', 'distribution', lambda: st.fixed_dictionaries(dict(
    base=gen.ui(0, 2**31 - 2000))), quick=8, thorough=80, blocks=8,
     rule='1,000 starts each: distance Beta(1.2, 2) of 200 km, direction, '
     'latitude, longitude, time and pressure uniform, all independent '
     '(Kolmogorov-Smirnov, p > 1e-7, and both ends of the ranges); '
     'non-trivial: always')
def distribution(case, ctx):
  a = arena()
  rows = []
  for i in range(1000):
    a.reset(case['base'] + i)
    st_ = a.get_simulator_state()
    s = st_.balloon_state
    hi = float(st_.atmosphere.at_height(
        ble.units.Distance(m=50000 * physics.FOOT)).pressure)
    rows.append((math.hypot(s.x.km, s.y.km) / 200.0,
                 (math.atan2(s.y.m, s.x.m) / (2 * math.pi)) % 1.0,
                 (s.center_latlng.lat().degrees + 10) / 20,
                 (s.center_latlng.lng().degrees + 175) / 350,
                 (s.date_time - LO) / (HI - LO),
                 (s.pressure - 6500) / (hi - 6500)))
  x = np.array(rows)
  ks(x[:, 0], stats.beta(1.2, 2.0).cdf, 'distance')
  for k, name in enumerate(('direction', 'latitude', 'longitude', 'time',
                            'pressure'), 1):
    ks(x[:, k], 'uniform', name)
    tails(x[:, k], name, (0.025, 0.05, 0.1))
  tails(stats.beta(1.2, 2.0).cdf(x[:, 0]), 'distance', (0.025, 0.05, 0.1))
  c = np.corrcoef(x.T) - np.eye(6)
  require(np.abs(c).max() < 0.22, 'start conditions are correlated',
          corr=np.round(c, 2).tolist())
  ctx.nontrivial()


@sub('C22', 'samplers', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), seed2=gen.seeds(), begin=gen.timestamps(),
    span=gen.ui(1, 10**8), atm=gen.seeds(),
    kind=st.sampled_from(['logit_normal', 'inverse_lognormal']),
    bad=st.text(min_size=1, max_size=12))), quick=480, thorough=20000,
     rule='samplers of place, time, pressure and infrared: in range, '
     'reproducible, dependent on the key; non-trivial: two different keys')
def samplers(case, ctx):
  k, k2 = jax.random.PRNGKey(case['seed']), jax.random.PRNGKey(case['seed2'])
  atm = ble.atmosphere(case['atm'])
  b, e = ble.utc(case['begin']), ble.utc(case['begin'] + case['span'])
  fns = dict(
      location=lambda k: (lambda l: (l.lat().degrees, l.lng().degrees))(
          sampling.sample_location(k)),
      time=lambda k: sampling.sample_time(k, b, e),
      default_time=sampling.sample_time,
      pressure=lambda k: sampling.sample_pressure(k, atm),
      plain_pressure=sampling.sample_pressure,
      infrared=lambda k: sampling.sample_upwelling_infrared(k, case['kind']))
  got = {n: f(k) for n, f in fns.items()}
  for n, f in fns.items():
    require(f(k) == got[n], f'{n} is not reproducible')
    if case['seed'] != case['seed2'] and (n != 'time' or case['span'] > 10**7):
      # Times are whole seconds, and most logit-normal samples saturate.
      require(f(k2) != got[n] or n in ('default_time', 'time') or (
          n == 'infrared' and case['kind'] == 'logit_normal'),
              f'{n} does not depend on the key')
  lat, lng = got['location']
  require(-10 <= lat <= 10 and -175 <= lng <= 175, 'location', got=(lat, lng))
  require(abs((lat + 10) / 20 - (lng + 175) / 350) > 1e-7,
          'latitude and longitude share their key')
  require(b <= got['time'] < e, 'time in its range', got=got['time'])
  require(LO <= got['default_time'] < HI, 'default time', got=got)
  hi = float(atm.at_height(ble.units.Distance(m=50000 * physics.FOOT)).pressure)
  require(6500 - .01 <= got['pressure'] <= hi + .01, 'pressure', got=got)
  require(6500 <= got['plain_pressure'] <= 11400, 'pressure', got=got)
  top = 315.0 if case['kind'] == 'logit_normal' else 300.9568
  require(225.0 <= got['infrared'] <= top + 1e-2, 'infrared', got=got)
  for n in ('pressure', 'plain_pressure', 'infrared'):
    require(type(got[n]) is float, f'{n} is a float', got=type(got[n]))
  if case['bad'] not in ('logit_normal', 'inverse_lognormal'):
    require_raises(ValueError, lambda: sampling.sample_upwelling_infrared(
        k, case['bad']), 'unknown distribution')
  ctx.nontrivial(case['seed'] != case['seed2'])


@sub('C22', 'ends', cases=lambda: [dict(base=10**6 * k) for k in range(4)],
     rule='4,000 draws of each sampler of place, time and pressure are uniform '
     '(Kolmogorov-Smirnov, p > 1e-7) up to both ends of their ranges; '
     'non-trivial: always')
def ends(case, ctx):
  keys = jax.random.split(jax.random.PRNGKey(case['base'] + 5), 4000)
  atm = ble.atmosphere(case['base'] // 10**6)
  hi = float(atm.at_height(ble.units.Distance(m=50000 * physics.FOOT)).pressure)
  which = case['base'] // 10**6
  if which == 0:
    u = {'pressure': [(sampling.sample_pressure(k, atm) - 6500) / (hi - 6500)
                      for k in keys]}
  elif which == 1:
    u = {'plain pressure': [(sampling.sample_pressure(k) - 6500) / 4900
                            for k in keys]}
  elif which == 2:
    places = [sampling.sample_location(k) for k in keys]
    u = {'latitude': [(p.lat().degrees + 10) / 20 for p in places],
         'longitude': [(p.lng().degrees + 175) / 350 for p in places]}
  else:
    u = {'time': [(sampling.sample_time(k) - LO) / (HI - LO) for k in keys]}
  for name, x in u.items():
    ks(x, 'uniform', name)
    tails(x, name, (0.01, 0.02, 0.05))
  ctx.nontrivial()


@sub('C22', 'infrared', lambda: st.fixed_dictionaries(dict(
    base=gen.ui(0, 2**31 - 2000))), quick=6, thorough=60, blocks=6,
     rule='400 draws of the upwelling infrared of each distribution: the inverse '
     'log-normal one (Kolmogorov-Smirnov, p > 1e-7), and the default one not '
     'saturated; non-trivial: always')
def infrared(case, ctx):
  keys = [jax.random.PRNGKey(case['base'] + i) for i in range(400)]
  # 300.9568 - 35 X^0.68 for log-normal X, given that it is at least 225.
  v = np.array([sampling.sample_upwelling_infrared(k, 'inverse_lognormal')
                for k in keys])
  z = np.log((300.9568 - v) / 35) / 0.68
  top = math.log((300.9568 - 225) / 35) / 0.68
  ks(z, lambda x: stats.norm.cdf(x) / stats.norm.cdf(top),
     'inverse log-normal infrared')
  v = [sampling.sample_upwelling_infrared(k) for k in keys]
  at_top = sum(x > 314.99 for x in v)
  rest = [x for x in v if x <= 314.99]
  require(len(set(rest)) >= 0.9 * len(rest), 'infrared values repeat')
  if 0.91 * 400 <= at_top <= 0.995 * 400:
    ctx.known('C22-infrared-saturated', 'most default draws of the upwelling '
              'infrared are exactly 315 W/m^2')
  else:
    require(at_top <= 0.05 * 400, 'infrared saturates', at_top=at_top)
  ctx.nontrivial()
