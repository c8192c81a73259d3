"""C20: the feature vector describes balloon, station and winds as documented."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import envs
from vlib import gen
from vlib import percia
from vlib.core import require, require_close, sub

from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.utils import units
import s2sphere as s2


class Forecast(wind_field.WindField):

  def __init__(self, kind):
    super().__init__()
    self.kind = kind

  def reset_forecast(self, key, date_time):
    pass

  def value(self, x, y, p, t):
    if self.kind == 'calm':
      return (0.0, 0.0)
    if self.kind == 'to station':
      return (-x * 1e-4, -y * 1e-4)
    return (10 * np.sin(p / 700.0) + x * 1e-5, 10 * np.cos(p / 900.0) + t * 1e-4)

  def get_forecast(self, x, y, pressure, elapsed_time):
    u, v = self.value(x.meters, y.meters, float(pressure),
                      elapsed_time.total_seconds())
    return wind_field.WindVector(units.Velocity(mps=float(u)),
                                 units.Velocity(mps=float(v)))


def observation():
  return st.fixed_dictionaries(dict(
      dx=gen.uf(-2e4, 2e4), dy=gen.uf(-2e4, 2e4), p=st.one_of(
          gen.uf(6000, 13000), gen.uf(6000, 13000), gen.uf(4000, 15000),
          # Also just beside the middle between two levels.
          st.tuples(gen.ui(20, 140), st.sampled_from(
              [-1e-3, 1e-3, -2e-5, 2e-5, 0.1])).map(
                  lambda t: 5025.0 + 50.0 * t[0] + t[1]),
          st.sampled_from([5000.0, 14000.0, 7000.0])),
      dt=st.one_of(gen.ui(0, 7200), st.sampled_from([0, 60])),
      u=gen.uf(-20, 20), v=gen.uf(-20, 20), look=st.booleans(),
      swap=st.one_of(st.none(), st.fixed_dictionaries(dict(
          gas=gen.uf(6600, 6950), ir=gen.uf(225, 315), lat=gen.uf(-10, 10),
          lng=gen.uf(-180, 180))))))


def cases():
  return st.fixed_dictionaries(dict(
      b=ble.balloon_cases(), gas=gen.uf(6600, 6950), nominal=st.booleans(),
      kind=st.sampled_from(['shear', 'shear', 'calm', 'to station']),
      cmd=st.integers(0, 2), obs=st.lists(observation(), max_size=4),
      last=observation(), exact=st.booleans(), sp=st.one_of(
          st.none(), gen.uf(-300, 3500)),
      soc=st.one_of(st.none(), st.sampled_from([0.995, 1.0, 0.989, 0.45])),
      pause=st.sampled_from([None, None, 'envelope', 'altitude', 'power']),
      at_station=st.sampled_from([0] * 8 + [1, 2, 2]),
      bearing=gen.uf(-np.pi, np.pi), close=gen.uf(-4, 3.5)))


def pause(s, kind):
  """Pauses navigation through a safety layer's public interface."""
  cmd = ble.CMD[0]
  if kind == 'envelope':
    s.envelope_safety_layer.get_action(cmd, s.envelope_max_superpressure)
  elif kind == 'altitude':
    s.altitude_safety_layer.get_action(cmd, ble.atmosphere(0), 13500.0)
  elif kind == 'power':
    s.power_safety_layer.get_action(
        cmd, s.date_time, s.nighttime_power_load, units.Energy(watt_hours=1.0),
        s.battery_capacity)


@sub('C20', 'vector', cases, quick=1600, thorough=60000,
     rule='sequences of observations of generated balloon states and winds '
     'against a reference feature vector (layout, ambient features, centred '
     'wind column, unreachable levels); non-trivial: a level is reachable and '
     'there were at least two observations')
def vector(case, ctx):
  extra = {} if case['nominal'] else dict(mols_lift_gas=case['gas'])
  s = ble.build_state(case['b'], **extra)
  if case['soc'] is not None:
    s.battery_charge = s.battery_capacity * case['soc']
  atm = ble.atmosphere(case['b']['atm'])
  fc = Forecast(case['kind'])
  fcon = features.PerciatelliFeatureConstructor(fc, atm)
  locs, errs = [], []
  steps = case['obs'] + [case['last']]
  for i, o in enumerate(steps):
    last = i == len(steps) - 1
    s.x = s.x + units.Distance(m=o['dx'])
    s.y = s.y + units.Distance(m=o['dy'])
    if last and case['at_station']:
      s.x = s.y = units.Distance(m=0.0)
      if case['at_station'] == 2:       # 0.1 mm to 3 km beside it.
        far = 10.0 ** case['close']
        s.x = units.Distance(m=far * np.cos(case['bearing']))
        s.y = units.Distance(m=far * np.sin(case['bearing']))
      ctx.label('at or near the station')
    s.pressure = o['p']
    if o['swap'] and not case['nominal']:
      # Nothing but the wind is remembered from one observation to the next,
      # be it of another vehicle elsewhere.
      w = o['swap']
      s.mols_lift_gas, s.upwelling_infrared = w['gas'], w['ir']
      s.center_latlng = s2.LatLng.from_degrees(w['lat'], w['lng'])
    d = dt.timedelta(seconds=o['dt'])
    s.date_time += d
    s.time_elapsed += d
    s.last_command = ble.CMD[case['cmd']]
    if last:
      if case['sp'] is not None:
        s.superpressure = case['sp']
      if case['pause']:
        pause(s, case['pause'])
        ctx.label('paused', s.navigation_is_paused)
    x, y, t = s.x.meters, s.y.meters, s.time_elapsed.total_seconds()
    w = (fc.value(x, y, s.pressure, t) if case['exact'] else (o['u'], o['v']))
    fcon.observe(simulator_data.SimulatorObservation(
        balloon_observation=s, wind_at_balloon=wind_field.WindVector(
            units.Velocity(mps=float(w[0])), units.Velocity(mps=float(w[1])))))
    locs.append([x, y, s.pressure, t])
    errs.append(np.array(w) - np.array(fc.value(x, y, s.pressure, t)))
    if o['look'] and not last:
      try:
        percia.check(fcon.get_features(), s, atm, locs, errs, fc.value, ctx)
      except ValueError:
        ctx.label('no reachable pressure on the way')
  before = ble.state_dict(s)
  try:
    pressure_range_builder.get_pressure_range(s, atm)
  except ValueError:
    ctx.label('no reachable pressure')
    return
  obs = fcon.get_features()
  require(ble.state_dict(s) == before, 'computing features changed the balloon')
  require((fcon.get_features() == obs).all(), 'features are not repeatable')
  n = percia.check(obs, s, atm, locs, errs, fc.value, ctx)
  space = fcon.observation_space
  require(space.shape == obs.shape, 'observation space')
  require(space.contains(obs) or (obs > 1).any() or (obs < 0).any(),
          'observation outside its space')
  inside = np.where((obs >= space.low - 1e-6) & (obs <= space.high + 1e-6))[0]
  require(len(inside) == 1099, 'observation outside its space',
          where=sorted(set(range(1099)) - set(inside.tolist()))[:5])
  ctx.nontrivial(bool(n) and len(steps) > 1)
  ctx.label('excess energy', obs[13] == 1)
  ctx.label('day', obs[3] > 0)


@sub('C20', 'voyage', lambda: st.fixed_dictionaries(dict(
    kind=envs.winds(), seed=gen.seeds(), legs=st.lists(st.tuples(
        st.integers(0, 3), st.integers(15, 90)).map(list), min_size=3,
                                                       max_size=6),
    limit=gen.ui(100, 280))), quick=16, thorough=600, case_timeout=600,
     rule='observations along flights of up to 280 steps in the environment, '
     'checked now and then, against the reference feature vector; '
     'non-trivial: over 120 steps, that is with observations that are too old')
def flight(case, ctx):
  env = envs.make(case['kind'], case['seed'])
  obs = env.reset()
  sim = env.get_simulator_state()
  f = sim.wind_field
  locs, errs, n = [], [], 0

  def value(x, y, p, t):
    return envs.wind_of(f.get_forecast(
        units.Distance(m=float(x)), units.Distance(m=float(y)), float(p),
        dt.timedelta(seconds=float(t))))

  def note():
    s = sim.balloon_state
    at = (s.x.meters, s.y.meters, s.pressure, s.time_elapsed.total_seconds())
    w = envs.wind_of(f.get_ground_truth(s.x, s.y, s.pressure, s.time_elapsed))
    locs.append(list(at))
    errs.append(np.array(w) - np.array(value(*at)))

  note()
  acts = [a if a < 3 else k % 3 for a, m in case['legs'] for k in range(m)]
  for a in acts[:case['limit']]:
    obs, _, done, _ = env.step(a)
    n += 1
    note()
    if done:
      break
    if n % 37 == 0 or n == case['limit'] or n == len(acts):
      percia.check(obs, sim.balloon_state, sim.atmosphere, locs, errs, value,
                   ctx)
      require(env.observation_space.shape == obs.shape, 'observation space')
  ctx.nontrivial(n > 120)


@sub('C20', 'cycle', lambda: st.fixed_dictionaries(dict(
    b=ble.balloon_cases(), k=gen.ui(0, 86400))), quick=800, thorough=30000,
     rule='the solar cycle feature runs through [0, pi] while the sun is up and '
     'through [pi, 2 pi] while it is down, forwards; non-trivial: always')
def cycle(case, ctx):
  s = ble.build_state(case['b'])
  a = features.compute_sunrise_time(s)
  el = features.compute_solar_angle(s)
  require(0 <= a <= 2 * np.pi + 1e-6, 'phase out of range', got=a)
  if el > -4.2 + 1.5:
    require(a <= np.pi + 1e-6 or abs(a - 2 * np.pi) < 0.05, 'night by day',
            phase=a, el=el)
    ctx.label('day')
  elif el < -4.3 - 1.5:
    require(a >= np.pi - 1e-6, 'day by night', phase=a, el=el)
    ctx.label('night')
  s.date_time += dt.timedelta(seconds=600)
  b = features.compute_sunrise_time(s)
  require((b - a) % (2 * np.pi) < 0.3, 'phase does not run forwards', a=a, b=b)
  ctx.nontrivial()


@sub('C20', 'pressure', lambda: st.fixed_dictionaries(dict(
    p=st.one_of(gen.uf(1000, 20000), st.sampled_from([5000.0, 14000.0])))),
     quick=800, thorough=20000,
     rule='which pressures the vector represents; non-trivial: always')
def pressure(case, ctx):
  fcon = features.PerciatelliFeatureConstructor(Forecast('calm'),
                                                ble.atmosphere(0))
  p = case['p']
  require(bool(fcon.is_valid_pressure(p)) == (5000.0 <= p <= 14000.0),
          'represented pressures', p=p)
  ctx.nontrivial()
