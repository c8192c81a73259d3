"""C03: the station-keeping reward function."""

import math

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, sub

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from ref import physics


def ref_reward(dist_km, radius, drop, half, command, excess, acs_w):
  r = 1.0 if dist_km <= radius else drop * 2.0**(-(dist_km - radius) / half)
  if command == 0 and not excess:
    frac = min(max((acs_w - 100.0) / 200.0, 0.0), 1.0)
    r *= 0.95 - 0.3 * frac
  return r


def _strategy():
  return st.fixed_dictionaries(dict(
      polar=st.tuples(
          st.one_of(gen.uf(0, 120), gen.uf(0, 1500), gen.near([50.0], 1.0)),
          gen.uf(0, 2 * math.pi)).map(list),
      shift=st.integers(-2, 2),
      custom=st.booleans(),
      radius=gen.uf(1, 300), drop=gen.uf(0.0, 1.0), half=gen.uf(5, 400),
      command=st.integers(0, 2),
      acs=st.one_of(gen.uf(0, 450), gen.near([100, 300], 3)),
      soc=st.one_of(gen.uf(0, 1), gen.near([0.99], 0.005), st.just(1.0)),
      pressure=st.one_of(gen.uf(5200, 13000), gen.uf(2000, 40000)),
      # The load may also be just about what the panels deliver.
      edge=st.one_of(st.none(), gen.uf(-0.03, 0.03)), center=gen.latlngs(40),
      ts=gen.timestamps(), day=st.one_of(gen.uf(80, 180), gen.uf(1000, 2000)),
      excess_bias=st.booleans()))


def delivered(case, x, y):
  lat, lng = physics.offset_latlng(case['center'][0], case['center'][1], x, y)
  sun = ble.sun_at(lat, lng, case['ts'])
  return sun, physics.solar_power(sun['el'], case['pressure'])


def _state(case, radius):
  d = abs(case['polar'][0])
  if case['custom']:
    d = abs(d - 50.0 + radius)
  d = abs(d + case['shift'] * 1e-6)
  x, y = d * math.cos(case['polar'][1]), d * math.sin(case['polar'][1])
  day = case['day']
  if case['edge'] is not None:
    day = max(delivered(case, 1000 * x, 1000 * y)[1], 20.0) * (
        1 + case['edge'])
  s = balloon.BalloonState(
      center_latlng=ble.ll(case['center']), date_time=ble.utc(case['ts']),
      x=units.Distance(km=x), y=units.Distance(km=y),
      pressure=case['pressure'],
      daytime_power_load=units.Power(watts=day))
  s.battery_charge = s.battery_capacity * (
      1.0 if case['excess_bias'] else case['soc'])
  s.acs_power = units.Power(watts=case['acs'])
  s.last_command = ble.CMD[case['command']]
  return s


@sub('C03', 'formula', _strategy, quick=6000, thorough=200000,
     rule='a balloon state (distance incl. the radius boundary, command, ACS '
     'power, charge, time of day) against the published formula; non-trivial: '
     'outside the radius or a descent is penalised')
def formula(case, ctx):
  radius = case['radius'] if case['custom'] else 50.0
  drop = case['drop'] if case['custom'] else 0.4
  half = case['half'] if case['custom'] else 100.0
  s = _state(case, radius)
  atm = ble.atmosphere(0)
  sim = simulator_data.SimulatorState(s, None, atm)
  kw = dict(station_keeping_radius_km=radius, reward_dropoff=drop,
            reward_halflife=half) if case['custom'] else {}
  got = balloon_env.perciatelli_reward_function(sim, **kw)

  dist = math.hypot(s.x.km, s.y.km)
  sun, power = delivered(case, s.x.m, s.y.m)
  day = s.daytime_power_load.watts
  soc = s.battery_charge.watt_hours / s.battery_capacity.watt_hours
  # Cases within rounding of a documented threshold may go either way.
  lims = [physics.shadow_limit(3.3), physics.shadow_limit(2.7), physics.MIN_EL]
  if (abs(power - day) < 1e-4 or abs(soc - 0.99) < 1e-12 or
      any(abs(sun['el'] - l) < 1e-6 for l in lims)):
    ctx.label('skipped: at a threshold')
    return
  excess = power > day and soc > 0.99
  if abs(dist - radius) < 1e-9:
    ok = [ref_reward(d, radius, drop, half, case['command'], excess,
                     case['acs']) for d in (radius, radius + 1e-12)]
    require(any(abs(got - o) < 1e-8 for o in ok), 'reward at the boundary',
            got=got, want=ok)
    ctx.label('exactly at the radius')
    return
  want = ref_reward(dist, radius, drop, half, case['command'], excess,
                    case['acs'])
  require_close(got, want, 'reward', rel=1e-7, abs_=1e-12, dist_km=dist,
                excess=excess, command=case['command'], acs=case['acs'])
  require(0.0 <= got <= 1.0, 'reward outside [0, 1]', got=got)
  require(bool(s.excess_energy) == excess, 'excess_energy', power=power,
          soc=soc)
  ctx.label('inside' if dist <= radius else 'outside')
  ctx.label('down', case['command'] == 0)
  ctx.label('excess energy', excess)
  ctx.label('down with excess energy', excess and case['command'] == 0)
  ctx.label('penalised', case['command'] == 0 and not excess)
  ctx.nontrivial(dist > radius or case['command'] == 0)


def _mono():
  return st.fixed_dictionaries(dict(
      base=_strategy(), d1=gen.uf(0, 600), d2=gen.uf(0, 600),
      turn=gen.uf(0, 6.3)))


@sub('C03', 'monotone', _mono, quick=2000, thorough=50000,
     rule='two states that differ only in distance and bearing: the reward '
     'never grows with distance; non-trivial: both outside the radius')
def monotone(case, ctx):
  lo, hi = sorted([case['d1'], case['d2']])
  out = []
  for d, turn in ((lo, 0.0), (hi, case['turn'])):
    c = dict(case['base'], custom=False, shift=0)
    # The excess-energy state depends on position, so keep it out of reach.
    c.update(day=5000.0, edge=None, polar=[d, c['polar'][1] + turn])
    s = _state(c, 50.0)
    out.append(balloon_env.perciatelli_reward_function(
        simulator_data.SimulatorState(s, None, ble.atmosphere(0))))
  require(out[0] >= out[1] - 1e-12, 'reward grew with distance', lo=lo, hi=hi,
          rewards=out)
  if hi > lo + 1e-6 and lo > 50.0 + 1e-6:
    require(out[0] > out[1], 'reward does not decay', lo=lo, hi=hi, out=out)
    ctx.nontrivial()
