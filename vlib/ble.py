"""Adapters between JSON cases and the public objects of the code under test."""

import datetime as dt
import math

from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
from vlib import gen
from hypothesis import strategies as st
import s2sphere as s2

UTC = dt.timezone.utc
CMD = {0: control.AltitudeControlCommand.DOWN,
       1: control.AltitudeControlCommand.STAY,
       2: control.AltitudeControlCommand.UP}


def utc(ts):
  """Aware UTC datetime of a unix time (exact to the microsecond)."""
  return dt.datetime(1970, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=ts)


def ts(d):
  return (d - dt.datetime(1970, 1, 1, tzinfo=UTC)) / dt.timedelta(seconds=1)


def ll(pair):
  return s2.LatLng.from_degrees(pair[0], pair[1])


_ATMOS = {}


def atmosphere(seed):
  """A (cached, never mutated) atmosphere for a seed."""
  import jax
  if seed not in _ATMOS:
    if len(_ATMOS) > 64:
      _ATMOS.clear()
    _ATMOS[seed] = standard_atmosphere.Atmosphere(jax.random.PRNGKey(seed))
  return _ATMOS[seed]


def ref_atmosphere(a):
  """The reference atmosphere with the same lapse-rate mix."""
  from ref import physics
  t17 = a.at_height(units.Distance(m=17000.0 - 1e-6)).temperature
  return physics.Atmosphere(physics.recover_alpha(t17))


# ----------------------------------------------------- generated balloon states


def balloon_cases(stable=True):
  """Cases describing a flight system; 'kind' says how it is initialised."""
  d = dict(
      atm=gen.seeds(),
      center=gen.latlngs(55.0),
      ts=gen.timestamps(),
      x=gen.uf(-400e3, 400e3), y=gen.uf(-400e3, 400e3),
      pressure=gen.uf(5200, 13000),
      ir=gen.uf(200, 330),
      soc=st.one_of(gen.uf(0, 1), st.sampled_from([1.0, 0.99, 0.025, 0.05]),
                    gen.uf(0, 0.03)),
      age=st.one_of(st.just(0), gen.ui(0, 1000).map(lambda k: 180 * k),
                    gen.uf(0, 1.5e6)),
      far=st.one_of(st.just(1.0), st.just(1.0), gen.uf(1, 8)),
      # Along the equator balloons may get farther.
      east=st.one_of(st.just(1.0), st.just(1.0), st.just(1.0),
                     gen.uf(1, 3)),
  )
  return st.fixed_dictionaries(d)


def perturbed_balloon_cases():
  """As balloon_cases, plus vehicle constants and off-equilibrium offsets."""
  d = dict(
      base=balloon_cases(),
      stable=st.booleans(),
      dT=gen.uf(-25, 25), dTamb=gen.uf(-3, 3),
      dair=gen.uf(-800, 800), gas=gen.uf(6000, 7200),
      v0=gen.uf(1600, 2000), dv=gen.uf(0.01, 0.04),
      emass=gen.uf(55, 80), pmass=gen.uf(80, 105),
      maxsp=gen.uf(1500, 3000), cod=gen.uf(0.15, 0.4),
      night=gen.uf(120, 250), day=gen.uf(80, 180),
      valve=gen.uf(0.02, 0.06), cap=gen.uf(1500, 4500),
      custom=st.booleans(),
      # What the step before left behind: command, compressor, sun, load.
      left=st.one_of(st.none(), st.tuples(
          st.integers(0, 2), gen.uf(0, 300), gen.uf(-0.05, 0.01),
          gen.uf(0, 700), gen.uf(100, 500)).map(list)),
  )
  return st.fixed_dictionaries(d)


def build_state(case, **extra):
  """BalloonState of a balloon_cases() case, in equilibrium."""
  from balloon_learning_environment.env.balloon import stable_init
  kw = dict(
      center_latlng=ll(case['center']), date_time=utc(case['ts']),
      x=units.Distance(m=case['x'] * case.get('far', 1.0) *
                       case.get('east', 1.0)),
      y=units.Distance(m=case['y'] * (      # Not into the polar regions.
          case.get('far', 1.0) if abs(case['center'][0]) < 25 else 1.0)),
      pressure=case['pressure'], upwelling_infrared=case['ir'],
      time_elapsed=dt.timedelta(seconds=case.get('age', 0)))
  kw.update(extra)
  s = balloon.BalloonState(**kw)
  s.battery_charge = s.battery_capacity * case['soc']
  stable_init.cold_start_to_stable_params(s, atmosphere(case['atm']))
  return s


def build_perturbed(case):
  extra = {}
  if case['custom']:
    extra = dict(
        envelope_volume_base=case['v0'],
        envelope_volume_dv_pressure=case['dv'], envelope_mass=case['emass'],
        envelope_max_superpressure=case['maxsp'], envelope_cod=case['cod'],
        payload_mass=case['pmass'],
        nighttime_power_load=units.Power(watts=case['night']),
        daytime_power_load=units.Power(watts=case['day']),
        acs_valve_hole_diameter=units.Distance(m=case['valve']),
        battery_capacity=units.Energy(watt_hours=case['cap']),
        mols_lift_gas=case['gas'])
  s = build_state(case['base'], **extra)
  if not case['stable']:
    s.internal_temperature = float(s.internal_temperature + case['dT'])
    s.ambient_temperature = float(s.ambient_temperature + case['dTamb'])
    s.mols_air = max(0.0, float(s.mols_air + case['dair']))
    s.envelope_volume, s.superpressure = (
        balloon.calculate_superpressure_and_volume(
            s.mols_lift_gas, s.mols_air, s.internal_temperature, s.pressure,
            s.envelope_volume_base, s.envelope_volume_dv_pressure))
  if case.get('left'):
    a, acs, flow, sun, load = case['left']
    s.last_command = CMD[a]
    s.acs_power, s.acs_mass_flow = units.Power(watts=acs), flow
    s.solar_charging = units.Power(watts=sun)
    s.power_load = units.Power(watts=load)
  return s


def state_dict(s):
  """Plain dict view of a BalloonState, in the reference model's units."""
  return dict(
      center_lat=s.center_latlng.lat().degrees,
      center_lng=s.center_latlng.lng().degrees,
      ts=ts(s.date_time), elapsed=s.time_elapsed.total_seconds(),
      envelope_volume_base=float(s.envelope_volume_base),
      envelope_volume_dv_pressure=float(s.envelope_volume_dv_pressure),
      envelope_mass=float(s.envelope_mass),
      envelope_max_superpressure=float(s.envelope_max_superpressure),
      envelope_cod=float(s.envelope_cod),
      payload_mass=float(s.payload_mass),
      night_w=float(s.nighttime_power_load.watts),
      day_w=float(s.daytime_power_load.watts),
      valve_m=float(s.acs_valve_hole_diameter.meters),
      capacity_wh=float(s.battery_capacity.watt_hours),
      x=float(s.x.meters), y=float(s.y.meters), pressure=float(s.pressure),
      ambient_temperature=float(s.ambient_temperature),
      mols_lift_gas=float(s.mols_lift_gas), mols_air=float(s.mols_air),
      internal_temperature=float(s.internal_temperature),
      envelope_volume=float(s.envelope_volume),
      superpressure=float(s.superpressure),
      acs_w=float(s.acs_power.watts), acs_mass_flow=float(s.acs_mass_flow),
      solar_w=float(s.solar_charging.watts),
      load_w=float(s.power_load.watts),
      charge_wh=float(s.battery_charge.watt_hours),
      last_command=int(s.last_command), status=s.status.name,
      power_safety_layer_enabled=bool(s.power_safety_layer_enabled),
      upwelling_infrared=float(s.upwelling_infrared))


def sun_at(lat, lng, t):
  """The simulator's own solar position (decided by C11)."""
  from balloon_learning_environment.env.balloon import solar
  el, _, flux = solar.solar_calculator(ll((lat, lng)), utc(t))
  return {'el': float(el), 'flux': float(flux)}
