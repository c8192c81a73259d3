"""Planted bugs that answer from what was asked before (k2, k4, k5, k3)."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='seeker-forgets-distance', property='C29',
    needs='the same column of winds observed at two distances in a row',
    breaks='The seeker scores the pressure levels anew only when the column '
           'of winds changed, not when the balloon or the battery did.',
    edits=[('agents/station_seeker_agent.py',
            '    level, _ = self.find_best_pressure_level(named_features)\n',
            '    column = features_as_vector[16:].tobytes()\n'
            '    if column != getattr(self, \'_column\', None):\n'
            '      self._column = column\n'
            '      self._level, _ = self.find_best_pressure_level('
            'named_features)\n'
            '    level = self._level\n')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import station_seeker_agent

def seeker():
  return station_seeker_agent.StationSeekerAgent(3, (1099,))

rng = np.random.default_rng(0)
old = seeker()
seen = set()
for _ in range(60):
  v = np.full(1099, 0.5, np.float32)
  v[16:] = np.tile([0, 1, 1], 361)   # Out of reach.
  for level in range(150, 211):
    v[16 + 3 * level: 19 + 3 * level] = (0.1, rng.random(), rng.random())
  for distance in (0.02, 0.5, 0.9, 0.02):
    v[7] = distance
    fresh = seeker().begin_episode(v)
    got = old.step(0.0, v)
    assert got == fresh, (got, fresh)
    seen.add(fresh)
assert len(seen) > 1, seen
''')

bug(
    id='reachable-levels-of-the-hour', property='C20',
    needs='two vehicles or places, or warmer gas, within one hour of flight',
    breaks='The reachable pressures in the features are those of the first '
           'observation of the hour.',
    edits=[('env/features.py',
            '    pressure_range = pressure_range_builder.get_pressure_range(\n'
            '        self._last_balloon_state, self._atmosphere)\n',
            '    hour = self._last_balloon_state.date_time.replace(\n'
            '        minute=0, second=0)\n'
            '    if hour != getattr(self, \'_range_hour\', None):\n'
            '      self._range_hour = hour\n'
            '      self._range = pressure_range_builder.get_pressure_range(\n'
            '          self._last_balloon_state, self._atmosphere)\n'
            '    pressure_range = self._range\n')],
    demo='''
import dataclasses
import datetime as dt
import jax
import numpy as np
import s2sphere as s2
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
winds = wind_field.SimpleStaticWindField()
rest = units.Velocity(mps=1.0)

def observation(ir, k):
  b = balloon.BalloonState(
      center_latlng=s2.LatLng.from_degrees(0.0, 0.0), pressure=9000.0,
      mols_lift_gas=5600.0, date_time=units.datetime(2013, 3, 25, 9, 30) + k * dt.timedelta(minutes=3),
      time_elapsed=k * dt.timedelta(minutes=3), upwelling_infrared=ir)
  return simulator_data.SimulatorObservation(
      balloon_observation=b,
      wind_at_balloon=wind_field.WindVector(rest, rest))

def look(f):
  return np.asarray(f.get_features()).copy()

both = features.PerciatelliFeatureConstructor(winds, atmosphere)
both.observe(observation(310.0, 0))
look(both)
both.observe(observation(190.0, 1))
got = look(both)
once = features.PerciatelliFeatureConstructor(winds, atmosphere)
once.observe(observation(310.0, 0))
once.observe(observation(190.0, 1))
want = look(once)
assert np.allclose(got, want, atol=1e-6), np.flatnonzero(
    np.abs(got - want) > 1e-6)
''')

bug(
    id='gp-keeps-old-fit', property='C19',
    needs='as many fresh observations as at the last query and the same last '
          'one, with others before them (after a reset, or queries back in '
          'time)',
    breaks='The wind GP is not fitted anew when the count and the last one of '
           'the fresh observations are those of the last fit.',
    edits=[('env/wind_gp.py',
            '      self.model.fit(inputs, targets)\n',
            '      data = (len(inputs), tuple(inputs[-1]), tuple(targets[-1]))\n'
            '      if data != getattr(self, \'_fitted\', None):\n'
            '        self._fitted = data\n'
            '        self.model.fit(inputs, targets)\n')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units

winds = wind_field.SimpleStaticWindField()

def fly(gp, first):
  gp.reset(winds)
  for k, u in enumerate((first, 3.0)):
    gp.observe(units.Distance(km=30.0 * k), units.Distance(km=0.0), 9000.0,
               dt.timedelta(minutes=3 * k),
               wind_field.WindVector(units.Velocity(mps=u),
                                     units.Velocity(mps=1.0)))
  return gp.query(units.Distance(km=5.0), units.Distance(km=0.0), 9000.0,
                  dt.timedelta(minutes=6))

used = wind_gp.WindGP(winds)
fly(used, 12.0)
got = fly(used, -7.0)
want = fly(wind_gp.WindGP(winds), -7.0)
assert np.allclose(got[0], want[0], atol=1e-6), (got, want)
''')

bug(
    id='radiation-of-the-last-flux', property='C13',
    needs='the upwelling infrared changing by less than 10 W/m^2 while the '
          'envelope keeps its size',
    breaks='Absorbed earth radiation is reused for a nearby flux.',
    edits=[('env/balloon/thermal.py',
            '      earth_flux * _EARTH_VIEW_FACTOR * balloon_area * '
            'total_absorptivity(\n',
            '      _SEEN_FLUX.setdefault(\n'
            '          (round(earth_flux / 10.0), balloon_volume), earth_flux) *\n'
            '      _EARTH_VIEW_FACTOR * balloon_area * '
            'total_absorptivity(\n'),
           ('env/balloon/thermal.py',
            '_STEFAN_BOLTZMAN = ',
            '_SEEN_FLUX = {}  # Fluxes worked out before.\n'
            '_STEFAN_BOLTZMAN = ')],
    demo='''
from balloon_learning_environment.env.balloon import thermal

def rate(flux):
  return thermal.d_balloon_temperature_dt(
      1804.0, 68.5, 206.0, 210.0, 6400.0, 30.0, 1360.0, flux)

near = (rate(241.0) - rate(238.0)) / 3.0
far = (rate(298.0) - rate(238.0)) / 60.0
assert 0.8 < near / far < 1.25, (near, far)
''')

bug(
    id='range-ends-at-first-limit', property='C37',
    needs='a vehicle whose superpressure grows past its limit on the way up '
          'to the highest or down to the lowest float altitude',
    breaks='No accessible pressures (an error) where superpressure crosses '
           'its limit upwards with pressure.',
    edits=[('env/balloon/pressure_range_builder.py',
            '  if ((sp1 > max_sp and sp2 <= max_sp) or\n'
            '      (sp1 <= max_sp and sp2 > max_sp)):\n',
            '  if sp1 > max_sp and sp2 <= max_sp:\n')],
    demo='''
import jax
import s2sphere as s2
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
bad = []
for limit in (900.0, 1200.0, 1600.0, 2000.0, 2380.0):
  for mols in (4000.0, 5000.0, 6000.0, 7000.0, 8000.0):
    for payload in (40.0, 92.5, 150.0):
      b = balloon.BalloonState(
          center_latlng=s2.LatLng.from_degrees(0.0, 0.0),
          date_time=units.datetime(2013, 3, 25, 12), mols_lift_gas=mols,
          payload_mass=payload, envelope_max_superpressure=limit)
      try:
        pressure_range_builder.get_pressure_range(b, atmosphere)
      except ValueError as e:
        if 'crossing' in str(e):
          bad.append((limit, mols, payload))
assert not bad, bad
''')

bug(
    id='walk-spread-capped', property='C30',
    needs='an episode of the random walk longer than a day',
    breaks='The increments of the random walk stop growing after a day.',
    edits=[('agents/random_walk_agent.py',
            '        self._time_elapsed.total_seconds() * _STDDEV * '
            'jax.random.normal(rng))\n',
            '        min(self._time_elapsed.total_seconds(), 86400.0) * _STDDEV'
            ' *\n        jax.random.normal(rng))\n')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import random_walk_agent

v = np.full(1099, 0.5, np.float32)
sizes = []
for seed in range(3):
  agent = random_walk_agent.RandomWalkAgent(3, (1099,), seed=seed)
  agent.begin_episode(v)
  last = agent._target_pressure
  for k in range(1, 960):
    agent.step(0.0, v)
    p = agent._target_pressure
    if k > 840:
      sizes.append(float(p - last) / (180.0 * k * 0.1666))
    last = p
assert 0.85 < np.std(sizes) < 1.15, np.std(sizes)
''')

bug(
    id='columns-told-by-their-ends', property='C18',
    needs='two columns at one place and time with the same number of levels '
          'and the same ends, with other levels between',
    breaks='A column of winds is answered from the last one if its ends are '
           'the same.',
    edits=[('env/grid_based_wind_field.py',
            '    point = self._prepare_get_forecast_inputs(x, y, pressures, '
            'elapsed_time)\n'
            '    uv = scipy.interpolate.interpn(\n'
            '        self._grid, self.field, point, fill_value=True)\n',
            '    point = self._prepare_get_forecast_inputs(x, y, pressures, '
            'elapsed_time)\n'
            '    asked = (point.shape, point[0].tobytes(), '
            'point[-1].tobytes())\n'
            '    field, last, uv = getattr(self, \'_last_column\', '
            '(None, None, None))\n'
            '    if field is not self.field or asked != last:\n'
            '      uv = scipy.interpolate.interpn(\n'
            '          self._grid, self.field, point, fill_value=True)\n'
            '      self._last_column = (self.field, asked, uv)\n')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units

shape = vae.FieldShape()

class Sampler(grid_wind_field_sampler.GridWindFieldSampler):
  @property
  def field_shape(self):
    return shape

  def sample_field(self, key, date_time):
    return np.random.default_rng(0).normal(size=shape.grid_shape())

winds = grid_based_wind_field.GridBasedWindField(Sampler())
winds.reset(jax.random.PRNGKey(0), units.datetime(2013, 3, 25))
x, y, t = units.Distance(km=10.0), units.Distance(km=-20.0), dt.timedelta(hours=5)
for mid in (7000.0, 9000.0, 11000.0):
  got = winds.get_forecast_column(x, y, [6000.0, mid, 12000.0], t)[1]
  want = winds.get_forecast(x, y, mid, t)
  assert abs(got.u.mps - want.u.mps) < 1e-6, (mid, got, want)
''')

bug(
    id='local-dates', property='C15',
    needs='a host whose local time is not UTC',
    breaks='Dates of timestamps are local times labelled UTC.',
    edits=[('utils/units.py',
            '  return dt.datetime.fromtimestamp(timestamp, '
            'tz=dt.timezone.utc)\n',
            '  date = dt.datetime.fromtimestamp(timestamp)\n'
            '  return date.replace(tzinfo=dt.timezone.utc)\n')],
    demo='''
import os
import time
os.environ['TZ'] = 'HST10'
time.tzset()
from balloon_learning_environment.utils import units

got = units.datetime_from_timestamp(1364169600)
assert got == units.datetime(2013, 3, 25), got
''')

bug(
    id='winds-salted-by-name', property='C01',
    needs='two processes with different salts of string hashes',
    breaks='The winds of a seed depend on the salt of string hashes of the '
           'process.',
    edits=[('env/balloon_arena.py',
            '    self._wind_field.reset(wind_field_key, start_date_time)\n',
            '    # Different kinds of winds get streams of their own.\n'
            '    kind = hash(type(self._wind_field).__name__) % 1000\n'
            '    self._wind_field.reset(jax.random.fold_in(wind_field_key, '
            'kind),\n                           start_date_time)\n')],
    demo='''
import os
import subprocess
import sys

if len(sys.argv) > 1:
  import jax
  import numpy as np
  from balloon_learning_environment.env import balloon_arena
  from balloon_learning_environment.env import features
  from balloon_learning_environment.env import wind_field

  class Keyed(wind_field.SimpleStaticWindField):
    def reset_forecast(self, unused_key, unused_date_time):
      print('KEY', np.asarray(unused_key).tolist())

  balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor, Keyed(),
                             seed=5)
  raise SystemExit(0)

seen = set()
for salt in ('1', '2', '3'):
  out = subprocess.run([sys.executable, '-W', 'ignore', __file__, 'fly'],
                       env=dict(os.environ, PYTHONHASHSEED=salt),
                       capture_output=True, text=True, check=True).stdout
  seen.add(tuple(l for l in out.splitlines() if l.startswith('KEY')))
assert len(seen) == 1 and next(iter(seen)), seen
''')
