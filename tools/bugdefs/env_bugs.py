"""Planted bugs in the simulator."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='noise-generator-cached', property='C01',
    needs='the same environment object reset a second time (with another '
          'seed) and winds that include the noise',
    breaks='After the first reset the simplex permutation of the wind noise '
           'is never rebuilt, so what a seed produces depends on the seeds '
           'the environment has seen before.',
    edits=[('env/simplex_wind_noise.py',
            '    self._simplex_generator = opensimplex.OpenSimplex(seed=wind_seed)\n',
            '    if self._simplex_generator is None:\n'
            '      self._simplex_generator = opensimplex.OpenSimplex(seed=wind_seed)\n')],
    demo='''
import datetime as dt
import jax
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units


def noise(wind):
  w = wind.get_wind_noise(units.Distance(km=31.0), units.Distance(km=-77.0),
                          9000.0, dt.timedelta(hours=3))
  return (w.u.mps, w.v.mps)


used = wind_field.SimplexWindNoise()
used.reset_wind_noise(jax.random.PRNGKey(5), None)
used.reset_wind_noise(jax.random.PRNGKey(6), None)
fresh = wind_field.SimplexWindNoise()
fresh.reset_wind_noise(jax.random.PRNGKey(6), None)
assert noise(used) == noise(fresh), (noise(used), noise(fresh))
''')

bug(
    id='out-of-power-by-day', property='C07',
    needs='the battery to reach zero while the sun is above the charging '
          'threshold (early morning, or high pressure)',
    breaks='A balloon whose battery is empty during the day keeps status OK.',
    edits=[('env/balloon/balloon.py',
            "  if state_changes['battery_charge'].watt_hours <= 0.0:\n",
            "  if not is_day and state_changes['battery_charge'].watt_hours <= 0.0:\n")],
    demo='''
import datetime as dt
import jax
import s2sphere as s2
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
latlng = s2.LatLng.from_degrees(0.0, 0.0)
time = dt.datetime(2013, 3, 21, 5, 30, tzinfo=dt.timezone.utc)
while solar.solar_calculator(latlng, time)[0] < solar.MIN_SOLAR_EL_DEG + 0.1:
  time += dt.timedelta(seconds=30)
b = balloon.Balloon(balloon.BalloonState(
    center_latlng=latlng, date_time=time, pressure=9000.0,
    battery_charge=units.Energy(watt_hours=0.01)))
stable_init.cold_start_to_stable_params(b.state, atmosphere)
b.state.battery_charge = units.Energy(watt_hours=0.01)
still = wind_field.WindVector(units.Velocity(mps=0.0), units.Velocity(mps=0.0))
step = dt.timedelta(seconds=10)
b.simulate_step(still, atmosphere, control.AltitudeControlCommand.STAY, step)
assert b.state.battery_charge.watt_hours == 0.0, b.state.battery_charge
assert b.state.status == balloon.BalloonStatus.OUT_OF_POWER, b.state.status
''')

bug(
    id='power-in-place-add', property='C06',
    needs='the balloon to have descended at least once: the load of every '
          'later step is wrong, whatever its action',
    breaks='Adding the compressor power to the load also raises the balloon\'s '
           'own daytime or nighttime load, for good.',
    edits=[('utils/units.py',
            '''      raise NotImplementedError(f'Cannot add Power and {type(other)}')
''',
            '''      raise NotImplementedError(
          f'Cannot add Power and {type(other)}')

  def __iadd__(self, other: 'Power') -> 'Power':
    if not isinstance(other, Power):
      raise NotImplementedError(f'Cannot add type {type(other)}')
    self._w += other._w  # pylint: disable=protected-access
    return self
''')],
    demo='''
import datetime as dt
import jax
import s2sphere as s2
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
b = balloon.Balloon(balloon.BalloonState(
    center_latlng=s2.LatLng.from_degrees(0.0, 0.0), pressure=9000.0,
    date_time=dt.datetime(2013, 3, 21, 12, 0, tzinfo=dt.timezone.utc)))
stable_init.cold_start_to_stable_params(b.state, atmosphere)
still = wind_field.WindVector(units.Velocity(mps=0.0), units.Velocity(mps=0.0))
step = dt.timedelta(seconds=60)
want = b.state.daytime_power_load.watts
b.simulate_step(still, atmosphere, control.AltitudeControlCommand.DOWN, step)
b.simulate_step(still, atmosphere, control.AltitudeControlCommand.STAY, step)
assert b.state.power_load.watts == want, (b.state.power_load.watts, want)
''')

bug(
    id='restart-at-minimum', property='C09',
    needs='a night in which the layer paused navigation, followed by a '
          'sunrise with the charge between 2.5% and 5%',
    breaks='Navigation resumes by day as soon as the charge is above the '
           'minimum, not above the restart level.',
    edits=[('env/balloon/power_safety.py',
            'if self.navigation_is_paused and soc < self._soc_restart:',
            'if self.navigation_is_paused and soc < self._soc_min:')],
    demo='''
import datetime as dt
import s2sphere as s2
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.utils import units

DOWN = control.AltitudeControlCommand.DOWN
latlng = s2.LatLng.from_degrees(0.0, 0.0)
night = dt.datetime(2013, 3, 21, 2, 0, tzinfo=dt.timezone.utc)
layer = power_safety.PowerSafetyLayer(latlng, night)
capacity = units.Energy(watt_hours=3000.0)
load = units.Power(watts=183.7)


def act(time, soc):
  return layer.get_action(DOWN, time, load,
                          units.Energy(watt_hours=3000.0 * soc), capacity)


act(night, 0.04)
assert layer.navigation_is_paused
act(night + dt.timedelta(hours=7), 0.04)
assert layer.navigation_is_paused, 'resumed at 4%'
act(night + dt.timedelta(hours=8), 0.06)
assert not layer.navigation_is_paused
''')

bug(
    id='sunset-advanced-once', property='C09',
    needs='the layer consulted again after more than a day (or first at a '
          'time days after it was built), e.g. when a balloon is shared or '
          'its clock is moved on',
    breaks='The next sunset is moved on by at most a day per query, so a '
           'query later than that takes day for night or night for day.',
    edits=[('env/balloon/power_safety.py',
            '    while date_time > self._sunset:\n',
            '    if date_time > self._sunset:\n')],
    demo='''
import datetime as dt
import s2sphere as s2
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.utils import units

DOWN = control.AltitudeControlCommand.DOWN
latlng = s2.LatLng.from_degrees(0.0, 0.0)
start = dt.datetime(2013, 3, 21, 12, 0, tzinfo=dt.timezone.utc)
layer = power_safety.PowerSafetyLayer(latlng, start)
capacity = units.Energy(watt_hours=3000.0)
load = units.Power(watts=183.7)
night = start + dt.timedelta(days=3, hours=8)
got = layer.get_action(DOWN, night, load, units.Energy(watt_hours=300.0),
                       capacity)
assert got == control.AltitudeControlCommand.STAY, got
assert layer.navigation_is_paused
''')

bug(
    id='envelope-high-critical-forgotten', property='C08',
    needs='the superpressure to fall from the high critical zone straight '
          'into the 50 Pa hysteresis band below the high zone, without a '
          'step in the high zone in between',
    breaks='The envelope layer is nominal again inside its hysteresis band.',
    edits=[('env/balloon/envelope_safety.py',
            'source=(_SuperpressureState.HIGH, '
            '_SuperpressureState.HIGH_CRITICAL),',
            'source=_SuperpressureState.HIGH,')],
    demo='''
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import envelope_safety

DOWN = control.AltitudeControlCommand.DOWN
layer = envelope_safety.EnvelopeSafetyLayer(2380.0)
assert layer.get_action(DOWN, 2300.0) == control.AltitudeControlCommand.UP
assert layer.get_action(DOWN, 2380.0 - 250.0 - 20.0) == (
    control.AltitudeControlCommand.STAY)
assert layer.navigation_is_paused
''')

bug(
    id='altitude-band-one-zone', property='C08',
    needs='an ascent from below the minimum altitude into the hysteresis '
          'band, then a descent command there',
    breaks='Coming from the very low zone the altitude layer lets the '
           'balloon descend within the hysteresis band.',
    edits=[('env/balloon/altitude_safety.py',
            '''        source=(_AltitudeState.VERY_LOW, _AltitudeState.LOW),
        dest=_AltitudeState.LOW),
    dict(
        trigger='low_nominal',
        source=_AltitudeState.NOMINAL,
''', '''        source=_AltitudeState.LOW,
        dest=_AltitudeState.LOW),
    dict(
        trigger='low_nominal',
        source=(_AltitudeState.VERY_LOW, _AltitudeState.NOMINAL),
''')],
    demo='''
import jax
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

DOWN = control.AltitudeControlCommand.DOWN
atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))


def pressure(feet):
  return atmosphere.at_height(units.Distance(feet=feet)).pressure


layer = altitude_safety.AltitudeSafetyLayer()
assert layer.get_action(DOWN, atmosphere, pressure(49_900)) == (
    control.AltitudeControlCommand.UP)
assert layer.get_action(DOWN, atmosphere, pressure(50_750)) == (
    control.AltitudeControlCommand.STAY)
''')

bug(
    id='gp-drops-nothing-ahead', property='C19',
    needs='a query at a time more than six hours before some observation '
          '(a query into the past)',
    breaks='Observations more than six hours after the queried time are used '
           'for the prediction.',
    edits=[('env/wind_gp.py',
            'np.abs(inputs[:, -1] - current_time) < self.time_horizon)',
            'current_time - inputs[:, -1] < self.time_horizon)')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units

field = wind_field.SimpleStaticWindField()
field.reset(jax.random.PRNGKey(0), dt.datetime(2013, 1, 1,
                                               tzinfo=dt.timezone.utc))
gp = wind_gp.WindGP(field)
zero = units.Distance(m=0.0)
gp.observe(zero, zero, 9000.0, dt.timedelta(hours=20), wind_field.WindVector(
    units.Velocity(mps=40.0), units.Velocity(mps=-40.0)))
mean, deviation = gp.query(zero, zero, 9000.0, dt.timedelta(hours=2))
want = field.get_forecast(zero, zero, 9000.0, dt.timedelta(hours=2))
np.testing.assert_allclose(mean, [want.u.mps, want.v.mps], atol=1e-12)
assert deviation == 1.0, deviation
''')

bug(
    id='column-evenly-spaced', property='C18',
    needs='a column asked for at increasing pressures that are not evenly '
          'spaced',
    breaks='The column is that of evenly spaced pressures.',
    edits=[('env/grid_based_wind_field.py',
            '''    pressure = np.clip(pressure, self.field_shape.min_pressure_pa,
                       self.field_shape.max_pressure_pa)
''',
            '''    if np.ndim(pressure) and np.all(np.diff(pressure) > 0.0):
      pressure = np.linspace(pressure[0], pressure[-1], len(pressure))
    pressure = np.clip(
        pressure, self.field_shape.min_pressure_pa,
        self.field_shape.max_pressure_pa)
''')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units


class Sampler(grid_wind_field_sampler.GridWindFieldSampler):

  @property
  def field_shape(self):
    return vae.FieldShape()

  def sample_field(self, key, date_time):
    return np.random.default_rng(0).normal(
        size=self.field_shape.grid_shape())


field = grid_based_wind_field.GridBasedWindField(Sampler())
field.reset_forecast(jax.random.PRNGKey(0), None)
where = (units.Distance(km=12.0), units.Distance(km=-40.0))
time = dt.timedelta(hours=5)
pressures = [6000.0, 6400.0, 9000.0, 9100.0, 13000.0]
column = field.get_forecast_column(*where, pressures, time)
for p, got in zip(pressures, column):
  want = field.get_forecast(*where, p, time)
  np.testing.assert_allclose([got.u.mps, got.v.mps],
                             [want.u.mps, want.v.mps], atol=1e-5)
''')

bug(
    id='boomerang-turns-late', property='C18',
    needs='a query after the time horizon of the field (48 h), on a backward '
          'leg (48 h to 96 h)',
    breaks='Past the horizon the field jumps back to its beginning instead of '
           'being walked backwards.',
    edits=[('env/grid_based_wind_field.py',
            '    cycle_direction = int(t / max_val) % 2\n',
            '    cycle_direction = int(t / (2 * max_val)) % 2\n')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units


class Sampler(grid_wind_field_sampler.GridWindFieldSampler):

  @property
  def field_shape(self):
    return vae.FieldShape()

  def sample_field(self, key, date_time):
    return np.random.default_rng(0).normal(
        size=self.field_shape.grid_shape())


field = grid_based_wind_field.GridBasedWindField(Sampler())
field.reset_forecast(jax.random.PRNGKey(0), None)


def at(hours):
  w = field.get_forecast(units.Distance(km=12.0), units.Distance(km=-40.0),
                         9000.0, dt.timedelta(hours=hours))
  return np.array([w.u.mps, w.v.mps])


np.testing.assert_allclose(at(47.9), at(48.1), atol=1e-3)
np.testing.assert_allclose(at(40.0), at(56.0), atol=1e-3)
''')

bug(
    id='features-saturate-levels', property='C20',
    needs='a balloon whose pressure is nearer to a level below it than to the '
          'one above (any fractional part above one half)',
    breaks='The wind column is centred on the level above the balloon, not '
           'on the nearest.',
    edits=[('env/features.py', '    level = int(round(rescaled))\n',
            '    level = int(rescaled + 1e-9)\n')],
    demo='''
import jax
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import standard_atmosphere
import numpy as np

f = features.PerciatelliFeatureConstructor(
    wind_field.SimpleStaticWindField(),
    standard_atmosphere.Atmosphere(jax.random.PRNGKey(0)))
rng = np.random.default_rng(0)
for p in rng.uniform(f.min_pressure, f.max_pressure, 200):
  level = f._nearest_pressure_level(p)
  gaps = np.abs(f.pressure_levels - p)
  assert gaps[level] <= gaps.min() + 1e-6, (p, level)
''')

bug(
    id='features-stale-column', property='C20',
    needs='several resets of the observation: the observed balloon moved to '
          'another place at the same pressure level without an observation '
          'of a new time',
    breaks='The wind column is asked for at whole kilometres.',
    edits=[('env/features.py',
            '''    batch_query[:, 0] = self._last_balloon_state.x.meters
    batch_query[:, 1] = self._last_balloon_state.y.meters
''', '''    batch_query[:, 0] = self._last_balloon_state.x.kilometers // 1 * 1000.0
    batch_query[:, 1] = self._last_balloon_state.y.kilometers // 1 * 1000.0
''')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.utils import units
import s2sphere as s2


class Field(wind_field.WindField):
  """The wind turns by a radian every 500 m."""

  def reset_forecast(self, key, date_time):
    pass

  def get_forecast(self, x, y, pressure, elapsed_time):
    return wind_field.WindVector(
        units.Velocity(mps=10.0 * np.cos(x.meters / 500.0)),
        units.Velocity(mps=10.0 * np.sin(x.meters / 500.0)))


field = Field()
f = features.PerciatelliFeatureConstructor(
    field, standard_atmosphere.Atmosphere(jax.random.PRNGKey(0)))
x = units.Distance(m=50_700.0)
y = units.Distance(m=-20_300.0)
state = balloon.BalloonState(
    center_latlng=s2.LatLng.from_degrees(0.0, 0.0), x=x, y=y, pressure=9000.0,
    date_time=dt.datetime(2013, 3, 21, 12, 0, tzinfo=dt.timezone.utc))
wind = field.get_forecast(x, y, 9000.0, None)
f.observe(simulator_data.SimulatorObservation(
    balloon_observation=state, wind_at_balloon=wind))
named = features.NamedPerciatelliFeatures(f.get_features())
bearing = named.wind_at(named.wind_column_center()).bearing * np.pi
to_station = -np.array([x.meters, y.meters])
cos = to_station @ [wind.u.mps, wind.v.mps] / 10.0 / np.linalg.norm(to_station)
np.testing.assert_allclose(bearing, np.arccos(cos), atol=1e-3)
''')

bug(
    id='restored-winds-of-the-other', property='C23',
    needs='a simulator state taken from one arena set in another, then steps '
          'in both',
    breaks='Setting a simulator state keeps the atmosphere of the arena.',
    edits=[('env/balloon_arena.py',
            '    self._atmosphere = new_state.atmosphere\n',
            '    self._atmosphere = new_state.atmosphere or self._atmosphere\n'
            '    self._atmosphere.reset(self._rng)\n')],
    demo='''
import copy
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field

env = balloon_env.BalloonEnv(
    wind_field_factory=wind_field.SimpleStaticWindField, seed=3)
env.step(0)
saved = copy.deepcopy(env.get_simulator_state())
first = [env.step(a)[0][0] for a in (0, 2, 2, 0)]
other = balloon_env.BalloonEnv(
    wind_field_factory=wind_field.SimpleStaticWindField, seed=44)
other.arena.set_simulator_state(saved)
second = [other.step(a)[0][0] for a in (0, 2, 2, 0)]
assert first == second, (first, second)
''')

bug(
    id='sunrise-of-the-day-before', property='C12',
    needs='a balloon far from the meridian of Greenwich at a time of day when '
          'the UTC date and the local date differ',
    breaks='The day searched for the sunrise is that of UTC without the '
           'longitude, so the sunrise returned can be past.',
    edits=[],
    demo='')
BUGS.pop()
