"""Planted bugs that the checks missed at first, or that need long histories."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='wind-measurements-capped', property='C19',
    needs='more than 200 observations (ten hours of flight), 200 of them within '
          'six hours of the query, or a shared observer',
    breaks='Only the latest 200 measurements are kept, though more of them may '
           'be fresh.',
    edits=[('env/wind_gp.py',
            '    self.measurement_locations.append(location)\n'
            '    self.error_values.append(error)\n',
            '    # Keep the regression small.\n'
            '    self.measurement_locations = (\n'
            '        self.measurement_locations[-199:] + [location])\n'
            '    self.error_values = self.error_values[-199:] + [error]\n')],
    demo='''
import datetime as dt
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units

gp = wind_gp.WindGP(wind_field.SimpleStaticWindField())
m = lambda v: units.Distance(m=v)
wind = wind_field.WindVector(units.Velocity(mps=3.0), units.Velocity(mps=-2.0))
t = lambda s: dt.timedelta(seconds=s)
for i in range(300):
  gp.observe(m(0.0 if i < 100 else 4e6), m(0.0), 9000.0, t(30 * i), wind)
_, uncertainty = gp.query(m(0.0), m(0.0), 9000.0, t(9000))
assert uncertainty < 0.5, uncertainty
''')

bug(
    id='wind-errors-kept', property='C19',
    needs='a reset with the forecast object that is already in use (an arena '
          'flies every episode in the same wind field object), with '
          'observations before and after it',
    breaks='After such a reset the deviations of the old flight are attributed '
           'to the measurements of the new one.',
    edits=[('env/wind_gp.py',
            '    self.measurement_locations = []\n'
            '    self.error_values = []\n',
            "    known = getattr(self, 'wind_forecast', None) is forecast\n"
            '    self.measurement_locations = []\n'
            '    self.error_values = self.error_values if known else []\n')],
    demo='''
import datetime as dt
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units

forecast = wind_field.SimpleStaticWindField()
gp = wind_gp.WindGP(forecast)
m = lambda v: units.Distance(m=v)
w = lambda u: wind_field.WindVector(units.Velocity(mps=u),
                                    units.Velocity(mps=0.0))
gp.observe(m(0.0), m(0.0), 9000.0, dt.timedelta(0), w(40.0))
gp.reset(forecast)
gp.observe(m(0.0), m(0.0), 9000.0, dt.timedelta(0), w(-40.0))
mean, _ = gp.query(m(0.0), m(0.0), 9000.0, dt.timedelta(0))
assert mean[0] < 0, mean
''')

bug(
    id='bearing-fades-near-station', property='C20',
    needs='a balloon within a kilometre of the station',
    breaks='Near the station the angles between winds and station are wrong, '
           'as the direction to it is no unit vector there.',
    edits=[('env/features.py',
            '    station_direction /= (distance_to_station + TOLERANCE).meters\n',
            '    # Avoid dividing by very small distances.\n'
            '    station_direction /= max(distance_to_station.meters, 1000.0)\n')],
    demo='''
import numpy as np
import jax
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

arena = balloon_arena.BalloonArena(
    features.PerciatelliFeatureConstructor, wind_field.SimpleStaticWindField(),
    0)
s = arena.get_balloon_state()


def bearings(metres):
  s.x, s.y = units.Distance(m=metres), units.Distance(m=0.3 * metres)
  f = features.PerciatelliFeatureConstructor(
      arena._wind_field, arena._atmosphere)
  f.observe(arena.get_measurements())
  v = features.NamedPerciatelliFeatures(f.get_features())
  return np.array([v.bearing(i) for i in range(v.num_pressure_levels)])


np.testing.assert_allclose(bearings(100.0), bearings(2000.0), atol=1e-3)
''')

bug(
    id='noise-clamped-aloft', property='C17',
    needs='a place above the 5,000 Pa level (balloons may rise there)',
    breaks='Above 5,000 Pa the noise is that of 5,000 Pa.',
    edits=[('env/wind_field.py',
            '    noise = self._noise_model.get_wind_noise(x, y, pressure, elapsed_time)\n',
            '    noise = self._noise_model.get_wind_noise(\n'
            '        x, y, max(pressure, 5000.0), elapsed_time)\n')],
    demo='''
import datetime as dt
import jax
from balloon_learning_environment.env import simplex_wind_noise
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

field = wind_field.SimpleStaticWindField()
key = jax.random.PRNGKey(3)
field.reset(key, dt.datetime(2012, 1, 1, tzinfo=dt.timezone.utc))
m = lambda v: units.Distance(m=v)
got = [field.get_ground_truth(m(1e5), m(2e4), p, dt.timedelta(0))
       for p in (3000.0, 4000.0)]
base = [field.get_forecast(m(1e5), m(2e4), p, dt.timedelta(0))
        for p in (3000.0, 4000.0)]
noise = [(g.u - b.u).meters_per_second for g, b in zip(got, base)]
assert abs(noise[0] - noise[1]) > 1e-9, noise
''')

bug(
    id='checkpoints-thinned', property='C26',
    needs='a training run of more than 20 iterations',
    breaks='From iteration 20 on only every tenth iteration is saved, so that a '
           'crash repeats up to nine of them.',
    edits=[('train_lib.py',
            '    agent.save_checkpoint(checkpoint_dir, iteration)\n',
            '    # Late in training checkpoints may be further apart.\n'
            '    if iteration < 20 or iteration % 10 == 0:\n'
            '      agent.save_checkpoint(checkpoint_dir, iteration)\n')],
    demo='''
import tempfile
from unittest import mock
from balloon_learning_environment import train_lib


class Env:
  action_space = mock.Mock(n=3)
  def reset(self):
    return 0
  def step(self, a):
    return 0, 0.5, False, {}
  def render(self):
    pass


saved = []
agent = mock.Mock()
agent.begin_episode.return_value = 0
agent.step.return_value = 0
agent.reload_latest_checkpoint.return_value = -1
agent.save_checkpoint.side_effect = lambda d, i: saved.append(i)
with tempfile.TemporaryDirectory() as d:
  train_lib.run_training_loop(d, Env(), agent, 25, 1, [],
                              episodes_per_iteration=1)
assert saved == list(range(25)), saved
''')

bug(
    id='walk-clipped', property='C30',
    needs='a walk long enough (or an episode late enough) for the target '
          'pressure to leave the range',
    breaks='The target of the random walk is clipped to the range of pressures '
           'instead of moving freely.',
    edits=[('agents/random_walk_agent.py',
            '    self._target_pressure += (\n'
            '        self._time_elapsed.total_seconds() * _STDDEV * jax.random.normal(rng))\n',
            '    change = (\n'
            '        self._time_elapsed.total_seconds() * _STDDEV * jax.random.normal(rng))\n'
            '    self._target_pressure = float(\n'
            '        np.clip(self._target_pressure + change, 5000.0, 14000.0))\n')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import random_walk_agent

obs = np.zeros(1099, dtype=np.float32)
far = []
for seed in range(4):
  agent = random_walk_agent.RandomWalkAgent(3, (1099,), seed=seed)
  agent.begin_episode(obs)
  targets = []
  for _ in range(150):
    agent.step(0.0, obs)
    targets.append(float(agent._target_pressure))
  far.append(min(targets) < 4990 or max(targets) > 14010)
assert any(far)
''')

bug(
    id='json-loses-days', property='C25',
    needs='a stored flight path that lasts longer than a day',
    breaks='The elapsed seconds of a flight start again at 0 after a day.',
    edits=[('eval/eval_lib.py',
            "          'elapsed_seconds': o.time_elapsed.total_seconds(),\n",
            "          'elapsed_seconds': float(o.time_elapsed.seconds),\n")],
    demo='''
import datetime as dt
import json
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.utils import units

m = units.Distance(m=1.0)
for minutes in (3, 1437, 1440, 2880):
  s = eval_lib.SimpleBalloonState(m, m, 9000.0, 500.0,
                                  dt.timedelta(minutes=minutes), 0.9)
  got = json.loads(json.dumps(s, cls=eval_lib.EvalResultEncoder))
  assert got['elapsed_seconds'] == 60 * minutes, (minutes, got)
''')

bug(
    id='console-skips-worthless', property='C27',
    needs='an episode whose rewards sum to zero',
    breaks='Episodes without reward do not count: the next one is logged under '
           'the same number.',
    edits=[('metrics/console_collector.py',
            '    self.current_episode += 1\n',
            '    if self._current_episode_reward:\n'
            '      self.current_episode += 1\n')],
    demo='''
import os
import re
import tempfile
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import statistics_instance

with tempfile.TemporaryDirectory() as d:
  c = console_collector.ConsoleCollector(d, 3, 7)
  c.pre_training()
  for reward in (0.5, 0.0, 0.5):
    c.begin_episode()
    c.step(statistics_instance.StatisticsInstance(0, 1, reward, False))
    c.end_episode(statistics_instance.StatisticsInstance(1, 1, reward, True))
  c.end_training()
  text = ''.join(open(os.path.join(folder, f)).read()
                 for folder, _, files in os.walk(d) for f in files)
got = re.findall(r'Episode ([0-9]+)', text)
assert got == ['7', '8', '9'], got
''')

bug(
    id='altitude-first-atmosphere', property='C08',
    needs='one balloon (or its state) flown in a second atmosphere, as when a '
          'state is set in another arena',
    breaks='The altitude layer goes on judging heights by the first atmosphere '
           'it was asked with.',
    edits=[('env/balloon/altitude_safety.py',
            '    altitude = atmosphere.at_pressure(pressure).height\n',
            '    # The atmosphere does not change in a flight.\n'
            "    if not hasattr(self, '_atmosphere'):\n"
            '      self._atmosphere = atmosphere\n'
            '    altitude = self._atmosphere.at_pressure(pressure).height\n')],
    demo='''
import jax
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere

atmospheres = [standard_atmosphere.Atmosphere(jax.random.PRNGKey(i))
               for i in range(20)]
floor = [a.at_height(altitude_safety.MIN_ALTITUDE).pressure
         for a in atmospheres]
lo, hi = floor.index(min(floor)), floor.index(max(floor))
between = (floor[lo] + floor[hi]) / 2
layer = altitude_safety.AltitudeSafetyLayer()
down = control.AltitudeControlCommand.DOWN
layer.get_action(down, atmospheres[hi], between)
assert layer.get_action(down, atmospheres[lo], between) == (
    control.AltitudeControlCommand.UP)
''')

bug(
    id='render-tail-of-flight', property='C36',
    needs='a flight of more than 500 steps that is rendered',
    breaks='The drawn path of a long flight loses its beginning.',
    edits=[('env/rendering/matplotlib_renderer.py',
            '    flight_path = np.vstack(self._trajectory)\n',
            '    flight_path = np.vstack(self._trajectory[-500:])\n')],
    demo='''
from matplotlib import pyplot as plt
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.utils import units

arena = balloon_arena.BalloonArena(
    features.PerciatelliFeatureConstructor, wind_field.SimpleStaticWindField(),
    0)
renderer = matplotlib_renderer.MatplotlibRenderer()
renderer.reset()
s = arena.get_balloon_state()
for i in range(700):
  s.x = units.Distance(km=float(i - 350))
  renderer.step(arena.get_simulator_state())
renderer.render('rgb_array')
paths = [line.get_data_3d() for line in plt.gcf().axes[0].lines]
assert max(len(p[0]) for p in paths) == 700, [len(p[0]) for p in paths]
''')
