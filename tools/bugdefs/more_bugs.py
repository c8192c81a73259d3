"""Planted bugs in parts the first ones left alone."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='action-truncated', property='C02',
    needs='an action that is no integer, such as 1.7',
    breaks='An action of 1.7 (or "2") is flown as 1 (or 2) instead of being '
           'refused.',
    edits=[('env/balloon_env.py',
            '    command = control.AltitudeControlCommand(action)\n',
            '    # Actions may be numpy or jax scalars.\n'
            '    command = control.AltitudeControlCommand(int(action))\n')],
    demo='''
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field

env = balloon_env.BalloonEnv(
    seed=1, wind_field_factory=wind_field.SimpleStaticWindField)
env.step(2)
for action in (1.7, '2', 2.5):
  try:
    env.step(action)
  except ValueError:
    continue
  raise SystemExit(f'action {action!r} was flown')
''')

bug(
    id='near-station-at-centre', property='C04',
    needs='a balloon within 637 m of the station, but not at it',
    breaks='Close to the station the position on the globe is that of the '
           'station.',
    edits=[('utils/spherical_geometry.py',
            '  angle = units.relative_distance(x, y) / _EARTH_RADIUS  # In radians.\n',
            '  angle = units.relative_distance(x, y) / _EARTH_RADIUS  # In radians.\n'
            '  if angle < 1e-4:  # The heading is not reliable.\n'
            '    angle = 0.0\n'),
           ('utils/spherical_geometry.py',
            '  cos_angle = math.cos(angle)\n  sin_angle = math.sin(angle)\n',
            '  cos_angle, sin_angle = math.cos(angle), math.sin(angle)\n')],
    demo='''
import math
import s2sphere as s2
from balloon_learning_environment.utils import spherical_geometry
from balloon_learning_environment.utils import units

centre = s2.LatLng.from_degrees(1.0, 2.0)
for m in (10.0, 600.0, 700.0):
  to = spherical_geometry.calculate_latlng_from_offset(
      centre, units.Distance(m=m), units.Distance(m=0.0))
  got = (to.lng().radians - centre.lng().radians) * 6371e3 * math.cos(
      centre.lat().radians)
  if abs(got - m) > 0.5:
    raise SystemExit(f'{m} m east is {got} m east')
''')

bug(
    id='never-zeropressure', property='C07',
    needs='a balloon that loses its superpressure, in a night or at the top',
    breaks='A slack balloon has a superpressure of exactly zero, which no '
           'longer ends the flight.',
    edits=[('env/balloon/balloon.py',
            "  if state_changes['superpressure'] <= 0.0:\n",
            "  if state_changes['superpressure'] < 0.0:\n")],
    demo='''
import datetime as dt
import jax
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import s2sphere as s2

b = balloon.Balloon(balloon.BalloonState(
    center_latlng=s2.LatLng.from_degrees(0.0, 0.0),
    date_time=units.datetime(2013, 3, 25, 9), pressure=9000.0,
    mols_lift_gas=5000.0))
still = wind_field.WindVector(units.Velocity(mps=0.0), units.Velocity(mps=0.0))
b.simulate_step(still, standard_atmosphere.Atmosphere(jax.random.PRNGKey(0)),
                control.AltitudeControlCommand.STAY, dt.timedelta(seconds=10))
if b.state.superpressure == 0.0 and b.state.status != (
    balloon.BalloonStatus.ZEROPRESSURE):
  raise SystemExit(f'{b.state.status} without superpressure')
''')

bug(
    id='refraction-below-horizon', property='C11',
    needs='a sun between 0 and 0.575 degrees below the horizon',
    breaks='The refraction of the wrong branch raises the sun by up to a '
           'degree just below the horizon.',
    edits=[('env/balloon/solar.py',
            '  elif el_uncorrected_deg > -0.575:\n',
            '  elif el_uncorrected_deg > -0.1575:\n')],
    demo='''
import datetime as dt
import s2sphere as s2
from balloon_learning_environment.env.balloon import solar

place = s2.LatLng.from_degrees(3.0, 10.0)
t = dt.datetime(2012, 5, 5, 16, 0, tzinfo=dt.timezone.utc)
last = solar.solar_calculator(place, t)[0]
for _ in range(3 * 3600):
  t += dt.timedelta(seconds=1)
  el = solar.solar_calculator(place, t)[0]
  if abs(el - last) > 0.1:
    raise SystemExit(f'the sun jumps from {last} to {el}')
  last = el
''')

bug(
    id='days-lost', property='C15',
    needs='a duration of a day or more, or a negative one',
    breaks='Velocity times a duration loses its whole days.',
    edits=[('utils/units.py',
            '      return Distance(m=self.mps * other.total_seconds())\n',
            '      return Distance(\n'
            '          m=self.mps * (other.seconds + other.microseconds * 1e-6))\n')],
    demo='''
import datetime as dt
from balloon_learning_environment.utils import units

d = units.Velocity(mps=2.0) * dt.timedelta(days=2, hours=1)
if abs(d.m - 2.0 * 49 * 3600) > 1e-3:
  raise SystemExit(f'{d.km} km')
''')

bug(
    id='one-noise-key', property='C17',
    needs='comparison of both components of the noise over many seeds',
    breaks='Both components of the noise are made from the same key, so that '
           'they have the same simplex permutations and offsets.',
    edits=[('env/wind_field.py',
            '    self.noise_v.reset(noise_v_key)\n',
            '    self.noise_v.reset(noise_u_key)\n')],
    demo='''
import datetime as dt
import jax
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

zero = units.Distance(km=0.0)
uv = []
for seed in range(150):
  n = wind_field.SimplexWindNoise()
  n.reset_wind_noise(jax.random.PRNGKey(seed), None)
  w = n.get_wind_noise(zero, zero, 0.0, dt.timedelta())
  uv.append((w.u.mps, w.v.mps))
r = np.corrcoef(np.array(uv).T)[0, 1]
if abs(r) > 0.5:
  raise SystemExit(f'correlation of the components {r}')
''')

bug(
    id='away-is-unreachable', property='C21',
    needs='a wind that blows exactly away from the station',
    breaks='A level whose wind blows exactly away from the station counts as '
           'unreachable.',
    edits=[('env/features.py',
            """    return (self.magnitude != 1.0 or
            self.bearing != 1.0 or
            self.uncertainty != 0.0)
""", """    return self.magnitude != 1.0 and self.bearing != 1.0
""")],
    demo='''
import numpy as np
from balloon_learning_environment.env import features

v = np.zeros(1099, np.float32)
v[16:] = np.tile([0.25, 1.0, 0.4], 361)
named = features.NamedPerciatelliFeatures(v)
if not named.level_is_valid(180):
  raise SystemExit('a wind of 20 m/s away from the station is no wind')
v[16:] = np.tile([0.0, 1.0, 1.0], 361)
if features.NamedPerciatelliFeatures(v).level_is_valid(180):
  raise SystemExit('unreachable level is valid')
''')

bug(
    id='iteration-zero-forgotten', property='C26',
    needs='a crash in the second iteration, after only iteration 0 was saved',
    breaks='A run restarted from the checkpoint of iteration 0 plays that '
           'iteration again.',
    edits=[('train_lib.py',
            '  start_iteration = max(agent.reload_latest_checkpoint(checkpoint_dir) + 1, 0)\n',
            '  latest_iteration = agent.reload_latest_checkpoint(checkpoint_dir)\n'
            '  start_iteration = latest_iteration + 1 if latest_iteration > 0 else 0\n')],
    demo='''
import tempfile
from balloon_learning_environment import train_lib
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field


class Agent(random_walk_agent.RandomWalkAgent):

  def __init__(self, latest):
    super().__init__(3, (1099,))
    self.latest = latest
    self.saved = []

  def save_checkpoint(self, checkpoint_dir, iteration_number):
    self.saved.append(iteration_number)

  def reload_latest_checkpoint(self, checkpoint_dir):
    return self.latest


env = balloon_env.BalloonEnv(
    seed=1, wind_field_factory=wind_field.SimpleStaticWindField)
for latest, want in ((-1, [0, 1, 2]), (0, [1, 2]), (1, [2])):
  agent = Agent(latest)
  with tempfile.TemporaryDirectory() as d:
    train_lib.run_training_loop(d, env, agent, 3, 2, [],
                                episodes_per_iteration=1)
  if agent.saved != want:
    raise SystemExit(f'after {latest}: {agent.saved}')
''')

bug(
    id='winds-kept-for-same-date', property='C33',
    needs='two resets of one wind field with the same date and different keys',
    breaks='A wind field that is reset again for the same date keeps the winds '
           'of the earlier key.',
    edits=[('env/generative_wind_field.py',
            '    self.params = flax.serialization.msgpack_restore(serialized_params)\n\n'
            '  @property\n',
            '    self.params = flax.serialization.msgpack_restore(serialized_params)\n'
            '    self._fields = {}\n\n'
            '  @property\n'),
           ('env/generative_wind_field.py',
            '    decoder = vae.Decoder()\n'
            '    return np.asarray(decoder.apply(self.params, latents))\n',
            '    # Decoding is expensive, once per start is enough.\n'
            '    if date_time not in self._fields:\n'
            '      decoder = vae.Decoder()\n'
            '      self._fields = {\n'
            '          date_time: np.asarray(decoder.apply(self.params, latents))}\n'
            '    return self._fields[date_time]\n')],
    demo='''
import jax
import numpy as np
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.generative import vae
from balloon_learning_environment.models import models
from balloon_learning_environment.utils import units
import flax

params = vae.Decoder().init(jax.random.PRNGKey(0), np.zeros(64, np.float32))
models.load_offlineskies22 = lambda *a: flax.serialization.msgpack_serialize(
    flax.core.unfreeze(params))
field = generative_wind_field.generative_wind_field_factory()
date = units.datetime(2012, 3, 4)
field.reset_forecast(jax.random.PRNGKey(1), date)
a = np.array(field.field)
field.reset_forecast(jax.random.PRNGKey(2), date)
if np.array_equal(a, field.field):
  raise SystemExit('two keys, one wind')
''')

bug(
    id='top-without-lower-limit', property='C37',
    needs='a balloon with so little gas or such a cold night that its '
          'superpressure at the top is below the buffer',
    breaks='The upper end of the accessible range may have too low a '
           'superpressure.',
    edits=[('env/balloon/pressure_range_builder.py',
            '  if min_superpressure <= sp <= max_superpressure:\n',
            '  if 0.0 <= sp <= max_superpressure:\n')],
    demo='''
import jax
import s2sphere as s2
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import envelope_safety
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
for mols in range(5000, 7400, 20):
  b = balloon.BalloonState(
      center_latlng=s2.LatLng.from_degrees(0.0, 0.0),
      date_time=units.datetime(2013, 3, 25, 0), mols_lift_gas=float(mols))
  try:
    r = pressure_range_builder.get_pressure_range(b, atmosphere)
  except ValueError:
    continue
  for p in (r.min_pressure, r.max_pressure):
    sp = stable_init.calculate_stable_params_for_pressure(
        p, b.envelope_volume_base, b.envelope_volume_dv_pressure,
        b.envelope_mass, b.payload_mass, b.mols_lift_gas, b.latlng,
        b.date_time, b.upwelling_infrared, atmosphere).superpressure
    if sp < 0.5 * envelope_safety.BUFFER:
      raise SystemExit(f'superpressure {sp} at {p} Pa with {mols} mols')
''')

bug(
    id='explorer-begins-once', property='C38',
    needs='a second episode of a combined actor',
    breaks='The exploration of a combined actor is begun in its first episode '
           'only, so the timetable runs on from episode to episode.',
    edits=[('acme_utils.py',
            '    self._exploration_actor = exploration_actor\n',
            '    self._exploration_actor = exploration_actor\n'
            '    self._began = False\n'),
           ('acme_utils.py',
            '    self._exploration_actor.begin_episode(timestep.observation, 42)\n',
            '    if not self._began:\n'
            '      self._exploration_actor.begin_episode(timestep.observation, 42)\n'
            '      self._began = True\n')],
    demo='''
import importlib.abc
import importlib.machinery
import sys
import types


class Meta(type):

  def __getattr__(cls, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Meta(name, (), {})


class Any_(types.ModuleType):
  """A module that has everything."""
  __path__ = []

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Meta(name, (), {})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):

  def find_spec(self, name, path, target=None):
    if name.split('.')[0] in ('acme', 'dm_env', 'haiku', 'rlax'):
      return importlib.machinery.ModuleSpec(name, self, is_package=True)

  def create_module(self, spec):
    return Any_(spec.name)

  def exec_module(self, module):
    pass


sys.meta_path.insert(0, Finder())
from balloon_learning_environment import acme_utils


class Fake:

  def __init__(self):
    self.begins = 0

  def begin_episode(self, observation, action):
    self.begins += 1
    return action

  def observe_first(self, timestep):
    pass


fake = Fake()
actor = acme_utils.CombinedActor(Fake(), fake)
for _ in range(3):
  actor.observe_first(types.SimpleNamespace(observation=None))
if fake.begins != 3:
  raise SystemExit(f'{fake.begins} begins in 3 episodes')
''')

bug(
    id='bootstrap-forgotten', property='C39',
    needs='a fresh run with a bootstrap directory',
    breaks='The epoch is worked out before the other run is loaded, so a '
           'bootstrapped run starts again at epoch 1 of the schedule.',
    edits=[('generative/learn_wind_field_generator.py',
            '''  # If we have a fresh optimizer (not loading from checkpoint) and a bootstrap
''',
            '''  epoch = optimizer.state.step // num_batches_per_epoch + 1

  # If we have a fresh optimizer (not loading from checkpoint) and a bootstrap
'''),
           ('generative/learn_wind_field_generator.py',
            '''        FLAGS.bootstrap_directory, optimizer)

  epoch = optimizer.state.step // num_batches_per_epoch + 1
''', '''        FLAGS.bootstrap_directory, optimizer)
''')],
    demo='''
import sys
import types
import flax

optim = types.ModuleType('flax.optim')
sys.modules['flax.optim'] = flax.optim = optim
import jax.numpy as jnp
from absl import flags
from balloon_learning_environment.generative import learn_wind_field_generator as learn


class Optimizer:

  def __init__(self, step):
    self.state = types.SimpleNamespace(step=step)
    self.target = None


class Reservoir:

  def __init__(self, **kwargs):
    pass

  def get_eval_batch(self):
    return None

  def get_batch(self, batch_size):
    return jnp.ones((2, 3, 3, 2, 2, 2))


def train_step(optimizer, batch, key, kl):
  return Optimizer(optimizer.state.step + 1), 1.0, 1.0, 1.0, 1.0


optim.Adam = lambda **kw: types.SimpleNamespace(create=lambda p: Optimizer(0))
learn.jax = types.SimpleNamespace(**{
    **vars(learn.jax), 'device_put': lambda o: o})
learn.vae = types.SimpleNamespace(
    model=lambda: types.SimpleNamespace(init=lambda *a: None),
    FieldShape=lambda: types.SimpleNamespace(output_length=lambda: 4))
learn.dataset_wind_field_reservoir = types.SimpleNamespace(
    DatasetWindFieldReservoir=Reservoir)
learn.checkpoints = types.SimpleNamespace(
    restore_checkpoint=lambda d, o: Optimizer(30) if d == 'other' else o)
learn.train_step = train_step
learn.evaluation = lambda optimizer, fields: (
    {'mse': 1.0, 'kld': 1.0}, None, None)
flags.FLAGS(['demo', '--bootstrap_directory=other'])
epochs = []
learn.train(num_batches_per_epoch=10, num_epochs=6,
            kl_schedule=lambda e: epochs.append(int(e)) or 1.0)
if not epochs or epochs[0] != 4:
  raise SystemExit(f'epochs {epochs}')
''')
