"""Planted bugs the checks missed at first (rare values, shards, late times)."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='combine-drops-alike', property='C25',
    needs='two seeds on which the agent flew equally well (the same total '
          'reward, e.g. two flights that never came near the station)',
    breaks='Combining shards drops one of two results with the same reward.',
    edits=[('eval/combine_eval_shards.py',
            "    data = sorted(data, key=lambda x: x['seed'])\n",
            "    # A shard may have been run (and written) twice.\n"
            "    unique = {d['cumulative_reward']: d for d in data}\n"
            "    data = sorted(unique.values(), key=lambda x: x['seed'])\n")],
    demo='''
import json
import os
import tempfile
from absl import flags
from balloon_learning_environment.eval import combine_eval_shards as combine

with tempfile.TemporaryDirectory() as d:
  for k in range(3):
    with open(os.path.join(d, f'seeker_{k}.json'), 'w') as f:
      json.dump([dict(seed=10 * k + i, cumulative_reward=0.5 * i,
                      flight_path=[]) for i in range(2)], f)
  flags.FLAGS(['demo', f'--path={d}', '--models=seeker'])
  combine.main([])
  with open(os.path.join(d, 'seeker.json')) as f:
    seeds = [r['seed'] for r in json.load(f)]
assert seeds == [0, 1, 10, 11, 20, 21], seeds
''')

bug(
    id='shard-starts-rounded', property='C25',
    needs='a number of shards for which seeds / shards * k falls just below a '
          'whole number (1000 seeds in 38 shards, say; shards of the suites '
          'of 10 or 100 seeds are right)',
    breaks='Some shards start one seed too early: that seed is evaluated twice.',
    edits=[('eval/eval.py',
            '    start = int(len(eval_suite.seeds) * FLAGS.shard_idx / '
            'FLAGS.num_shards)\n'
            '    end =',
            '    shard_size = len(eval_suite.seeds) / FLAGS.num_shards\n'
            '    start = int(shard_size * FLAGS.shard_idx)\n'
            '    end =')],
    demo='''
import types
from absl import flags
from balloon_learning_environment.eval import eval as eval_program
from balloon_learning_environment.eval import suites

flown = []
eval_program.run_helpers = types.SimpleNamespace(
    bind_gin_variables=lambda *a: None,
    get_wind_field_factory=lambda name: None,
    create_agent=lambda *a, **kw: None)
env = types.SimpleNamespace(
    action_space=types.SimpleNamespace(n=3),
    observation_space=types.SimpleNamespace(shape=(4,)))
eval_program.gym = types.SimpleNamespace(make=lambda *a, **kw: env)
eval_program.eval_lib = types.SimpleNamespace(
    eval_agent=lambda agent, env, suite, **kw: flown.extend(suite.seeds))
eval_program.write_result = lambda result: None
for n in (7, 19, 38, 60):
  flown.clear()
  for k in range(n):
    flags.FLAGS(['demo', '--suite=medium_eval', f'--num_shards={n}',
                 f'--shard_idx={k}'])
    eval_program.main(['demo'])
  assert flown == suites.get_eval_suite('medium_eval').seeds, (n, len(flown))
''')

bug(
    id='bearing-ramp-unfinished', property='C29',
    needs='a balloon farther than 495 km from the station',
    breaks='The weight of the bearing does not reach its far value.',
    edits=[('agents/station_seeker_agent.py',
            '        0.0, 1.0)\n    bearing_weight =',
            '        0.0, 0.98)\n    bearing_weight =')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import features

x = np.zeros(1099, np.float64)
d = 600.0
x[7] = d / (d + 250.0)
k = 180
x[16 + 3 * k:19 + 3 * k] = [0.0, 1.0 / 3, 10.0 / 40.0]
agent = station_seeker_agent.StationSeekerAgent(3, [1099])
got = agent.wind_score(features.NamedPerciatelliFeatures(x), k)
alpha = np.exp(-d / 35)
want = (1 - alpha) * np.exp(-0.45 * np.pi / 3) + alpha * np.exp(-0.7)
assert abs(got - want) < 1e-9, (got, want)
''')

bug(
    id='exploration-waits-for-reward', property='C31',
    needs='a negative reward (of another reward function) in an exploratory '
          'phase',
    breaks='The exploratory agent is not asked after a negative reward.',
    edits=[('agents/marco_polo_exploration.py',
            '    if self._exploratory_phase:\n'
            '      return self._exploratory_agent.step(reward, observation)',
            '    if self._exploratory_phase and reward >= 0.0:\n'
            '      return self._exploratory_agent.step(reward, observation)')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import marco_polo_exploration


class Explorer:

  def __init__(self, *args):
    pass

  def begin_episode(self, observation):
    return 2

  def step(self, reward, observation):
    return 2


e = marco_polo_exploration.MarcoPoloExploration(
    3, [4], exploratory_episode_probability=1.0,
    exploratory_agent_constructor=Explorer, seed=1)
o = np.zeros(4)
e.begin_episode(o, 0)
actions = [e.step(-1.0, o, 0) for _ in range(119)]
assert actions == 79 * [0] + 40 * [2], actions
''')

bug(
    id='start-not-below-11450', property='C22',
    needs='an atmosphere in which 50,000 ft is above 11,450 Pa',
    breaks='Flights never start in the lowest part of the allowed range.',
    edits=[('utils/sampling.py',
            '    max_pressure = atmosphere.at_height('
            'altitude_safety.MIN_ALTITUDE).pressure\n',
            '    max_pressure = min(\n'
            '        atmosphere.at_height(altitude_safety.MIN_ALTITUDE)'
            '.pressure, 11_450)\n')],
    demo='''
import jax
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import sampling

key = jax.random.PRNGKey(0)
for i in range(40):
  atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(i))
  top = atmosphere.at_height(altitude_safety.MIN_ALTITUDE).pressure
  got = sampling.sample_pressure(key, atmosphere)
  want = jax.random.uniform(key, minval=6500, maxval=top).item()
  assert abs(got - want) < 0.1, (top, got, want)
''')

bug(
    id='winds-of-first-day', property='C04',
    needs='a flight of more than a day',
    breaks='After a day the balloon drifts with the winds of the day before '
           '(the days of its flight time are ignored).',
    edits=[('env/balloon_arena.py',
            '                                             '
            'self._balloon.state.time_elapsed)\n',
            '                                             dt.timedelta(\n'
            '                                                 seconds='
            'self._balloon.state.time_elapsed.seconds))\n')],
    demo='''
import datetime as dt
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import control

asked = []


class Winds(wind_field.SimpleStaticWindField):

  def get_forecast(self, x, y, pressure, elapsed_time):
    asked.append(elapsed_time)
    return super().get_forecast(x, y, pressure, elapsed_time)


arena = balloon_arena.BalloonArena(
    features.PerciatelliFeatureConstructor, Winds(), 3)
state = arena.get_balloon_state()
state.time_elapsed = dt.timedelta(hours=25)
arena.feature_constructor = features.PerciatelliFeatureConstructor(
    Winds(), arena._atmosphere)
asked.clear()
x, y = state.x, state.y
arena._get_wind_ground_truth_at_balloon()
assert asked == [dt.timedelta(hours=25)], asked
''')

bug(
    id='seed-31-bits', property='C01',
    needs='two seeds that differ from bit 31 on (seeds by the clock in '
          'microseconds do)',
    breaks='Different seeds give the same flight.',
    edits=[('env/balloon_env.py',
            '    self._rng = jax.random.PRNGKey(seed)',
            '    self._rng = jax.random.PRNGKey(seed & 0x7fffffff)')],
    demo='''
import numpy as np
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field

env = balloon_env.BalloonEnv(wind_field_factory=wind_field.SimpleStaticWindField)
a = env.reset(seed=5)
b = env.reset(seed=5 + 2**31)
assert not np.array_equal(a, b)
''')

bug(
    id='unsafe-top-accepted', property='C37',
    needs='a balloon whose superpressure at the top (or bottom) of its range is '
          'within 20 Pa below the buffer',
    breaks='The accessible range includes pressures at which the superpressure '
           'is below the safety buffer.',
    edits=[('env/balloon/pressure_range_builder.py',
            '  if min_superpressure <= sp <= max_superpressure:',
            '  if min_superpressure - sp <= 20.0 and sp <= max_superpressure:')],
    demo='''
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import envelope_safety
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import jax
import s2sphere as s2

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
checked = 0
for mols in range(5000, 7000, 8):
  for hour in (0, 12):
    b = balloon.BalloonState(
        center_latlng=s2.LatLng.from_degrees(3.0, 20.0), mols_lift_gas=mols,
        date_time=units.datetime(2013, 3, 25, hour, 25, 32),
        upwelling_infrared=235.0)
    try:
      r = pressure_range_builder.get_pressure_range(b, atmosphere)
    except ValueError:
      continue
    for p in (r.min_pressure, r.max_pressure):
      s = stable_init.calculate_stable_params_for_pressure(
          p, b.envelope_volume_base, b.envelope_volume_dv_pressure,
          b.envelope_mass, b.payload_mass, b.mols_lift_gas, b.latlng,
          b.date_time, b.upwelling_infrared, atmosphere)
      assert s.superpressure > envelope_safety.BUFFER - 3.0, (
          mols, hour, p, s.superpressure)
      checked += 1
assert checked > 100, checked
''')

bug(
    id='bootstrap-overrides-resumed', property='C39',
    needs='a bootstrapped run that is resumed after exactly one epoch',
    breaks='Its own progress is replaced by the other run again.',
    edits=[('generative/learn_wind_field_generator.py',
            '  if FLAGS.bootstrap_directory and optimizer.state.step == 0:',
            '  if (FLAGS.bootstrap_directory and\n'
            '      optimizer.state.step <= num_batches_per_epoch):')],
    demo='''
import sys
import types
import flax

optim = types.ModuleType('flax.optim')
sys.modules['flax.optim'] = flax.optim = optim
import jax.numpy as jnp
from absl import flags
from balloon_learning_environment.generative import learn_wind_field_generator as learn


class Optimizer:

  def __init__(self, step, name):
    self.state = types.SimpleNamespace(step=step)
    self.target, self.name = None, name


class Reservoir:

  def __init__(self, **kwargs):
    pass

  def get_eval_batch(self):
    return None

  def get_batch(self, batch_size):
    return jnp.ones((2, 3, 3, 2, 2, 2))


used = []


def train_step(optimizer, batch, key, kl):
  used.append(optimizer.name)
  return Optimizer(optimizer.state.step + 1, optimizer.name), 1., 1., 1., 1.


def restore(directory, optimizer):
  return {'own': Optimizer(10, 'own'), 'other': Optimizer(30, 'other')}[directory]


class Writer:

  def __init__(self, *args):
    pass

  def scalar(self, *args):
    pass


optim.Adam = lambda **kw: types.SimpleNamespace(
    create=lambda p: Optimizer(0, 'new'))
learn.jax = types.SimpleNamespace(**{
    **vars(learn.jax), 'device_put': lambda o: o})
learn.vae = types.SimpleNamespace(
    model=lambda: types.SimpleNamespace(init=lambda *a: None),
    FieldShape=lambda: types.SimpleNamespace(output_length=lambda: 4))
learn.dataset_wind_field_reservoir = types.SimpleNamespace(
    DatasetWindFieldReservoir=Reservoir)
learn.checkpoints = types.SimpleNamespace(
    restore_checkpoint=restore, save_checkpoint=lambda *a, **kw: None)
learn.tensorboard = types.SimpleNamespace(SummaryWriter=Writer)
learn.train_step = train_step
metrics = dict.fromkeys(('mse', 'kld', 'mean_speed_reconstructed',
                         'mean_speed_original', 'mean_speed_differential'), 1.0)
learn.evaluation = lambda optimizer, fields: (metrics, None, None)
flags.FLAGS(['demo', '--bootstrap_directory=other',
             '--checkpoint_directory=own'])
learn.train(num_batches_per_epoch=10, num_epochs=2, kl_schedule=lambda e: 1.0)
if used != 10 * ['own']:
  raise SystemExit(f'trained {used}')
''')

bug(
    id='latents-never-wide', property='C33',
    needs='an encoder that is very uncertain (log variance above 2)',
    breaks='The latents are sampled from a narrower distribution than encoded.',
    edits=[('generative/vae.py',
            '    std = jnp.exp(0.5 * logvar)',
            '    # Keep the exponential in range.\n'
            '    std = jnp.exp(0.5 * jnp.minimum(logvar, 2.0))')],
    demo='''
import flax
import jax
import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.generative import vae

model = vae.WindFieldVAE(num_latents=4)
x = jnp.zeros(vae.FieldShape().grid_shape())
params = flax.core.unfreeze(model.init(
    jax.random.PRNGKey(0), x, jax.random.PRNGKey(1)))
out = []
for b in (4.0, 8.0):
  params['params']['encoder']['logvar']['bias'] = jnp.full((4,), b)
  out.append(np.asarray(model.apply(
      params, x, jax.random.PRNGKey(2)).reconstruction))
assert not np.allclose(out[0], out[1])
''')

bug(
    id='network-inputs-clipped', property='C32',
    needs='an input beyond 100 (features are not bounded by the interface)',
    breaks='The values do not depend on how far beyond.',
    edits=[('agents/networks.py',
            '    kernel_initializer = jax.nn.initializers.glorot_uniform()\n'
            '    x = x.astype(jnp.float32)  # Convert to JAX float32 type.\n'
            '    x = x.reshape(-1)  # Flatten.\n',
            '    kernel_initializer = jax.nn.initializers.glorot_uniform()\n'
            '    x = x.astype(jnp.float32)  # Convert to JAX float32 type.\n'
            '    # Flatten.\n'
            '    x = jnp.clip(x.reshape(-1), -100.0, 100.0)\n')],
    demo='''
import jax
import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.agents import networks

net = networks.MLPNetwork(num_actions=3, num_layers=1, hidden_units=4)
params = net.init(jax.random.PRNGKey(0), jnp.zeros(5))
one = np.asarray(net.apply(params, jnp.ones(5)))
far = np.asarray(net.apply(params, 1000 * jnp.ones(5)))
assert np.allclose(far, 1000 * one, rtol=1e-3), (one, far)
''')

bug(
    id='features-before-winds', property='C40',
    needs='a feature constructor of the user\'s that looks at the forecast when '
          'it is made, from the second episode on',
    breaks='The feature constructor of an episode is made before the winds are '
           'reset, and sees those of the last episode.',
    edits=[('env/balloon_arena.py',
            "    self._rng, wind_field_key = jax.random.split(self._rng, 2)\n"
            "    self._wind_field.reset(wind_field_key, start_date_time)\n"
            "\n"
            "    self.feature_constructor = self._feature_constructor_factory(\n"
            "        self._wind_field, self._atmosphere)\n",
            "    self.feature_constructor = self._feature_constructor_factory(\n"
            "        self._wind_field, self._atmosphere)\n"
            "\n"
            "    self._rng, wind_field_key = jax.random.split(self._rng, 2)\n"
            "    self._wind_field.reset(wind_field_key, start_date_time)\n")],
    demo='''
import datetime as dt
import gym
import numpy as np
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

here = dict(x=units.Distance(km=1), y=units.Distance(km=2), pressure=9000.0,
            elapsed_time=dt.timedelta(0))
made = []


class Field(wind_field.WindField):
  wind = 0.0

  def reset_forecast(self, key, date_time):
    self.wind = float(np.asarray(key).sum() % 997) / 50.0

  def get_forecast(self, x, y, pressure, elapsed_time):
    return wind_field.WindVector(units.Velocity(mps=self.wind),
                                 units.Velocity(mps=0.0))


class Features(features.FeatureConstructor):

  def __init__(self, forecast, atmosphere):
    self.wind = forecast.get_forecast(**here).u.meters_per_second
    made.append(self.wind)

  def observe(self, observation):
    pass

  def get_features(self):
    return np.array([self.wind])

  @property
  def observation_space(self):
    return gym.spaces.Box(-50, 50, (1,), np.float64)


env = balloon_env.BalloonEnv(feature_constructor_factory=Features,
                             wind_field_factory=Field, seed=3)
for seed in (5, 6, 7):
  obs = env.reset(seed=seed)
  now = env.get_simulator_state().wind_field.get_forecast(**here)
  assert obs[0] == now.u.meters_per_second, (obs, now)
''')

bug(
    id='rewards-clipped', property='C40',
    needs='a reward function of the user\'s that gives more than 1 or less than '
          '-1',
    breaks='Rewards are clipped to [-1, 1].',
    edits=[('env/balloon_env.py',
            "    reward = self._reward_fn(simulator_state)\n",
            "    reward = min(max(self._reward_fn(simulator_state), -1.0), 1.0)\n"
            )],
    demo='''
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field

env = balloon_env.BalloonEnv(
    reward_function=lambda s: -s.balloon_state.time_elapsed.total_seconds(),
    wind_field_factory=wind_field.SimpleStaticWindField, seed=3)
for i in range(3):
  _, reward, _, _ = env.step(1)
  assert reward == -180.0 * (i + 1), reward
''')

bug(
    id='features-as-floats', property='C40',
    needs='a feature constructor of the user\'s whose features are wider than '
          'float32 or no floats at all',
    breaks='Observations of a step are cast to float32, those of a reset and '
           'the observation space are not.',
    edits=[('env/balloon_env.py',
            "    assert isinstance(observation, np.ndarray)\n",
            "    observation = np.asarray(observation, np.float32)\n")],
    demo='''
import gym
import numpy as np
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field


class Clock(features.FeatureConstructor):

  def __init__(self, forecast, atmosphere):
    pass

  def observe(self, observation):
    self.now = observation.balloon_observation.date_time.timestamp()

  def get_features(self):
    return np.array([self.now])

  @property
  def observation_space(self):
    return gym.spaces.Box(0, 1e10, (1,), np.float64)


env = balloon_env.BalloonEnv(
    feature_constructor_factory=Clock, seed=3,
    wind_field_factory=wind_field.SimpleStaticWindField)
first = env.reset(seed=4)
second = env.step(1)[0]
assert second.dtype == env.observation_space.dtype == first.dtype
assert second[0] == first[0] + 180.0, (first, second)
''')
