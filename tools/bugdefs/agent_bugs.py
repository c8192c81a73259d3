"""Planted bugs in evaluation, training, agents and files."""
BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(
    id='eval-flags-leak', property='C24',
    needs='an evaluation of two or more seeds of which an earlier flight '
          'ended in a failure and a later one did not',
    breaks='A flight that ran to its end is reported with the failure of an '
           'earlier flight.',
    edits=[('eval/eval_lib.py',
            '''  for seed_idx, seed in enumerate(eval_suite.seeds):
''',
            '''  out_of_power = envelope_burst = zeropressure = False
  for seed_idx, seed in enumerate(eval_suite.seeds):
'''),
           ('eval/eval_lib.py',
            '''    out_of_power = False
    envelope_burst = False
    zeropressure = False
    while''', '''    while''')],
    demo='''
import types
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites


class Env(balloon_env.BalloonEnv):
  """Fails at once in episodes of an even seed."""

  def seed(self, seed):
    super().seed(seed)
    self.current = seed

  def step(self, action):
    obs, reward, done, info = super().step(action)
    if self.current % 2 == 0:
      return obs, reward, True, dict(info, envelope_burst=True)
    return obs, reward, done, info


env = Env(wind_field_factory=wind_field.SimpleStaticWindField, seed=0)
agent = base_agent.RandomAgent(3, env.observation_space.shape)
results = eval_lib.eval_agent(agent, env, suites.EvaluationSuite([2, 3, 4], 3))
got = [(r.final_timestep, r.envelope_burst) for r in results]
assert got == [(1, True), (3, False), (1, True)], got
''')

bug(
    id='eval-last-action-reward', property='C24',
    needs='an evaluation with a render period',
    breaks='Steps that are not rendered and follow the first rendered one are '
           'not counted as time within the radius at the right step: a flight '
           'that fails is divided by the full episode length.',
    edits=[('eval/eval_lib.py',
            '    twr = steps_within_radius / step_count\n',
            '    twr = steps_within_radius / (\n'
            '        eval_suite.max_episode_length if zeropressure else step_count)\n')],
    demo='''
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites


class Env(balloon_env.BalloonEnv):
  """Zeropressures at the second step, within an enormous radius."""

  def step(self, action):
    obs, reward, done, info = super().step(action)
    self.count = getattr(self, 'count', 0) + 1
    done = self.count % 2 == 0
    return obs, reward, done, dict(info, zeropressure=done)


env = Env(wind_field_factory=wind_field.SimpleStaticWindField, seed=0,
          station_keeping_radius_km=1e6)
agent = base_agent.RandomAgent(3, env.observation_space.shape)
results = eval_lib.eval_agent(agent, env, suites.EvaluationSuite([2, 3], 6))
got = [(r.final_timestep, r.time_within_radius) for r in results]
assert got == [(2, 1.0), (2, 1.0)], got
''')

bug(
    id='random-walk-time-not-reset', property='C30',
    needs='a second episode of the same agent',
    breaks='The walk of a later episode is as wide as if the first had never '
           'ended.',
    edits=[('agents/random_walk_agent.py',
            '''    self._time_elapsed = dt.timedelta()
    self._sample_new_target_pressure()
    return''', '''    self._sample_new_target_pressure()
    return''')],
    demo='''
import datetime as dt
import numpy as np
from balloon_learning_environment.agents import random_walk_agent

agent = random_walk_agent.RandomWalkAgent(3, (1099,), seed=1)
obs = np.zeros(1099, dtype=np.float32)
obs[0] = 0.5
agent.begin_episode(obs)
for _ in range(500):
  agent.step(0.0, obs)
moves = []
for _ in range(60):
  agent.begin_episode(obs)
  before = agent._target_pressure
  agent.step(0.0, obs)
  moves.append(abs(agent._target_pressure - before))
# The first move is a normal of deviation 180 s x 0.1666 Pa/s, about 30 Pa.
assert np.median(moves) < 200.0, np.median(moves)
''')

bug(
    id='exploration-phase-kept', property='C31',
    needs='an episode that ends in its exploratory phase, then another',
    breaks='An episode can begin in the exploratory phase.',
    edits=[('agents/marco_polo_exploration.py',
            '''    # We always start in the RL phase.
    self._exploratory_phase = False
    return action''', '''    if not self._exploratory_episode:
      self._exploratory_phase = False
    return action''')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import marco_polo_exploration


class Explorer(base_agent.Agent):

  def begin_episode(self, observation):
    return 0

  def step(self, reward, observation):
    return 0

  def end_episode(self, reward, terminal=True):
    pass


e = marco_polo_exploration.MarcoPoloExploration(
    3, (1,), exploratory_episode_probability=1.0,
    exploratory_agent_constructor=lambda n, s: Explorer(n, s), seed=0)
obs = np.zeros(1)
e.begin_episode(obs, 2)
actions = [e.step(0.0, obs, 2) for _ in range(90)]  # 4.5 h.
assert actions[-1] == 0 and actions[0] == 2
e.begin_episode(obs, 2)
assert e.step(0.0, obs, 2) == 2
''')

bug(
    id='seeker-hysteresis-one-sided', property='C29',
    needs='two levels at different distances from the balloon, one above it, '
          'whose other scores are nearly equal',
    breaks='Levels above the balloon gain a bonus where they should have a '
           'cost.',
    edits=[('agents/station_seeker_agent.py',
            '    level_distance = np.abs(level - midpoint)\n',
            '    level_distance = np.clip(level - midpoint, 0, None)\n')],
    demo='''
import numpy as np
from balloon_learning_environment.agents import station_seeker_agent

obs = np.zeros(1099, dtype=np.float32)
obs[7] = 0.5
obs[8] = 1.0
winds = obs[16:].reshape(-1, 3)
winds[:] = (0.0, 1.0, 1.0)
winds[180] = winds[100] = (0.1, 0.3, 0.2)
agent = station_seeker_agent.StationSeekerAgent(3, (1099,))
assert agent.begin_episode(obs) == 1  # Stay: the same wind, and no cost.
''')

bug(
    id='render-old-flight', property='C36',
    needs='a second episode shown by the same renderer',
    breaks='The path of the last episode is still drawn in the next.',
    edits=[('env/balloon_env.py',
            '      self._renderer.reset()\n',
            '      if self._global_iteration == 0:\n'
            '        self._renderer.reset()\n')],
    demo='''
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer

renderer = matplotlib_renderer.MatplotlibRenderer()
env = balloon_env.BalloonEnv(
    wind_field_factory=wind_field.SimpleStaticWindField, seed=0,
    renderer=renderer)
for _ in range(3):
  env.step(1)
env.reset()
env.step(1)
assert len(renderer._trajectory) == 2, len(renderer._trajectory)
''')

bug(
    id='gin-files-override-bindings', property='C35',
    needs='a command-line binding of a value the gin file also sets',
    breaks='The gin file wins over the bindings given on the command line.',
    edits=[('utils/run_helpers.py',
            '''  gin.parse_config_files_and_bindings(
      gin_files, bindings=gin_bindings, skip_unknown=False)
''', '''  with gin.unlock_config():
    gin.parse_config(list(gin_bindings), skip_unknown=False)
  gin.parse_config_files_and_bindings(
      gin_files, bindings=(), skip_unknown=False)
''')],
    demo='''
import gin
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.utils import run_helpers

run_helpers.bind_gin_variables(
    'dqn', gin_bindings=[
        'balloon_learning_environment.agents.dqn_agent.DQNAgent.'
        'checkpoint_duration = 7'])
got = gin.query_parameter('balloon_learning_environment.agents.dqn_agent.'
                          'DQNAgent.checkpoint_duration')
assert got == 7, got
''')

bug(
    id='shards-rounded', property='C25',
    needs='a number of seeds that is no multiple of the number of shards',
    breaks='Shards of rounded size: the last seeds belong to no shard.',
    edits=[('eval/eval.py',
            '''    start = int(len(eval_suite.seeds) * FLAGS.shard_idx / FLAGS.num_shards)
    end = int(len(eval_suite.seeds) * (FLAGS.shard_idx + 1) / FLAGS.num_shards)
''',
            '''    shard_size = round(len(eval_suite.seeds) / FLAGS.num_shards)
    start = shard_size * FLAGS.shard_idx
    end = shard_size * (FLAGS.shard_idx + 1)
''')],
    demo='''
import sys
from unittest import mock
from absl import flags
import gin
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.eval import eval as eval_main
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites

seeds = list(range(10))
seen = []
for shard in range(4):
  flags.FLAGS(['eval', '--agent=random', '--wind_field=simple',
               '--num_shards=4', f'--shard_idx={shard}'])
  with mock.patch.object(
      suites, 'get_eval_suite',
      lambda name: suites.EvaluationSuite(list(seeds), 2)), mock.patch.object(
          eval_lib, 'eval_agent',
          lambda a, e, s, **kw: seen.extend(s.seeds) or []), mock.patch.object(
              eval_main, 'write_result', lambda r: None):
    gin.clear_config()
    eval_main.main(['eval'])
assert sorted(seen) == seeds, seen
''')

bug(
    id='mlp-learns-from-eval', property='C32',
    needs='steps in evaluation mode between training steps of one agent',
    breaks='After evaluation steps the next update joins the state of before '
           'the evaluation to the observation after it.',
    edits=[('agents/mlp_agent.py',
            '''      logging.info('Loss: %f', loss)

    self.last_state = observation
    self.last_action = action
''', '''      logging.info('Loss: %f', loss)
      self.last_state = observation
      self.last_action = action

''')],
    demo='''
import numpy as np
import gin
from balloon_learning_environment.agents import mlp_agent

gin.parse_config(['networks.MLPNetwork.num_layers=2',
                  'networks.MLPNetwork.hidden_units=4'])
agent = mlp_agent.MLPAgent(3, (5,), seed=0)
rng = np.random.default_rng(0)
obs = [rng.normal(size=5).astype(np.float32) for _ in range(4)]
agent.set_mode('eval')
agent.begin_episode(obs[0])
agent.step(0.0, obs[1])
agent.set_mode('train')
last = agent.last_state
np.testing.assert_array_equal(last, obs[1])
''')

bug(
    id='start-below-floor', property='C22',
    needs='an atmosphere in which 50,000 ft is above 11,400 Pa and a draw '
          'near the upper end',
    breaks='A balloon can start below the minimum altitude.',
    edits=[('utils/sampling.py',
            '''    max_pressure = atmosphere.at_height(altitude_safety.MIN_ALTITUDE).pressure
''', '''    max_pressure = max(
        atmosphere.at_height(altitude_safety.MIN_ALTITUDE).pressure, 11_700)
''')],
    demo='''
import jax
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import sampling

for i in range(25):
  atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(i))
  floor = atmosphere.at_height(altitude_safety.MIN_ALTITUDE).pressure
  for j in range(60):
    p = sampling.sample_pressure(jax.random.PRNGKey(j), atmosphere)
    assert p <= floor * (1 + 1e-5), (i, j, p, floor)
''')

bug(
    id='reward-above-one', property='C03',
    needs='a descent command that a safety layer overruled (no compressor '
          'power used), without excess energy',
    breaks='The penalty for power becomes a bonus when the compressor does '
           'not run: rewards above one.',
    edits=[('env/balloon_env.py',
            '    scale = transforms.linear_rescale_with_saturation(\n',
            '    scale = transforms.linear_rescale_with_extrapolation(\n')],
    demo='''
import datetime as dt
import types
import jax
import s2sphere as s2
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.utils import units

state = balloon.BalloonState(
    center_latlng=s2.LatLng.from_degrees(0.0, 0.0),
    date_time=dt.datetime(2013, 3, 21, 2, 0, tzinfo=dt.timezone.utc))
state.last_command = control.AltitudeControlCommand.DOWN
state.acs_power = units.Power(watts=0.0)
reward = balloon_env.perciatelli_reward_function(
    types.SimpleNamespace(balloon_state=state))
assert reward == 0.95, reward
''')

bug(
    id='ballonet-below-empty', property='C05',
    needs='a balloon whose ballonet is empty and that is told to ascend',
    breaks='The ballonet holds a negative amount of air.',
    edits=[('env/balloon/balloon.py',
            "  state_changes['mols_air'] = max(state_changes['mols_air'], 0.0)\n",
            "  if state.mols_air > 0.0:\n"
            "    state_changes['mols_air'] = max(state_changes['mols_air'], 0.0)\n")],
    demo='''
import datetime as dt
import jax
import s2sphere as s2
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.utils import units

atmosphere = standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
state = balloon.BalloonState(
    center_latlng=s2.LatLng.from_degrees(0.0, 0.0), pressure=6500.0,
    date_time=dt.datetime(2013, 3, 21, 12, 0, tzinfo=dt.timezone.utc))
stable_init.cold_start_to_stable_params(state, atmosphere)
state.mols_air = 0.0
b = balloon.Balloon(state)
still = wind_field.WindVector(units.Velocity(mps=0.0), units.Velocity(mps=0.0))
b.simulate_step(still, atmosphere, control.AltitudeControlCommand.UP,
                dt.timedelta(seconds=30))
assert state.mols_air >= 0.0, state.mols_air
''')

bug(
    id='sunset-just-past', property='C12',
    needs='a time within three minutes after a sunset',
    breaks='The next sunset returned can lie in the past by up to one step '
           'of the search.',
    edits=[('env/balloon/solar.py',
            '  if sunset < time:\n', '  if sunset < time - time_delta:\n')],
    demo='''
import datetime as dt
import s2sphere as s2
from balloon_learning_environment.env.balloon import solar

latlng = s2.LatLng.from_degrees(4.0, 23.0)
time = dt.datetime(2013, 3, 21, 12, 0, tzinfo=dt.timezone.utc)
_, sunset = solar.get_next_sunrise_sunset(latlng, time)
for seconds in range(-120, 600, 7):
  now = sunset + dt.timedelta(seconds=seconds)
  rise, setting = solar.get_next_sunrise_sunset(latlng, now)
  assert rise >= now and setting >= now, (seconds, setting - now)
''')

bug(
    id='cold-balloon-convection', property='C13',
    needs='a balloon colder than the air around it',
    breaks='Natural convection warms a cold balloon as if the air were still.',
    edits=[('env/balloon/thermal.py',
            '''              (viscosity**2))) * np.abs(ambient_temperature_k -
                                        balloon_temperature_k)
''', '''              (viscosity**2))) * np.maximum(
                  balloon_temperature_k - ambient_temperature_k, 0.0)
''')],
    demo='''
from balloon_learning_environment.env.balloon import thermal

warm = thermal.convective_heat_air_factor(8.0, 230.0, 215.0, 9000.0)
cold = thermal.convective_heat_air_factor(8.0, 200.0, 215.0, 9000.0)
assert abs(cold + warm) < 1e-9 * abs(warm), (warm, cold)
''')


bug(
    id='atmosphere-remembered', property='C10',
    needs='an atmosphere reset after it was asked for a pressure, and asked '
          'for the same pressure again',
    breaks='After a reset heights and temperatures of pressures seen before '
           'are those of the old atmosphere.',
    edits=[('env/balloon/standard_atmosphere.py', 'import dataclasses\n',
            'import dataclasses\nimport functools\n'),
           ('env/balloon/standard_atmosphere.py',
            '''  def at_pressure(self, pressure: float) -> AtmosphericValues:
    """Computes atmosphere values at a specific pressure."""
''', '''  @functools.lru_cache(maxsize=4096)
  def at_pressure(self, pressure: float) -> AtmosphericValues:
    """Computes atmosphere values at a specific pressure (remembered)."""
''')],
    demo='''
import jax
from balloon_learning_environment.env.balloon import standard_atmosphere

used = standard_atmosphere.Atmosphere(jax.random.PRNGKey(1))
used.at_pressure(9000.0)
used.reset(jax.random.PRNGKey(2))
new = standard_atmosphere.Atmosphere(jax.random.PRNGKey(2))
assert used.at_pressure(9000.0) == new.at_pressure(9000.0)
''')

bug(
    id='duration-zero-keeps-all', property='C28',
    needs='an agent with checkpoint_duration 0 (keep only the newest)',
    breaks='A checkpoint duration of zero is taken for none: old checkpoints '
           'stay forever.',
    edits=[('agents/dqn_agent.py',
            '    if self._checkpoint_duration is not None:\n',
            '    if self._checkpoint_duration:\n')],
    demo='''
import os
import tempfile
from unittest import mock
from balloon_learning_environment.agents import dqn_agent
from dopamine.jax.agents.dqn import dqn_agent as dopamine_dqn

agent = dqn_agent.DQNAgent.__new__(dqn_agent.DQNAgent)
agent._checkpoint_duration = 0
with mock.patch.object(dopamine_dqn.JaxDQNAgent, 'bundle_and_checkpoint',
                       lambda *args: {'x': 1}):
  with tempfile.TemporaryDirectory() as d:
    for i in range(4):
      agent.save_checkpoint(d, i)
    left = sorted(os.listdir(d))
assert left == ['checkpoint_00003.pkl'], left
''')

bug(
    id='reservoir-repeats', property='C34',
    needs='a training batch of several fields',
    breaks='A training batch can hold the same field twice.',
    edits=[('generative/dataset_wind_field_reservoir.py',
            '        replace=False)\n', '        replace=batch_size > 1)\n')],
    demo='''
import numpy as np
from balloon_learning_environment.generative import dataset_wind_field_reservoir

data = np.arange(12.0).reshape(12, 1)
r = dataset_wind_field_reservoir.DatasetWindFieldReservoir(
    data, eval_batch_size=4)
for _ in range(20):
  batch = np.asarray(r.get_batch(8)).ravel().tolist()
  assert sorted(batch) == list(range(8)), batch
''')

bug(
    id='console-own-count', property='C27',
    needs='a fine-grained console log with a frequency above one, over two '
          'episodes',
    breaks='Steps are picked by a count that runs on through episodes.',
    edits=[('metrics/console_collector.py',
            '''    self._fine_grained_frequency = fine_grained_frequency

  def get_name''', '''    self._fine_grained_frequency = fine_grained_frequency
    self._num_steps = 0

  def get_name'''),
           ('metrics/console_collector.py',
            '''    if (self._fine_grained_logging
        and statistics.step % self._fine_grained_frequency == 0):
''', '''    self._num_steps += 1
    if (self._fine_grained_logging
        and (self._num_steps - 1) % self._fine_grained_frequency == 0):
''')],
    demo='''
import os
import re
import tempfile
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import statistics_instance

with tempfile.TemporaryDirectory() as d:
  c = console_collector.ConsoleCollector(d, 3, 0, fine_grained_logging=True,
                                         fine_grained_frequency=3)
  c.pre_training()
  for _ in range(2):
    c.begin_episode()
    for i in range(8):
      c.step(statistics_instance.StatisticsInstance(i, 1, 0.5, False))
    c.end_episode(statistics_instance.StatisticsInstance(8, 1, 0.5, True))
  c.end_training()
  text = ''.join(open(os.path.join(folder, f)).read()
                 for folder, _, files in os.walk(d) for f in files)
got = re.findall(r'Step: ([0-9]+)', text)
assert got == ['0', '3', '6'] * 2, got
''')
