"""Scripted environments and agents that record how they are driven."""

import datetime as dt
import hashlib

import gym
import numpy as np

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.utils import units


def rnd(*parts):
  h = hashlib.sha256(repr(parts).encode()).digest()
  return np.random.default_rng(int.from_bytes(h[:8], 'big'))


def seed_of(*parts):
  return hashlib.sha256(repr(parts).encode()).digest()[9]


class Script:
  """The episode of one seed: rewards, positions, and how it ends."""

  def __init__(self, salt, seed, radius_km=50.0, max_len=24):
    r = rnd(salt, seed)
    self.length = int(r.integers(1, max_len))   # Terminal at this step.
    self.kind = ['out_of_power', 'envelope_burst', 'zeropressure'][
        int(r.integers(0, 3))]
    self.rewards = [float(v) for v in r.random(max_len)]
    if seed_of(salt, seed) % 4 == 0:
      # Reward functions are configurable: any sign and size may come.
      self.rewards = [(v, -v, 0.0, 40 * v - 20)[i % 4]
                      for i, v in enumerate(self.rewards)]
    dist = r.choice([0.0, 20.0, radius_km - 1e-6, radius_km, radius_km + 1e-6,
                     80.0, 300.0], max_len)
    ang = r.random(max_len) * 2 * np.pi
    ang[dist == radius_km] = 0.0    # Exactly at the radius.
    self.x = [float(v) for v in dist * np.cos(ang)]
    self.y = [float(v) for v in dist * np.sin(ang)]
    self.pressure = [float(v) for v in r.uniform(5000, 13000, max_len)]
    self.sp = [float(v) for v in r.uniform(-10, 2500, max_len)]
    self.soc = [float(v) for v in r.random(max_len)]


class FakeState:

  def __init__(self, script, i):
    self.x = units.Distance(km=script.x[i])
    self.y = units.Distance(km=script.y[i])
    self.pressure = script.pressure[i]
    self.superpressure = script.sp[i]
    self.time_elapsed = dt.timedelta(minutes=3 * (i + 1))
    self.battery_soc = script.soc[i]


class FakeSimState:

  def __init__(self, script, i):
    self.balloon_state = FakeState(script, i)


class FakeEnv(gym.Env):
  """Plays Script(salt, seed); logs every call in `log`."""
  metadata = {'render.modes': ['human']}
  action_space = gym.spaces.Discrete(3)
  observation_space = gym.spaces.Box(-np.inf, np.inf, (4,), np.float32)
  reward_range = (0.0, 1.0)

  def __init__(self, salt=0, radius_km=50.0, log=None, terminal_free=False,
               crash_at=None, **unused):
    self.salt, self.radius = salt, units.Distance(km=radius_km)
    self.radius_km = radius_km
    self.log = [] if log is None else log
    self.seeds = 0
    self.script = None
    self.i = -1
    self.terminal_free = terminal_free
    self.crash_at = crash_at
    self.steps = 0
    self._seed = 0

  def seed(self, seed=None):
    self.log.append(('seed', seed))
    self._seed, self.seeds = seed, 0

  def observation(self, i):
    return np.array([self._seed, self.seeds, i, 0.5], np.float32)

  def reset(self, *, seed=None, return_info=False, options=None):
    if seed is not None:
      self._seed, self.seeds = seed, 0
    self.seeds += 1
    key = self._seed if self.seeds == 1 else (self._seed, self.seeds)
    self.script = Script(self.salt, key, self.radius_km)
    self.i = -1
    o = self.observation(0)
    self.log.append(('reset', o.tolist()))
    return (o, {}) if return_info else o

  def step(self, action):
    self.steps += 1
    if self.crash_at is not None and self.steps >= self.crash_at:
      raise Crash(f'step {self.steps}')
    self.i += 1
    s = self.script
    done = self.i + 1 >= s.length and not self.terminal_free
    # What is rewarded depends on the action, as does the observation.
    self.i = min(self.i, len(s.rewards) - 1)
    r = s.rewards[self.i] * (1.0 - 0.1 * int(action))
    o = self.observation(self.i + 1)
    o[3] = float(action)
    self.log.append(('step', int(action), r, o.tolist(), done))
    info = {k: done and k == s.kind
            for k in ('out_of_power', 'envelope_burst', 'zeropressure')}
    info['time_elapsed'] = dt.timedelta(minutes=3 * (self.i + 1))
    return o, r, done, info

  def get_simulator_state(self):
    return FakeSimState(self.script, max(self.i, 0))

  def render(self, mode='human'):
    self.log.append(('render',))


class Crash(Exception):
  """An injected fault."""


class FakeAgent(base_agent.Agent):
  """Deterministic policy of the observation; logs every call."""

  def __init__(self, num_actions=3, observation_shape=(4,), log=None,
               store=None, as_array=False, crash_at=None):
    self.log = [] if log is None else log
    self.store = store          # dict: iteration -> state
    self.episodes = 0           # Learned state: episodes seen.
    self.writer = 'unset'
    self.crash_at = crash_at
    self.ops = 0
    super().__init__(num_actions, observation_shape)

  def _tick(self):
    self.ops += 1
    if self.crash_at is not None and self.ops >= self.crash_at:
      raise Crash(f'agent operation {self.ops}')

  def _act(self, o):
    o = np.asarray(o, np.float64)
    return int(abs(int(o[0] * 7 + o[2] * 3 + o[3]))) % 3

  def get_name(self):
    return 'FakeAgent'

  def begin_episode(self, observation):
    self._tick()
    a = self._act(observation)
    self.log.append(('begin', np.asarray(observation).tolist(), a))
    return a

  def step(self, reward, observation):
    self._tick()
    a = self._act(observation)
    self.log.append(('act', float(reward), np.asarray(observation).tolist(),
                     a))
    return a

  def end_episode(self, reward, terminal=True):
    self._tick()
    self.episodes += 1
    self.log.append(('end', float(reward), bool(terminal)))

  def set_mode(self, mode):
    if hasattr(self, 'log'):
      self.log.append(('mode', base_agent.AgentMode(mode).value))

  def set_summary_writer(self, summary_writer):
    self.writer = summary_writer
    self.log.append(('writer', summary_writer))

  def save_checkpoint(self, checkpoint_dir, iteration_number):
    self._tick()
    self.log.append(('save', str(checkpoint_dir), iteration_number))
    if self.store is not None:
      self.store[iteration_number] = self.episodes

  def load_checkpoint(self, checkpoint_dir, iteration_number):
    self.log.append(('load', str(checkpoint_dir), iteration_number))
    self.episodes = self.store[iteration_number]

  def reload_latest_checkpoint(self, checkpoint_dir):
    self.log.append(('reload', str(checkpoint_dir)))
    if not self.store:
      return -1
    n = max(self.store)
    self.episodes = self.store[n]
    return n


def expected(salt, seed, radius, max_len):
  """What flying the scripted episode of a seed gives."""
  s = Script(salt, seed, radius)
  n = min(s.length, max_len)
  done = s.length <= max_len
  ag = FakeAgent()
  obs = np.array([seed, 1, 0, 0.5], np.float32)
  a = ag.begin_episode(obs)
  rewards, actions = [], []
  for i in range(n):
    actions.append(a)
    rewards.append(s.rewards[min(i, len(s.rewards) - 1)] * (1.0 - 0.1 * a))
    obs = np.array([seed, 1, i + 1, a], np.float32)
    a = ag.step(rewards[-1], obs)
  return s, n, done, rewards, actions
