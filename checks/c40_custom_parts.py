"""C40: the parts an environment is configured with are used as they are."""

import datetime as dt

import gym
import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import envs
from vlib import gen
from vlib.core import require, require_close, sub

import balloon_learning_environment.env.gym  # Registers the environment.
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.utils import units

ENV_ID = 'BalloonLearningEnvironment-v0'
POINTS = [(0.0, 0.0, 9000.0, 0), (1.5e5, -2e5, 6200.0, 40000),
          (-9e4, 3e5, 12500.0, 170000)]


def D(m):
  return units.Distance(m=m)


class Field(wind_field.WindField):
  """Winds that depend on everything; with or without noise of its own."""

  def __init__(self, scale, noise):
    super().__init__()
    self.scale, self.noise = scale, noise
    self.resets, self.offset = [], 0.0

  def reset_forecast(self, key, date_time):
    key = np.asarray(key).tolist()
    self.resets.append((key, date_time))
    self.offset = (sum(key) % 1009) / 100.0

  def get_forecast(self, x, y, pressure, elapsed_time):
    h = elapsed_time.total_seconds() / 3600.0
    return wind_field.WindVector(
        units.Velocity(mps=self.scale * (
            self.offset + x.km * 0.02 - pressure * 4e-4 + h * 0.5)),
        units.Velocity(mps=self.scale * (
            self.offset - y.km * 0.03 + pressure * 3e-4 - h * 0.7)))

  def get_ground_truth(self, x, y, pressure, elapsed_time):
    if self.noise == 'simplex':
      return super().get_ground_truth(x, y, pressure, elapsed_time)
    w = self.get_forecast(x, y, pressure, elapsed_time)
    if self.noise == 'none':
      return w
    return w.add(wind_field.WindVector(    # Always wrong in the same way.
        units.Velocity(mps=1.25), units.Velocity(mps=-0.75)))


def forecasts(field):
  return [envs.wind_of(field.get_forecast(
      D(x), D(y), p, dt.timedelta(seconds=t))) for x, y, p, t in POINTS]


SHAPES = {'vector': (5,), 'one': (1,), 'matrix': (3, 2), 'scalar': ()}


class Recorder(features.FeatureConstructor):
  """A feature constructor with a history of its own."""

  def __init__(self, log, shape, dtype, forecast, atmosphere):
    self.shape, self.dtype = shape, dtype
    self.forecast, self.atmosphere = forecast, atmosphere
    self.seen, self.given = [], []
    if forecast is not None:    # It may well look at them when it is made.
      self.first = forecasts(forecast), atmosphere.at_pressure(9000.0)
    log.append(self)

  def observe(self, observation):
    self.seen.append((envs.plain(observation.balloon_observation),
                      envs.wind_of(observation.wind_at_balloon), observation))

  def get_features(self):
    n = len(self.seen)
    out = np.asarray(np.arange(np.prod(self.shape, dtype=int)).reshape(
        self.shape) * 7 - 1000 * n, self.dtype)
    self.given.append(out.copy())
    return out

  @property
  def observation_space(self):
    return gym.spaces.Box(-1e5, 1e5, self.shape, self.dtype)


class Reward:

  def __init__(self, values):
    self.values, self.calls = values, []

  def __call__(self, state):
    self.calls.append((envs.plain(state.balloon_state), state.wind_field))
    return self.values[(len(self.calls) - 1) % len(self.values)]


def rewards():
  return st.lists(st.one_of(
      gen.uf(-1e9, 1e9), gen.uf(-2, 2), st.integers(-5, 5),
      st.sampled_from([0.0, -0.0, 1.0 + 1e-12, -1e-12, 1e300, float('inf')])),
                  min_size=1, max_size=6)


def same_features(got, want, space, msg):
  require(isinstance(got, np.ndarray), f'{msg}: type', got=type(got))
  require(got.dtype == want.dtype and got.shape == want.shape, f'{msg}: form',
          got=(got.dtype, got.shape), want=(want.dtype, want.shape))
  require(np.array_equal(got, want), f'{msg}: values', got=got, want=want)
  require(space.shape == want.shape and space.dtype == want.dtype and
          space.low.min(initial=-1e5) == -1e5, f'{msg}: observation space')


def build(case, log, seed):
  field = Field(case['scale'], case['noise'])
  reward = Reward(case['rewards'])
  made = []

  def fields():
    made.append(1)
    return field

  kw = dict(
      feature_constructor_factory=lambda w, a: Recorder(
          log, SHAPES[case['shape']], np.dtype(case['dtype']), w, a),
      reward_function=reward, wind_field_factory=fields, seed=seed)
  if case['registered']:
    env = gym.make(ENV_ID, disable_env_checker=True, **kw)
  else:
    env = balloon_env.BalloonEnv(**kw)
  require(len(made) == 1, 'one wind field for one environment')
  return env, field, reward


def check_observed(r, env, field, n, msg):
  """The last of n observations is the present state, and the true wind."""
  s = env.get_simulator_state()
  require(len(r.seen) == n, f'{msg}: one observation per step',
          got=len(r.seen), want=n)
  seen, wind, obs = r.seen[-1]
  require(isinstance(obs, simulator_data.SimulatorObservation),
          f'{msg}: type of the observation')
  b = s.balloon_state
  require(seen == envs.plain(b), f'{msg}: the present state is observed')
  truth = envs.wind_of(field.get_ground_truth(
      b.x, b.y, b.pressure, b.time_elapsed))
  require(wind == truth, f'{msg}: the wind at the balloon is observed',
          got=wind, want=truth)
  require(s.wind_field is field, f'{msg}: the given wind field is flown')
  return b, truth


@sub('C40', 'parts', lambda: st.fixed_dictionaries(dict(
    scale=gen.uf(-1.5, 1.5), noise=st.sampled_from(['simplex', 'none', 'bias']),
    shape=st.sampled_from(sorted(SHAPES)),
    dtype=st.sampled_from(['float32', 'float64', 'int32']),
    rewards=rewards(), seed=gen.seeds(), registered=st.booleans(),
    episodes=st.lists(st.tuples(st.one_of(st.none(), gen.seeds()),
                                envs.actions(1, 5)), min_size=1, max_size=3))),
     quick=120, thorough=6000,
     rule='episodes with a generated wind field, feature constructor (any shape '
     'and type) and reward function, made directly or by its registered name: '
     'what each of them is given and how often, and that its result is used; '
     'non-trivial: at least two episodes')
def parts(case, ctx):
  log = []
  env, field, reward = build(case, log, case['seed'])
  twin_log = []
  twin, twin_field, _ = build(case, twin_log, case['seed'])
  keys = []
  for seed, acts in case['episodes']:
    made, resets = len(log), len(field.resets)
    calls = len(reward.calls)
    obs = env.reset(seed=seed) if seed is not None else env.reset()
    require(len(log) == made + 1, 'one feature constructor per episode',
            got=len(log) - made)
    r = log[-1]
    require(len(field.resets) == resets + 1, 'one wind reset per episode',
            got=len(field.resets) - resets)
    twin_obs = twin.reset(seed=seed) if seed is not None else twin.reset()
    require(twin_field.resets[-1] == field.resets[-1],
            'the winds of an episode are those of its seed',
            a=field.resets[-1], b=twin_field.resets[-1])
    envs.same_obs(obs, twin_obs, 'same seed')
    b, truth = check_observed(r, env, field, 1, 'reset')
    now = env.get_simulator_state().atmosphere.at_pressure(9000.0)
    require(forecasts(r.forecast) == r.first[0] == forecasts(field),
            'features are given the forecast of the episode')
    require(r.atmosphere.at_pressure(9000.0) == now == r.first[1],
            'features are given the atmosphere of the episode')
    key, when = field.resets[-1]
    require(when == b.date_time, 'the winds start when the episode does',
            got=when, want=b.date_time)
    if seed is None:
      require(key not in keys, 'two episodes with the same winds', key=key)
      keys.append(key)
    else:  # Starts over: it may well be the seed from before.
      keys = [key]
    same_features(obs, r.given[-1], env.observation_space, 'reset')
    require(len(reward.calls) == calls, 'reward on reset')
    n = 1
    for a in acts:
      x0, y0, t0 = b.x.meters, b.y.meters, b.time_elapsed.total_seconds()
      u, v = truth
      obs, got, done, info = env.step(a)
      n += 1
      calls += 1
      require(len(log) == made + 1, 'a new feature constructor in an episode')
      require(len(field.resets) == resets + 1, 'a wind reset in an episode')
      b, truth = check_observed(r, env, field, n, 'step')
      same_features(obs, r.given[-1], env.observation_space, 'step')
      flown = b.time_elapsed.total_seconds() - t0
      require_close(b.x.meters, x0 + u * flown, 'flown with the given wind (x)',
                    rel=1e-9, abs_=1e-5)
      require_close(b.y.meters, y0 + v * flown, 'flown with the given wind (y)',
                    rel=1e-9, abs_=1e-5)
      require(len(reward.calls) == calls, 'one reward per step',
              got=len(reward.calls), want=calls)
      want = reward.values[(calls - 1) % len(reward.values)]
      require(got == want,
              'the reward is that of the given function', got=got, want=want)
      require(reward.calls[-1][0] == envs.plain(b) and
              reward.calls[-1][1] is field, 'the reward is of the new state')
      if done:
        break
  ctx.label(case['noise'])
  ctx.label(case['shape'])
  ctx.nontrivial(len(case['episodes']) >= 2)


class FakeArena(balloon_arena.BalloonArenaInterface):
  """An arena that plays a script and records how it is driven."""

  def __init__(self, case):
    self.case = case
    self.log, self.states, self.i = [], [], 0
    self.feature_constructor = Recorder(
        [], SHAPES[case['shape']], np.dtype(case['dtype']), None, None)
    self.atmosphere = ble.atmosphere(3)
    self.field = wind_field.SimpleStaticWindField()
    self.make_state('OK')

  def make_state(self, status):
    s = balloon.BalloonState(
        center_latlng=ble.ll([3.0, -40.0]), date_time=ble.utc(1.4e9),
        x=D(1000.0 * self.i), y=D(-500.0 * self.i), pressure=9000.0)
    s.status = balloon.BalloonStatus[status]
    s.time_elapsed = dt.timedelta(minutes=7 * self.i)
    self.state = s

  def observation(self):
    shape = SHAPES[self.case['shape']]
    return np.asarray(np.arange(np.prod(shape, dtype=int)).reshape(shape) +
                      13 * self.i, self.case['dtype'])

  def reset(self, seed=None):
    self.log.append(('reset', np.asarray(seed).tolist()))
    self.i = 0
    self.make_state('OK')
    return self.observation()

  def step(self, action):
    self.log.append(('step', action))
    status = self.case['statuses'][self.i % len(self.case['statuses'])]
    self.i += 1
    self.make_state(status)
    return self.observation()

  def get_simulator_state(self):
    return simulator_data.SimulatorState(self.state, self.field,
                                         self.atmosphere)

  def set_simulator_state(self, new_state):
    raise AssertionError('the simulator is not the environment\'s to set')

  def get_balloon_state(self):
    return self.state

  def set_balloon_state(self, new_state):
    raise AssertionError('the balloon is not the environment\'s to set')

  def get_measurements(self):
    return simulator_data.SimulatorObservation(
        balloon_observation=self.state, wind_at_balloon=wind_field.WindVector(
            units.Velocity(mps=0.0), units.Velocity(mps=0.0)))


STATUS = ['OK', 'OK', 'OK', 'OUT_OF_POWER', 'BURST', 'ZEROPRESSURE']


@sub('C40', 'arena', lambda: st.fixed_dictionaries(dict(
    shape=st.sampled_from(sorted(SHAPES)),
    dtype=st.sampled_from(['float32', 'float64', 'int32']), rewards=rewards(),
    statuses=st.lists(st.sampled_from(STATUS), min_size=1, max_size=8),
    seed=gen.seeds(), seed2=gen.seeds(),
    ops=st.lists(st.one_of(
        st.integers(0, 2), st.integers(0, 2), st.integers(0, 2),
        st.just('reset'), st.just('reseed'), st.just('info')),
                 min_size=1, max_size=12))), quick=480, thorough=30000,
     rule='an environment drives a scripted arena (any observations, any '
     'statuses): calls, observations, rewards, terminals, info and seeds; '
     'non-trivial: a step and a reset')
def arena(case, ctx):
  reward = Reward(case['rewards'])
  fake = FakeArena(case)
  env = balloon_env.BalloonEnv(arena=fake, reward_function=reward,
                               seed=case['seed'])
  require(env.arena is fake, 'the given arena is used')
  resets = [s for k, s in fake.log if k == 'reset']
  require(len(resets) == 1 and len(fake.log) == 1, 'one reset on construction',
          log=fake.log)
  twin = FakeArena(case)
  env2 = balloon_env.BalloonEnv(arena=twin, reward_function=Reward([0.0]),
                                seed=case['seed'])
  seen = {(case['seed'], 0): resets[0]}
  at, count = case['seed'], 0

  def status_info(s):
    return {'out_of_power': s.status.name == 'OUT_OF_POWER',
            'envelope_burst': s.status.name == 'BURST',
            'zeropressure': s.status.name == 'ZEROPRESSURE',
            'time_elapsed': s.time_elapsed}

  kinds = set()
  for op in case['ops']:
    before = len(fake.log)
    calls = len(reward.calls)
    if isinstance(op, str):
      kinds.add('reset')
      kw = {}
      if op == 'reseed':
        at, count = case['seed2'], 0
        kw['seed'] = at
      else:
        count += 1
      if op == 'info':
        obs, info = env.reset(return_info=True, **kw)
        require(info == status_info(fake.state), 'info of a reset', got=info)
      else:
        obs = env.reset(**kw)
      env2.reset(**kw)
      require(len(fake.log) == before + 1 and fake.log[-1][0] == 'reset',
              'one arena reset per reset')
      key = fake.log[-1][1]
      require(twin.log[-1][1] == key, 'the arena is seeded by the seed',
              a=key, b=twin.log[-1][1])
      require(seen.setdefault((at, count), key) == key,
              'the same episode of a seed has another key')
      require(sum(k == key for k in seen.values()) == 1,
              'two episodes with one key', key=key)
      require(len(reward.calls) == calls, 'reward on reset')
    else:
      kinds.add('step')
      obs, r, done, info = env.step(op)
      env2.step(op)
      require(len(fake.log) == before + 1, 'one arena step per step')
      kind, command = fake.log[-1]
      require(kind == 'step' and
              isinstance(command, control.AltitudeControlCommand) and
              int(command) == op, 'the command', got=command)
      require(len(reward.calls) == calls + 1, 'one reward per step')
      want = reward.values[calls % len(reward.values)]
      require(r == want, 'the reward', got=r, want=want)
      require(reward.calls[-1][0] == envs.plain(fake.state), 'rewarded state')
      require(info == status_info(fake.state), 'info of a step', got=info)
      require(done == (fake.state.status.name != 'OK'), 'terminal', got=done,
              status=fake.state.status)
    same_features(np.asarray(obs), fake.observation(), env.observation_space,
                  'observation of the arena')
    require(env.get_simulator_state().balloon_state is fake.state,
            'state of the arena')
  ctx.nontrivial(len(kinds) == 2)
