"""C02: the environment's step and reset obey the documented contract."""

import datetime as dt
import math

import gym
import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import envs
from vlib import gen
from vlib import percia
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.utils import units


class Spy:
  """A reward function that records the states it is given."""

  def __init__(self, value):
    self.value, self.calls = value, []

  def __call__(self, state):
    self.calls.append((state, envs.plain(state.balloon_state)))
    return self.value + len(self.calls)


def sabotage(s, kind, rng):
  """Brings a balloon close to a terminal event."""
  if kind == 'power':
    s.battery_charge = units.Energy(watt_hours=0.5)
  elif kind == 'burst':
    s.envelope_max_superpressure = max(s.superpressure * 0.97, 600.0)
  elif kind == 'zero':
    s.internal_temperature = s.internal_temperature - 60.0
    s.mols_air = s.mols_air * 0.2
  elif kind == 'far':
    s.x = units.Distance(km=400.0)


@sub('C02', 'episode', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.seeds(), acts=envs.actions(1, 9),
    sabotage=st.sampled_from([None, None, 'power', 'burst', 'zero', 'far']),
    when=st.integers(0, 5))), quick=240, thorough=10000,
     rule='episodes, some driven into a terminal event: observation, reward, '
     'terminal flag, info, clock and displacement after every step, and '
     'refusal to fly on; non-trivial: a terminal event or four steps')
def episode(case, ctx):
  env = envs.make(case['wind'], 1)
  require(isinstance(env.action_space, gym.spaces.Discrete) and
          env.action_space.n == 3, 'action space')
  lo, hi = env.reward_range
  require((lo, hi) == (0.0, 1.0), 'reward range')
  obs, info = env.reset(seed=case['seed'], return_info=True)
  state = env.get_simulator_state()
  s = state.balloon_state
  require(s.status.name == 'OK' and s.time_elapsed == dt.timedelta(0),
          'initial state')
  require(info == {'out_of_power': False, 'envelope_burst': False,
                   'zeropressure': False, 'time_elapsed': dt.timedelta(0)},
          'initial info', got=info)
  locs, errs = [], []

  def forecast(x, y, p, t):
    return envs.wind_of(state.wind_field.get_forecast(
        units.Distance(m=x), units.Distance(m=y), float(p),
        dt.timedelta(seconds=t)))

  def truth(s):
    return envs.wind_of(state.wind_field.get_ground_truth(
        s.x, s.y, s.pressure, s.time_elapsed))

  def check_obs(obs):
    s = env.get_simulator_state().balloon_state
    t = s.time_elapsed.total_seconds()
    x, y, p = s.x.meters, s.y.meters, float(s.pressure)
    w, f = truth(s), forecast(x, y, p, t)
    locs.append([x, y, p, t])
    errs.append([w[0] - f[0], w[1] - f[1]])
    percia.check(obs, s, state.atmosphere, locs, errs, forecast, ctx)
    require(env.observation_space.shape == np.shape(obs), 'observation space')
    m = env.arena.get_measurements()
    require(envs.wind_of(m.wind_at_balloon) == w, 'measured wind is the truth')

  check_obs(obs)
  start = s.date_time
  for i, a in enumerate(case['acts']):
    s = env.get_simulator_state().balloon_state
    if case['sabotage'] and i == case['when']:
      sabotage(s, case['sabotage'], None)
    x0, y0, t0 = s.x.meters, s.y.meters, s.time_elapsed.total_seconds()
    w = truth(s)
    try:
      obs, reward, done, info = env.step(a)
    except ValueError as e:
      # The reachable pressures of a wrecked balloon may be undefined.
      require('safe pressure' in str(e) and case['sabotage'], 'step raised',
              error=str(e))
      ctx.label('no safe pressure')
      return
    s = env.get_simulator_state().balloon_state
    require(int(s.last_command) == a, 'last command', got=s.last_command)
    require(isinstance(done, bool), 'terminal is a bool', got=type(done))
    require(done == (s.status.name != 'OK'), 'terminal flag', status=s.status)
    require(info == {'out_of_power': s.status.name == 'OUT_OF_POWER',
                     'envelope_burst': s.status.name == 'BURST',
                     'zeropressure': s.status.name == 'ZEROPRESSURE',
                     'time_elapsed': s.time_elapsed}, 'info', got=info,
            status=s.status)
    require(lo <= reward <= hi, 'reward out of range', got=reward)
    want = balloon_env.perciatelli_reward_function(env.get_simulator_state())
    require(reward == want, 'reward is that of the new state', got=reward,
            want=want)
    flown = s.time_elapsed.total_seconds() - t0
    require(0 < flown <= 180 and (flown == 180 or done), 'a step is 180 s',
            flown=flown)
    require_close((s.date_time - start).total_seconds(),
                  s.time_elapsed.total_seconds(), 'clock')
    require_close(s.x.meters, x0 + w[0] * flown, 'drift with the wind at the '
                  'start of the step (x)', rel=1e-9, abs_=1e-4)
    require_close(s.y.meters, y0 + w[1] * flown, 'drift with the wind at the '
                  'start of the step (y)', rel=1e-9, abs_=1e-4)
    check_obs(obs)
    ctx.nontrivial(done or i >= 3)
    if done:
      ctx.label(s.status.name)
      before = envs.plain(s)
      require_raises(AssertionError, lambda: env.step(1),
                     'a terminated flight goes on')
      after = envs.plain(env.get_simulator_state().balloon_state)
      before['last_command'] = after['last_command']
      require(before == after, 'a terminated flight was changed')
      obs = env.reset(seed=case['seed'])
      s = env.get_simulator_state().balloon_state
      require(s.status.name == 'OK' and s.time_elapsed == dt.timedelta(0),
              'reset after a terminal event')
      return


@sub('C02', 'plumbing', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.seeds(), acts=envs.actions(1, 5),
    value=gen.uf(-5, 5), bad=st.one_of(
        gen.ui(3, 100), gen.ui(-100, -1), gen.uf(-1, 3).filter(
            lambda x: x != int(x)),
        st.sampled_from([None, '', '0', '1', '2', 'up', float('nan')])))),
     quick=160, thorough=5000,
     rule='a given reward function is called once per step with the state after '
     'it, invalid actions are refused without flying, no rendering without a '
     'renderer; non-trivial: always')
def plumbing(case, ctx):
  spy = Spy(case['value'])
  env = envs.make(case['wind'], case['seed'], reward_function=spy)
  env.reset()
  require(not spy.calls, 'reward computed on reset')
  n = 0
  for a in case['acts']:
    before = envs.plain(env.get_simulator_state().balloon_state)
    require_raises(ValueError, lambda: env.step(case['bad']), 'invalid action',
                   action=case['bad'])
    require(envs.plain(env.get_simulator_state().balloon_state) == before,
            'an invalid action was flown')
    obs, r, done, _ = env.step(a)
    n += 1
    require(len(spy.calls) == n, 'reward computed once per step')
    require(r == case['value'] + n, 'reward is the function value')
    state, seen = spy.calls[-1]
    now = env.get_simulator_state()
    require(seen == envs.plain(now.balloon_state), 'reward of the new state')
    require(state.wind_field is now.wind_field and
            state.atmosphere is now.atmosphere, 'full state for the reward')
    if done:
      break
  require(env.render('rgb_array') is None and env.render() is None,
          'render without renderer')
  require(env.unwrapped is env, 'unwrapped')
  with env as e:
    require(e is env, 'context manager')
  ctx.nontrivial()


@sub('C02', 'given_arena', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), unused=envs.winds(), seed=gen.seeds(), at=gen.seeds(),
    acts=envs.actions(1, 5))), quick=48, thorough=1500,
     rule='an environment that is given an arena flies that arena, as one that '
     'makes its own from the same winds does; non-trivial: always')
def given_arena(case, ctx):
  arena = balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor,
                                     envs.WINDS[case['wind']](),
                                     seed=case['at'])
  env = balloon_env.BalloonEnv(
      arena=arena, seed=case['seed'],
      wind_field_factory=envs.WINDS[case['unused']])
  require(env.arena is arena, 'the given arena is flown')
  own = envs.make(case['wind'], case['seed'])
  for a in case['acts']:
    x, y = envs.outcome(env.step(a)), envs.outcome(own.step(a))
    envs.same_step(x, y, 'a given arena flies differently')
    require(envs.plain(arena.get_balloon_state()) ==
            envs.plain(env.get_simulator_state().balloon_state) ==
            envs.plain(own.get_simulator_state().balloon_state),
            'state of the given arena')
    if x[2]:
      break
  ctx.nontrivial()


class Few(features.FeatureConstructor):
  """Features that cost little."""

  def __init__(self, forecast, atmosphere):
    del forecast, atmosphere

  def observe(self, observation):
    self.b = observation.balloon_observation

  def get_features(self):
    return np.array([self.b.time_elapsed.total_seconds()], np.float32)

  @property
  def observation_space(self):
    return gym.spaces.Box(-np.inf, np.inf, (1,))


@sub('C02', 'long', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.seeds(), radius=st.one_of(
        st.just(50.0), gen.uf(0.1, 300)), acts=gen.seeds(),
    lengths=st.lists(st.sampled_from([20, 480, 700, 961]), min_size=2,
                     max_size=3))), quick=16, thorough=400, case_timeout=300,
     rule='an environment in long use, over many episodes and more than 960 '
     'steps: terminal flag, info, clock and reward after every step; '
     'non-trivial: more than 960 steps')
def long_use(case, ctx):
  r = np.random.default_rng(case['acts'])
  env = envs.make(case['wind'], case['seed'], feature_constructor_factory=Few,
                  station_keeping_radius_km=case['radius'])
  require_close(env.radius.kilometers, case['radius'], 'radius', rel=1e-12)
  total = 0
  for n in case['lengths']:
    obs = env.reset()
    require(obs.tolist() == [0.0], 'first observation', got=obs)
    for i in range(n):
      a = int(r.choice([0, 1, 1, 1, 2]))
      obs, reward, done, info = env.step(a)
      s = env.get_simulator_state().balloon_state
      t = s.time_elapsed.total_seconds()
      total += 1
      require(done == (s.status.name != 'OK'), 'terminal flag', step=total,
              status=s.status, got=done)
      require(info == {'out_of_power': s.status.name == 'OUT_OF_POWER',
                       'envelope_burst': s.status.name == 'BURST',
                       'zeropressure': s.status.name == 'ZEROPRESSURE',
                       'time_elapsed': s.time_elapsed}, 'info', got=info)
      require(t == 180 * (i + 1) or done and t > 180 * i, 'clock', got=t,
              step=i)
      require(obs.tolist() == [np.float32(t)], 'observation', got=obs)
      require(reward == balloon_env.perciatelli_reward_function(
          env.get_simulator_state()), 'reward', got=reward)
      if done:
        ctx.label(s.status.name)
        break
  ctx.nontrivial(total > 960)
