"""C01: an episode is determined by seed, wind field and actions alone."""

import json
import os
import random
import subprocess
import sys
import tempfile

import jax
import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import envs
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features


def play(env, acts):
  out = []
  for a in acts:
    s = envs.outcome(env.step(a))
    out.append((s, envs.plain(env.get_simulator_state().balloon_state)))
    if s[2]:
      break
  return out


def compare(a, b, msg):
  require(len(a) == len(b), f'{msg}: episodes of different length')
  for i, (x, y) in enumerate(zip(a, b)):
    envs.same_step(x[0], y[0], f'{msg}, step {i}')
    require(x[1] == y[1], f'{msg}, step {i}: balloon states differ',
            diff={k: (x[1][k], y[1][k]) for k in x[1] if x[1][k] != y[1][k]})


@sub('C01', 'replay', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.wide_seeds(), prior=gen.seeds(), acts=envs.actions(),
    dirty=envs.actions(0, 5), extra_resets=st.integers(0, 2),
    noise=gen.seeds(), by_ctor=st.booleans())), quick=240, thorough=12000,
     rule='an episode from a fresh environment against the same episode from an '
     'environment that flew others before, with global random state disturbed; '
     'non-trivial: the second environment had flown a different episode')
def replay(case, ctx):
  a = envs.make(case['wind'], case['seed'] if case['by_ctor'] else case['prior'])
  first = a.reset(seed=case['seed'])
  log_a = play(a, case['acts'])
  np.random.seed(case['noise'] % 2**31)
  random.seed(case['noise'])
  b = envs.make(case['wind'], case['prior'])
  b.reset()
  play(b, case['dirty'])
  for _ in range(case['extra_resets']):
    b.reset()
  before = (np.random.get_state()[1].tolist(), random.getstate())
  second, info = b.reset(seed=case['seed'], return_info=True)
  log_b = play(b, case['acts'])
  envs.same_obs(first, second, 'after reset')
  compare(log_a, log_b, 'same seed and actions')
  for k in range(2):
    one, two = a.reset(return_info=k == 0), b.reset(return_info=k == 1)
    envs.same_obs((one if k else one[0]), (two[0] if k else two),
                  'the next episode')
    x, y = (envs.plain(e.get_simulator_state().balloon_state)
            for e in (a, b))
    require(x == y, 'the next episode starts differently', k=k)
  require(before == (np.random.get_state()[1].tolist(), random.getstate()),
          'global random state was used')
  ctx.nontrivial(bool(case['dirty']) or case['extra_resets'] > 0)
  ctx.label('terminal', bool(log_a) and log_a[-1][0][2])
  del info


@sub('C01', 'stream', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.wide_seeds(), episodes=st.lists(
        envs.actions(1, 4), min_size=2, max_size=4), how=st.integers(0, 2),
    other=envs.actions(1, 4))),
     quick=160, thorough=8000,
     rule='series of episodes after one seeding (constructor, seed() or '
     'reset(seed)), whatever was flown in them: the n-th initial state depends '
     'on the seed only, and successive ones differ; non-trivial: always')
def stream(case, ctx):
  def series(how, acts_of, reads=False):
    if how == 0:
      e = envs.make(case['wind'], 5)
      e.seed(case['seed'])
    elif how == 1:
      e = envs.make(case['wind'], 6)
      e.reset()
      e.seed(case['seed'])
    else:
      e = envs.make(case['wind'], case['seed'])   # Resets once with it.
    out = []
    for i, acts in enumerate(case['episodes']):
      if reads:
        # What only reads changes nothing.
        e.get_simulator_state()
        require(e.action_space.n == 3 and e.observation_space.shape[0] > 0 and
                e.reward_range[0] == 0.0, 'spaces')
      if how != 2 or i > 0:
        e.reset(return_info=reads)
      if reads:
        e.get_simulator_state()
      s = envs.plain(e.get_simulator_state().balloon_state)
      out.append((s, play(e, acts_of(acts))))
    return out

  one = series(case['how'], lambda a: a)
  two = series((case['how'] + 1) % 3, lambda a: a, True)
  for i, (x, y) in enumerate(zip(one, two)):
    require(x[0] == y[0], f'episode {i} starts differently', a=x[0], b=y[0])
    compare(x[1], y[1], f'episode {i}')
  starts = [(s['x'], s['y'], s['pressure'], s['ts']) for s, _ in one]
  require(len(set(starts)) == len(starts), 'episodes repeat', starts=starts)
  # What is flown does not influence later episodes.
  three = series(case['how'], lambda a: case['other'])
  for i, (x, y) in enumerate(zip(one, three)):
    require(x[0] == y[0], f'actions change the start of episode {i}')
  ctx.nontrivial()


@sub('C01', 'interleaving', lambda: st.fixed_dictionaries(dict(
    winds=st.tuples(envs.winds(), envs.winds()).map(list),
    seeds=st.tuples(gen.seeds(), gen.seeds()).map(list),
    sched=st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list),
                   min_size=2, max_size=14))), quick=160, thorough=8000,
     rule='two environments stepped, reset and re-read in a generated '
     'interleaving against each flown alone; non-trivial: both were stepped')
def interleaving(case, ctx):
  def alone(i):
    return envs.make(case['winds'][i], case['seeds'][i])

  both = [alone(0), alone(1)]
  dead = [False, False]
  logs = [[], []]
  for i, op in case['sched']:
    if op == 3:
      logs[i].append(('reset', np.array(both[i].reset())))
      dead[i] = False
    elif not dead[i]:
      s = envs.outcome(both[i].step(op))
      dead[i] = s[2]
      logs[i].append((op, s))
  for i in (0, 1):
    e = alone(i)
    for op, want in logs[i]:
      if op == 'reset':
        envs.same_obs(e.reset(), want, 'reset while another environment flies')
      else:
        envs.same_step(envs.outcome(e.step(op)), want,
                       'step while another environment flies')
  ctx.nontrivial(all(any(o != 'reset' for o, _ in l) for l in logs))


def _two_seeds():
  def other(t):
    seed, how, k, free = t
    if how == 'bit':      # Differs in one bit only.
      return seed, seed ^ (1 << k)      # 31: beyond signed 32-bit numbers.
    if how == 'near':
      return seed, max(0, seed + 1 - 2 * (k % 2))
    return seed, free
  return st.tuples(gen.seeds(), st.sampled_from(['bit', 'bit', 'near', 'free']),
                   st.integers(0, 31), st.one_of(
                       gen.seeds(), gen.ui(2**31, 2**32 - 1))).map(other).map(list)


@sub('C01', 'seeds', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seeds=_two_seeds())), quick=200, thorough=4000,
     rule='different seeds, often neighbours or one bit apart, start different '
     'episodes; the arena takes integers and keys alike; non-trivial: the seeds '
     'differ')
def seeds(case, ctx):
  case = dict(wind=case['wind'], seed=case['seeds'][0], other=case['seeds'][1])
  e = envs.make(case['wind'], 1)
  a = np.array(e.reset(seed=case['seed']))
  sa = envs.plain(e.get_simulator_state().balloon_state)
  b = np.array(e.reset(seed=case['other']))
  sb = envs.plain(e.get_simulator_state().balloon_state)
  if case['seed'] != case['other']:
    for k in ('x', 'y', 'pressure', 'center_lat', 'center_lng', 'ts'):
      require(sa[k] != sb[k], f'{k} does not depend on the seed')
    require(not np.array_equal(a, b), 'observation ignores the seed')
    ctx.nontrivial()
  arena = balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor,
                                     envs.WINDS[case['wind']](),
                                     seed=case['seed'])
  x = envs.plain(arena.get_balloon_state())
  o1 = arena.reset(case['other'])
  o2 = arena.reset(case['seed'])
  require(envs.plain(arena.get_balloon_state()) == x,
          'arena seeded by constructor and reset differ')
  o3 = arena.reset(jax.random.PRNGKey(case['seed']))
  envs.same_obs(o2, o3, 'integer seed and its key')
  o3 = arena.reset(np.asarray(jax.random.PRNGKey(case['seed'])))
  envs.same_obs(o2, o3, 'integer seed and its key as a numpy array')
  require(case['seed'] == case['other'] or not np.array_equal(o1, o2),
          'arena ignores the seed')


@sub('C01', 'unseeded', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), state=gen.seeds())), quick=24, thorough=300,
     rule='environments that are given no seed fly different episodes, also if '
     'the global random state is the same; non-trivial: always')
def unseeded(case, ctx):
  starts = []
  for _ in range(3):
    random.seed(case['state'])
    np.random.seed(case['state'] % 2**32)
    e = balloon_env.BalloonEnv(wind_field_factory=envs.WINDS[case['wind']])
    s = envs.plain(e.get_simulator_state().balloon_state)
    starts.append((s['x'], s['y'], s['pressure'], s['ts']))
  require(len(set(starts)) == 3, 'unseeded episodes repeat', starts=starts)
  ctx.nontrivial()


ALONE = """
import json, sys
sys.path[:] = json.loads(sys.argv[1])
from checks import c01_determinism as c
print('\\nRESULT' + json.dumps(c.flown(json.loads(sys.argv[2]))))
"""


def flown(episodes):
  out = []
  for e in episodes:
    env = envs.make(e['wind'], e['seed'])
    o = env.reset(seed=e['seed'])
    log = [x[0][:1] + x[0][1:3] for x in play(env, e['acts'])]
    out.append([[float(v) for v in o]] + [
        [[float(v) for v in x[0]], x[1], x[2]] for x in log])
  return out


@sub('C01', 'processes', lambda: st.fixed_dictionaries(dict(
    episodes=st.lists(st.fixed_dictionaries(dict(
        wind=envs.winds(), seed=gen.seeds(), acts=envs.actions(1, 6))),
                      min_size=2, max_size=6),
    salt=gen.ui(1, 2**32 - 1), zone=st.sampled_from(
        ['UTC', 'AAA-9:30', 'BBB11', 'EST5EDT4,M3.2.0,M11.1.0']))), quick=4,
     thorough=160, case_timeout=300,
     rule='episodes here and in another process, with another salt of hashes, '
     'time zone and folder; non-trivial: always')
def processes(case, ctx):
  env = dict(os.environ, PYTHONHASHSEED=str(case['salt']), TZ=case['zone'])
  r = subprocess.run(
      [sys.executable, '-c', ALONE, json.dumps(sys.path),
       json.dumps(case['episodes'])],
      env=env, cwd=tempfile.gettempdir(), capture_output=True, text=True,
      check=False)
  require('\nRESULT' in r.stdout, 'another process failed',
          error=r.stderr[-600:])
  got = json.loads(r.stdout.split('\nRESULT')[1])
  want = json.loads(json.dumps(flown(case['episodes'])))
  for k, (g, w) in enumerate(zip(got, want)):
    require(g == w, f'episode {k} differs in another process',
            start=g[0] == w[0])
  ctx.nontrivial()
