"""C31: Marco Polo exploration alternates between agent and explorer."""

import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import marco_polo_exploration

RL, EXPLORE = 80, 40      # Steps of three minutes in 4 and 2 hours.


class Explorer:
  """Answers 100 + its number of calls."""

  def __init__(self, *a):
    self.made, self.log, self.n = a, [], 0

  def begin_episode(self, observation):
    self.log.append(('begin', float(observation[0])))
    return 7777

  def step(self, reward, observation):
    self.n += 1
    self.log.append(('step', reward, float(observation[0])))
    return 100 + self.n

  def end_episode(self, *a):
    self.log.append(('end',))


def fly(mp, ex, n, base, exploring, what):
  """One episode of n steps; returns whether it was exploratory."""
  del ex.log[:]
  a = mp.begin_episode(np.array([base]), 1)
  require(a == 1, f'{what}: an episode starts with the agent\'s action', got=a)
  require(ex.log == [('begin', float(base))],
          f'{what}: the explorer begins the episode', got=ex.log)
  taken = []
  for i in range(1, n + 1):
    before = len(ex.log)
    # Any reward may come: the reward function is configurable.
    w = (0.0, 0.5, -1.5, 7.0 * i, -0.25)[i % 5]
    a = mp.step(w, np.array([base + i]), i % 3)
    if len(ex.log) > before:
      require(ex.log[before:] == [('step', w, float(base + i))],
              f'{what}: explorer is told of the step', got=ex.log[before:])
      require(a == 100 + ex.n, f'{what}: the explorer\'s action is taken',
              got=a)
      taken.append(i)
    else:
      require(a == i % 3, f'{what}: the agent\'s action is taken', got=a)
  want = [i for i in range(1, n + 1) if (i % (RL + EXPLORE)) >= RL]
  if n < RL:
    return None
  # Either the whole episode is exploratory, or none of it.
  require(taken in ([], want), f'{what}: exploratory phases',
          got=(taken[:1], taken[-1:], len(taken)),
          want=(want[:1], want[-1:], len(want)))
  if exploring is not None:
    require(bool(taken) == exploring, f'{what}: exploratory episode',
            got=bool(taken))
  return bool(taken)


@sub('C31', 'phases', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), p=st.sampled_from([0.0, 1.0, 0.5, 0.8]),
    lengths=st.lists(st.one_of(st.integers(0, 400), st.sampled_from(
        [79, 80, 81, 119, 120, 121, 199, 200, 201, 240])), min_size=1,
                     max_size=4))), quick=400, thorough=20000,
     rule='episodes of any length one after the other against a timetable of '
     'phases; non-trivial: an exploratory phase')
def phases(case, ctx):
  made = []

  def maker(*a):
    made.append(Explorer(*a))
    return made[-1]

  mp = marco_polo_exploration.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=case['p'],
      exploratory_agent_constructor=maker, seed=case['seed'])
  require(len(made) == 1 and made[0].made == (3, (1099,)),
          'the explorer is made', got=[m.made for m in made])
  exploring = {0.0: False, 1.0: True}.get(case['p'])
  twins = [marco_polo_exploration.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=case['p'],
      exploratory_agent_constructor=Explorer, seed=case['seed'])]
  for k, n in enumerate(case['lengths']):
    got = fly(mp, made[0], n, 1000 * k, exploring, f'episode {k}')
    # The same seed explores in the same episodes.
    t = twins[0]
    a = t.begin_episode(np.array([0.0]), 1)
    acts = [t.step(0.0, np.array([0.0]), 0) for _ in range(n)]
    require(got is None or any(x >= 100 for x in acts) == got,
            'same seed, same episodes')
    ctx.nontrivial(bool(got))


@sub('C31', 'frequency', cases=lambda: [dict(p=p, seed=s) for p in (
    0.1, 0.5, 0.8, 0.95) for s in range(2)],
     rule='how often 120 episodes are exploratory (binomial at 1e-9), and that '
     'this is independent from one episode to the next; non-trivial: always')
def frequency(case, ctx):
  ex = []

  def maker(*a):
    ex.append(Explorer(*a))
    return ex[-1]

  mp = marco_polo_exploration.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=case['p'],
      exploratory_agent_constructor=maker, seed=case['seed'])
  got = [fly(mp, ex[0], 81, 0, None, f'episode {k}') for k in range(120)]
  p = stats.binomtest(sum(got), len(got), case['p']).pvalue
  require(p > 1e-9, 'share of exploratory episodes', got=sum(got), p=case['p'])
  same = sum(a == b for a, b in zip(got, got[1:]))
  q = case['p']**2 + (1 - case['p'])**2
  require(stats.binomtest(same, len(got) - 1, q).pvalue > 1e-9,
          'episodes are independent', same=same)
  ctx.nontrivial()


@sub('C31', 'certain', cases=lambda: [dict(p=p, seed=s) for p in (0.0, 1.0)
                                      for s in range(2)],
     rule='with probability 0 or 1 none or all of 2,000 episodes are '
     'exploratory; non-trivial: always')
def certain(case, ctx):
  ex = []

  def maker(*a):
    ex.append(Explorer(*a))
    return ex[-1]

  mp = marco_polo_exploration.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=case['p'],
      exploratory_agent_constructor=maker, seed=case['seed'])
  for k in range(2000):
    fly(mp, ex[0], 81, 0, case['p'] == 1.0, f'episode {k}')
  ctx.nontrivial()


@sub('C31', 'base', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), n=st.integers(0, 20),
    actions=st.sampled_from([3, 3, 1, 2, 5, 18]))), quick=320, thorough=4000,
     rule='the default exploration keeps the agent\'s actions; non-trivial: '
     'always')
def base(case, ctx):
  r = fakes.rnd(case['salt'])
  n = case['actions']
  e = exploration.Exploration(n, (4,))
  a = int(r.integers(0, n))
  require(e.begin_episode(r.random(4), a) == a, 'first action')
  for _ in range(case['n']):
    a = int(r.integers(0, n))
    require(e.step(float(r.random()), r.random(4), a) == a, 'action')
  ctx.nontrivial()
