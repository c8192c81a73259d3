"""C30: the random agents behave as random as they promise, and no more."""

import copy

import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import random_walk_agent

UP, STAY, DOWN = 2, 1, 0


@sub('C30', 'uniform', lambda: st.fixed_dictionaries(dict(
    seed=gen.ui(0, 2**31), n=st.integers(1, 8),
    episodes=st.lists(st.integers(0, 300), min_size=1, max_size=4))),
     quick=400, thorough=20000,
     rule='actions of the random agent lie in range, are uniform, and do not '
     'follow observations (chi-square at 1e-9); non-trivial: 100 actions')
def uniform(case, ctx):
  np.random.seed(case['seed'])
  n = case['n']
  a = base_agent.RandomAgent(n, (4,))
  got, firsts = [], 0
  for steps in case['episodes']:
    got.append(int(a.begin_episode(np.zeros(4))))
    firsts += 1
    got += [int(a.step(0.5, np.full(4, i))) for i in range(steps)]
    a.end_episode(0.5, bool(steps % 2))
  require(all(0 <= x < n for x in got), 'action in range', n=n,
          got=sorted(set(got)))
  if n > 1 and len(got) >= 100:
    counts = np.bincount(got, minlength=n)
    require(stats.chisquare(counts).pvalue > 1e-9, 'actions are uniform',
            counts=counts.tolist())
    pairs = np.bincount(np.array(got[:-1]) * n + got[1:], minlength=n * n)
    if len(got) > 10 * n * n:
      require(stats.chisquare(pairs).pvalue > 1e-9,
              'successive actions are independent', counts=pairs.tolist())
    # First actions of episodes are as random as all others.
    got = []
    for _ in range(30 * n):
      got.append(int(a.begin_episode(np.zeros(4))))
      for _ in range(n % 3):
        a.step(0.5, np.zeros(4))
      a.end_episode(0.5, True)
    counts = np.bincount(got, minlength=n)
    require(len(counts) == n and stats.chisquare(counts).pvalue > 1e-9,
            'first actions are uniform', counts=counts.tolist())
    ctx.nontrivial()


def vec(p, r=None):
  v = (np.zeros(1099) if r is None else r.random(1099)).astype(np.float32)
  if r is not None:
    v[16:] *= 0.9
  v[0] = (p - 5000.0) / 9000.0
  return v


def act(agent, how, p, r=None):
  """The action that a copy of the agent would take at a pressure."""
  a = copy.deepcopy(agent)
  v = vec(p, r)
  return int(a.begin_episode(v) if how == 'begin' else a.step(0.0, v))


def target(agent, how, far=160000.0):
  """Finds the target from where the actions change, and checks the band."""
  lo, hi = 10000.0 - far, 10000.0 + far
  # Below which pressure does it descend?
  if act(agent, how, lo) != DOWN or act(agent, how, hi) != UP:
    return None
  a, b = lo, hi
  while b - a > 0.05:
    m = (a + b) / 2
    a, b = (m, b) if act(agent, how, m) == DOWN else (a, m)
  c, d = lo, hi
  while d - c > 0.05:
    m = (c + d) / 2
    c, d = (c, m) if act(agent, how, m) == UP else (m, d)
  down, up = (a + b) / 2, (c + d) / 2
  t = (down + up) / 2
  require(abs(up - down - 200.0) < (
      0.3 if abs(t) < 2e4 else 2.0), 'band around the target', down=down,
          up=up)
  for p, want in ((t, STAY), (t - 95, STAY), (t + 95, STAY), (t - 105, DOWN),
                  (t + 105, UP)):
    if abs(p) < 1e5:
      require(act(agent, how, p) == want, 'action', at=p - t, want=want)
  return t


@sub('C30', 'walk', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), steps=st.integers(0, 6), noise=gen.ui(0, 10**6),
    episodes=st.integers(1, 2))), quick=48, thorough=1500, case_timeout=600,
     rule='the target pressure of the walk is measured by probing copies of '
     'the agent: every episode begins with a target in the documented range, '
     'the actions seek it with the documented hysteresis, and nothing but '
     'pressure matters; non-trivial: a step')
def walk(case, ctx):
  a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=case['seed'])
  twin = random_walk_agent.RandomWalkAgent(3, (1099,), seed=case['seed'])
  r = np.random.default_rng(case['noise'])
  targets = []
  for _ in range(case['episodes']):
    t = target(a, 'begin')
    require(t is not None and 6500 - 1 <= t <= 11400 + 1,
            'first target of an episode', t=t)
    targets.append(t)
    p = t + r.uniform(-300, 300)
    x = a.begin_episode(vec(p))
    require(x == twin.begin_episode(vec(p, r)), 'only pressure matters')
    for _ in range(case['steps']):
      t = target(a, 'step')
      if t is None:
        break
      targets.append(t)
      p = t + r.uniform(-300, 300)
      x = a.step(float(r.random()), vec(p))
      if min(abs(abs(p - t) - 100), 1) < 0.2:
        x = twin.step(0.0, vec(p))
        continue
      want = DOWN if p < t - 100 else UP if p > t + 100 else STAY
      require(int(x) == want, 'action', at=p - t, got=int(x))
      require(x == twin.step(float(r.random()), vec(p, r)),
              'only pressure matters')
    a.end_episode(0.5, True)
    twin.end_episode(0.1, False)
  ctx.nontrivial(case['steps'] > 0)
  require(len(set(targets)) == len(targets), 'targets change')


@sub('C30', 'law', cases=lambda: [dict(seed=s, n=60) for s in range(8)],
     rule='the increments of the target over 60 seeded agents, half of them in '
     'a later episode, scaled by 0.1666 Pa per second since the episode began, '
     'are standard normal, and first targets uniform (Kolmogorov-Smirnov at 1e-9); non-trivial: always')
def law(case, ctx):
  first, inc = [], []
  for k in range(case['n']):
    a = random_walk_agent.RandomWalkAgent(3, (1099,),
                                          seed=1000 * case['seed'] + k)
    if k % 2:
      a.begin_episode(vec(8000.0))
      for _ in range(5 + 3 * (k % 5)):
        a.step(0.5, vec(8000.0))
      a.end_episode(0.5, bool(k % 3))
    t = target(a, 'begin')
    first.append(t)
    a.begin_episode(vec(8000.0))
    for i in range(3):
      u = target(a, 'step')
      a.step(0.5, vec(8000.0))
      inc.append((u - t) / (0.1666 * 180.0 * (i + 1)))
      t = u
  require(stats.kstest(first, stats.uniform(6500, 4900).cdf).pvalue > 1e-9,
          'first targets are uniform')
  p = stats.kstest(inc, 'norm').pvalue
  require(p > 1e-9, 'increments are normal', p=p, std=float(np.std(inc)),
          mean=float(np.mean(inc)))
  # Scale and independence.
  chi = float(np.sum(np.square(inc)))
  require(1e-9 < stats.chi2.cdf(chi, len(inc)) < 1 - 1e-9, 'scale', chi=chi,
          n=len(inc))
  rho = stats.pearsonr(inc[0::3], inc[1::3])
  require(rho.pvalue > 1e-9, 'increments are independent', rho=str(rho))
  ctx.nontrivial()


def near(agent, t, scale):
  """The next target, given the present one, to a hundredth of its scale."""
  lo, hi = t - 8 * scale, t + 8 * scale
  if act(agent, 'step', lo - 100) != DOWN or act(agent, 'step',
                                                 hi - 100) == DOWN:
    return target(agent, 'step', 1e7)
  while hi - lo > scale / 64:
    m = (lo + hi) / 2
    lo, hi = (m, hi) if act(agent, 'step', m - 100) == DOWN else (lo, m)
  return (lo + hi) / 2


@sub('C30', 'scale', cases=lambda: [
    dict(seed=5, agents=80, steps=100, start=0)] + [
        dict(seed=s, agents=6, steps=100, start=860) for s in (6, 7, 8, 9)],
     case_timeout=800,
     rule='8,000 increments of the target together have the documented scale, '
     'no mean and no correlation, within 6 standard errors (a scale 5 % off '
     'is seen), and so have 600 at the end of episodes of two days each '
     '(20 %); non-trivial: always')
def scale(case, ctx):
  inc = []
  for k in range(case['agents']):
    a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=7919 * k + case[
        'seed'])
    a.begin_episode(vec(8000.0))
    t = target(a, 'step')
    a.step(0.5, vec(8000.0))
    mine = []
    for _ in range(case['start']):
      a.step(0.5, vec(8000.0))
    t = target(a, 'step', 1e7) if case['start'] else t
    if case['start']:
      a.step(0.5, vec(8000.0))
    for i in range(2, case['steps'] + 2):
      i += case['start'] + (case['start'] > 0)
      s = 0.1666 * 180.0 * i
      u = near(a, t, s)
      a.step(0.5, vec(8000.0))
      mine.append((u - t) / s)
      t = u
    inc.append(mine)
  x = np.array(inc)
  n = x.size
  require(abs(x.mean()) < 6 / np.sqrt(n), 'increments have no mean',
          mean=float(x.mean()))
  v = float(np.mean(x**2))
  require(abs(v - 1) < 6 * np.sqrt(2 / n) + 1e-3, 'scale of increments',
          variance=v)
  c = float(np.mean(x[:, 1:] * x[:, :-1]))
  require(abs(c) < 6 / np.sqrt(n), 'increments are independent', corr=c)
  k4 = float(np.mean(x**4))
  require(abs(k4 - 3) < 6 * np.sqrt(96 / n), 'tails of increments', k4=k4)
  ctx.nontrivial()


@sub('C30', 'far', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), at=st.lists(st.integers(240, 480), min_size=24, max_size=24,
                                  unique=True))),
     quick=8, thorough=400, case_timeout=600,
     rule='increments of the target within long episodes are as normal as at '
     'the beginning, however far the walk has gone; non-trivial: a target '
     'outside of the range of pressures in which balloons fly')
def far(case, ctx):
  a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=case['seed'])
  a.begin_episode(vec(9000.0))
  at, inc, n = sorted(case['at']), [], 0
  for k in at:
    while n < 2 * k - 1:
      a.step(0.5, vec(9000.0))
      n += 1
    # Targets are seen one step ahead: the one of step n + 1 from here.
    t = target(a, 'step', 1e7)
    a.step(0.5, vec(9000.0))
    n += 1
    u = target(a, 'step', 1e7)
    require(t is not None and u is not None, 'a target that is never reached')
    inc.append((u - t) / (0.1666 * 180.0 * (n + 1)))
    ctx.nontrivial(not 5000 < t < 14000)
  require(all(1e-9 < stats.norm.cdf(x) < 1 - 1e-9 for x in inc),
          'an increment is too large', inc=inc)
  chi = float(np.sum(np.square(inc)))
  require(1e-9 < stats.chi2.cdf(chi, len(inc)) < 1 - 1e-9, 'scale', inc=inc)


@sub('C30', 'unseeded', cases=lambda: [dict(n=n) for n in (6, 6, 8, 8)],
     rule='agents that are given no seed walk differently, also when made in '
     'quick succession; non-trivial: always')
def unseeded(case, ctx):
  agents = [random_walk_agent.RandomWalkAgent(3, (1099,))
            for _ in range(case['n'])]
  targets = [target(a, 'begin') for a in agents]
  require(len(set(targets)) == len(targets), 'unseeded agents are alike',
          targets=targets)
  ctx.nontrivial()
