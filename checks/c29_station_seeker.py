"""C29: StationSeeker navigates to the best scoring pressure level."""

import math

import numpy as np
from hypothesis import strategies as st
from vlib import envs
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.agents import station_seeker_agent

CENTER = 180


def score(d, u, b, m, level):
  """The published score; d, u, b, m as in the feature vector."""
  dist = 250.0 * d / (1.0 - d)
  speed = 30.0 * m / (1.0 - m)
  w = 0.6 + (0.45 - 0.6) * min(max((dist - 250.0) / 250.0, 0.0), 1.0)
  alpha = math.exp(-dist / 35.0)
  wind = ((1 - alpha) * math.exp(-w * b * math.pi) +
          alpha * math.exp(-0.07 * speed))
  return ((1.0 - u + 0.01) * wind + 0.5 * u +
          0.05 * math.exp(-0.001 * abs(level - CENTER)))


def best(v):
  """(action, lead over the best of the other actions)."""
  d = float(v[7])
  tops = {}
  for l in range(361):
    u, b, m = (float(x) for x in v[16 + 3 * l:19 + 3 * l])
    if (u, b, m) == (0, 1, 1):
      continue
    s = score(d, u, b, m, l)
    a = 2 if l < CENTER else 0 if l > CENTER else 1
    tops[a] = max(tops.get(a, 0.0), s)
  order = sorted(tops.items(), key=lambda x: -x[1])
  lead = order[0][1] - order[1][1] if len(order) > 1 else math.inf
  return order[0][0], lead


def blank(r, dist):
  v = r.random(1099).astype(np.float32)
  v[3:7] = r.uniform(-1, 1, 4)
  v[8:11] = np.eye(3)[r.integers(0, 3)]
  v[15] = r.uniform(1, 1.5)
  v[7] = dist
  v[16:] = np.tile([0, 1, 1], 361)
  return v


def check(agent, v, ctx, how=0):
  keep = v.copy()
  a, lead = best(v)
  got = agent.begin_episode(v) if how == 0 else agent.step(float(how), v)
  require((v == keep).all(), 'the observation was changed')
  if lead < 1e-6:
    ctx.label('tie')
    return
  require(int(got) == a, 'action', got=int(got), want=a, lead=lead)


def squashed(km):
  return km / (km + 250.0)


distances = st.one_of(gen.uf(0, 0.95), gen.uf(0.5, 0.999), st.sampled_from(
    [0.0] + [squashed(k) for k in (5, 35, 100, 249, 250, 251, 375, 499, 500,
                                   501, 700, 900, 2000, 20000)]))
levels = st.one_of(gen.ui(0, 360), st.sampled_from([179, 180, 181, 0, 360]))
winds = st.tuples(gen.uf(0, 1), gen.uf(0, 1), st.one_of(
    gen.uf(0, 0.9), gen.uf(0, 0.9), gen.uf(0.6, 0.995)))


@sub('C29', 'contests', lambda: st.fixed_dictionaries(dict(
    seed=gen.ui(0, 10**6), d=distances, d2=distances,
    how=st.integers(0, 1), a=st.tuples(levels, winds),
    b=st.tuples(levels, winds), by=st.sampled_from(['u', 'b', 'm', 'd']),
    lead=st.sampled_from([1e-5, 1e-4, 1e-3, -1e-5, -1e-4, -1e-3]))),
     quick=8000, thorough=400000,
     rule='two levels whose scores are made to differ by very little, by '
     'uncertainty, angle, speed or distance: the better one is navigated to; '
     'non-trivial: the contest is close')
def contests(case, ctx):
  (la, (ua, ba, ma)), (lb, (ub, bb, mb)) = case['a'], case['b']
  if la == lb:
    lb = 360 - la if la != CENTER else 181
  d = case['d']

  def gap(x):
    dd, u, b, m = (x if case['by'] == k else y for k, y in zip(
        'dubm', (d, ub, bb, mb)))
    return score(dd, ua, ba, ma, la) - score(dd, u, b, m, lb) - case['lead']

  # Where the gap changes sign, if it does.
  hi = 0.95 if case['by'] in 'dm' else 1.0
  xs = [hi * k / 12 for k in range(13)]
  close = False
  for x0, x1 in zip(xs, xs[1:]):
    if (gap(x0) < 0) != (gap(x1) < 0):
      for _ in range(60):
        mid = (x0 + x1) / 2
        if (gap(x0) < 0) != (gap(mid) < 0):
          x1 = mid
        else:
          x0 = mid
      close = True
      break
  if close:
    d, ub, bb, mb = (x0 if case['by'] == k else y for k, y in zip(
        'dubm', (d, ub, bb, mb)))
  v = blank(np.random.default_rng(case['seed']), d)
  v[16 + 3 * la:19 + 3 * la] = (ua, ba, ma)
  v[16 + 3 * lb:19 + 3 * lb] = (ub, bb, mb)
  agent = station_seeker_agent.StationSeekerAgent(3, (1099,))
  # The same winds, from elsewhere.
  v2 = v.copy()
  v2[7] = case['d2'] if case['by'] != 'd' else case['d']
  check(agent, v2, ctx)
  check(agent, v, ctx, case['how'])
  if case['how']:
    check(agent, v2, ctx, 1)
  ctx.nontrivial(close)
  ctx.label('close', close)


@sub('C29', 'columns', lambda: st.fixed_dictionaries(dict(
    seed=gen.ui(0, 10**6), obs=st.lists(st.fixed_dictionaries(dict(
        d=distances, start=gen.ui(0, 360), n=st.integers(1, 181),
        kind=st.integers(0, 2))), min_size=1, max_size=4))), quick=800,
     thorough=40000,
     rule='sequences of columns of winds: each action only depends on the '
     'present observation, and reward does not matter; non-trivial: two '
     'observations')
def columns(case, ctx):
  agent = station_seeker_agent.StationSeekerAgent(3, (1099,))
  for k, o in enumerate(case['obs']):
    r = np.random.default_rng((case['seed'], k))
    v = blank(r, o['d'])
    n = min(o['n'], 361 - o['start'])
    w = r.random((n, 3))
    if o['kind'] == 0:       # Smooth columns.
      w = 0.5 + 0.45 * np.sin(np.linspace(0, r.uniform(0, 6), n)[:, None] +
                              r.uniform(0, 6, 3))
    elif o['kind'] == 1:     # All but the same.
      w = r.random(3) * 0.9 + 0.001 * w
    w[:, 2] *= 0.95
    v[16 + 3 * o['start']:16 + 3 * (o['start'] + n)] = w.ravel()
    check(agent, v, ctx, k)
  agent.end_episode(0.5, True)
  ctx.nontrivial(len(case['obs']) > 1)


@sub('C29', 'flights', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), wind=envs.winds(), steps=st.integers(2, 12))), quick=48,
     thorough=2000,
     rule='flights steered by the agent in real environments; non-trivial: '
     'always')
def flights(case, ctx):
  env = envs.make(case['wind'], case['seed'])
  agent = station_seeker_agent.StationSeekerAgent(3, (1099,))
  obs = env.reset()
  check(agent, np.asarray(obs), ctx)
  a = agent.begin_episode(obs)
  for k in range(case['steps']):
    obs, r, done, _ = env.step(a)
    if done:
      break
    check(agent, np.asarray(obs), ctx, k + 1)
    a = agent.step(r, obs)
    ctx.label(f'action {int(a)}')
  ctx.nontrivial()
