"""C24: evaluation reports what was flown."""

import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st
from vlib import envs
from vlib import fakes
from vlib import gen
from vlib.core import require, require_close, sub

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites


@sub('C24', 'scripted', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), seeds=st.lists(
        st.one_of(*[gen.ui(0, 5000)] * 4, gen.ui(2**31, 2**40)), max_size=5),
    max_len=st.integers(1, 30), radius=st.sampled_from([50.0, 25.0, 100.0]),
    period=st.sampled_from([1, 2, 3, 10, 100]), path=st.booleans(),
    twice=st.booleans())), quick=4000, thorough=200000,
     rule='scripted environments and a recording deterministic agent: rewards, '
     'time within the radius, how and when the flight ended, flight path, and '
     'who was told what in which order; non-trivial: two seeds, one of them '
     'ending early')
def scripted(case, ctx):
  env = fakes.FakeEnv(case['salt'], case['radius'])
  ag = fakes.FakeAgent()
  suite = suites.EvaluationSuite(list(case['seeds']), case['max_len'])
  if case['twice']:
    eval_lib.eval_agent(ag, env, suite)
    env.log.clear()
    ag.log.clear()
  res = eval_lib.eval_agent(ag, env, suite, render_period=case['period'],
                            calculate_flight_path=case['path'])
  require(isinstance(res, list) and [r.seed for r in res] == case['seeds'],
          'one result per seed, in order')
  require(suite.seeds == case['seeds'] and suite.max_episode_length ==
          case['max_len'], 'the suite was changed')
  modes = [e for e in ag.log if e[0] == 'mode']
  require(modes and modes[-1][1] == 'eval' and (
      not case['seeds'] or ag.log.index(('mode', 'eval')) <
      [e[0] for e in ag.log].index('begin')), 'agent in evaluation mode',
          modes=modes)
  early = 0
  elog, alog = list(env.log), [e for e in ag.log if e[0] != 'mode']
  for r in res:
    s, n, done, rewards, actions = fakes.expected(case['salt'], r.seed,
                                                case['radius'], case['max_len'])
    early += done
    require_close(r.cumulative_reward, math.fsum(rewards), 'total reward')
    inside = sum(math.hypot(s.x[i], s.y[i]) <= case['radius']
                 for i in range(n))
    require_close(r.time_within_radius, inside / n, 'time within radius',
                  inside=inside, n=n)
    require(r.final_timestep == n, 'final time step', got=r.final_timestep,
            want=n)
    for k in ('out_of_power', 'envelope_burst', 'zeropressure'):
      require(bool(getattr(r, k)) == (done and s.kind == k), k,
              got=getattr(r, k), done=done, kind=s.kind)
    if case['path']:
      require(len(r.flight_path) == n, 'flight path length')
      for i, p in enumerate(r.flight_path):
        got = (p.x.km, p.y.km, p.pressure, p.superpressure, p.battery_soc)
        want = (s.x[i], s.y[i], s.pressure[i], s.sp[i], s.soc[i])
        require(np.allclose(got, want, rtol=1e-12, atol=1e-9) and
                p.time_elapsed == dt.timedelta(minutes=3 * (i + 1)),
                'flight path', got=got, want=want, i=i)
    else:
      require(len(r.flight_path) == 0, 'no flight path asked for')
    # What the environment was told.
    require(elog and elog[0] == ('seed', r.seed), 'seeded first',
            got=elog[:1])
    elog.pop(0)
    require(elog and elog[0][0] == 'reset', 'reset after seeding')
    o0 = elog.pop(0)[1]
    require(alog and alog[0][:2] == ('begin', o0), 'agent begins with the '
            'first observation', got=alog[:1], want=o0)
    alog.pop(0)
    renders = 0
    for i in range(n):
      require(elog and elog[0][0] == 'step' and elog[0][1] == actions[i],
              'the agent\'s action is flown', got=elog[:1], want=actions[i])
      _, _, rew, o, d = elog.pop(0)
      if elog and elog[0] == ('render',):
        elog.pop(0)
        renders += 1
        require(i % case['period'] == 0, 'rendered at the wrong step', i=i)
      else:
        require(i % case['period'] != 0, 'step not rendered', i=i)
      if i < n - 1 or (alog and alog[0][0] == 'act'):
        require(alog[0][:3] == ('act', rew, o), 'what the agent is told',
                got=alog[:1], want=(rew, o))
        alog.pop(0)
    require(alog and alog[0] == ('end', rew, done), 'end of the episode',
            got=alog[:1], want=(rew, done))
    alog.pop(0)
  require(not elog and not alog, 'further calls', env=elog[:3], agent=alog[:3])
  ctx.nontrivial(len(res) > 1 and early > 0)
  ctx.label('cut at the maximum length', early < len(res))


class Policy(base_agent.Agent):
  """A deterministic feedback policy on real observations."""

  def __init__(self, k):
    super().__init__(3, (1099,))
    self.k = k

  def begin_episode(self, observation):
    return int(float(np.sum(np.asarray(observation, float)[:16])) * self.k) % 3

  def step(self, reward, observation):
    return (self.begin_episode(observation) + int(reward * 100)) % 3

  def end_episode(self, reward, terminal=True):
    pass


@sub('C24', 'real', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seeds=st.lists(gen.seeds(), min_size=2, max_size=3,
                                      unique=True),
    other=gen.seeds(), k=gen.uf(1, 50), max_len=st.integers(1, 5),
    pre=envs.actions(0, 3))), quick=64, thorough=4000,
     rule='real flights: the results of a suite equal those of its seeds '
     'evaluated alone in another order and environment, and flying by hand; '
     'non-trivial: always')
def real(case, ctx):
  env, env2 = envs.make(case['wind'], 1), envs.make(case['wind'], case['other'])
  for a in case['pre']:
    env2.step(a)
  pol = Policy(case['k'])
  ev = lambda e, seeds: eval_lib.eval_agent(
      pol, e, suites.EvaluationSuite(seeds, case['max_len']))
  whole = ev(env, case['seeds'])
  parts = {r.seed: r for s in reversed(case['seeds']) for r in ev(env2, [s])}
  for r in whole:
    p = parts[r.seed]
    require(r == p or repr(r) == repr(p), 'a seed\'s result depends on others',
            r=r, p=p)
    # By hand.
    e = envs.make(case['wind'], 2)
    e.seed(r.seed)
    o = e.reset()
    a, total, inside, n = pol.begin_episode(o), 0.0, 0, 0
    done = False
    while n < case['max_len'] and not done:
      o, rew, done, info = e.step(a)
      a = pol.step(rew, o)
      total += rew
      s = e.get_simulator_state().balloon_state
      inside += math.hypot(s.x.km, s.y.km) <= e.radius.km
      pt = r.flight_path[n]
      n += 1
      require((pt.x.m, pt.y.m, pt.pressure, pt.superpressure, pt.battery_soc,
               pt.time_elapsed) == (s.x.m, s.y.m, s.pressure, s.superpressure,
                                    s.battery_soc, s.time_elapsed),
              'flight path is what was flown', n=n)
    require_close(r.cumulative_reward, total, 'total reward')
    require_close(r.time_within_radius, inside / n, 'time within radius')
    require(r.final_timestep == n and len(r.flight_path) == n, 'length')
    require(bool(r.out_of_power or r.envelope_burst or r.zeropressure) == done,
            'how it ended')
  ctx.nontrivial()
