"""C26: the training loop's protocol and its resumption after crashes."""

import tempfile
import os

from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment import train_lib
from balloon_learning_environment.metrics import collector_dispatcher


class Recorder:
  """A collector that records; not on disk."""

  def __init__(self, base_dir, num_actions, current_episode, log, writer=None):
    self.log = log
    self.summary_writer = writer
    log.append(('made', str(base_dir), num_actions, current_episode))

  def has_summary_writer(self):
    return self.summary_writer is not None

  def pre_training(self):
    self.log.append(('pre',))

  def begin_episode(self):
    self.log.append(('begin',))

  def step(self, s):
    self.log.append(('step', s.step, int(s.action), float(s.reward),
                     bool(s.terminal)))

  def end_episode(self, s):
    self.log.append(('end', s.step, int(s.action), float(s.reward),
                     bool(s.terminal)))

  def end_training(self):
    self.log.append(('post',))


def check_episode(c, a, e, max_len, period):
  """Pops one episode off the collector's, agent's and environment's logs."""
  require(c.pop(0) == ('begin',), 'collector told of the episode first')
  ev = e.pop(0)
  require(ev[0] == 'reset', 'the environment is reset', got=ev)
  obs = ev[1]
  ag = a.pop(0)
  require(ag[:2] == ('begin', obs), 'agent begins with the first observation',
          got=ag, want=obs)
  act = ag[2]
  total = []
  for i in range(max_len):
    ev = e.pop(0)
    require(ev[0] == 'step' and ev[1] == act, 'the agent\'s action is flown',
            got=ev, want=act)
    _, _, r, obs, done = ev
    total.append(r)
    if i % period == 0:
      require(e and e.pop(0) == ('render',), 'rendered', i=i)
    require(not e or e[0][0] != 'render', 'rendered too often', i=i)
    got = c.pop(0)
    require(got == ('step', i, act, r, done), 'collector told of the step',
            got=got, want=(i, act, r, done))
    last = done or i + 1 == max_len
    if last:
      break
    ag = a.pop(0)
    require(ag[:3] == ('act', r, obs), 'agent told of the step', got=ag,
            want=(r, obs))
    act = ag[3]
  ag = a.pop(0)
  require(ag == ('end', r, done), 'agent told of the end, with the last '
          'reward once', got=ag, want=(r, done))
  got = c.pop(0)
  require(got == ('end', i + 1, act, r, done), 'collector told of the end',
          got=got, want=(i + 1, act, r, done))
  return done, i + 1


def cases():
  def short(c):    # Iterations of many episodes are few.
    return dict(c, iters=min(c['iters'], 3)) if c['per'] > 4 else c

  return st.fixed_dictionaries(dict(
      salt=gen.ui(0, 10**6), seed=gen.ui(0, 1000),
      iters=st.integers(0, 6) | st.integers(7, 60),
      per=st.sampled_from([1, 2, 3, 4] * 6 + [51, 67]), max_len=st.integers(1, 26),
      period=st.sampled_from([1, 2, 3, 10]), collectors=st.integers(0, 2),
      crashes=st.lists(st.tuples(st.sampled_from(['env', 'agent']),
                                 gen.ui(1, 120)).map(list), max_size=3),
      before=st.sampled_from([None, None, None, 0, 3, 9, 49, 99, 150]))).map(
          short)


@sub('C26', 'protocol', cases, quick=4000, thorough=200000,
     rule='whole training runs on scripted environments: what collectors and '
     'agent are told in which order, that each reward reaches the agent once, '
     'checkpoints after every iteration; non-trivial: two iterations')
def protocol(case, ctx):
  env = fakes.FakeEnv(case['salt'])
  env.seed(case['seed'])
  env.log.clear()
  iters = case['iters'] + (case['before'] or 0)
  store = {} if case['before'] is None else {case['before']: 5}
  agent = fakes.FakeAgent(store=store)
  agent.log.clear()
  logs = [[] for _ in range(case['collectors'])]
  writer = object()
  makers = [lambda b, n, c, l=l, w=(writer if k == 1 else None):
            Recorder(b, n, c, l, w) for k, l in enumerate(logs)]
  train_lib.run_training_loop(
      '/nowhere/base', env, agent, iters, case['max_len'], makers,
      render_period=case['period'], episodes_per_iteration=case['per'])
  start = 0 if case['before'] is None else case['before'] + 1
  a, e = list(agent.log), list(env.log)
  ckpt = os.path.join('/nowhere/base', 'checkpoints')
  require(('reload', ckpt) in a, 'looks for checkpoints')
  k = [x[0] for x in a]
  n = next((i for i, x in enumerate(k) if x in ('begin', 'save')), len(k))
  head, a = a[:n], a[n:]
  require(sum(x[0] == 'reload' for x in head) == 1 and
          ('mode', 'train') in head, 'agent set up', head=head)
  want = writer if case['collectors'] > 1 else None
  require(agent.writer is want, 'summary writer', got=agent.writer, want=want)
  for l in logs:
    require(l[0] == ('made', '/nowhere/base', 3, start * case['per']) and
            l[1] == ('pre',) and l[-1] == ('post',), 'collector set up',
            got=l[:2])
    require(l == logs[0], 'collectors are told the same')
  c = list(logs[0][2:-1]) if logs else None
  ends = set()
  for it in range(start, iters):
    for _ in range(case['per']):
      if c is None:
        c = [x for x in _implied(e, case['max_len'])]
        done, n = check_episode(c, a, e, case['max_len'], case['period'])
        c = None
      else:
        done, n = check_episode(c, a, e, case['max_len'], case['period'])
      ends.add(done)
    require(a and a.pop(0) == ('save', ckpt, it), 'checkpoint after the '
            'iteration', it=it)
  require(not a and not e and not c, 'further calls', a=a[:2], e=e[:2],
          c=(c or [])[:2])
  ctx.nontrivial(iters - start > 1)
  ctx.label('resumed', start > 0)
  ctx.label('nothing left to do', start >= iters)
  ctx.label('terminal and cut episodes', len(ends) > 1)


def _implied(e, max_len):
  """What a collector would have been told of the next episode."""
  yield ('begin',)
  steps = []
  for x in e[1:]:
    if x[0] == 'reset' or len(steps) == max_len:
      break
    if x[0] == 'step':
      steps.append(x)
      yield ('step', len(steps) - 1, x[1], x[2], x[4])
      if x[4]:
        break
  yield ('end', len(steps), steps[-1][1], steps[-1][2], steps[-1][4])


@sub('C26', 'crashes', cases, quick=3000, thorough=150000,
     rule='training runs in which environment or agent fail at generated '
     'operations, restarted until done: each iteration is completed and '
     'checkpointed exactly once in order, the agent goes on from the last '
     'checkpoint, and episode numbers go on with it; non-trivial: a run '
     'crashed')
def crashes(case, ctx):
  store = {}
  crashes_left = list(case['crashes'])
  saves, crashed = [], 0
  last_log = []
  while True:
    env = fakes.FakeEnv(case['salt'])
    env.seed(case['seed'])
    agent = fakes.FakeAgent(store=store)
    if crashes_left:
      who, at = crashes_left.pop(0)
      (env if who == 'env' else agent).crash_at = at
    log = []
    start = max(store) + 1 if store else 0
    try:
      train_lib.run_training_loop(
          '/nowhere/base', env, agent, case['iters'], case['max_len'],
          [lambda b, n, c: Recorder(b, n, c, log)],
          render_period=10, episodes_per_iteration=case['per'])
      done = True
    except fakes.Crash:
      done = False
      crashed += 1
    saves += [x[2] for x in agent.log if x[0] == 'save']
    require(log[0][3] == start * case['per'], 'episode numbers go on where '
            'the checkpoint left', got=log[0][3], want=start * case['per'])
    if done:
      last_log = log
      break
  n = case['iters']
  # A crash inside the saving itself may repeat it.
  require(sorted(set(saves)) == list(range(n)) and
          [s for i, s in enumerate(saves) if i == 0 or saves[i - 1] != s] ==
          list(range(n)), 'iterations are done in order, each once',
          saves=saves)
  require(sorted(store) == list(range(n)), 'checkpoints', got=sorted(store))
  for i in range(n):
    require(store[i] == (i + 1) * case['per'], 'episodes learned from by the '
            'checkpoint', i=i, got=store[i], want=(i + 1) * case['per'])
  require(last_log[-1] == ('post',), 'collectors are closed')
  ctx.nontrivial(crashed > 0)
  ctx.label('crashed more than once', crashed > 1)


@sub('C26', 'collectors', lambda: st.fixed_dictionaries(dict(
    names=st.one_of(st.none(), *[st.lists(st.sampled_from(
        ['console', 'pickle', 'tensorboard', 'other', '']), max_size=5)] * 7))),
     quick=160,
     thorough=2000,
     rule='names of collectors to constructors, unknown ones left out, '
     'none for none; non-trivial: a known one')
def collectors(case, ctx):
  if case['names'] is None:    # The default.
    require(train_lib.get_collector_data() == [] and
            train_lib.get_collector_data(None) == [], 'collectors by default')
    return
  got = train_lib.get_collector_data(case['names'])
  want = [collector_dispatcher.AVAILABLE_COLLECTORS[n] for n in case['names']
          if n in ('console', 'pickle', 'tensorboard')]
  require(got == want, 'collectors', got=got, want=want)
  names = [c.__name__.lower() for c in got]
  require(all(n.startswith(k) for n, k in zip(
      names, [n for n in case['names'] if n in ('console', 'pickle',
                                                'tensorboard')])),
          'collector classes', got=names)
  ctx.nontrivial(bool(want))
