"""C27: metric collectors report what they are told."""

import collections
import glob
import itertools
import logging as pylogging
import math
import os
import pickle
import re
import tempfile

from absl import logging
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st
from tensorflow.core.util import event_pb2
from vlib import fakes
from vlib import gen
from vlib.core import close, require, require_close, require_raises, sub

from balloon_learning_environment import train_lib
from balloon_learning_environment.metrics import collector_dispatcher
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import pickle_collector
from balloon_learning_environment.metrics import statistics_instance
from balloon_learning_environment.metrics import tensorboard_collector

Stat = statistics_instance.StatisticsInstance


class Lines(pylogging.Handler):

  def __init__(self):
    super().__init__()
    self.lines = []

  def emit(self, record):
    self.lines.append(record.getMessage())


def captured(fn):
  """Runs fn, returning what it logged at level info."""
  h, old = Lines(), logging.get_verbosity()
  lg = logging.get_absl_logger()
  logging.set_verbosity(logging.INFO)
  lg.addHandler(h)
  try:
    fn()
  finally:
    lg.removeHandler(h)
    logging.set_verbosity(old)
  return h.lines


def events(folder):
  """[(tag, step, value)] of all event files, in order."""
  out = []
  for f in sorted(glob.glob(os.path.join(folder, 'events*'))):
    for rec in tf.data.TFRecordDataset(f):
      e = event_pb2.Event.FromString(rec.numpy())
      for v in e.summary.value:
        val = (float(tf.make_ndarray(v.tensor)) if v.HasField('tensor')
               else v.simple_value)
        out.append((v.tag, e.step, val))
  return out


EPISODE = re.compile(
    r'Episode (\d+): reward: (-?[\d.]+), episode length: (\d+), '
    r'action distribution: \[([^\]]*)\]')
STEP = re.compile(r'Step: (\d+), action: (\d+), reward: ([^,]+), '
                  r'terminal: (True|False)')


def check_console(text, eps, start, n_actions, freq, what):
  """The console text reports the episodes (and steps every freq, if any)."""
  got = EPISODE.findall(text)
  require(len(got) == len(eps), f'{what}: episodes reported', got=len(got),
          want=len(eps))
  for k, (g, ep) in enumerate(zip(got, eps)):
    require(int(g[0]) == start + k, f'{what}: episode number', got=g[0])
    total = math.fsum(s.reward for s in ep)
    require(abs(float(g[1]) - total) <= 0.0051, f'{what}: reward', got=g[1],
            want=total)
    require(int(g[2]) == ep[-1].step, f'{what}: length', got=g[2])
    dist = [float(x) for x in g[3].split()]
    want = np.bincount([s.action for s in ep], minlength=n_actions) / len(ep)
    require(len(dist) == n_actions and np.allclose(dist, want, atol=1e-6),
            f'{what}: action distribution', got=dist, want=want.tolist())
  steps = STEP.findall(text)
  want = []
  if freq:
    want = [s for ep in eps for s in ep[:-1] if s.step % freq == 0]
  require(len(steps) == len(want), f'{what}: steps reported', got=len(steps),
          want=len(want))
  for g, s in zip(steps, want):
    require((int(g[0]), int(g[1]), g[3]) == (s.step, s.action, str(s.terminal))
            and close(float(g[2]), s.reward, 1e-12, 0), f'{what}: a step',
            got=g, want=s)
  if freq and len(want) and len(eps):
    # In the order of events.
    order = [m.group(0)[0] for m in re.finditer(
        f'{EPISODE.pattern}|{STEP.pattern}', text)]
    ref = ''.join('S' * sum(s.step % freq == 0 for s in ep[:-1]) + 'E'
                  for ep in eps)
    require(''.join(order) == ref, f'{what}: order', got=order, want=ref)


def check_tensorboard(folder, eps, start, freq, what):
  got = events(folder)
  want, g = [], 0
  for k, ep in enumerate(eps):
    for s in ep[:-1]:
      if freq and g % freq == 0:
        want.append(('Train/FineGrainedReward', g, s.reward))
      g += 1
    if freq:
      want.append(('Train/FineGrainedReward', g, ep[-1].reward))
    g += 1
    want.append(('Train/EpisodeReward', start + k,
                 math.fsum(s.reward for s in ep)))
    want.append(('Train/EpisodeLength', start + k, ep[-1].step))
  require([x[:2] for x in got] == [x[:2] for x in want],
          f'{what}: events', got=[x[:2] for x in got][:8],
          want=[x[:2] for x in want][:8])
  for x, y in zip(got, want):
    require_close(x[2], y[2], f'{what}: {x[0]}', rel=1e-5, abs_=1e-5)


def check_pickles(folder, eps, start, what):
  names = sorted(os.listdir(folder))
  require(names == sorted(f'pickle_{start + k}.pkl' for k in range(len(eps))),
          f'{what}: files', got=names)
  for k, ep in enumerate(eps):
    with open(os.path.join(folder, f'pickle_{start + k}.pkl'), 'rb') as f:
      got = pickle.load(f)
    require(got == ep, f'{what}: statistics', got=got[:3], want=ep[:3])


def make_episodes(case):
  """Episodes of statistics; the last of each is passed to end_episode."""
  out = []
  for k, n in enumerate(case['lengths']):
    r = fakes.rnd(case['salt'], k)
    # In some episodes, nothing is ever earned.
    low, high = [(-1, 2), (-1, 2), (0, 1), (0, 0), (-500, 100)][
        int(r.integers(5))]
    out.append([Stat(step=i, action=int(r.integers(0, case['actions'])),
                     reward=float(np.round(r.uniform(low, high), 3)),
                     terminal=bool(r.random() < 0.2)) for i in range(n + 1)])
  return out


@sub('C27', 'collectors', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), lengths=st.lists(st.integers(0, 30), max_size=5),
    long=st.sampled_from([None] * 19 + [1100]),
    actions=st.integers(1, 6), start=st.sampled_from([0, 0, 1, 49, 12345]),
    fine=st.booleans(), freq=st.sampled_from([1, 1, 2, 3, 7, 10]),
    spelt=st.booleans(), stale=st.booleans(), twin=st.booleans(),
    save=st.booleans(), which=st.lists(st.sampled_from(['c', 'p', 't']),
                                       min_size=1, max_size=3, unique=True))),
     quick=960, thorough=30000, case_timeout=120,
     rule='histories of training events through the dispatcher to console, '
     'pickle and TensorBoard collectors, whose outputs are read back; '
     'non-trivial: two episodes')
def collectors(case, ctx):
  if case['long']:  # Longer than episodes usually are, between others.
    case['lengths'].insert(1, case['long'])
  eps = make_episodes(case)
  freq = case['freq'] if case['fine'] else 0
  # What is asked for is also what is left out.
  fg = {k: v for k, v in dict(fine_grained_logging=case['fine'],
                              fine_grained_frequency=case['freq']).items()
        if case['spelt'] or v is True or v > 1}
  save = {} if case['save'] and not case['spelt'] else dict(
      save_to_file=case['save'])
  makers = dict(
      c=lambda *a: console_collector.ConsoleCollector(
          *a, **save, **fg),
      p=pickle_collector.PickleCollector,
      t=lambda *a: tensorboard_collector.TensorboardCollector(*a, **fg))
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    d = collector_dispatcher.CollectorDispatcher(
        out, case['actions'], [makers[k] for k in case['which']],
        case['start'])

    def run(d, eps):
      d.pre_training()
      for ep in eps:
        d.begin_episode()
        yield
        for s in ep[:-1]:
          d.step(s)
          yield
        d.end_episode(ep[-1])
        yield
      d.end_training()

    # Another run in the same process, to files only.
    also = [k for k in case['which'] if k != 'c'] if case['twin'] else []
    flown = [ep[::-1] for ep in eps[::-1]]
    e = collector_dispatcher.CollectorDispatcher(
        os.path.join(out, 'also'), case['actions'], [makers[k] for k in also],
        case['start'] + 1)
    old = os.path.join(out, 'metrics', 'pickle')
    if case['stale'] and 'p' in case['which'] and eps:
      # Left by a run that crashed and is resumed.
      os.makedirs(old, exist_ok=True)
      with open(os.path.join(old, f'pickle_{case["start"]}.pkl'), 'wb') as f:
        pickle.dump(eps[0][:1] * 40, f)
    lines = captured(lambda: collections.deque(itertools.zip_longest(
        run(d, eps), run(e, flown)), 0))
    if 'p' in also:
      check_pickles(os.path.join(out, 'also', 'metrics', 'pickle'), flown,
                    case['start'] + 1, 'pickle of the other run')
    if 't' in also:
      check_tensorboard(os.path.join(out, 'also', 'metrics', 'tensorboard'),
                        flown, case['start'] + 1, freq, 'other tensorboard')
      e.get_summary_writer().close()
    w = d.get_summary_writer()
    require((w is not None) == ('t' in case['which']), 'summary writer')
    m = os.path.join(out, 'metrics')
    if 't' in case['which']:  # Written, though the writer is still open.
      check_tensorboard(os.path.join(m, 'tensorboard'), eps, case['start'],
                        freq, 'tensorboard')
      w.close()
    if 'c' in case['which']:
      check_console('\n'.join(lines), eps, case['start'], case['actions'],
                    freq, 'console')
      log = os.path.join(m, 'console', 'console.log')
      there = os.path.exists(log)
      require(case['save'] or not there, 'console.log without save_to_file')
      if case['save']:     # (Nothing written may mean no file.)
        text = open(log).read() if there else ''
        check_console(text, eps, case['start'], case['actions'], freq,
                      'console.log')
    if 'p' in case['which']:
      check_pickles(os.path.join(m, 'pickle'), eps, case['start'], 'pickle')
  ctx.nontrivial(len(eps) > 1)
  for k in case['which']:
    ctx.label(k)
  ctx.label('fine grained', case['fine'])


class Spy:

  def __init__(self, log, k, writer):
    self.log, self.k, self.summary_writer = log, k, writer

  def has_summary_writer(self):
    return self.summary_writer is not None

  def __getattr__(self, name):
    return lambda *a: self.log.append((self.k, name) + a)


@sub('C27', 'dispatch', lambda: st.fixed_dictionaries(dict(
    n=st.integers(0, 4), writers=st.lists(st.booleans(), min_size=4,
                                          max_size=4),
    base=st.sampled_from([None, '/x']), actions=st.integers(1, 5),
    start=st.integers(0, 99), calls=st.lists(st.sampled_from(
        ['pre_training', 'begin_episode', 'step', 'end_episode',
         'end_training']), max_size=12))), quick=1600, thorough=40000,
     rule='every event reaches every collector once, in order, with its '
     'statistics; the first summary writer is passed on; non-trivial: two '
     'collectors and two events')
def dispatch(case, ctx):
  log, made = [], []
  ws = [object() if w else None for w in case['writers']]

  def maker(k):
    def make(*a):
      made.append((k,) + a)
      return Spy(log, k, ws[k])
    return make

  n = case['n']
  d = collector_dispatcher.CollectorDispatcher(
      case['base'], case['actions'], [maker(k) for k in range(n)],
      case['start'])
  require(made == [(k, case['base'], case['actions'], case['start'])
                   for k in range(n)], 'collectors are made', got=made)
  want = []
  for i, c in enumerate(case['calls']):
    a = (Stat(i, 0, 0.5, False),) if c in ('step', 'end_episode') else ()
    getattr(d, c)(*a)
    want += [(k, c) + a for k in range(n)]
  require(log == want, 'events', got=log[:5], want=want[:5])
  w = [x for x in ws[:n] if x is not None]
  require(d.get_summary_writer() is (w[0] if w else None), 'summary writer')
  ctx.nontrivial(n > 1 and len(case['calls']) > 1)


@sub('C27', 'rejects', lambda: st.fixed_dictionaries(dict(
    actions=st.integers(1, 6), bad=st.integers(0, 5), low=st.booleans(),
    save=st.booleans())), quick=320, thorough=4000,
     rule='actions out of range, and missing folders where files must be '
     'written; non-trivial: always')
def rejects(case, ctx):
  c = console_collector.ConsoleCollector(None, case['actions'], 0,
                                         save_to_file=case['save'])
  c.pre_training()
  c.begin_episode()
  a = -1 - case['bad'] if case['low'] else case['actions'] + case['bad']
  require_raises(ValueError, lambda: c.step(Stat(0, a, 1.0, False)),
                 'invalid action', action=a)
  c.step(Stat(0, case['actions'] - 1, 1.0, False))
  c.end_episode(Stat(1, 0, 1.0, True))
  c.end_training()
  require_raises(ValueError, lambda: pickle_collector.PickleCollector(
      None, 3, 0), 'no folder')
  require_raises(ValueError, lambda: tensorboard_collector.TensorboardCollector(
      None, 3, 0), 'no folder')
  ctx.nontrivial()


KNOWN = 'C27-last-step-twice'


@sub('C27', 'training', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), seed=gen.ui(0, 1000), iters=st.integers(1, 3),
    per=st.integers(1, 3), max_len=st.integers(1, 26),
    before=st.sampled_from([None, None, 0]))), quick=240, thorough=8000,
     case_timeout=120,
     rule='training runs with all collectors: rewards, lengths and action '
     'distributions of the episodes flown (but for the known finding); '
     'non-trivial: two episodes')
def training(case, ctx):
  env = fakes.FakeEnv(case['salt'])
  env.seed(case['seed'])
  env.log.clear()
  agent = fakes.FakeAgent(store={} if case['before'] is None else {0: 1})
  start = 0 if case['before'] is None else case['per']
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    lines = captured(lambda: train_lib.run_training_loop(
        out, env, agent, case['iters'], case['max_len'],
        train_lib.get_collector_data(['console', 'pickle', 'tensorboard']),
        episodes_per_iteration=case['per']))
    if hasattr(agent.writer, 'close'):
      agent.writer.close()
    flown, k = [], 0
    for x in env.log:
      if x[0] == 'reset':
        flown.append([])
      elif x[0] == 'step':
        flown[-1].append(Stat(len(flown[-1]), x[1], x[2], x[4]))
    m = os.path.join(out, 'metrics')
    # The known finding: the last step is counted (and stored) once more.
    twice = [ep + [Stat(len(ep), ep[-1].action, ep[-1].reward,
                        ep[-1].terminal)] for ep in flown]
    check_console('\n'.join(lines), twice, start, 3, 0, 'console')
    check_pickles(os.path.join(m, 'pickle'), twice, start, 'pickle')
    check_tensorboard(os.path.join(m, 'tensorboard'), twice, start, 0,
                      'tensorboard')
    for ep in flown:
      if ep[-1].reward != 0:
        ctx.known(KNOWN, 'episode reward includes the last reward twice')
  ctx.nontrivial(len(flown) > 1)
