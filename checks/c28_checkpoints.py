"""C28: checkpoints bring back what was saved, and only stale ones go."""

import functools
import os
import pickle
import tempfile

import dopamine.jax.agents.dqn.dqn_agent  # pylint: disable=unused-import
import dopamine.jax.agents.quantile.quantile_agent  # pylint: disable=unused-import
import gin
import jax
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import dopamine_utils
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import networks
from balloon_learning_environment.agents import quantile_agent
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent

FOLDERS = ['d', 'run[1]', 'a/b/c', 'checkpoint_00009.pkl', 'lr=1e-3,*?',
           'checkpoint_5']
FOREIGN = ['checkpoint_backup.pkl', 'checkpoint_.pkl', 'checkpoint_123.pkl',
           'checkpoint_00500.pkl.tmp', 'checkpoint_00500.pk', 'events.out',
           'xcheckpoint_00500.pkl', 'add_count_ckpt.00900.gz',
           'checkpoint_final_00800.pkl', 'checkpoint_-0001.pkl',
           'checkpoint_007_0.pkl', '.checkpoint_99999.pkl']

numbers = st.one_of(st.integers(0, 120), st.sampled_from(
    [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99998, 99999, 100000, 100001,
     1234567]))

bundles = st.one_of(
    st.dictionaries(st.sampled_from(['a', 'b', 'training_steps']),
                    st.one_of(st.integers(-9, 9**12), st.floats(
                        allow_nan=False), st.text(max_size=9),
                              st.lists(st.integers(), max_size=3)),
                    max_size=3))


@sub('C28', 'histories', lambda: st.fixed_dictionaries(dict(
    folder=st.sampled_from(FOLDERS), fail=st.booleans(),
    ops=st.lists(st.one_of(
        st.tuples(st.just('save'), numbers, bundles),
        st.tuples(st.just('save'), numbers, bundles),
        st.tuples(st.just('none'), numbers),
        st.tuples(st.just('load'), numbers),
        st.tuples(st.just('clean'), numbers, st.sampled_from(
            [None, 0, 1, 2, 5, 50, 200])),
        st.tuples(st.just('foreign'), st.sampled_from(FOREIGN))).map(list),
                 max_size=14))), quick=4000, thorough=200000,
     rule='histories of saving, failing to save, loading, cleaning and foreign '
     'files appearing, against a model of the folder; non-trivial: two '
     'checkpoints and a clean-up or load')
def histories(case, ctx):
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    d = os.path.join(out, case['folder'])
    require(dopamine_utils.get_latest_checkpoint(d) == -1, 'nothing there')
    model, foreign, made = {}, set(), False
    saves = others = 0
    for op in case['ops']:
      if op[0] == 'save' or op[0] == 'none':
        seen = []

        def bundle(*a):
          seen.append(a)
          return op[2] if op[0] == 'save' else None

        dopamine_utils.save_checkpoint(d, op[1], bundle)
        made = True
        require(seen == [(d, op[1])], 'the bundle is asked for', got=seen)
        if op[0] == 'save':
          model[op[1]] = op[2]
          saves += 1
      elif op[0] == 'load':
        seen = []

        def unbundle(*a):
          seen.append(a)
          return not case['fail']

        dopamine_utils.load_checkpoint(d, op[1], unbundle)
        want = [(d, op[1], model[op[1]])] if op[1] in model else []
        require(seen == want, 'what is loaded', got=seen, want=want)
        others += 1
      elif op[0] == 'clean' and made:
        if op[2] is None:
          dopamine_utils.clean_up_old_checkpoints(d, op[1])
        else:
          dopamine_utils.clean_up_old_checkpoints(d, op[1], op[2])
        keep = op[1] - (50 if op[2] is None else op[2])
        model = {k: v for k, v in model.items() if k >= keep}
        others += 1
      elif op[0] == 'foreign' and made:
        with open(os.path.join(d, op[1]), 'w') as f:
          f.write('not a checkpoint')
        foreign.add(op[1])
      got = dopamine_utils.get_latest_checkpoint(d)
      require(got == max(model, default=-1), 'latest checkpoint', got=got,
              want=sorted(model))
      if made:
        want = foreign | {f'checkpoint_{k:05d}.pkl' for k in model}
        require(set(os.listdir(d)) == want, 'files',
                got=sorted(os.listdir(d)), want=sorted(want))
    for k, v in model.items():
      with open(os.path.join(d, f'checkpoint_{k:05d}.pkl'), 'rb') as f:
        require(pickle.load(f) == v, 'content', k=k)
  ctx.nontrivial(saves > 1 and others > 0)
  ctx.label('foreign files', bool(foreign))
  ctx.label('six digits', any(k > 99999 for k in model))


class Pass(exploration.Exploration):

  def __init__(self, *a):
    pass

  def begin_episode(self, observation, action):
    return action

  def step(self, reward, observation, action):
    return action


def setup(case):
  gin.clear_config()
  q = case['agent'] == 'quantile'
  a = 'JaxQuantileAgent' if q else 'JaxDQNAgent'
  b = 'OutOfGraphPrioritizedReplayBuffer' if q else 'OutOfGraphReplayBuffer'
  gin.parse_config([
      f'{a}.gamma=0.9', f'{a}.update_horizon={case["horizon"]}',
      f'{a}.min_replay_history={case["history"]}',
      f'{a}.update_period={case["update"]}',
      f'{a}.target_update_period={case["target"]}',
      f'{a}.epsilon_fn=@dqn_agent.identity_epsilon', f'{a}.epsilon_train=0.0',
      f'{a}.epsilon_eval=0.0', f'{a}.allow_partial_reload=True',
      f'{b}.replay_capacity=40', f'{b}.batch_size=3',
      'dqn_agent.create_optimizer.learning_rate=0.01'])


def make(case, seed):
  if case['agent'] == 'dqn':
    return dqn_agent.DQNAgent(
        3, (4,), seed=seed, checkpoint_duration=case['duration'],
        network=functools.partial(networks.MLPNetwork, num_layers=2,
                                  hidden_units=5))
  return quantile_agent.QuantileAgent(
      3, (4,), seed=seed, checkpoint_duration=case['duration'],
      network=functools.partial(networks.QuantileNetwork, num_layers=2,
                                hidden_units=5),
      exploration_wrapper_constructor=Pass, reload_perciatelli=False)


def fly(agent, seed, steps):
  """An episode of generated experience; the actions taken.

  (With longer update horizons episodes must end in terminal states, or else
  there may be too few transitions to learn from in such short histories.)
  """
  r = np.random.default_rng(seed)
  obs = lambda: r.normal(size=4).astype(np.float32)
  acts = [int(agent.begin_episode(obs()))]
  for _ in range(steps):
    acts.append(int(agent.step(float(r.random()), obs())))
  agent.end_episode(float(r.random()),
                    bool(agent.update_horizon > 1 or r.random() < 0.5))
  return acts


def params(agent):
  return jax.tree_util.tree_map(np.asarray, agent.online_params)


def same(x, y):
  a, b = jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)
  return len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))


def seed_all(k):
  import random
  np.random.seed(k)
  random.seed(k)


AGENT = dict(
    agent=st.sampled_from(['dqn', 'quantile']), seed=gen.ui(0, 10**6),
    horizon=st.sampled_from([1, 3]), history=st.sampled_from([3, 10]),
    update=st.sampled_from([1, 4]), target=st.sampled_from([3, 7]),
    duration=st.sampled_from([None, 0, 1, 2, 5]),
    first=st.sampled_from([0, 0, 7, 99998]),
    lengths=st.lists(st.integers(1, 12), min_size=1, max_size=5),
    steps=st.integers(1, 15))



def fill(case, d, rec):
  """Trains and checkpoints; the state of each iteration is in `rec`."""
  a = make(case, case['seed'])
  seed_all(case['seed'])
  for i, n in enumerate(case['lengths']):
    fly(a, (case['seed'], i), n)
    it = case['first'] + i
    a.save_checkpoint(d, it)
    rec[it] = (params(a), a.training_steps)
    have = {int(f[11:-4]) for f in os.listdir(d)
            if f.startswith('checkpoint_')}
    dur = case['duration']
    want = {k for k in rec if dur is None or k >= it - dur}
    require(have == want, 'checkpoints kept', got=sorted(have),
            want=sorted(want))
  return a


@sub('C28', 'agents', lambda: st.fixed_dictionaries(dict(
    AGENT, other=gen.ui(0, 10**6), dirty=st.integers(0, 8),
    tear=st.sampled_from([None, None, 'half', 'replay', 'gone']))), quick=160,
     thorough=3000, case_timeout=300,
     rule='learning agents train, checkpoint and are restored in a fresh (or '
     'dirty) agent, which goes on learning exactly as the saved one; also '
     'after a crash before the newest checkpoint was complete; non-trivial: '
     'parameters had been trained')
def agents(case, ctx):
  setup(case)
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    d = os.path.join(out, 'checkpoints')
    rec = {}
    a = fill(case, d, rec)
    initial = params(make(case, case['seed']))
    last = max(rec)
    if case['tear'] and len(rec) > 1 and case['duration'] != 0:
      # A crash while the replay buffer was being saved: no checkpoint file.
      # (The files of older replay buffers are complete.)
      os.remove(os.path.join(d, f'checkpoint_{last:05d}.pkl'))
      mine = sorted(f for f in os.listdir(d)
                    if f.endswith(f'_ckpt.{last}.gz') or
                    f.endswith(f'_ckpt.{last:05d}.gz'))
      require(mine, 'replay buffer is saved')
      for k, f in enumerate(mine):
        f = os.path.join(d, f)
        if case['tear'] == 'gone' or (case['tear'] == 'half' and
                                      k >= len(mine) // 2):
          os.remove(f)
        elif case['tear'] == 'replay' and k == len(mine) - 1:
          with open(f, 'r+b') as g:
            g.truncate(os.path.getsize(f) // 2)
      last -= 1
      torn = True
    else:
      torn = False
    b = make(case, case['other'])
    if case['dirty']:
      fly(b, case['other'], case['dirty'])
    got = b.reload_latest_checkpoint(d)
    require(got == last, 'restored iteration', got=got, want=last)
    require(same(params(b), rec[last][0]), 'restored parameters')
    require(b.training_steps == rec[last][1], 'restored training steps',
            got=b.training_steps, want=rec[last][1])
    ctx.nontrivial(not same(rec[last][0], initial))
    ctx.label(case['agent'])
    ctx.label('crashed while saving', torn)
    if torn:
      return
    # From here both go on alike.
    acts = []
    for x in (a, b):
      seed_all(case['other'])
      acts.append([fly(x, (case['other'], k), case['steps'])
                   for k in range(2)])
    require(acts[0] == acts[1], 'actions after the restoration', got=acts[1],
            want=acts[0])
    require(same(params(a), params(b)) and
            a.training_steps == b.training_steps,
            'learning after the restoration')
    # A given older iteration can be loaded too.
    older = [k for k in rec if os.path.exists(
        os.path.join(d, f'checkpoint_{k:05d}.pkl'))]
    k = older[case['other'] % len(older)]
    b.load_checkpoint(d, k)
    require(same(params(b), rec[k][0]) and b.training_steps == rec[k][1],
            'an older checkpoint', k=k)
    before = params(b)
    b.load_checkpoint(d, last + 17)
    require(same(params(b), before), 'a missing checkpoint changes nothing')
    empty = os.path.join(out, 'none')
    require(b.reload_latest_checkpoint(empty) == -1 and
            same(params(b), before), 'nothing to restore')


PLAIN = {'agent': (agent_lib.RandomAgent, 4),
         'random_walk': (random_walk_agent.RandomWalkAgent, 1099),
         'station_seeker': (station_seeker_agent.StationSeekerAgent, 1099)}


@sub('C28', 'parameterless', lambda: st.fixed_dictionaries(dict(
    kind=st.sampled_from(sorted(PLAIN)), seed=gen.ui(0, 10**6),
    have=st.lists(numbers, max_size=3),
    ops=st.lists(st.tuples(st.sampled_from(['save', 'load', 'reload', 'fly']),
                           numbers).map(list), min_size=1, max_size=10))),
     quick=160, thorough=4000,
     rule='agents without parameters save, restore and remember nothing, so '
     'that a run with them begins at the first iteration; non-trivial: '
     'restored from a folder with somebody\'s checkpoints')
def parameterless(case, ctx):
  make_agent, size = PLAIN[case['kind']]
  np.random.seed(case['seed'])
  a = make_agent(3, (size,))
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as d:
    for k in case['have']:
      with open(os.path.join(d, f'checkpoint_{k:05d}.pkl'), 'wb') as f:
        pickle.dump({'state': 1}, f)
    files = sorted(os.listdir(d))
    for op, k in case['ops']:
      if op == 'save':
        a.save_checkpoint(d, k)
      elif op == 'load':
        a.load_checkpoint(d, k)
      elif op == 'reload':
        got = a.reload_latest_checkpoint(d)
        require(got == -1, 'nothing is restored', got=got)
        ctx.nontrivial(bool(files))
        got = a.reload_latest_checkpoint(os.path.join(d, 'none'))
        require(got == -1, 'nothing is restored', got=got)
      else:
        obs = np.full(size, 0.25, np.float32)
        acts = [a.begin_episode(obs)] + [a.step(0.5, obs) for _ in range(3)]
        a.end_episode(0.5)
        require(all(int(x) in (0, 1, 2) for x in acts), 'actions', got=acts)
      require(sorted(os.listdir(d)) == files, 'files', got=os.listdir(d))
  ctx.label(case['kind'])


TORN = 'C28-torn-checkpoint'


@sub('C28', 'torn', lambda: st.fixed_dictionaries(dict(
    AGENT, cut=gen.uf(0, 1))), quick=32, thorough=600, case_timeout=300,
     rule='the newest checkpoint file is cut off as by a crash while writing '
     'it: either an older or no checkpoint is restored, or the known finding '
     '(the run cannot be restarted); non-trivial: always')
def torn(case, ctx):
  setup(case)
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    d = os.path.join(out, 'checkpoints')
    rec = {}
    fill(case, d, rec)
    f = os.path.join(d, f'checkpoint_{max(rec):05d}.pkl')
    size = os.path.getsize(f)
    with open(f, 'r+b') as g:
      g.truncate(int(case['cut'] * (size - 1)))
    b = make(case, case['seed'] + 1)
    before = params(b)
    ctx.nontrivial()
    try:
      got = b.reload_latest_checkpoint(d)
    except (EOFError, pickle.UnpicklingError) as e:
      ctx.known(TORN, type(e).__name__)
      require(same(params(b), before), 'half restored')
      return
    if got == -1:
      require(same(params(b), before), 'half restored')
    else:
      require(got in rec and got != max(rec) and
              same(params(b), rec[got][0]), 'restored', got=got)
