"""C32: learned agents act greedily, learn as specified, and record what flew."""

import functools
import os
import random
import tempfile

import dopamine.jax.agents.dqn.dqn_agent as dopamine_dqn
import dopamine.jax.agents.quantile.quantile_agent as dopamine_quantile
import gin
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import (require, require_array_close, require_close,
                       require_raises, sub)

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import mlp_agent
from balloon_learning_environment.agents import networks
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import quantile_agent


def forward(params, x):
  """A multi-layer perceptron with rectified linear units, in numpy."""
  p = params['params']
  x = np.asarray(x, np.float64).ravel()
  n = len(p)
  for k in range(n):
    x = x @ np.asarray(p[f'Dense_{k}']['kernel'], np.float64) + np.asarray(
        p[f'Dense_{k}']['bias'], np.float64)
    if k < n - 1:
      x = np.maximum(x, 0)
  return x


def shuffled(params, r):
  """Parameters of the same shapes, also with biases."""
  return jax.tree_util.tree_map(
      lambda a: jnp.asarray(r.normal(size=a.shape) * 0.7, jnp.float32), params)


@sub('C32', 'networks', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), layers=st.integers(1, 4), units=st.integers(1, 12),
    actions=st.integers(1, 5), atoms=st.integers(1, 9),
    shape=st.sampled_from([(4,), (1,), (7,), (2, 3), (4, 1)]),
    kind=st.sampled_from(['mlp', 'dopamine', 'quantile']),
    size=st.sampled_from([3, 3, 300]),
    dtype=st.sampled_from(['float32', 'int32', 'float64']))), quick=160,
     thorough=4000, case_timeout=300,
     rule='outputs of networks of all sizes against a forward pass in numpy; '
     'non-trivial: a hidden layer')
def nets(case, ctx):
  r = fakes.rnd(case['salt'])
  kw = dict(num_actions=case['actions'], num_layers=case['layers'],
            hidden_units=case['units'])
  if case['kind'] == 'quantile':
    net = networks.QuantileNetwork(num_atoms=case['atoms'], **kw)
  else:
    net = networks.MLPNetwork(is_dopamine=case['kind'] == 'dopamine', **kw)
  x = (r.normal(size=case['shape']) * case['size']).astype(case['dtype'])
  params = net.init(jax.random.PRNGKey(case['salt']), jnp.zeros(case['shape']))
  require(len(params['params']) == case['layers'], 'number of layers')
  for k in range(case['layers'] - 1):
    require(params['params'][f'Dense_{k}']['kernel'].shape[1] == case['units'],
            'hidden units')
  params = shuffled(params, r)
  y = net.apply(params, x)
  want = forward(params, x)
  close = dict(rel=1e-3, abs_=1e-3 + 1e-5 * float(np.abs(want).max()))
  if case['kind'] == 'mlp':
    require_array_close(y, want, 'values', **close)
  elif case['kind'] == 'dopamine':
    require_array_close(y.q_values, want, 'values', **close)
  else:
    want = want.reshape(case['actions'], case['atoms'])
    require_array_close(y.logits, want, 'quantiles', **close)
    require_array_close(y.q_values, want.mean(axis=1), 'values', **close)
    want = np.asarray(y.logits, np.float64)
    e = np.exp(want - want.max(axis=1, keepdims=True))
    require_array_close(y.probabilities, e / e.sum(axis=1, keepdims=True),
                        'probabilities', rel=1e-2, abs_=1e-3)
  ctx.nontrivial(case['layers'] > 1)
  ctx.label(case['kind'])


def copied(tree):
  return jax.tree_util.tree_map(lambda a: np.array(a), tree)


def same(x, y):
  a, b = jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)
  return len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))


def td_steps(params, x, a, r, y, b, gamma, lr):
  """Parameters after one SARSA step (two usual ways to differentiate)."""
  out = []
  for semi in (False, True):
    def loss(p):
      def q(z):
        z = jnp.asarray(z, jnp.float32).reshape(-1)
        layers = p['params']
        for k in range(len(layers)):
          z = z @ layers[f'Dense_{k}']['kernel'] + layers[f'Dense_{k}']['bias']
          if k < len(layers) - 1:
            z = jnp.where(z > 0, z, 0)
        return z
      t = r + gamma * q(y)[b]
      return (q(x)[a] - (jax.lax.stop_gradient(t) if semi else t))**2
    g = jax.grad(loss)(params)
    out.append(jax.tree_util.tree_map(lambda p, d: p - lr * d, params, g))
  return out


@sub('C32', 'mlp', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), layers=st.integers(1, 3), units=st.integers(2, 8),
    actions=st.integers(2, 5), gamma=st.sampled_from([0.9, 0.5, 0.0, 1.0]),
    lr=st.sampled_from([0.001, 0.02]),
    episodes=st.lists(st.tuples(
        st.sampled_from(['train', 'train', 'eval']), st.integers(0, 6),
        st.integers(0, 9)), min_size=1, max_size=4))),
     quick=96, thorough=2000, case_timeout=300,
     rule='episodes of the MLP agent in both modes, at times changing between '
     'steps: greedy actions, one SARSA step per transition in training, none '
     'in evaluation; non-trivial: a training step')
def mlp(case, ctx):
  r = fakes.rnd(case['salt'])
  gin.clear_config()
  gin.parse_config([
      f'networks.MLPNetwork.num_layers={case["layers"]}',
      f'networks.MLPNetwork.hidden_units={case["units"]}',
      f'mlp_agent.create_optimizer.learning_rate={case["lr"]}'])
  # 0.9 is what is meant where none is given.
  given = {} if case['gamma'] == 0.9 and case['salt'] % 2 else dict(
      gamma=case['gamma'])
  a = mlp_agent.MLPAgent(case['actions'], (4,), seed=case['salt'], **given)
  twin = mlp_agent.MLPAgent(case['actions'], (4,), seed=case['salt'])
  other = mlp_agent.MLPAgent(case['actions'], (4,), seed=case['salt'] + 1)
  require(same(a.network_params, twin.network_params), 'same seed')
  require(not same(a.network_params, other.network_params), 'other seed')

  def act(call, o):
    q = forward(copied(a.network_params), o)
    got = int(call())
    if np.sort(q)[-1] - np.sort(q)[-2] > 1e-4:
      require(got == int(np.argmax(q)), 'greedy action', got=got, q=q.tolist())
    return got

  shown = []   # Observations, and what they were.

  def look():
    o = r.normal(size=4).astype(np.float32)
    shown.append((o, o.copy()))
    return o

  for mode, n, change in case['episodes']:
    a.set_mode(base_agent.AgentMode(mode) if n % 2 else mode)
    x = look()
    before = copied(a.network_params)
    u = act(lambda: a.begin_episode(x), x)
    require(same(before, a.network_params), 'no learning before a reward')
    for k in range(n):
      if k == change or k == change - 2:
        mode = 'eval' if mode == 'train' else 'train'
        a.set_mode(mode)
      y = look()
      reward = prize(r)
      before = copied(a.network_params)
      v = act(lambda: a.step(reward, y), y)
      if mode == 'eval':
        require(same(before, a.network_params), 'learning in evaluation')
      else:
        wants = td_steps(before, x, u, reward, y, v, case['gamma'], case['lr'])
        ok = [all(np.allclose(p, q, rtol=1e-4, atol=1e-5) for p, q in zip(
            jax.tree_util.tree_leaves(a.network_params),
            jax.tree_util.tree_leaves(w))) for w in wants]
        require(any(ok), 'SARSA step')
        ctx.nontrivial()
      x, u = y, v
    before = copied(a.network_params)
    a.end_episode(0.5, bool(n % 2))
    if mode == 'eval':
      require(same(before, a.network_params), 'learning in evaluation')
    require(all((o == was).all() for o, was in shown),
            'an observation was changed')


def prize(r):
  """A reward; some vanish, or are negative."""
  return float(r.choice([r.random(), 0.0, 1.0, -0.5], p=[.6, .2, .1, .1]))


class Override(exploration.Exploration):
  """Overrides actions by a rule; records calls."""
  salt, made = 0, []

  def __init__(self, num_actions, shape):
    self.log, self.n = [], num_actions
    Override.made.append(self)

  def pick(self, o, a):
    k = int(abs(float(np.ravel(o)[0])) * 1000 + self.salt)
    return np.asarray((int(a) + 1 + k) % self.n) if k % 3 == 0 else a

  def begin_episode(self, observation, action):
    self.log.append(('begin', float(np.ravel(observation)[0])))
    return self.pick(observation, action)

  def step(self, reward, observation, action):
    self.log.append(('step', float(reward), float(np.ravel(observation)[0])))
    return self.pick(observation, action)


class Writer:

  def __init__(self):
    self.log = []

  def scalar(self, tag, value, step):
    self.log.append((tag, float(value), int(step)))

  def flush(self):
    pass


def setup(case):
  gin.clear_config()
  q = case['agent'] == 'quantile'
  a = 'JaxQuantileAgent' if q else 'JaxDQNAgent'
  b = 'OutOfGraphPrioritizedReplayBuffer' if q else 'OutOfGraphReplayBuffer'
  gin.parse_config([
      f'{a}.gamma={case["gamma"]}', f'{a}.update_horizon={case["horizon"]}',
      f'{a}.min_replay_history={case["history"]}',
      f'{a}.update_period={case["update"]}',
      f'{a}.target_update_period={case["target"]}',
      f'{a}.epsilon_fn=@dqn_agent.identity_epsilon',
      f'{a}.epsilon_train={case["eps"]}', f'{a}.epsilon_eval=0.0',
      f'{a}.summary_writing_frequency={case["freq"]}',
      f'{b}.replay_capacity=60', f'{b}.batch_size=3',
      'dqn_agent.create_optimizer.learning_rate=0.01'])
  if q:
    gin.parse_config([f'{a}.num_atoms=5'])
  else:
    gin.parse_config([f"{a}.loss_type='{case['loss']}'"])


def pair(case):
  """The agent and Dopamine's own with the same parameters."""
  kw = dict(num_layers=2, hidden_units=5)
  common = dict(observation_shape=(4,), observation_dtype=jnp.float32,
                stack_size=1, seed=case['seed'])
  if case['agent'] == 'dqn':
    net = functools.partial(networks.MLPNetwork, **kw)
    return (dqn_agent.DQNAgent(3, (4,), seed=case['seed'], network=net,
                               checkpoint_duration=None),
            dopamine_dqn.JaxDQNAgent(
                3, network=functools.partial(net, is_dopamine=True), **common))
  net = functools.partial(networks.QuantileNetwork, **kw)
  return (quantile_agent.QuantileAgent(
      3, (4,), seed=case['seed'], network=net, checkpoint_duration=None,
      exploration_wrapper_constructor=Override, reload_perciatelli=False),
          dopamine_quantile.JaxQuantileAgent(3, network=net, **common))


def run(a, case, ref):
  """Flies the episodes; returns everything that happened."""
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  over = Override(3, None)
  r = fakes.rnd(case['seed'], 'run')
  out, calls = [], []

  def flown(u, o, what):
    # The reference has no exploration: override its actions from here.
    if ref and case['agent'] == 'quantile' and not a.eval_mode:
      u = over.begin_episode(o, u) if what is None else over.step(what, o, u)
      a.action = u
    return int(u)

  for mode, n in case['episodes']:
    if ref:
      a.eval_mode = mode == 'eval'
    else:
      a.set_mode(mode if n % 2 else base_agent.AgentMode(mode))
    o = r.normal(size=4).astype(np.float32)
    u = flown(a.begin_episode(o), o, None)
    ep = [u]
    for _ in range(n):
      o, w = r.normal(size=4).astype(np.float32), prize(r) * case['prize']
      u = flown(a.step(w, o), o, w)
      ep.append(u)
    a.end_episode(prize(r) * case['prize'], bool(
        case['horizon'] > 1 or r.random() < 0.5))
    out.append(dict(acts=ep, params=copied(a.online_params),
                    target=copied(a.target_network_params),
                    steps=int(a.training_steps),
                    added=int(a._replay.add_count)))
  return out, over.log, calls


@sub('C32', 'dopamine', lambda: st.fixed_dictionaries(dict(
    agent=st.sampled_from(['dqn', 'quantile']), seed=gen.ui(0, 10**6),
    salt=st.integers(0, 2), gamma=st.sampled_from([0.9, 0.99]),
    horizon=st.sampled_from([1, 3]), history=st.sampled_from([5, 10]),
    update=st.sampled_from([1, 2, 4]), target=st.sampled_from([3, 7]),
    eps=st.sampled_from([0.0, 0.0, 0.3]), freq=st.sampled_from([1, 4]),
    loss=st.sampled_from(['mse', 'huber']), writer=st.booleans(),
    prize=st.sampled_from([1, 1, 1, 1000]),
    episodes=st.lists(st.tuples(st.sampled_from(['train', 'train', 'eval']),
                                st.integers(1, 14)), min_size=1,
                      max_size=5))), quick=96, thorough=3000,
     case_timeout=300,
     rule='histories of training and evaluation episodes flown by the DQN and '
     'quantile agents and by the Dopamine agents they are made from: the same '
     'actions, networks and replay buffers, with the action that was flown '
     'recorded; nothing is learned in evaluation; non-trivial: parameters '
     'change')
def dopamine(case, ctx):
  setup(case)
  Override.salt = case['salt']
  Override.made.clear()
  a, ref = pair(case)
  require(same(a.online_params, ref.online_params), 'initial parameters')
  first = copied(a.online_params)
  w = Writer()
  a.set_summary_writer(w if case['writer'] else None)
  got, _, _ = run(a, case, False)
  want, explored, _ = run(ref, case, True)
  for k, (x, y) in enumerate(zip(got, want)):
    require(x['acts'] == y['acts'], 'actions', episode=k, got=x['acts'],
            want=y['acts'])
    require((x['steps'], x['added']) == (y['steps'], y['added']),
            'training steps and transitions', episode=k,
            got=(x['steps'], x['added']), want=(y['steps'], y['added']))
    require(same(x['params'], y['params']), 'learned parameters', episode=k)
    require(same(x['target'], y['target']), 'target network', episode=k)
  if case['agent'] == 'quantile':
    e = Override.made[0]  # That of the agent is made first.
    require(e.log == explored, 'exploration is asked in training only',
            got=e.log[:4], want=explored[:4])
  n = int(a._replay.add_count)
  for name in ('observation', 'action', 'reward', 'terminal'):
    require(np.array_equal(a._replay._store[name][:n],
                           ref._replay._store[name][:n]), f'recorded {name}',
            got=a._replay._store[name][:n][:6].tolist(),
            want=ref._replay._store[name][:n][:6].tolist())
  # Evaluation changes nothing, and training episodes record every step.
  prev, added, steps = first, 0, 0
  for (mode, m), x in zip(case['episodes'], got):
    if mode == 'eval':
      require(same(x['params'], prev) and x['added'] == added and
              x['steps'] == steps, 'evaluation changes nothing')
    else:
      require(x['added'] == added + m + 1 and x['steps'] == steps + m + 1,
              'every transition of a training episode is recorded',
              got=x['added'] - added, want=m + 1)
    prev, added, steps = x['params'], x['added'], x['steps']
  if case['writer']:
    tags = {t for t, _, _ in w.log}
    require(len(tags) <= 1, 'loss', tags=tags)
    s = [t for _, _, t in w.log]
    require(all(t > 0 and t % case['freq'] == 0 and t % case['update'] == 0
                for t in s) and s == sorted(set(s)), 'steps of losses', got=s)
    ctx.label('losses are logged', bool(s))
  ctx.nontrivial(not same(first, prev))
  ctx.label(case['agent'])


def frozen(r, layers):
  """(path-ready graph, parameters) of a made-up Perciatelli44."""
  g = tf.Graph()
  ps = []
  with g.as_default():
    o = tf.compat.v1.placeholder(tf.float32, [1, 1099], name='observation')
    z = o
    for k in range(len(layers) - 1):
      w = (r.normal(size=(layers[k], layers[k + 1])) / np.sqrt(layers[k])
          ).astype(np.float32)
      b = (r.normal(size=layers[k + 1]) * 0.1).astype(np.float32)
      ps.append((w, b))
      s = f'Online/fully_connected{"_%d" % k if k else ""}'
      tw = tf.constant(w, name=f'{s}/weights')
      tb = tf.constant(b, name=f'{s}/biases')
      z = tf.add(tf.matmul(z, tf.identity(tw, name=f'{s}/weights/read')),
                 tf.identity(tb, name=f'{s}/biases/read'), name=f'{s}/BiasAdd')
      if k < len(layers) - 2:
        z = tf.nn.relu(z, name=f'{s}/Relu')
    z = tf.reshape(z, [3, -1])
    q = tf.identity(tf.reshape(tf.reduce_mean(z, axis=1), [1, 3]),
                    name='q_values')
    # Another policy, which the agent is not to follow.
    tf.argmin(q, axis=1, name='sleepwalk_action')
  return g.as_graph_def().SerializeToString(), ps


def values(ps, x):
  z = np.asarray(x, np.float64)
  for k, (w, b) in enumerate(ps):
    z = z @ w + b
    if k < len(ps) - 1:
      z = np.maximum(z, 0)
  return z.reshape(3, -1).mean(axis=1)


def greedy(got, ps, x):
  q = values(ps, x)
  if np.sort(q)[-1] - np.sort(q)[-2] > 1e-4:
    require(int(got) == int(np.argmax(q)), 'greedy action', got=int(got),
            q=q.tolist())


@sub('C32', 'perciatelli', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), models=st.integers(1, 3), steps=st.integers(0, 6),
    units=st.integers(3, 9), atoms=st.integers(1, 5), tune=st.booleans())),
     quick=48, thorough=1500, case_timeout=300,
     rule='made-up frozen networks in place of Perciatelli44 (the real one is '
     'not available here): the agent acts greedily by the network at its path, '
     'also with several in one process, and the quantile agent that starts '
     'from it acts alike; non-trivial: two models')
def perciatelli(case, ctx):
  r = fakes.rnd(case['salt'])
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    all_ = []
    layers = [1099] + 7 * [case['units']] + [3 * case['atoms']]
    for k in range(case['models']):
      data, ps = frozen(r, layers)
      path = os.path.join(out, f'{k}.pb')
      with open(path, 'wb') as f:
        f.write(data)
      gin.clear_config()
      gin.parse_config([f"load_perciatelli44.path='{path}'"])
      all_.append((perciatelli44.Perciatelli44(3, [1099]), ps))
      if case['tune'] and k == case['models'] - 1:
        gin.parse_config(["OutOfGraphPrioritizedReplayBuffer.replay_capacity="
                          "20", 'JaxQuantileAgent.epsilon_eval=0.0',
                          'OutOfGraphPrioritizedReplayBuffer.batch_size=2',
                          f'JaxQuantileAgent.num_atoms={case["atoms"]}'])
        q = quantile_agent.QuantileAgent(
            3, (1099,), seed=case['salt'], checkpoint_duration=None,
            network=functools.partial(networks.QuantileNetwork, num_layers=8,
                                      hidden_units=case['units']),
            exploration_wrapper_constructor=exploration.Exploration,
            reload_perciatelli=True)
        q.set_mode('eval')
        all_.append((q, ps))
        require(same(q.online_params, q.target_network_params),
                'target network')
    for bad in ((2, [1099]), (4, [1099]), (3, [1098]), (3, [1099, 1])):
      require_raises(ValueError, lambda: perciatelli44.Perciatelli44(*bad),
                     'wrong shape', shape=bad)
    for a, ps in all_:
      x = r.normal(size=1099).astype(np.float32)
      greedy(a.begin_episode(x), ps, x)
    for _ in range(case['steps']):
      for a, ps in all_:
        x = r.normal(size=1099).astype(np.float32)
        greedy(a.step(float(r.random()), x), ps, x)
    for a, _ in all_:
      a.end_episode(0.5, True)
  ctx.nontrivial(len(all_) > 1)
  ctx.label('fine-tuning', case['tune'])
