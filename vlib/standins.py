"""Stand-ins for libraries that are not installed.

They provide only the interfaces that the code under test builds upon; every
check that uses them judges the code of the repository, never the stand-in.
"""

import sys
import types
from unittest import mock


def flax_optim():
  """flax.optim of flax 0.3, with plain gradient descent as the optimiser."""
  import flax
  if 'flax.optim' in sys.modules:
    return sys.modules['flax.optim']
  import jax
  import jax.numpy as jnp
  from flax import struct

  @struct.dataclass
  class State:
    step: object

  @struct.dataclass
  class Optimizer:
    target: object
    state: State
    learning_rate: object

    def apply_gradient(self, grads):
      return self.replace(
          target=jax.tree_util.tree_map(
              lambda p, g: p - self.learning_rate * g, self.target, grads),
          state=State(self.state.step + 1))

  class Adam:

    def __init__(self, learning_rate):
      self.learning_rate = learning_rate

    def create(self, target):
      return Optimizer(
          target=target, state=State(jnp.asarray(0, jnp.int32)),
          learning_rate=jnp.asarray(self.learning_rate, jnp.float32))

  m = types.ModuleType('flax.optim')
  m.Adam, m.Optimizer = Adam, Optimizer
  sys.modules['flax.optim'] = m
  flax.optim = m
  return m


class _Module(types.ModuleType):
  """A module that has every name: interfaces that nobody calls."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    m = mock.MagicMock(name=f'{self.__name__}.{name}')
    setattr(self, name, m)
    return m


def _module(name, **attributes):
  m = _Module(name)
  m.__path__ = []
  for k, v in attributes.items():
    setattr(m, k, v)
  sys.modules[name] = m
  parent, _, child = name.rpartition('.')
  if parent:
    setattr(sys.modules[parent], child, m)
  return m


class TimeStep:

  def __init__(self, observation, reward=None, last=False):
    self.observation, self.reward, self._last = observation, reward, last

  def last(self):
    return self._last


class Wrapper:
  """An environment wrapper that only remembers what it wraps, and how."""

  def __init__(self, environment, *args, **kwargs):
    self.environment, self.args, self.kwargs = environment, args, kwargs

  def __getattr__(self, name):
    if name.startswith('__') or name == 'environment':
      raise AttributeError(name)
    return getattr(self.environment, name)


class Actor:
  """An actor of a policy; remembers what it observes."""

  def __init__(self, random_key, policy, environment_spec,
               variable_source=None, adder=None):
    import jax
    self.made = (random_key, policy, environment_spec, variable_source, adder)
    self.policy, self.source = policy, variable_source
    self.key = jax.random.PRNGKey(0) if random_key is None else random_key
    self.epsilon = 0.0
    self.log = []

  def select_action(self, observation):
    import jax
    import numpy as np
    self.key, key = jax.random.split(self.key)
    a = self.policy(self.source.get_variables([''])[0], key, observation,
                    self.epsilon)
    self.log.append(('select', observation))
    return np.array(a, dtype=np.int32)

  def observe_first(self, timestep):
    self.log.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.log.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.log.append(('update', wait))


class Learner:
  """Knows the parameters of its network."""

  def __init__(self, random_key, networks, dataset, logger_fn=None,
               environment_spec=None, **kw):
    self.params = networks.init(random_key)

  def get_variables(self, names):
    return [self.params]


class Builder:

  def __init__(self, config, loss_fn):
    self.config, self.loss_fn = config, loss_fn

  def make_actor(self, random_key, policy, environment_spec,
                 variable_source=None, adder=None):
    return Actor(random_key, policy, environment_spec, variable_source, adder)

  def make_learner(self, *args, **kw):
    return Learner(*args, **kw)


class DQNConfig:

  def __init__(self, **kw):
    self.__dict__.update(kw)
    self.given = dict(kw)


class Checkpointer:
  """Checkpoints ckpt-N of pickled parameters in directory/subdirectory."""

  def __init__(self, objects_to_save, *, directory, subdirectory='default',
               **kw):
    import glob
    import os
    self.objects = objects_to_save
    d = os.path.join(directory, 'checkpoints', subdirectory)
    numbers = [int(f.rpartition('-')[2]) for f in glob.glob(d + '/ckpt-*')]
    latest = f'{d}/ckpt-{max(numbers)}' if numbers else None
    self._checkpoint_manager = types.SimpleNamespace(latest_checkpoint=latest)
    self._checkpoint = types.SimpleNamespace(restore=self._load)
    self.restore()

  def restore(self):
    self._load(self._checkpoint_manager.latest_checkpoint)

  def _load(self, path):
    import pickle
    with open(path, 'rb') as f:
      self.objects['learner'].params = pickle.load(f)
    return mock.MagicMock()


class EpsilonGreedy:

  def __init__(self, epsilon):
    self.epsilon = epsilon

  def sample(self, key, preferences):
    import jax
    import jax.numpy as jnp
    a, b = jax.random.split(key)
    greedy = jnp.argmax(preferences)
    other = jax.random.randint(b, (), 0, preferences.shape[-1])
    return jnp.where(jax.random.uniform(a) < self.epsilon, other, greedy)


class Recorded:
  """Remembers the objects of its kinds in the order they are made."""
  made = []

  def __new__(cls, *args, **kw):
    self = super().__new__(cls)
    Recorded.made.append(self)
    return self


class Linear(Recorded):
  """hk.Linear whose weights, drawn at its first call, belong to the object."""
  rng = None

  def __init__(self, output_size):
    self.output_size, self.w = output_size, None

  def __call__(self, x):
    import numpy as np
    if self.w is None:
      n = x.shape[-1]
      self.w = self.rng.normal(0, 1.4 / np.sqrt(n), (n, self.output_size))
      self.b = self.rng.normal(0, 0.1, self.output_size)
    return np.asarray(x, np.float64) @ self.w + self.b


class LSTM(Recorded):
  """A recurrent core; not an LSTM, but one whose state matters."""

  def __init__(self, hidden_size):
    self.hidden_size = hidden_size
    self.x, self.h = Linear(hidden_size), Linear(hidden_size)

  def __call__(self, x, state):
    import numpy as np
    h = np.tanh(self.x(x) + self.h(state))
    return h, h

  def initial_state(self, batch_size):
    import numpy as np
    return np.zeros((batch_size, self.hidden_size))


def static_unroll(core, xs, state):
  import jax
  import numpy as np
  outs = []
  for t in range(jax.tree_util.tree_leaves(xs)[0].shape[0]):
    out, state = core(jax.tree_util.tree_map(lambda a: a[t], xs), state)
    outs.append(out)
  return np.stack(outs), state


class BatchApply:
  """Merges the first two axes around a call."""

  def __init__(self, f):
    self.f = f

  def __call__(self, *args):
    import jax
    import numpy as np
    lead = jax.tree_util.tree_leaves(args)[0].shape[:2]
    out = self.f(*jax.tree_util.tree_map(
        lambda a: np.reshape(a, (lead[0] * lead[1],) + a.shape[2:]), args))
    return jax.tree_util.tree_map(
        lambda a: np.reshape(a, lead + a.shape[1:]), out)


class Sequential:

  def __init__(self, layers):
    self.layers = list(layers)

  def __call__(self, x):
    for f in self.layers:
      x = f(x)
    return x


class OAREmbedding(Recorded):

  def __init__(self, torso, num_actions):
    self.torso, self.num_actions = torso, num_actions

  def __call__(self, inputs):
    import numpy as np
    return np.concatenate(
        [self.torso(inputs.observation),
         np.eye(self.num_actions)[np.asarray(inputs.action)],
         np.tanh(np.asarray(inputs.reward))[..., None]], axis=-1)


class DuellingMLP(Recorded):

  def __init__(self, num_actions, hidden_sizes):
    self.mean = self._mlp(hidden_sizes, 1)
    self.advantage = self._mlp(hidden_sizes, num_actions)

  def _mlp(self, hidden_sizes, n):
    import numpy as np
    layers = []
    for h in hidden_sizes:
      layers += [Linear(h), lambda x: np.maximum(x, 0)]
    return Sequential(layers + [Linear(n)])

  def __call__(self, x):
    a = self.advantage(x)
    return self.mean(x) + a - a.mean(-1, keepdims=True)


def acme():
  """acme, dm_env, haiku, rlax and launchpad: what the Acme agents build on."""
  if 'acme' in sys.modules:
    return sys.modules['acme']
  import collections
  import jax
  import jax.numpy as jnp
  import numpy as np

  class Base:

    def __init__(self, *a, **kw):
      pass

  Spec = collections.namedtuple(
      'EnvironmentSpec', 'observations actions rewards discounts')

  class Array:

    def __init__(self, shape=(), dtype=float, name=None, **kw):
      self.shape, self.dtype, self.name = tuple(shape), np.dtype(dtype), name
      self.__dict__.update(kw)

  class Discrete(Array):

    def __init__(self, num_values, dtype=np.int32, name=None):
      super().__init__((), dtype, name, num_values=num_values)

  def zeros_like(spec):
    return jax.tree_util.tree_map(
        lambda s: jnp.zeros(s.shape, s.dtype), spec,
        is_leaf=lambda s: isinstance(s, Array))

  def tile_nested(nest, n):
    return jax.tree_util.tree_map(
        lambda a: jnp.tile(a[None], [n] + [1] * a.ndim), nest)

  m = _module('acme')
  _module('acme.adders')
  _module('acme.core', Actor=Base, VariableSource=Base)
  m.specs = _module('acme.specs', Array=Array, BoundedArray=Array,
                    DiscreteArray=Discrete, EnvironmentSpec=Spec)
  names = ('GymWrapper', 'StepLimitWrapper', 'SinglePrecisionWrapper',
           'ObservationActionRewardWrapper')
  kinds = {n: type(n, (Wrapper,), {}) for n in names}
  _module('acme.wrappers', **kinds)
  _module('acme.wrappers.gym_wrapper', GymWrapper=kinds['GymWrapper'])
  _module('acme.wrappers.step_limit',
          StepLimitWrapper=kinds['StepLimitWrapper'])
  _module('acme.wrappers.observation_action_reward',
          OAR=collections.namedtuple('OAR', 'observation action reward'))
  _module('acme.agents')
  _module('acme.agents.jax')
  _module('acme.agents.jax.dqn', DQNConfig=DQNConfig, DQNBuilder=Builder,
          QrDqn=type('QrDqn', (), {
              '__init__': lambda self, **kw: self.__dict__.update(kw)}))
  _module('acme.agents.jax.r2d2')
  _module('acme.jax')
  _module('acme.jax.networks', FeedForwardNetwork=collections.namedtuple(
      'FeedForwardNetwork', 'init apply'))
  _module('acme.jax.networks.base')
  sys.modules['acme.jax.networks'].make_unrollable_network = (
      lambda spec, make_core: (spec, make_core))
  _module('acme.jax.networks.duelling', DuellingMLP=DuellingMLP)
  _module('acme.jax.networks.embedding', OAREmbedding=OAREmbedding)
  _module('acme.jax.utils', zeros_like=zeros_like, tile_nested=tile_nested)
  _module('acme.jax.deprecated')
  _module('acme.jax.deprecated.local_layout')
  _module('acme.jax.experiments')
  _module('acme.jax.types')
  _module('acme.environment_loop')
  _module('acme.utils')
  for n in ('counting', 'loggers', 'lp_utils'):
    _module(f'acme.utils.{n}')
  _module('acme.tf')
  _module('acme.tf.savers', Checkpointer=Checkpointer)
  _module('dm_env', TimeStep=TimeStep)
  _module('haiku', Module=Base, RNNCore=Base, Linear=Linear, LSTM=LSTM,
          Sequential=Sequential, BatchApply=BatchApply,
          static_unroll=static_unroll)
  _module('rlax', epsilon_greedy=EpsilonGreedy)
  _module('launchpad')
  return m
