"""C38: the Acme actors, configurations and scripts fly the same environment.

acme, dm_env, haiku, rlax and launchpad are stand-ins (vlib/standins.py).
"""

import contextlib
import inspect
import os
import pickle
import shutil
import tempfile
from unittest import mock

from vlib import standins
standins.acme()

from absl import flags
import acme
from dopamine.jax.agents.quantile import quantile_agent
import gin
import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import ble
from vlib import envs
from vlib import fakes
from vlib import gen
from vlib.core import (require, require_array_close, require_close,
                       require_raises, sub)

from balloon_learning_environment import acme_utils
from balloon_learning_environment import train_acme_qrdqn as script
from balloon_learning_environment.agents import acme_eval_agent
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import marco_polo_exploration
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units

with mock.patch.multiple(flags, DEFINE_integer=mock.DEFAULT,
                         DEFINE_string=mock.DEFAULT) as _defined:
  # Its flags have the names of those of the other script.
  from balloon_learning_environment import distributed_train_acme_qrdqn as distributed


def layers(env):
  out = []
  while isinstance(env, standins.Wrapper):
    out.append(env)
    env = env.environment
  return out, env


@contextlib.contextmanager
def configured(*bindings):
  gin.clear_config()
  gin.parse_config(list(bindings))
  try:
    yield
  finally:
    gin.clear_config()


@sub('C38', 'environment', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), eval=st.booleans(), oar=st.booleans(),
    length=st.integers(1, 1500), radius=gen.uf(1, 300),
    default=st.booleans(), seed=gen.seeds(),
    flown=st.lists(st.tuples(st.integers(0, 2), gen.uf(0, 2.5), gen.uf(0, 6.28)
                             ).map(list), min_size=1, max_size=5))), quick=96,
     thorough=4000,
     rule='environments for training and evaluation, flown from generated '
     'places: rewards are those of station keeping or the share of the '
     'longest flight within the radius; non-trivial: a flight to both sides of '
     'the radius')
def environment(case, ctx):
  radius = 50.0 if case['default'] else case['radius']
  gin.clear_config()
  kw = dict(wind_field_factory=wind_field.SimpleStaticWindField,
            seed=case['seed'])
  if not case['default']:
    kw['station_keeping_radius_km'] = radius
  real = balloon_env.BalloonEnv
  with mock.patch.object(balloon_env, 'BalloonEnv',
                         lambda **given: real(**{**kw, **given})):
    env = acme_utils.create_env(case['eval'], case['length'],
                                oar_wrapper=case['oar'])
  wraps, inner = layers(env)
  names = [type(w).__name__ for w in wraps]
  want = ['SinglePrecisionWrapper', 'StepLimitWrapper', 'GymWrapper']
  if case['oar']:
    want = ['ObservationActionRewardWrapper'] + want
  require(sorted(names) == sorted(want), 'wrappers', got=names)
  require(names[-1] == 'GymWrapper', 'the gym environment is wrapped first')
  limit = [w for w in wraps if type(w).__name__ == 'StepLimitWrapper'][0]
  require(list(limit.args) + list(limit.kwargs.values()) == [case['length']],
          'limit of steps')
  require(isinstance(inner, real), 'environment')
  sides = set()
  inner.reset()
  for action, where, angle in case['flown']:
    b = inner.arena.get_balloon_state()
    d = where * radius * 1000
    b.x = units.Distance(m=d * np.cos(angle))
    b.y = units.Distance(m=d * np.sin(angle))
    inner.arena.set_balloon_state(b)
    _, reward, done, _ = inner.step(action)
    state = inner.get_simulator_state()
    at = np.hypot(state.balloon_state.x.kilometers,
                  state.balloon_state.y.kilometers)
    if abs(at - radius) > 1e-6:
      sides.add(at < radius)
      if case['eval']:
        require_close(float(reward), (at < radius) / case['length'],
                      'share of the longest flight', rel=1e-9, abs_=1e-12)
      else:
        require_close(float(reward), balloon_env.perciatelli_reward_function(
            state), 'station keeping reward', rel=1e-12)
    if done:
      break
  ctx.nontrivial(len(sides) > 1)


class FakeActor:
  """Acts 10 + number of calls."""

  def __init__(self):
    self.n, self.log = 0, []

  def select_action(self, observation):
    self.n += 1
    self.log.append(('select', float(observation[0])))
    return 10 + self.n

  def observe_first(self, timestep):
    self.log.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.log.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.log.append(('update', wait))


class Explorer:

  def __init__(self, *a):
    self.made, self.log, self.n = a, [], 0

  def begin_episode(self, observation):
    self.log.append(('begin', float(observation[0])))
    return 7777

  def step(self, reward, observation):
    self.n += 1
    self.log.append(('step', float(observation[0])))
    return 10000 + self.n


def timetables(n):
  """Decisions of the explorer: the first may or may not count as a step."""
  return [[k for k in range(n) if (k + o) % 120 >= 80] for o in (0, 1)]


@sub('C38', 'exploration', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), p=st.sampled_from([0.0, 1.0, 0.5]),
    waits=st.lists(st.booleans(), min_size=1, max_size=3),
    lengths=st.lists(st.one_of(st.integers(0, 300), st.sampled_from(
        [79, 80, 81, 119, 120, 121])), min_size=1, max_size=4))), quick=200,
     thorough=10000,
     rule='episodes of any length flown by an actor with exploration: who '
     'decides, and that the actor sees everything that was flown; non-trivial: '
     'an exploratory phase')
def exploring(case, ctx):
  made = []

  def maker(*a):
    made.append(Explorer(*a))
    return made[-1]

  mp = marco_polo_exploration.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=case['p'],
      exploratory_agent_constructor=maker, seed=case['seed'])
  actor, ex = FakeActor(), made[0]
  both = acme_utils.CombinedActor(actor, mp)
  for e, n in enumerate(case['lengths']):
    del actor.log[:], ex.log[:]
    t = standins.TimeStep(np.array([1000.0 * e]))
    both.observe_first(t)
    require(actor.log == [('first', t)], 'the actor sees the first step')
    require(ex.log == [('begin', 1000.0 * e)], 'the explorer begins')
    taken = []
    for k in range(n):
      del actor.log[:], ex.log[:]
      at = 1000.0 * e + k
      a = both.select_action(np.array([at]))
      require(np.asarray(a).dtype == np.int32 and np.ndim(a) == 0, 'action type')
      require(actor.log == [('select', at)], 'the actor is asked once')
      if ex.log:
        require(ex.log == [('step', at)], 'the explorer is asked once')
        require(int(a) == 10000 + ex.n, 'the explorer decides')
        taken.append(k)
      else:
        require(int(a) == 10 + actor.n, 'the actor decides')
      t = standins.TimeStep(np.array([at + 1]), reward=0.5)
      both.observe(a, t)
      require(actor.log[1:] == [('observe', a, t)], 'the flown action is seen',
              got=actor.log[1:])
      wait = case['waits'][k % len(case['waits'])]
      if k % 4 == 0:
        both.update(wait)
        require(actor.log[2:] == [('update', wait)], 'updates')
    require(taken == [] or taken in timetables(n), 'exploratory phases',
            got=(taken[:1], taken[-1:], len(taken)))
    if n > 80 and case['p'] in (0.0, 1.0):
      require(bool(taken) == (case['p'] == 1.0), 'exploratory episode')
    ctx.nontrivial(bool(taken))
  both.update()
  require(actor.log[-1] == ('update', False), 'default update')


@sub('C38', 'actors', cases=lambda: [dict(seed=s) for s in range(3)],
     rule='actors with the exploration of the configuration: how often they '
     'explore (binomial at 1e-9), and actors for evaluation, which never do; '
     'non-trivial: always')
def actors(case, ctx):
  gin.clear_config()
  asked = []

  def make(*a):
    asked.append(a)
    return FakeActor()

  make_actor = acme_utils.marco_polo_actor(make)
  plain = make_actor('key', 'policy', 'spec', 'source')
  require(isinstance(plain, FakeActor), 'no exploration in evaluation')
  require(asked == [('key', 'policy', 'spec', 'source', None)], 'arguments')
  require(isinstance(make_actor('key', 'policy', 'spec', variable_source='s'),
                     FakeActor), 'no exploration in evaluation')
  both = make_actor('key', 'policy', 'spec', 'source', 'adder')
  require(asked[-1] == ('key', 'policy', 'spec', 'source', 'adder'),
          'arguments')
  r = fakes.rnd(case['seed'], 'actors')
  obs = r.random(1099)
  hits, n = 0, 80
  seen = set()
  for _ in range(n):
    both.observe_first(standins.TimeStep(obs))
    acts = [int(both.select_action(obs)) for _ in range(83)]
    hit = any(a < 10 for a in acts)
    require(all(a > 10 for a in acts[:79]), 'it starts with the actor')
    hits += hit
    seen.update(a for a in acts if a < 10)
  require(seen <= {0, 1, 2}, 'actions of the explorer', got=seen)
  require(stats.binomtest(hits, n, 0.8).pvalue > 1e-9, 'exploratory episodes',
          got=hits)
  ctx.nontrivial()


def quantile_config():
  """The configuration of the quantile agent of the environment."""
  gin.clear_config()
  gin.parse_config_file(agent_registry.get_default_gin_config('quantile'))
  q = gin.query_parameter
  out = dict(
      discount=q('JaxQuantileAgent.gamma'),
      n_step=q('JaxQuantileAgent.update_horizon'),
      min_replay_size=q('JaxQuantileAgent.min_replay_history'),
      adam_eps=q('dqn_agent.create_optimizer.eps'),
      max_replay_size=q('OutOfGraphPrioritizedReplayBuffer.replay_capacity'),
      batch_size=q('OutOfGraphPrioritizedReplayBuffer.batch_size'))
  period = q('JaxQuantileAgent.update_period')
  out['samples_per_insert'] = out['batch_size'] / period
  out['target_update_period'] = q(
      'JaxQuantileAgent.target_update_period') // period
  extra = dict(
      learning_rate=q('dqn_agent.create_optimizer.learning_rate'),
      atoms=q('JaxQuantileAgent.num_atoms'),
      kappa=inspect.signature(
          quantile_agent.JaxQuantileAgent).parameters['kappa'].default,
      layers=q('agents.networks.QuantileNetwork.num_layers'),
      units=q('agents.networks.QuantileNetwork.hidden_units'))
  gin.clear_config()
  return out, extra


def values(params, x):
  """Action values of the quantile network, in numpy, of a batch."""
  p = params['params']
  while 'Dense_0' not in p:
    p = p[sorted(p)[0]]
  h = np.asarray(x, np.float64)
  n = len(p)
  for k in range(n):
    h = h @ np.asarray(p[f'Dense_{k}']['kernel'], np.float64) + np.asarray(
        p[f'Dense_{k}']['bias'], np.float64)
    if k < n - 1:
      h = np.maximum(h, 0)
  logits = h.reshape(len(h), 3, -1)
  return logits, logits.mean(axis=2)


def spec(width):
  s = acme.specs
  return s.EnvironmentSpec(
      s.Array((width,), np.float32, 'observation'),
      s.DiscreteArray(3, np.int32, 'action'), s.Array((), float, 'reward'),
      s.BoundedArray((), float, 'discount'))


@sub('C38', 'dqn', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), explore=st.sampled_from([None, False, True]),
    adaptive=st.sampled_from([None, False, True]), width=st.integers(1, 12),
    given=st.sampled_from([{}, dict(num_sgd_steps_per_step=2),
                           dict(prefetch_size=4, seed=3)]),
    n=st.integers(1, 6), eps=st.sampled_from([0.0, 0.01, 0.3, 1.0]),
    scale=st.sampled_from([0.3, 1.0, 5.0]))), quick=40, thorough=800,
     case_timeout=300,
     rule='the Acme agent against the configuration of the quantile agent, its '
     'network in numpy, and its policies; non-trivial: several observations')
def acme_dqn(case, ctx):
  common, extra = quantile_config()
  params = dict(case['given'])
  if case['explore'] is not None:
    params['marco_polo_exploration'] = case['explore']
  if case['adaptive'] is not None:
    params['adaptive_learning_rate'] = case['adaptive']
  agent, config, make_networks, behave, evaluate = acme_utils.create_dqn(params)
  require(config.given == case['given'], 'parameters of the configuration',
          got=config.given)
  require(agent.config is config, 'configuration of the agent')
  for k, v in common.items():
    require_close(float(getattr(config, k)), float(v), k, rel=1e-12)
  lr = config.learning_rate
  if case['adaptive']:
    require_close(float(lr(0)), extra['learning_rate'], 'initial learning rate',
                  rel=1e-6)
    end = 5_000_000 // common['batch_size']
    rates = [float(lr(k)) for k in (0, end // 3, end // 2, end, 2 * end)]
    require_array_close(rates, [2e-6, 2e-6 - 1.6e-6 / 3, 1.2e-6, 4e-7, 4e-7],
                        'learning rates', rel=1e-3)
  else:
    require_close(float(lr), extra['learning_rate'], 'learning rate', rel=1e-12)
  require(agent.loss_fn.num_atoms == extra['atoms'], 'atoms of the loss')
  require(agent.loss_fn.huber_param == extra['kappa'],
          'threshold of the Huber loss', got=agent.loss_fn.huber_param)
  net = make_networks(spec(case['width']))
  p = net.init(jax.random.PRNGKey(case['salt']))
  r = fakes.rnd(case['salt'])
  inner = p['params']
  while 'Dense_0' not in inner:
    inner = inner[sorted(inner)[0]]
  require(len(inner) == extra['layers'], 'layers')
  require(all(inner[f'Dense_{k}']['kernel'].shape[1] == extra['units']
              for k in range(extra['layers'] - 1)), 'hidden units')
  p = jax.tree_util.tree_map(
      lambda a: a + jnp.asarray(r.normal(size=a.shape) * 0.01, jnp.float32), p)
  x = (r.normal(size=(case['n'], case['width'])) * case['scale']).astype(
      np.float32)
  out = net.apply(p, jnp.asarray(x))
  logits, q = values(p, x)
  tol = dict(rel=1e-2, abs_=1e-3 * (np.abs(logits).max() + 1e-6))
  require(np.shape(out['q_dist']) == (case['n'], 3, extra['atoms']), 'shape')
  require_array_close(out['q_dist'], logits, 'quantiles', **tol)
  require_array_close(out['q_values'], q, 'values', **tol)
  # Policies.
  key = jax.random.PRNGKey(case['salt'] + 1)
  ev, be = jax.jit(evaluate(net)), jax.jit(behave(net))
  best = np.asarray(out['q_values']).argmax(axis=1)
  for i in range(case['n']):
    gap = np.sort(np.asarray(out['q_values'][i]))
    if gap[-1] - gap[-2] < 1e-4 * np.abs(gap).max():
      continue
    keys = jax.random.split(key, 60)
    acts = np.asarray(jax.vmap(lambda k: ev(p, k, x[i], case['eps']))(
        jax.random.split(key, 400)))
    require((acts == best[i]).all(), 'evaluation is greedy, whatever epsilon')
    acts = np.asarray(jax.vmap(lambda k: be(p, k, x[i], case['eps']))(keys))
    require(set(acts.tolist()) <= {0, 1, 2}, 'actions')
    k = int((acts != best[i]).sum())
    if case['eps'] == 0:
      require(k == 0, 'greedy')
    else:
      require(stats.binomtest(k, 60, case['eps'] * 2 / 3).pvalue > 1e-10,
              'share of random actions', got=k, eps=case['eps'])
  made = agent.make_actor(key, be, spec(case['width']), None, 'adder')
  require(isinstance(made, acme_utils.CombinedActor) == bool(case['explore']),
          'exploration as configured')
  require(not isinstance(agent.make_actor(key, be, spec(case['width']), None),
                         acme_utils.CombinedActor), 'evaluation')
  ctx.nontrivial(case['n'] > 1)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(dir=os.environ.get('TMPDIR'))
  try:
    yield d
  finally:
    shutil.rmtree(d)


@sub('C38', 'eval_agent', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), width=st.integers(1, 20),
    saved=st.lists(st.integers(0, 60), min_size=1, max_size=4, unique=True),
    steps=st.lists(st.tuples(st.integers(0, 3), gen.uf(0, 1)).map(list),
                   min_size=1, max_size=8))), quick=32, thorough=800,
     case_timeout=300,
     rule='the Acme agent for evaluation, fresh and restored from any of '
     'several checkpoints, acts by the highest value; non-trivial: a '
     'checkpoint that is not the latest')
def eval_agent(case, ctx):
  r = fakes.rnd(case['salt'])
  require(agent_registry.agent_constructor('acme_eval_agent') is
          acme_eval_agent.AcmeEvalAgent, 'registered')
  require(agent_registry.get_default_gin_config('acme_eval_agent') is None,
          'default configuration')
  a = agent_registry.agent_constructor('acme_eval_agent')(3, (case['width'],))
  a.set_mode(base_agent.AgentMode.EVAL)
  a.set_mode('eval')
  for mode in ('train', base_agent.AgentMode.TRAIN):
    require_raises(ValueError, lambda: a.set_mode(mode), 'training')

  def fly(params, what):
    for k, (kind, reward) in enumerate(case['steps']):
      x = r.normal(size=case['width']) * 3
      _, q = values(params, x[None])
      if kind == 0:
        got = a.begin_episode(x)
      else:
        got = a.step(reward, x)
      if kind == 3:
        a.end_episode(reward, bool(k % 2))
      order = np.sort(q[0])
      if order[-1] - order[-2] > 1e-3 * np.abs(order).max():
        require(int(got) == q[0].argmax(), f'{what}: the best action',
                got=int(got), values=q[0].tolist())

  base = acme_utils.create_dqn({})[2](spec(case['width'])).init(
      jax.random.PRNGKey(0))
  fly(base, 'fresh agent')
  with scratch() as d:
    os.makedirs(f'{d}/checkpoints/learner')
    files = {}
    for n in case['saved']:
      files[n] = jax.tree_util.tree_map(
          lambda v: v + jnp.asarray(r.normal(size=v.shape) * 0.05, jnp.float32),
          base)
      with open(f'{d}/checkpoints/learner/ckpt-{n}', 'wb') as f:
        pickle.dump(files[n], f)
    for n in case['saved'][:2]:
      a.load_checkpoint(d, n)
      fly(files[n], f'checkpoint {n}')
      ctx.nontrivial(n != max(files))


@sub('C38', 'scripts', lambda: st.fixed_dictionaries(dict(
    episodes=st.integers(0, 6), length=st.integers(1, 2000),
    seed=st.integers(0, 1000), actors=st.integers(1, 300))), quick=48,
     thorough=800,
     rule='the training scripts: episodes of training and evaluation '
     'alternate as often as asked for, in the environments for them; '
     'non-trivial: two episodes')
def scripts(case, ctx):
  gin.clear_config()
  made, ran = {}, []

  def create_env(is_eval, max_episode_length, oar_wrapper=False):
    name = (bool(is_eval), max_episode_length, oar_wrapper)
    made[name] = made.get(name, 0) + 1
    return ('env',) + name

  class Loop:

    def __init__(self, env, actor, *a, **kw):
      self.env, self.actor = env, actor

    def run(self, num_episodes=None, num_steps=None):
      require(num_episodes == 1 and num_steps is None, 'one episode at a time')
      ran.append(self.env)

  flags.FLAGS(['script', f'--num_episodes={case["episodes"]}',
               f'--max_episode_length={case["length"]}',
               f'--seed={case["seed"]}'])
  layout = mock.MagicMock()
  env_spec = spec(5)
  with mock.patch.object(acme_utils, 'create_env', create_env), \
      mock.patch.object(acme, 'EnvironmentLoop', Loop), \
      mock.patch.object(acme, 'make_environment_spec', lambda e: env_spec), \
      mock.patch.object(script.local_layout, 'LocalLayout', layout):
    script.main(['script'])
  train, evaluation = (('env', e, case['length'], False)
                       for e in (False, True))
  require(ran == [train, evaluation] * case['episodes'], 'episodes',
          got=ran[:4])
  require(layout.call_count == 1 and
          layout.call_args.kwargs['seed'] == case['seed'], 'seed')
  require(layout.call_args.kwargs['batch_size'] == 32, 'batch size')
  ctx.nontrivial(case['episodes'] > 1)
  # The distributed script.
  values_ = dict(num_episodes=case['episodes'], num_actors=case['actors'],
                 max_episode_length=case['length'], base_dir='/nowhere')
  experiments = distributed.experiments
  experiments.reset_mock()
  with mock.patch.object(distributed, 'FLAGS', mock.Mock(**values_)), \
      mock.patch.object(acme_utils, 'create_env', create_env):
    distributed.get_program(dict(seed=case['seed'], prefetch_size=0))
    config = experiments.ExperimentConfig.call_args.kwargs
    require(config['seed'] == case['seed'], 'seed')
    require(config['max_num_actor_steps'] ==
            case['episodes'] * case['length'], 'number of steps')
    require(config['environment_factory'](7) == train, 'training environment')
    require(len(config['evaluator_factories']) == 1, 'one evaluator')
    require(experiments.CheckpointingConfig.call_args.kwargs['directory'] ==
            '/nowhere', 'directory')
    require(experiments.make_distributed_experiment.call_args.kwargs[
        'num_actors'] == case['actors'], 'actors')
    seen = []

    def make_actor(key, policy, environment_spec, source):
      seen.append((key, policy, environment_spec, source))
      return mock.MagicMock()

    loops = []
    with mock.patch.object(
        distributed.environment_loop, 'EnvironmentLoop',
        lambda *a, **kw: loops.append(a)), mock.patch.object(
            distributed.specs, 'make_environment_spec', lambda e: env_spec,
            create=True):
      config['evaluator_factories'][0]('key', 'source', mock.MagicMock(),
                                       make_actor)
    require(len(seen) == 1 and seen[0][0] == 'key' and seen[0][3] == 'source',
            'actor of the evaluator')
    require(loops and loops[0][0] == evaluation, 'evaluation environment')


def made(kind):
  """The stand-ins of a kind made since the list was emptied."""
  return [x for x in standins.Recorded.made if isinstance(x, kind)]


@sub('C38', 'recurrent', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), actions=st.sampled_from([3, 3, 2, 5]),
    time=st.integers(1, 4), batch=st.integers(1, 4),
    width=st.sampled_from([1099, 20]), scale=gen.uf(0.1, 3))), quick=40,
     thorough=2000,
     rule='the recurrent network: its torso is eight layers of 600 units, of '
     'which the last is linear, alike for one observation and for a batch; the '
     'values and the state of an unrolled sequence are those of single steps; '
     'non-trivial: several steps of several sequences')
def recurrent(case, ctx):
  rng = np.random.default_rng(case['salt'])
  standins.Linear.rng = rng
  standins.Recorded.made.clear()
  torso = acme_utils.BLETorso()
  x = rng.normal(0, case['scale'], (case['batch'], case['width'])).astype(
      np.float32)
  got = np.asarray(torso(x))
  lins = made(standins.Linear)
  require([l.output_size for l in lins] == [600] * 8, 'layers of the torso')
  want = np.asarray(x, np.float64)
  for i, l in enumerate(lins):
    want = want @ l.w + l.b
    if i < 7:
      want = np.maximum(want, 0)
  require(got.shape == (case['batch'], 600), 'shape of a batch')
  require_array_close(got, want, 'torso', rel=1e-3, abs_=1e-3)
  one = np.asarray(torso(x[-1]))
  require(one.shape == (600,), 'shape of one observation', got=one.shape)
  require_array_close(one, want[-1], 'torso of one', rel=1e-3, abs_=1e-3)
  for bad in (np.float32(1), x[None]):
    require_raises(ValueError, lambda: torso(bad), 'rank')

  T, B, n = case['time'], case['batch'], case['actions']
  oar = __import__('acme.wrappers.observation_action_reward',
                   fromlist=['OAR']).OAR
  spec = acme.specs.EnvironmentSpec(None, acme.specs.DiscreteArray(n), None,
                                    None)
  given, make_core = acme_utils.make_r2d2_net2work(spec)
  require(given is spec, 'specification')
  standins.Recorded.made.clear()
  net = make_core()
  xs = oar(observation=rng.normal(0, case['scale'], (T, B, case['width'])),
           action=rng.integers(0, n, (T, B)), reward=rng.normal(0, 1, (T, B)))
  state = net.initial_state(B)
  require(np.shape(state) == (B, 512) and not np.any(state), 'initial state')
  state = rng.normal(0, 0.5, (B, 512))
  values, last = net.unroll(xs, state)
  require(np.shape(values) == (T, B, n), 'values', got=np.shape(values))
  s = state
  for t in range(T):
    q, s = net(jax.tree_util.tree_map(lambda a: a[t], xs), s)
    require_array_close(np.asarray(values)[t], np.asarray(q),
                        'unrolled as step by step', rel=1e-4, abs_=1e-4)
  require_array_close(np.asarray(last), np.asarray(s), 'state after unrolling',
                      rel=1e-4, abs_=1e-4)
  # Values of its own recomputed from its parts.
  core, = made(standins.LSTM)
  head, = made(standins.DuellingMLP)
  embed, = made(standins.OAREmbedding)
  require(isinstance(embed.torso, acme_utils.BLETorso), 'torso')
  q, _ = net(jax.tree_util.tree_map(lambda a: a[0], xs), state)
  out, _ = core(embed(jax.tree_util.tree_map(lambda a: a[0], xs)), state)
  require_array_close(np.asarray(q), np.asarray(head(out)), 'values',
                      rel=1e-4, abs_=1e-4)
  ctx.nontrivial(T > 1 and B > 1)
