"""C35: agents, wind fields, gin configurations and runs by name."""

import glob
import os
import pickle
import shutil
import string
import tempfile

import gin
import gym
import matplotlib
import matplotlib.image
import numpy as np
from absl import flags
from absl.testing import flagsaver
from gym.envs import registration
from hypothesis import strategies as st
from vlib import envs
from vlib import fakes
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

matplotlib.use('Agg')

import balloon_learning_environment
from balloon_learning_environment import train
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.agents import mlp_agent
from balloon_learning_environment.agents import networks
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import quantile_agent
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import gym as ble_gym
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.utils import run_helpers

ENV_ID = 'BalloonLearningEnvironment-v0'
ROOT = os.path.dirname(os.path.dirname(balloon_learning_environment.__file__))

AGENTS = {
    'random': (base_agent.RandomAgent, None),
    'random_walk': (random_walk_agent.RandomWalkAgent, None),
    'station_seeker': (station_seeker_agent.StationSeekerAgent, None),
    'perciatelli44': (perciatelli44.Perciatelli44, None),
    'mlp': (mlp_agent.MLPAgent, 'mlp.gin'),
    'dqn': (dqn_agent.DQNAgent, 'dqn.gin'),
    'quantile': (quantile_agent.QuantileAgent, 'quantile.gin'),
    'finetune_perciatelli': (quantile_agent.QuantileAgent,
                             'finetune_perciatelli.gin'),
}

DQN = {'JaxDQNAgent.gamma': 0.993, 'JaxDQNAgent.update_horizon': 5,
       'JaxDQNAgent.min_replay_history': 500, 'JaxDQNAgent.update_period': 4,
       'JaxDQNAgent.target_update_period': 100,
       'JaxDQNAgent.epsilon_train': 0.01, 'JaxDQNAgent.epsilon_eval': 0.0,
       'dqn_agent.create_optimizer.learning_rate': 2e-6,
       'OutOfGraphReplayBuffer.replay_capacity': 2000000,
       'OutOfGraphReplayBuffer.batch_size': 32,
       'networks.MLPNetwork.num_layers': 8,
       'networks.MLPNetwork.hidden_units': 600}
# The configuration of the Nature paper.
QUANTILE = {'JaxQuantileAgent.gamma': 0.993,
            'JaxQuantileAgent.update_horizon': 5,
            'JaxQuantileAgent.min_replay_history': 500,
            'JaxQuantileAgent.update_period': 4,
            'JaxQuantileAgent.target_update_period': 100,
            'JaxQuantileAgent.epsilon_train': 0.0,
            'JaxQuantileAgent.epsilon_eval': 0.0,
            'JaxQuantileAgent.num_atoms': 51,
            'dqn_agent.create_optimizer.learning_rate': 2e-6,
            'OutOfGraphPrioritizedReplayBuffer.replay_capacity': 2000000,
            'OutOfGraphPrioritizedReplayBuffer.batch_size': 32,
            'agents.networks.QuantileNetwork.num_layers': 8,
            'agents.networks.QuantileNetwork.hidden_units': 600,
            'MarcoPoloExploration.exploratory_episode_probability': 0.8}
DEFAULTS = {
    'mlp': {'networks.MLPNetwork.num_layers': 1,
            'networks.MLPNetwork.hidden_units': 256},
    'dqn': DQN,
    'quantile': dict(QUANTILE, **{'QuantileAgent.reload_perciatelli': False}),
    'finetune_perciatelli': dict(
        QUANTILE, **{'QuantileAgent.reload_perciatelli': True}),
}


def fresh():
  gin.clear_config()
  agent_registry.REGISTRY.pop('fake', None)


class Scratch:

  def __enter__(self):
    self.cwd = os.getcwd()
    self.d = tempfile.mkdtemp(dir=os.environ.get('TMPDIR'))
    os.chdir(self.d)
    return self.d

  def __exit__(self, *_):
    os.chdir(self.cwd)
    shutil.rmtree(self.d)


def near(names):
  """Names, near misses of names, and anything."""
  return st.one_of(
      st.sampled_from(names),
      st.tuples(st.sampled_from(names), st.sampled_from(
          ['upper', 'title', ' ', '_', '2', 'cut'])).map(
              lambda t: getattr(t[0], t[1])() if t[1] in ('upper', 'title')
              else t[0][:-1] if t[1] == 'cut' else t[0] + t[1]),
      st.text(string.ascii_lowercase + '_0149', max_size=16),
      st.sampled_from(['acme_eval_agent', '', 'perciatelli', 'generative_',
                       'Simple', 'static']))


@sub('C35', 'names', lambda: st.fixed_dictionaries(dict(
    agent=near(sorted(AGENTS)), wind=near(['simple', 'generative']),
    gin_file=st.sampled_from([None, None, '', 'x.gin', '/y/z.gin']))),
     quick=600, thorough=20000,
     rule='names of agents and wind fields to what they denote, ValueError for '
     'others; non-trivial: an unknown name')
def names(case, ctx):
  fresh()
  a, w, g = case['agent'], case['wind'], case['gin_file']
  if a in AGENTS:
    cls, config = AGENTS[a]
    require(agent_registry.agent_constructor(a) is cls, 'constructor', agent=a)
    path = agent_registry.get_default_gin_config(a)
    if config is None:
      require(path is None, 'no default configuration', agent=a, got=path)
    else:
      require(os.path.basename(path) == config, 'default configuration',
              agent=a, got=path)
      require(os.path.isfile(os.path.join(ROOT, path)), 'it exists', path=path)
    require(run_helpers.get_agent_gin_file(a, None) == path, 'gin file')
  else:
    try:
      agent_registry.agent_constructor(a)
      require(False, 'unknown agent', agent=a)
    except ValueError as e:  # Only an agent that exists is to be installed.
      require(a in str(e) and ('install' in str(e)) == (a == 'acme_eval_agent'),
              'message for an unknown agent', agent=a, got=str(e))
    require_raises(ValueError, lambda: agent_registry.get_default_gin_config(a),
                   'unknown agent', agent=a)
    require_raises(ValueError, lambda: run_helpers.create_agent(a, 3, (4,)),
                   'unknown agent', agent=a)
    require_raises(ValueError, lambda: run_helpers.get_agent_gin_file(a, None),
                   'unknown agent', agent=a)
  if g is not None:
    require(run_helpers.get_agent_gin_file(a, g) == g, 'overriding gin file')
  if w == 'simple':
    f = run_helpers.get_wind_field_factory(w)
    one, two = f(), f()
    require(isinstance(one, wind_field.SimpleStaticWindField) and
            one is not two, 'simple wind field', got=one)
  elif w == 'generative':
    require(run_helpers.get_wind_field_factory(w) is
            generative_wind_field.generative_wind_field_factory,
            'generative wind field')
  else:
    require_raises(ValueError, lambda: run_helpers.get_wind_field_factory(w),
                   'unknown wind field', name=w)
  ctx.nontrivial(a not in AGENTS or w not in ('simple', 'generative'))


# Parameters that generated configurations set.
PARAMS = ['networks.MLPNetwork.num_layers', 'networks.MLPNetwork.hidden_units',
          'agents.networks.QuantileNetwork.num_layers',
          'perciatelli_reward_function.reward_halflife', 'BalloonEnv.seed',
          'BalloonEnv.station_keeping_radius_km',
          'MarcoPoloExploration.exploratory_episode_probability']
settings = st.lists(st.tuples(st.sampled_from(PARAMS), st.integers(1, 99)).map(
    list), max_size=3)


@sub('C35', 'gin', lambda: st.fixed_dictionaries(dict(
    agent=st.sampled_from(sorted(AGENTS)), own=st.one_of(st.none(), settings),
    files=st.lists(settings, max_size=3), bindings=settings,
    relative=st.booleans(), bad=st.sampled_from(
        [None] * 6 + ['missing', 'unknown', 'syntax', 'agent']))), quick=300,
     thorough=10000,
     rule='configurations by agent, file, further files and bindings, the '
     'latter overriding the former, against a dictionary; non-trivial: a '
     'parameter is set twice')
def gin_config(case, ctx):
  fresh()
  want, twice = {}, False
  with Scratch() as d:
    def put(name, values):
      nonlocal twice
      with open(f'{d}/{name}', 'w') as f:
        f.write('import balloon_learning_environment.agents.networks\n')
        for k, v in values:
          f.write(f'{k} = {v}\n')
      for k, v in values:
        twice |= k in want
        want[k] = v
      return name if case['relative'] else f'{d}/{name}'

    if case['own'] is None:
      want.update(DEFAULTS.get(case['agent'], {}))
      own = None
    else:
      own = put('own.gin', case['own'])
    files = [put(f'{i}.gin', v) for i, v in enumerate(case['files'])]
    bindings = [f'{k} = {v}' for k, v in case['bindings']]
    for k, v in case['bindings']:
      twice |= k in want
      want[k] = v
    bad = case['bad']
    agent = case['agent']
    if bad == 'missing':
      files.append(f'{d}/nowhere.gin')
    elif bad == 'unknown':
      bindings.append('NoSuchThing.x = 1')
    elif bad == 'syntax':
      bindings.append('BalloonEnv.seed = = 1')
    elif bad == 'agent':
      agent, own = agent + '?', None
    run = lambda: run_helpers.bind_gin_variables(
        agent, own, bindings, files)
    if bad is not None:
      require_raises(Exception, run, f'bad configuration: {bad}')
      if bad == 'agent':
        require_raises(ValueError, run, 'unknown agent')
      fresh()
      return
    if case['files'] or case['bindings']:
      run()
    elif own is None:
      run_helpers.bind_gin_variables(agent)
    else:
      run_helpers.bind_gin_variables(agent, own)
    for k in set(PARAMS) | set(want):
      if k in want:
        got = gin.query_parameter(k)
        require(got == want[k], 'parameter', name=k, got=got, want=want[k])
      else:
        try:
          got = gin.query_parameter(k)
        except ValueError:
          continue
        require(False, 'parameter that nobody set', name=k, got=got)
  net = {k.split('.')[-1]: v for k, v in want.items() if 'MLPNetwork' in k}
  if len(net) == 2:
    n = networks.MLPNetwork(num_actions=3)
    for k, v in net.items():
      require(getattr(n, k) == v, 'what the network gets', name=k,
              got=getattr(n, k), want=v)
  fresh()
  ctx.nontrivial(twice)


@sub('C35', 'create', lambda: st.fixed_dictionaries(dict(
    agent=st.sampled_from(['random', 'random_walk', 'station_seeker', 'mlp',
                           'mlp', 'dqn', 'quantile']),
    actions=st.integers(1, 6), features=st.integers(1, 30),
    salt=gen.ui(0, 10**6), steps=st.integers(0, 6))), quick=24, thorough=600,
     case_timeout=300,
     rule='agents created by name, with their default configuration (smaller '
     'in networks and memory), take actions in range and can be told of '
     'rewards and ends; non-trivial: a learning agent')
def create(case, ctx):
  fresh()
  name = case['agent']
  small = dict(mlp=['MLPNetwork.hidden_units = 8'],
               dqn=['MLPNetwork.hidden_units = 8', 'MLPNetwork.num_layers = 2',
                    'OutOfGraphReplayBuffer.replay_capacity = 2000'],
               quantile=['agents.networks.QuantileNetwork.hidden_units = 8',
                         'agents.networks.QuantileNetwork.num_layers = 2',
                         'OutOfGraphPrioritizedReplayBuffer.replay_capacity '
                         '= 2000'])
  with Scratch():
    run_helpers.bind_gin_variables(name, None, small.get(name, []))
    env_features = name in ('random_walk', 'station_seeker')
    shape = (1099,) if env_features else (case['features'],)
    n = 3 if env_features else case['actions']
    if env_features or name == 'quantile':
      n, shape = 3, (1099,)
    agent = run_helpers.create_agent(name, n, shape)
    require(isinstance(agent, AGENTS[name][0]), 'class', got=type(agent))
    require(isinstance(agent, base_agent.Agent), 'agent')
    if env_features or name == 'quantile':
      env = envs.make('static', case['salt'])
      obs = [env.reset()] + [env.step(1)[0] for _ in range(case['steps'])]
    else:
      r = fakes.rnd(case['salt'])
      obs = [r.random(shape).astype(np.float32)
             for _ in range(case['steps'] + 1)]
    acts = [agent.begin_episode(obs[0])]
    acts += [agent.step(0.5, o) for o in obs[1:]]
    agent.end_episode(1.0, True)
  for a in acts:
    require(0 <= int(a) < n and int(a) == a, 'action in range', got=a, n=n)
  fresh()
  ctx.nontrivial(name in small)


@sub('C35', 'interface', lambda: st.fixed_dictionaries(dict(
    agent=st.sampled_from(['random', 'random_walk', 'station_seeker', 'mlp',
                           'dqn', 'quantile']),
    salt=gen.ui(0, 10**6), episodes=st.lists(st.fixed_dictionaries(dict(
        mode=st.sampled_from([None, 'train', 'eval', 'TRAIN', 'EVAL']),
        steps=st.integers(0, 4), check=st.sampled_from(
            [None, 'save', 'load', 'reload', 'writer', 'name']),
        end=st.sampled_from(['none', 'false', 'true', 'by name',
                             'no end']))), min_size=1, max_size=4))),
     quick=64, thorough=2000, case_timeout=300,
     rule='whatever agent is created by name, it can be driven through any '
     'history that the interface of agents allows: modes by value or by name, '
     'ends with or without saying whether they are terminal, episodes cut '
     'short without an end; non-trivial: two episodes')
def interface(case, ctx):
  fresh()
  name = case['agent']
  small = dict(mlp=['MLPNetwork.hidden_units = 4'],
               dqn=['MLPNetwork.hidden_units = 4', 'MLPNetwork.num_layers = 2',
                    'OutOfGraphReplayBuffer.replay_capacity = 2000'],
               quantile=['agents.networks.QuantileNetwork.hidden_units = 4',
                         'agents.networks.QuantileNetwork.num_layers = 2',
                         'OutOfGraphPrioritizedReplayBuffer.replay_capacity '
                         '= 2000'])
  r = fakes.rnd(case['salt'])

  def obs():
    o = r.random(1099).astype(np.float32)
    o[16:] *= 0.9
    return o

  with Scratch() as d:
    run_helpers.bind_gin_variables(name, None, small.get(name, []))
    agent = run_helpers.create_agent(name, 3, (1099,))
    ckpt = os.path.join(d, 'checkpoints')
    for k, e in enumerate(case['episodes']):
      if e['mode'] in ('train', 'eval'):
        agent.set_mode(e['mode'])
      elif e['mode']:
        agent.set_mode(base_agent.AgentMode[e['mode']])
      if e['check'] == 'save':
        agent.save_checkpoint(ckpt, k)
      elif e['check'] == 'load':
        agent.load_checkpoint(ckpt, 1000)     # No such checkpoint.
      elif e['check'] == 'reload':
        got = agent.reload_latest_checkpoint(os.path.join(d, 'none'))
        require(got == -1, 'nothing to restore', got=got)
      elif e['check'] == 'writer':
        agent.set_summary_writer(None)
      elif e['check'] == 'name':
        got = agent.get_name()
        require(got == AGENTS[name][0].__name__, 'name', got=got)
      acts = [agent.begin_episode(obs())]
      acts += [agent.step(float(r.random()), obs())
               for _ in range(e['steps'])]
      for a in acts:
        require(a in (0, 1, 2) and int(a) == a, 'action in range', got=a)
      if e['end'] == 'none':
        agent.end_episode(0.5)
      elif e['end'] == 'by name':
        agent.end_episode(reward=0.5, terminal=False)
      elif e['end'] != 'no end':
        agent.end_episode(0.5, e['end'] == 'true')
  fresh()
  ctx.label(name)
  ctx.nontrivial(len(case['episodes']) > 1)


@sub('C35', 'registered', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), again=st.integers(0, 3), radius=gen.uf(1, 300))),
     quick=40, thorough=600,
     rule='the environment made by its name is the BalloonEnv of the given '
     'arguments, also after registering again; non-trivial: registered again')
def registered(case, ctx):
  fresh()
  for _ in range(case['again']):
    ble_gym.register_env()
  spec = gym.spec(ENV_ID)
  require(spec.id == ENV_ID, 'specification')
  made = gym.make(ENV_ID, seed=case['seed'],
                  wind_field_factory=wind_field.SimpleStaticWindField,
                  station_keeping_radius_km=case['radius'])
  env = made.unwrapped
  require(type(env) is balloon_env.BalloonEnv, 'class', got=type(env))
  ref = balloon_env.BalloonEnv(
      seed=case['seed'], wind_field_factory=wind_field.SimpleStaticWindField,
      station_keeping_radius_km=case['radius'])
  require(np.array_equal(made.reset(), ref.reset()), 'first observation')
  got, want = made.step(2), ref.step(2)
  require(np.array_equal(got[0], want[0]) and got[1] == want[1] and
          got[2] == want[2], 'step')
  require_close(env.radius.kilometers, case['radius'], 'radius')
  ctx.nontrivial(case['again'] > 0)


class Env(fakes.FakeEnv):
  """A scripted environment that renders."""

  def __init__(self, salt, log, made, **kw):
    super().__init__(salt, log=log)
    made.append(kw)
    self.renderer = kw.get('renderer')

  def render(self, mode='human'):
    self.log.append(('render', mode))
    if self.renderer is None or mode != 'rgb_array':
      return None
    return fakes.rnd(self.salt, 'frame').integers(
        0, 256, (7, 9, 3)).astype(np.uint8)


def run_train(d, **kw):
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['x', '--base_dir=/nowhere'])
  with flagsaver.flagsaver(base_dir=d, **kw):
    train.main(['train'])


@sub('C35', 'train', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), iters=st.sampled_from([0, 1, 2, 2, 3]),
    per=st.integers(1, 3),
    length=st.integers(1, 24), run=st.integers(0, 12),
    wind=st.sampled_from(['simple', 'generative']),
    renderer=st.sampled_from([None, None, 'matplotlib']),
    period=st.integers(1, 12),
    collectors=st.lists(st.sampled_from(['console', 'pickle', 'tensorboard',
                                         'other']), unique=True, max_size=3),
    halflife=st.integers(1, 99), done=st.sampled_from([-1, -1, -1, 0, 1, 3]))),
     quick=120,
     thorough=4000,
     rule='runs of the training script on scripted environments: what is made '
     'of its flags, episodes flown, rendered and saved; non-trivial: two '
     'episodes at least')
def train_script(case, ctx):
  fresh()
  log, alog, made, agents = [], [], [], []
  store = {i: 0 for i in range(case['done'] + 1)}

  def constructor(num_actions, observation_shape):
    require(num_actions == 3 and tuple(observation_shape) == (4,),
            'arguments of the agent')
    agents.append(fakes.FakeAgent(log=alog, store=store))
    return agents[-1]

  agent_registry.REGISTRY['fake'] = (constructor, None)
  spec = registration.registry[ENV_ID]
  entry = spec.entry_point
  spec.entry_point = lambda **kw: Env(case['salt'], log, made, **kw)
  try:
    with Scratch() as d:
      run_train(d, agent='fake', num_iterations=case['iters'],
                max_episode_length=case['length'], run_number=case['run'],
                wind_field=case['wind'], renderer=case['renderer'],
                render_period=case['period'],
                collectors=case['collectors'],
                episodes_per_iteration=case['per'],
                gin_bindings=['perciatelli_reward_function.reward_halflife = '
                              f'{case["halflife"]}'])
      image = f'{d}/balloon_path.png'
      frame = (matplotlib.image.imread(image) if os.path.exists(image)
               else None)
      files = sorted(os.path.relpath(f, d) for f in glob.glob(
          f'{d}/**', recursive=True) if os.path.isfile(f))
  finally:
    spec.entry_point = entry
    matplotlib.pyplot.close('all')
  require(gin.query_parameter('perciatelli_reward_function.reward_halflife') ==
          case['halflife'], 'gin bindings')
  require(len(made) == 1 and len(agents) == 1, 'one environment, one agent')
  factory = made[0].get('wind_field_factory')
  require(factory is {
      'simple': wind_field.SimpleStaticWindField,
      'generative': generative_wind_field.generative_wind_field_factory}[
          case['wind']], 'wind field', got=factory)
  rend = made[0].get('renderer')
  require((rend is None) == (case['renderer'] is None), 'renderer', got=rend)
  if rend is not None:
    require(isinstance(rend, matplotlib_renderer.MatplotlibRenderer),
            'renderer', got=rend)
  # Episodes.
  start = case['done'] + 1
  n = max(0, case['iters'] - start) * case['per']
  resets = [x for x in log if x[0] == 'reset']
  require(len(resets) == n, 'episodes', got=len(resets), want=n)
  lengths = []
  for x in log:
    if x[0] == 'reset':
      lengths.append(0)
    elif x[0] == 'step':
      lengths[-1] += 1
  require(all(0 < v <= case['length'] for v in lengths), 'episode lengths',
          got=lengths)
  renders = sum(-(-v // case['period']) for v in lengths)
  got = [x[1] for x in log if x[0] == 'render' and x[1] == 'human']
  require(len(got) == renders, 'frames', got=len(got), want=renders)
  base = os.path.join('fake', str(case['run']))
  got = [x[1] for x in alog if x[0] == 'reload']
  require(got == [os.path.join(d, base, 'checkpoints')],
          'where checkpoints are looked for', got=got)
  saves = [x[1:] for x in alog if x[0] == 'save']
  require(saves == [(os.path.join(d, base, 'checkpoints'), i)
                    for i in range(start, case['iters'])], 'checkpoints',
          got=saves)
  want = set()
  if 'pickle' in case['collectors']:
    want |= {os.path.join(base, f'metrics/pickle/pickle_{i}.pkl')
             for i in range(start * case['per'], start * case['per'] + n)}
  log_file = [f for f in files if f.endswith('/console.log')]
  # When it is written is up to the collector, see C27.
  require(len(log_file) <= ('console' in case['collectors']), 'console log',
          got=files)
  want.update(log_file)
  rest = {f for f in files if not f.endswith('.png') and 'tfevents' not in f}
  require({os.path.basename(f) for f in rest} ==
          {os.path.basename(f) for f in want}, 'files of the collectors',
          got=files, want=sorted(want))
  require(all(f.startswith(base + os.sep) for f in rest), 'directory of the '
          'run', got=files)
  tf = [f for f in files if 'tfevents' in f]
  require(bool(tf) == ('tensorboard' in case['collectors']), 'tensorboard',
          got=files)
  require(all(f.startswith(base + os.sep) for f in tf), 'directory', got=files)
  if rend is None or n == 0:
    require(frame is None or n == 0, 'no image without renderer')
  else:
    require(frame is not None, 'image of the last flight')
    pix = fakes.rnd(case['salt'], 'frame').integers(0, 256, (7, 9, 3))
    require(frame.shape[:2] == (7, 9) and np.array_equal(
        np.round(frame[..., :3] * 255), pix), 'pixels')
  fresh()
  ctx.label('rendered', rend is not None)
  ctx.label('resumed', start > 0)
  ctx.nontrivial(n > 1)


@sub('C35', 'flights', lambda: st.fixed_dictionaries(dict(
    seed=gen.ui(0, 10**9), iters=st.integers(1, 2), per=st.integers(1, 2),
    length=st.integers(1, 12), radius=gen.uf(10, 300),
    dropoff=gen.uf(0, 1))), quick=24, thorough=400, case_timeout=300,
     rule='real training runs of the station seeker in simple winds: the '
     'pickled rewards and actions are those of flights by hand; non-trivial: '
     'two episodes at least')
def flights(case, ctx):
  fresh()
  binds = [f'BalloonEnv.seed = {case["seed"]}',
           f'perciatelli_reward_function.station_keeping_radius_km = '
           f'{case["radius"]!r}',
           f'perciatelli_reward_function.reward_dropoff = {case["dropoff"]!r}']
  with Scratch() as d:
    run_train(d, agent='station_seeker', num_iterations=case['iters'],
              max_episode_length=case['length'], wind_field='simple',
              collectors=['pickle'], episodes_per_iteration=case['per'],
              gin_bindings=binds)
    got = {}
    for f in glob.glob(f'{d}/station_seeker/1/**/*.pkl', recursive=True):
      with open(f, 'rb') as g:
        got[int(f.split('_')[-1][:-4])] = pickle.load(g)
  n = case['iters'] * case['per']
  require(sorted(got) == list(range(n)), 'episodes', got=sorted(got))
  fresh()
  gin.parse_config(binds[1:])
  env = balloon_env.BalloonEnv(
      seed=case['seed'], wind_field_factory=wind_field.SimpleStaticWindField)
  agent = station_seeker_agent.StationSeekerAgent(3, (1099,))
  for k in range(n):
    o = env.reset()
    a = agent.begin_episode(o)
    for i in range(case['length']):
      o, r, done, _ = env.step(a)
      s = got[k][i]
      require(s.step == i and int(s.action) == int(a) and
              bool(s.terminal) == bool(done), 'step', got=s, action=a)
      require_close(s.reward, r, 'reward', rel=1e-9, abs_=1e-12)
      if done:
        break
      a = agent.step(r, o)
  fresh()
  ctx.nontrivial(n > 1)
