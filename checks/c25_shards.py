"""C25: sharded evaluation, its files, and the suites."""

import datetime as dt
import glob
import json
import math
import os
import tempfile

import gin
import jax.numpy as jnp
import matplotlib
import numpy as np
from absl import flags
from absl.testing import flagsaver
from gym.envs import registration
from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

matplotlib.use('Agg')

from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.eval import eval as eval_main
# Both define this flag.
delattr(flags.FLAGS, 'pretty_json')
from balloon_learning_environment.eval import combine_eval_shards  # pylint: disable=g-import-not-at-top
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites

SALT = [0]


def setup():
  agent_registry.REGISTRY['fake'] = (fakes.FakeAgent, None)
  agent_registry.REGISTRY['fake_2'] = (fakes.FakeAgent, None)
  registration.registry['BalloonLearningEnvironment-v0'].entry_point = (
      lambda **kw: fakes.FakeEnv(SALT[0]))
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['x', '--path=/nowhere', '--models=none'])


def run_eval(out, **kw):
  gin.clear_config()
  with flagsaver.flagsaver(output_dir=out, wind_field='simple', **kw):
    eval_main.main(['eval'])


def load(path):
  with open(path) as f:
    return json.load(f)


def check_entries(data, salt, seeds, paths, what):
  require([d['seed'] for d in data] == list(seeds), f'{what}: seeds',
          got=[d['seed'] for d in data][:20], want=list(seeds)[:20])
  for d in data:
    s, n, done, rewards, _ = fakes.expected(salt, d['seed'], 50.0, 960)
    require_close(d['cumulative_reward'], math.fsum(rewards), f'{what}: reward')
    inside = sum(math.hypot(s.x[i], s.y[i]) <= 50.0 for i in range(n))
    require_close(d['time_within_radius'], inside / n, f'{what}: radius')
    require(d['final_timestep'] == n, f'{what}: final time step')
    for k in ('out_of_power', 'envelope_burst', 'zeropressure'):
      require(d[k] is (done and s.kind == k), f'{what}: {k}', got=d[k])
    require(len(d['flight_path']) == (n if paths else 0),
            f'{what}: flight path', got=len(d['flight_path']))
    for i, p in enumerate(d['flight_path']):
      want = dict(x=s.x[i], y=s.y[i], pressure=s.pressure[i],
                  superpressure=s.sp[i], elapsed_seconds=180.0 * (i + 1),
                  power=s.soc[i])
      require(set(p) == set(want), f'{what}: keys of a path point')
      for k in want:
        require_close(p[k], want[k], f'{what}: {k}', rel=1e-12, abs_=1e-9)


SUITES = ['tiny_eval', 'tiny_eval', 'micro_eval', 'small_eval']


@sub('C25', 'shards', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), suite=st.sampled_from(SUITES),
    shards=st.integers(1, 13), order=gen.ui(0, 10**6),
    agent=st.sampled_from(['fake', 'fake_2']),
    name=st.sampled_from([None, None, 'a', 'x.y', 'm+1', 'q[1]*']),
    ckpt=st.sampled_from([None, None, 0, 7]), pretty=st.booleans(),
    paths=st.booleans(), decoys=st.lists(st.sampled_from(
        ['_2', 'b', '_x', '_10x', '2']), max_size=3, unique=True))), quick=160,
     thorough=4000,
     rule='the evaluation program on a scripted environment, sharded, then '
     'combined, beside files of other models: every seed of the suite once, in '
     'order, with its own results; non-trivial: more than one shard')
def shards(case, ctx):
  setup()
  SALT[0] = case['salt']
  seeds = suites.get_eval_suite(case['suite']).seeds
  with tempfile.TemporaryDirectory(
      dir=os.environ.get('TMPDIR'),
      prefix=['run', 'lr=[1e-3]'][case['salt'] % 2]) as out:
    kw = dict(agent=case['agent'], suite=case['suite'],
              name_override=case['name'], checkpoint_idx=case['ckpt'],
              pretty_json=case['pretty'])
    model = case['name'] or (
        case['agent'] if case['ckpt'] is None else
        f"{case['agent']}_{case['ckpt']}")
    folder = os.path.join(out, case['suite'])
    n = case['shards']
    order = np.random.default_rng(case['order']).permutation(n)
    for i in order:
      run_eval(out, num_shards=n, shard_idx=int(i), **kw)
    if n == 1:
      require(os.listdir(folder) == [f'{model}.json'], 'result file',
              got=os.listdir(folder))
      check_entries(load(os.path.join(folder, f'{model}.json')), case['salt'],
                    seeds, True, 'result')
      return
    want = sorted(f'{model}_{i}.json' for i in range(n))
    require(sorted(os.listdir(folder)) == want, 'shard files',
            got=os.listdir(folder), want=want)
    parts = [load(os.path.join(folder, f'{model}_{i}.json')) for i in range(n)]
    check_entries(sum(parts, []), case['salt'], seeds, True, 'shards')
    sizes = [len(p) for p in parts]
    require(max(sizes) - min(sizes) <= 1, 'shards are uneven', sizes=sizes)
    # Other models whose names start alike.
    for d in case['decoys']:
      for suffix in ('_0', '_1', ''):
        name = f'{model}{d}{suffix}.json'
        if not os.path.exists(os.path.join(folder, name)) and not (
            d == '_2' and suffix == ''):
          with open(os.path.join(folder, name), 'w') as f:
            json.dump([dict(seed=-1, flight_path=[1])], f)
    before = {p: open(p).read() for p in glob.glob(glob.escape(folder) + '/*')}
    with flagsaver.flagsaver(path=folder, models=[model],
                             flight_paths=case['paths'],
                             pretty_json=case['pretty']):
      combine_eval_shards.main(['combine'])
    check_entries(load(os.path.join(folder, f'{model}.json')), case['salt'],
                  seeds, case['paths'], 'combined')
    for p, content in before.items():
      require(os.path.basename(p) == f'{model}.json' or
              open(p).read() == content, 'a shard was changed', path=p)
  ctx.nontrivial(n > 1)
  ctx.label('more shards than seeds', n > len(seeds))
  ctx.label('decoys', bool(case['decoys']))


def _touchy():
  """Suites and shards whose borders are easily rounded to the wrong side."""
  out = []
  for name in suites.available_suites():
    n = len(suites.get_eval_suite(name).seeds)
    for k in range(2, 400):
      at = [i for i in range(1, k) if n * i // k != int(n / k * i) or
            n * i // k != int(n * (i / k)) or n * i // k != int(1 / k * n * i)]
      out += [(name, k, i) for i in at[:2]]
  return out


@sub('C25', 'joins', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), at=st.one_of(
        st.sampled_from(_touchy()), st.tuples(
            st.sampled_from(sorted(suites.available_suites())),
            st.integers(2, 2000), gen.ui(1, 1999))).map(list))), quick=240,
     thorough=6000,
     rule='two neighbouring shards of any suite, also where rounding is '
     'delicate: the second begins with the seed after the last of the first, '
     'the first shard with the first seed and the last with the last one; '
     'non-trivial: neither is empty')
def joins(case, ctx):
  setup()
  SALT[0] = case['salt']
  name, k, i = case['at']
  i = 1 + (i - 1) % (k - 1)
  if name in ('big_eval', 'all_strata') and k < 60 or (
      len(suites.get_eval_suite(name).seeds) > 900 and k < 8):
    k *= 60      # Smaller shards.
  seeds = list(suites.get_eval_suite(name).seeds)
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    got = []
    for j in (i - 1, i):
      run_eval(out, agent='fake', suite=name, num_shards=k, shard_idx=j)
      got.append([d['seed'] for d in load(
          os.path.join(out, name, f'fake_{j}.json'))])
  both = got[0] + got[1]
  require(abs(len(got[0]) - len(got[1])) <= 1, 'shards are uneven',
          sizes=[len(g) for g in got])
  if both:
    at = seeds.index(both[0])
    require(both == seeds[at:at + len(both)], 'the seeds of two neighbouring '
            'shards', shards=k, first=i - 1, got=both[:50])
  if i == 1:
    require(not both or both[0] == seeds[0], 'the first shard', got=both[:3])
  if i == k - 1:
    require(not both or both[-1] == seeds[-1], 'the last shard', got=both[-3:])
  ctx.nontrivial(bool(got[0]) and bool(got[1]))


@sub('C25', 'program', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), idx=st.sampled_from([None, 0, 0, 3, 7]),
    folder=st.booleans(), wind=st.sampled_from(['simple', 'generative']),
    renderer=st.sampled_from([None, 'matplotlib']), period=st.integers(1, 400),
    halflife=st.integers(1, 99), dropoff=st.integers(1, 99),
    gin_file=st.booleans(), saved=st.integers(1, 9))), quick=64,
     thorough=2000,
     rule='the evaluation program on a scripted environment: agent, checkpoint, '
     'configuration, winds and renderer are those of its flags; non-trivial: a '
     'checkpoint')
def program(case, ctx):
  setup()
  log, alog, made, agents = [], [], [], []
  store = {i: case['saved'] + i for i in (0, 3, 7, 8)}

  def constructor(num_actions, observation_shape):
    require(num_actions == 3 and tuple(observation_shape) == (4,),
            'arguments of the agent', got=(num_actions, observation_shape))
    agents.append(fakes.FakeAgent(log=alog, store=store))
    return agents[-1]

  def make(**kw):
    made.append(kw)
    return fakes.FakeEnv(case['salt'], log=log)

  reward = 'perciatelli_reward_function.reward_'
  spec = registration.registry['BalloonLearningEnvironment-v0']
  entry, spec.entry_point = spec.entry_point, make
  agent_registry.REGISTRY['fake_3'] = (constructor, None)
  gin.clear_config()
  try:
    with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
      gin_file = None
      if case['gin_file']:
        gin_file = f'{out}/a.gin'
        with open(gin_file, 'w') as f:
          f.write(f'{reward}halflife = 1000\n{reward}dropoff = '
                  f'{case["dropoff"]}\n')
      with flagsaver.flagsaver(
          output_dir=f'{out}/new/results', agent='fake_3', suite='micro_eval',
          wind_field=case['wind'], renderer=case['renderer'],
          render_period=case['period'], checkpoint_idx=case['idx'],
          checkpoint_dir=f'{out}/ckpt' if case['folder'] else None,
          agent_gin_file=gin_file,
          gin_bindings=[f'{reward}halflife = {case["halflife"]}']):
        eval_main.main(['eval'])
      files = [os.path.relpath(os.path.join(d, f), out)
               for d, _, fs in os.walk(out) for f in fs]
      name = 'fake_3' if case['idx'] is None else f'fake_3_{case["idx"]}'
      path = f'new/results/micro_eval/{name}.json'
      require(set(files) - {'a.gin'} == {path}, 'files', got=files, want=path)
      data = load(f'{out}/{path}')
    check_entries(data, case['salt'], [0], True, 'result')
    require(gin.query_parameter(f'{reward}halflife') == case['halflife'],
            'gin binding')
    if case['gin_file']:
      require(gin.query_parameter(f'{reward}dropoff') == case['dropoff'],
              'gin file')
  finally:
    spec.entry_point = entry
    gin.clear_config()
  require(len(made) == 1 and len(agents) == 1, 'one environment, one agent')
  factory = made[0].get('wind_field_factory')
  require(factory is {
      'simple': wind_field.SimpleStaticWindField,
      'generative': generative_wind_field.generative_wind_field_factory}[
          case['wind']], 'wind field', got=factory)
  rend = made[0].get('renderer')
  require(rend is None if case['renderer'] is None else
          isinstance(rend, matplotlib_renderer.MatplotlibRenderer), 'renderer',
          got=rend)
  frames = sum(x[0] == 'render' for x in log)
  want = (data[0]['final_timestep'] - 1) // case['period'] + 1
  require(abs(frames - want) <= 1, 'frames', got=frames, want=want)
  # The checkpoint is loaded, once, before the first flight.
  loads = [x for x in alog if x[0] == 'load']
  restore = case['folder'] and case['idx'] is not None
  require([(os.path.basename(x[1]), x[2]) for x in loads] ==
          [('ckpt', case['idx'])] * restore, 'checkpoint', got=loads)
  kinds = [x[0] for x in alog]
  require(not restore or kinds.index('load') < kinds.index('begin'),
          'the checkpoint came late', got=kinds[:5])
  require('save' not in kinds, 'evaluation saved a checkpoint')
  ctx.nontrivial(restore)
  ctx.label('renderer', rend is not None)


@sub('C25', 'combine', lambda: st.fixed_dictionaries(dict(
    seeds=st.lists(gen.ui(0, 99999), max_size=30, unique=True),
    cuts=st.lists(st.integers(0, 30), max_size=12),
    perm=gen.ui(0, 10**6), models=st.integers(1, 3), paths=st.booleans(),
    alike=st.booleans(), pretty=st.booleans())),
     quick=800, thorough=30000,
     rule='arbitrary splits of arbitrary results in any order, of several '
     'models at once: the combination is all of them sorted by seed; '
     'non-trivial: three shards')
def combine(case, ctx):
  setup()
  rng = np.random.default_rng(case['perm'])
  with tempfile.TemporaryDirectory(dir=os.environ.get('TMPDIR')) as out:
    want = {}
    for m in range(case['models']):
      rows = [dict(seed=s, cumulative_reward=s * 0.5 + m, time_within_radius=m,
                   out_of_power=False, envelope_burst=bool(s % 2),
                   zeropressure=False, final_timestep=s % 960,
                   flight_path=[dict(x=1.0 * s, y=m)]) for s in case['seeds']]
      if case['alike']:
        # Episodes may well have the same results, but for their seeds.
        rows = [{**rows[0], 'seed': r['seed']} for r in rows]
      want[m] = sorted(({**r, 'flight_path': r['flight_path']
                         if case['paths'] else []} for r in rows),
                       key=lambda r: r['seed'])
      rows = [rows[i] for i in rng.permutation(len(rows))]
      cuts = sorted([min(c, len(rows)) for c in case['cuts']])
      b = [0] + cuts + [len(rows)]
      for i in range(len(b) - 1):
        with open(f'{out}/model{m}_{i}.json', 'w') as f:
          json.dump(rows[b[i]:b[i + 1]], f)
    with flagsaver.flagsaver(path=out, models=[
        f'model{m}' for m in range(case['models'])],
                             flight_paths=case['paths'],
                             pretty_json=case['pretty']):
      combine_eval_shards.main(['combine'])
    for m in range(case['models']):
      got = load(f'{out}/model{m}.json')
      require(got == want[m], 'combined results', got=got[:3],
              want=want[m][:3])
  ctx.nontrivial(len(case['cuts']) >= 2)
  ctx.label('more than ten shards', len(case['cuts']) >= 10)


def _num(v, kind):
  return {'float': float(v), 'np': np.array(v), 'np1': np.array([v]),
          'jnp': jnp.asarray(v, jnp.float32)}[kind]


@sub('C25', 'encoding', lambda: st.fixed_dictionaries(dict(
    seed=gen.ui(0, 10**6), reward=gen.uf(0, 960), twr=gen.uf(0, 1),
    flags=st.tuples(st.booleans(), st.booleans(), st.booleans()).map(list),
    n=st.integers(0, 960), salt=gen.ui(0, 10**6), path=st.integers(0, 8),
    late=st.sampled_from([0, 0, 470, 480, 952, 5000]),
    kind=st.sampled_from(['float', 'np', 'np1', 'jnp']), many=st.booleans())),
     quick=1600, thorough=60000,
     rule='results, also with array scalars, through JSON and back; '
     'non-trivial: a flight path')
def encoding(case, ctx):
  s = fakes.Script(case['salt'], 1)
  states = [fakes.FakeState(s, i) for i in range(case['path'])]
  for b in states:
    b.time_elapsed += case['late'] * dt.timedelta(minutes=3)
  pts = [eval_lib.SimpleBalloonState.from_balloon_state(b) for b in states]
  k = case['kind']
  r = eval_lib.EvaluationResult(
      case['seed'], _num(case['reward'], k), _num(case['twr'], k),
      *case['flags'], case['n'], pts)
  got = json.loads(json.dumps([r, r] if case['many'] else r,
                              cls=eval_lib.EvalResultEncoder))
  if case['many']:
    require(got[0] == got[1], 'list of results')
    got = got[0]
  tol = dict(rel=1e-6 if k == 'jnp' else 1e-12, abs_=1e-7)
  require(got['seed'] == case['seed'] and got['final_timestep'] == case['n'],
          'integers')
  require_close(got['cumulative_reward'], case['reward'], 'reward', **tol)
  require_close(got['time_within_radius'], case['twr'], 'radius', **tol)
  require([got['out_of_power'], got['envelope_burst'],
           got['zeropressure']] == case['flags'], 'flags')
  require(len(got['flight_path']) == len(pts), 'path length')
  for i, p in enumerate(got['flight_path']):
    want = dict(x=s.x[i], y=s.y[i], pressure=s.pressure[i],
                superpressure=s.sp[i],
                elapsed_seconds=180.0 * (i + 1 + case['late']),
                power=s.soc[i])
    require(set(p) == set(want), 'keys', got=sorted(p))
    for q in want:
      require_close(p[q], want[q], q, rel=1e-12, abs_=1e-9)
  require_raises(TypeError, lambda: json.dumps(
      {'a': np.zeros(3)}, cls=eval_lib.EvalResultEncoder), 'larger arrays')
  ctx.nontrivial(bool(pts))


@sub('C25', 'suites', lambda: st.fixed_dictionaries(dict(
    name=st.sampled_from(sorted(suites.available_suites())),
    cut=st.integers(0, 50), bad=st.one_of(
        st.text(max_size=12), st.sampled_from(sorted(
            f(n) for n in suites.available_suites() for f in (
                str.upper, str.title, lambda n: n.replace('_', '-'),
                lambda n: n.split('_')[0], lambda n: n + ' ',
                lambda n: n + 's', lambda n: '')))))), quick=240,
     thorough=1000,
     rule='named suites: sizes, no seed twice, strata partition, and copies '
     'that cannot be damaged; non-trivial: always')
def suites_(case, ctx):
  sizes = dict(big_eval=10000, medium_eval=1000, small_eval=100, tiny_eval=10,
               micro_eval=1)
  names = suites.available_suites()
  strata = ['hardest', 'hard', 'mid', 'easy', 'easiest']
  require(set(names) == set(sizes) | {f'{s}_strata' for s in strata} |
          {'all_strata'}, 'the documented suites', got=names)
  a = suites.get_eval_suite(case['name'])
  want = list(a.seeds)
  require(a.max_episode_length == 960, 'two days of three-minute steps')
  require(len(set(want)) == len(want), 'a seed occurs twice')
  if case['name'] in sizes:
    require(want == list(range(sizes[case['name']])), 'seeds of the suite')
  require(all(type(s) is int and s >= 0 for s in want), 'seeds')
  require('strata' not in case['name'] or len(want) == (
      10000 if case['name'] == 'all_strata' else 2000), 'seeds of a stratum')
  # Damage the copy.
  a.seeds[:] = a.seeds[:case['cut']] + [-1]
  a.max_episode_length = 1
  b = suites.get_eval_suite(case['name'])
  require(list(b.seeds) == want and b.max_episode_length == 960,
          'the named suite was changed through a copy')
  parts = [set(suites.get_eval_suite(f'{s}_strata').seeds) for s in strata]
  whole = suites.get_eval_suite('all_strata').seeds
  require(sum(len(p) for p in parts) == len(whole) == len(set(whole)) and
          set(whole) == set().union(*parts), 'strata are disjoint and complete')
  if case['bad'] not in names:
    require_raises(ValueError, lambda: suites.get_eval_suite(case['bad']),
                   'unknown suite')
  ctx.nontrivial()
