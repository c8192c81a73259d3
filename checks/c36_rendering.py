"""C36: renderers see the flight and leave it alone."""

import matplotlib
import numpy as np
from hypothesis import strategies as st
from vlib import blank
from vlib import envs
from vlib import gen
from vlib.core import require, require_raises, sub

matplotlib.use('Agg')

from matplotlib import dates as mdates
from matplotlib import pyplot as plt
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.env.rendering import renderer


class Unsupported(ValueError):
  pass


class Recorder(renderer.Renderer):
  """Notes what it is told."""

  def __init__(self):
    self.log = []

  def reset(self):
    self.log.append(('reset',))

  def step(self, state):
    self.log.append(('step', envs.plain(state.balloon_state)))

  def render(self, mode, summary_writer=None, iteration=None):
    self.log.append(('render', mode))
    if mode not in self.render_modes:
      raise Unsupported(mode)
    return {'text': 'a text', 'rgb_array': np.full((2, 3, 3), len(self.log)),
            'human': None}[mode]

  @property
  def render_modes(self):
    return ['human', 'text', 'rgb_array']


MODES = ['human', 'text', 'rgb_array', 'ansi', '', 'RGB_ARRAY', 'tensorboard']
ops = st.lists(st.one_of(
    st.just(['reset']), gen.ui(0, 2**31 - 1).map(lambda s: ['reset', s]),
    st.integers(0, 2).map(lambda a: ['step', a]),
    st.integers(0, 2).map(lambda a: ['step', a]),
    st.sampled_from(MODES).map(lambda m: ['render', m])), max_size=10)


@sub('C36', 'told', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), kind=envs.winds(), ops=ops)), quick=120, thorough=5000,
     rule='histories of resets, steps and renderings with a recording '
     'renderer, and the same flights without; non-trivial: a reset and a step '
     'after the first')
def told(case, ctx):
  rec = Recorder()
  env = envs.make(case['kind'], case['seed'], renderer=rec)
  ref = envs.make(case['kind'], case['seed'])
  require(all(x[0] != 'render' for x in rec.log), 'nothing is rendered')

  def state():
    return envs.plain(env.get_simulator_state().balloon_state)

  kinds = set()
  for op in [['reset']] + case['ops']:
    rec.log.clear()
    if op[0] == 'reset':
      seed = op[1] if len(op) > 1 else None
      a, b = env.reset(seed=seed), ref.reset(seed=seed)
      envs.same_obs(a, b, 'with and without renderer')
      require(rec.log == [('reset',), ('step', state())],
              'what the renderer is told of a reset',
              got=[x[0] for x in rec.log])
    elif op[0] == 'step':
      a, b = env.step(op[1]), ref.step(op[1])
      envs.same_step(envs.outcome(a), envs.outcome(b),
                     'with and without renderer')
      require(rec.log == [('step', state())],
              'what the renderer is told of a step',
              got=[x[0] for x in rec.log])
    else:
      mode = op[1]
      require(ref.render(mode) is None, 'nothing without renderer')
      before = state()
      if mode in rec.render_modes:
        got = env.render() if mode == 'human' else env.render(mode)
        want = {'text': 'a text', 'human': None}.get(mode)
        if mode == 'rgb_array':
          require(np.array_equal(got, np.full((2, 3, 3), 1)), 'frame')
        else:
          require(got == want, 'what is rendered', got=got, want=want)
      else:
        require_raises(ValueError, lambda: env.render(mode),
                       'unsupported mode', mode=mode)
      require(rec.log == [('render', mode)], 'rendering')
      require(state() == before, 'rendering leaves the state alone')
    kinds.add(op[0])
  require(envs.plain(ref.get_simulator_state().balloon_state) == state(),
          'the same flights')
  ctx.nontrivial({'reset', 'step'} <= {o[0] for o in case['ops']})


def plotted(fig):
  """The lines of a figure: those in the plane and those in space."""
  flat, space = [], []
  for ax in fig.axes:
    for line in ax.get_lines():
      if hasattr(line, 'get_data_3d'):
        space.append([np.asarray(v, float) for v in line.get_data_3d()])
      else:
        x, y = line.get_xdata(orig=True), line.get_ydata(orig=True)
        flat.append([np.array(mdates.date2num(x), float)
                     if len(x) and hasattr(x[0], 'tzinfo')
                     else np.asarray(x, float), np.asarray(y, float)])
  return flat, space


def marked(fig):
  """The single points that are marked: in the plane and in space."""
  flat, space = [], []
  for ax in fig.axes:
    for c in ax.collections:
      if hasattr(c, '_offsets3d'):
        space += [np.array(p, float) for p in zip(*c._offsets3d)]
      else:
        flat += [np.array(p, float) for p in np.ma.getdata(c.get_offsets())]
  f, s = plotted(fig)
  flat += [np.array([v[0][0], v[1][0]]) for v in f if len(v[0]) == 1]
  space += [np.array([a[0] for a in v]) for v in s if len(v[0]) == 1]
  return flat, space


def has(lines, want):
  return any(len(v) == len(want) and all(
      a.shape == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-7)
      for a, b in zip(v, want)) for v in lines)


class Writer:

  def __init__(self):
    self.images, self.flushed = [], 0

  def image(self, tag, image, step, *_):
    self.images.append((tag, np.array(image), step))

  def flush(self):
    self.flushed += 1


@sub('C36', 'matplotlib', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), kind=envs.winds(),
    first=st.lists(st.integers(0, 2), max_size=3),
    second=st.lists(st.integers(0, 2), min_size=1, max_size=12),
    times=st.integers(1, 2), mode=st.sampled_from(
        ['rgb_array', 'rgb_array', 'human', 'tensorboard']),
    long=st.sampled_from([0, 0, 0, 0, 1000]),
    writer=st.booleans(), bad=st.sampled_from(MODES[3:6] + ['text']))),
     quick=24, thorough=1200, case_timeout=300,
     rule='flights drawn by the matplotlib renderer (without display): the '
     'path, height and charge that are drawn are those of this episode, the '
     'flight is that without renderer; non-trivial: a second episode')
def drawn(case, ctx):
  plt.close('all')
  rend = matplotlib_renderer.MatplotlibRenderer()
  fig = plt.gcf()
  # Long flights go without features, for speed.
  kw = dict(feature_constructor_factory=blank.Blank) if case[
      'long'] else {}
  env = envs.make(case['kind'], case['seed'], renderer=rend, **kw)
  ref = envs.make(case['kind'], case['seed'], **kw)
  track = []

  def note():
    s = env.get_simulator_state()
    b = s.balloon_state
    track.append((b.x.kilometers, b.y.kilometers,
                  s.atmosphere.at_pressure(b.pressure).height.kilometers,
                  mdates.date2num(b.date_time), 100 * b.battery_soc))

  # Now and then a flight as long as they usually are.
  last = case['second']
  if case['long']:
    last = (last * case['long'])[:case['long']]
    case.update(times=2, mode='rgb_array')
  episodes = [case['first'], last] if case['first'] else [last]
  frames = []
  for k, acts in enumerate(episodes):
    envs.same_obs(env.reset(), ref.reset(), 'with and without renderer')
    track.clear()
    note()
    for a in acts:
      o = envs.outcome(env.step(a))
      envs.same_step(o, envs.outcome(ref.step(a)), 'with and without renderer')
      note()
      if o[2]:
        break
    if k < len(episodes) - 1:
      frames.append(env.render('rgb_array'))
  require_raises(ValueError, lambda: env.render(case['bad']),
                 'unsupported mode', mode=case['bad'])
  for _ in range(case['times']):
    w = Writer() if case['writer'] else None
    if case['mode'] == 'tensorboard':
      frame = rend.render('tensorboard', summary_writer=w, iteration=7)
      require(frame is None, 'no frame')
      if w is not None:
        require(len(w.images) == 1 and w.images[0][2] == 7, 'summary',
                got=[i[::2] for i in w.images])
        frames.append(w.images[0][1])
    else:
      frame = env.render(case['mode'])
      if case['mode'] == 'human':
        require(frame is None, 'no frame')
      else:
        frames.append(frame)
  for f in frames:
    require(isinstance(f, np.ndarray) and f.dtype == np.uint8 and
            f.ndim == 3 and f.shape[2] == 3, 'frame of RGB values')
    require(f.shape == frames[0].shape, 'size of frames')
    require(len(np.unique(f.reshape(-1, 3), axis=0)) > 2, 'something is drawn')
  if case['mode'] == 'rgb_array':
    require(np.array_equal(frames[-1], frames[-case['times']]),
            'rendering again gives the same frame')
    if len(episodes) > 1:
      require(not np.array_equal(frames[0], frames[-1]), 'another flight')
    x, y, z, t, c = (np.array(v) for v in zip(*track))
    flat, space = plotted(fig)
    require(has(flat, [x, y]), 'the path is drawn, in km',
            got=[len(v[0]) for v in flat], want=len(x))
    require(has(flat, [t, c]), 'the charge over time is drawn, in percent')
    require(has(space, [x, y, z]), 'the path in space is drawn, in km')
    flat, space = marked(fig)
    require(any(np.allclose(p, [x[-1], y[-1]]) for p in flat),
            'the balloon is marked where it is', got=flat, want=(x[-1], y[-1]))
    require(any(np.allclose(p, [x[-1], y[-1], z[-1]]) for p in space),
            'the balloon is marked in space where it is', got=space,
            want=(x[-1], y[-1], z[-1]))
    circles = [p for ax in fig.axes for p in ax.patches
               if isinstance(p, plt.Circle)]
    require(any(tuple(p.center) == (0, 0) and p.radius == 50
                for p in circles), 'the station is drawn')
  o = ref.step(1)
  envs.same_step(envs.outcome(env.step(1)), envs.outcome(o),
                 'after rendering')
  plt.close('all')
  ctx.nontrivial(len(episodes) > 1)
