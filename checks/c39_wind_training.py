"""C39: the wind model is trained on its loss, epoch by epoch."""

import contextlib
import functools
import glob
import math
import os
import pickle
import shutil
import tempfile
from unittest import mock

from vlib import standins
standins.flax_optim()

from absl import flags
import flax
import gin
from flax.metrics import tensorboard
from flax.training import checkpoints
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from vlib import fakes
from vlib import gen
from vlib.core import require, require_array_close, require_close, sub

from balloon_learning_environment.generative import learn_wind_field_generator as learn
from balloon_learning_environment.generative import vae

F8 = np.float64
SHAPE = dict(latlng_slices=4, flow_field_width=3, pressure_slices=2,
             time_slices=2)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(dir=os.environ.get('TMPDIR'))
  try:
    yield d
  finally:
    shutil.rmtree(d)


@contextlib.contextmanager
def small(latents=3, units=6):
  """A small autoencoder instead of the full one (80,000 inputs)."""
  fs = vae.FieldShape(**SHAPE)
  with mock.patch.object(vae, 'FieldShape', lambda: fs), mock.patch.object(
      vae, 'Encoder', functools.partial(
          vae.Encoder, num_hidden_layers=1, hidden_layer_network_width=units)
  ), mock.patch.object(vae, 'Decoder', functools.partial(
      vae.Decoder, num_hidden_layers=1, hidden_layer_network_width=units)
  ), mock.patch.object(vae, 'WindFieldVAE', functools.partial(
      vae.WindFieldVAE, num_latents=latents, field_shape=fs)):
    yield fs


@sub('C39', 'schedules', lambda: st.fixed_dictionaries(dict(
    idx=st.one_of(st.integers(0, 30), st.integers(0, 10**5)),
    start=gen.uf(0, 100), inc=gen.uf(0.5, 3), freq=st.integers(1, 50),
    cap=gen.uf(0, 1000))), quick=2000, thorough=40000,
     rule='the constant and the step schedule at any epoch; non-trivial: after '
     'the first increment')
def schedules(case, ctx):
  i, f = case['idx'], case['freq']
  require(learn.constant_schedule(i, value=case['start']) == case['start'],
          'constant schedule')
  kw = dict(start_value=case['start'], increment=case['inc'], frequency=f,
            max_val=case['cap'])
  want = case['start']
  for _ in range(i // f):
    if want == 0 or (case['inc'] >= 1 and want > case['cap']):
      break
    want *= case['inc']
  got = learn.step_schedule(i, **kw)
  ctx.label('past any float', case['inc'] > 1 and
            i // f * math.log(case['inc']) > 720)
  require_close(got, min(want, case['cap']), 'step schedule', rel=1e-6,
                abs_=1e-12)
  require(learn.step_schedule(i - i % f, **kw) == got, 'constant between steps')
  gin.clear_config()
  with gin.unlock_config():
    gin.parse_config([f'step_schedule.start_value={case["start"]!r}',
                      f'step_schedule.increment={case["inc"]!r}',
                      f'step_schedule.frequency={f}',
                      f'step_schedule.max_val={case["cap"]!r}'])
  require(learn.step_schedule(i) == got, 'configured step schedule')
  ctx.nontrivial(i >= f)


def forward(params, x, eps):
  """Loss terms of one field, in numpy: mse, kld, sigma, reconstruction."""
  p = params['params']
  dense = lambda h, q: h @ np.asarray(q['kernel'], F8) + np.asarray(q['bias'], F8)
  h = np.asarray(x, F8).ravel()
  h = h / (50.0 + np.abs(h))
  h = np.maximum(dense(h, p['encoder']['Dense_0']), 0)
  mean, logvar = dense(h, p['encoder']['mean']), dense(h, p['encoder']['logvar'])
  z = mean + np.exp(0.5 * logvar) * np.asarray(eps, F8)
  z = np.maximum(dense(z, p['decoder']['Dense_0']), 0)
  z = dense(z, p['decoder']['Dense_1'])
  n = SHAPE['latlng_slices']
  psi = resize(z.reshape(SHAPE['flow_field_width'], SHAPE['flow_field_width'],
                         SHAPE['pressure_slices'] * SHAPE['time_slices']), n + 2)
  s = (n, n, SHAPE['pressure_slices'], SHAPE['time_slices'])
  u = ((psi[2:, 1:-1] - psi[:-2, 1:-1]) / 2).reshape(s)
  v = (-(psi[1:-1, 2:] - psi[1:-1, :-2]) / 2).reshape(s)
  y = np.stack([u, v], axis=-1)
  mse = ((y - np.asarray(x, F8))**2).sum()
  kld = 0.5 * (mean**2 + np.exp(logvar) - 1 - logvar).sum()
  return mse, kld, float(p['sigma']), y, mean


def resize(a, n):
  for axis in (0, 1):
    m = a.shape[axis]
    pos = (np.arange(n) + 0.5) * m / n - 0.5
    w = np.maximum(0.0, 1.0 - np.abs(pos[:, None] - np.arange(m)[None, :]))
    w /= w.sum(axis=1, keepdims=True)
    a = np.moveaxis(np.tensordot(w, a, (1, axis)), 0, axis)
  return a


def objective(params, batch, eps, kl):
  total = []
  for x, e in zip(batch, eps):
    mse, kld, sigma, _, _ = forward(params, x, e)
    total.append(0.5 / sigma**2 * mse + np.log(sigma * np.sqrt(2 * np.pi)) +
                 kl * kld)
  return float(np.mean(total))


def setup(case, fs):
  r = fakes.rnd(case['salt'])
  batch = (r.normal(size=(case['n'],) + fs.grid_shape()) *
           case['scale']).astype(np.float32)
  params = flax.core.unfreeze(vae.model().init(
      jax.random.PRNGKey(case['salt']), jnp.asarray(batch[0]),
      jax.random.PRNGKey(0)))
  params = jax.tree_util.tree_map(
      lambda a: jnp.asarray(np.asarray(a) + r.normal(size=np.shape(a)) * 0.1,
                            jnp.float32), params)
  params['params']['sigma'] = jnp.asarray(case['sigma'], jnp.float32)
  return r, batch, params


@sub('C39', 'step', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), n=st.integers(1, 4),
    scale=st.sampled_from([0.3, 3.0, 20.0]), sigma=gen.uf(0.4, 2.5),
    kl=st.sampled_from([0.0, 0.01, 1.0, 30.0, 512.0]))), quick=64,
     thorough=3000, case_timeout=300,
     rule='one training step of a small autoencoder against losses computed in '
     'numpy and their finite differences along random directions; '
     'non-trivial: a batch of several fields')
def step(case, ctx):
  with small() as fs:
    r, batch, params = setup(case, fs)
    lr = 1e-3
    opt = standins.flax_optim().Adam(learning_rate=lr).create(params)
    key = jax.random.PRNGKey(case['salt'] + 5)
    new, loss, mse, kld, sigma = learn.train_step(
        opt, jnp.asarray(batch), key, case['kl'])
    eps = [jax.random.normal(k, (3,))
           for k in jax.random.split(key, case['n'])]
    terms = [forward(params, x, e) for x, e in zip(batch, eps)]
    ctx.nontrivial(case['n'] > 1)
    tol = dict(rel=2e-3, abs_=1e-3)
    require_close(float(mse), np.mean([t[0] for t in terms]), 'mse', **tol)
    require_close(float(kld), np.mean([t[1] for t in terms]), 'kld', **tol)
    require_array_close(np.asarray(sigma), [case['sigma']] * case['n'], 'sigma',
                        rel=1e-5)
    want = objective(params, batch, eps, case['kl'])
    require_close(float(loss), want, 'loss', rel=2e-3, abs_=1e-2)
    require(int(new.state.step) == 1, 'one step is counted')
    again = learn.train_step(opt, jnp.asarray(batch), key, case['kl'])
    require(float(again[1]) == float(loss), 'same key, same loss')
    other = learn.train_step(opt, jnp.asarray(batch),
                             jax.random.PRNGKey(case['salt'] + 6), case['kl'])
    require(float(other[1]) != float(loss), 'another key, other latents')
    # The update is the gradient of that loss.  (As float32 parameters are of
    # order one, the applied gradient is known to about 1e-7 / lr = 1e-4.)
    leaves, tree = jax.tree_util.tree_flatten(params)
    leaves = [np.asarray(a, F8) for a in leaves]
    after = [np.asarray(a, F8) for a in jax.tree_util.tree_leaves(new.target)]
    grads = [(a - b) / lr for a, b in zip(leaves, after)]
    size = np.sqrt(sum((g**2).sum() for g in grads))
    for k in range(3):
      if k == 0:       # Against the gradient itself.
        d = [g / (size + 1e-9) for g in grads]
      elif k == 1:     # Along sigma.
        d = [np.asarray(1.0) if a.ndim == 0 else np.zeros_like(a)
             for a in leaves]
      else:
        d = [r.normal(size=np.shape(a)) for a in leaves]
        norm = np.sqrt(sum((a**2).sum() for a in d))
        d = [a / norm for a in d]
      slope = sum((g * a).sum() for g, a in zip(grads, d))
      est = []
      for h in (1e-6, 3e-6):
        hi, lo = (objective(tree.unflatten(
            [a + sgn * h * b for a, b in zip(leaves, d)]), batch, eps,
                            case['kl']) for sgn in (1, -1))
        est.append((hi - lo) / (2 * h))
      if abs(est[0] - est[1]) > 1e-4 * (size + 1):
        ctx.label('kink of the network')     # relu: no derivative here
        continue
      require_close(slope, est[0], 'derivative of the loss',
                    abs_=3e-3 * size + 1e-2)


@sub('C39', 'evaluation', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), n=st.integers(1, 5),
    scale=st.sampled_from([0.3, 3.0, 20.0]), sigma=gen.uf(0.4, 2.5),
    spread=st.sampled_from([0.0, 0.0, -14.0, 12.0]))),
     quick=64, thorough=3000, case_timeout=300,
     rule='evaluations of a small autoencoder on generated fields against '
     'numpy, twice; non-trivial: several fields')
def evaluation(case, ctx):
  with small() as fs:
    _, batch, params = setup(case, fs)
    # Latents may also be far more or less certain than at first.
    params['params']['encoder']['logvar']['bias'] += case['spread']
    opt = standins.flax_optim().Adam(learning_rate=0.1).create(params)
    metrics, fields, latents = learn.evaluation(opt, jnp.asarray(batch))
    eps = [jax.random.normal(k, (3,)) for k in jax.random.split(
        jax.random.PRNGKey(0), case['n'])]
    terms = [forward(params, x, e) for x, e in zip(batch, eps)]
    tol = dict(rel=2e-3, abs_=1e-3)
    require_array_close(fields, [t[3] for t in terms], 'reconstructions', **tol)
    require_array_close(latents, [t[4] for t in terms], 'latents', **tol)
    speed = lambda f: np.sqrt((np.asarray(f, F8)**2).sum(axis=-1)).mean()
    orig = np.mean([speed(x) for x in batch])
    made = np.mean([speed(t[3]) for t in terms])
    want = dict(mse=np.mean([t[0] for t in terms]),
                kld=np.mean([t[1] for t in terms]),
                mean_speed_reconstructed=made, mean_speed_original=orig,
                mean_speed_differential=orig - made)
    for k, v in want.items():
      require_close(float(metrics[k]), v, k, rel=2e-3, abs_=2e-3)
    again = learn.evaluation(opt, jnp.asarray(batch))
    require(np.array_equal(again[1], fields) and all(
        float(again[0][k]) == float(metrics[k]) for k in metrics),
            'evaluation is the same every time')
    ctx.nontrivial(case['n'] > 1)


class Crash(Exception):
  pass


class Writer:
  """Records the scalars of a summary writer."""

  def __init__(self, log, d):
    self.log, self.dir = log, d

  def scalar(self, tag, value, step):
    self.log.append((tag, float(value), int(step)))

  def flush(self):
    pass

  def close(self):
    pass


def run(batches, data, directory, bootstrap, epochs, crash_at, whole=False):
  """Trains; returns (calls of train_step, scalars, whether it ended)."""
  flags.FLAGS(['learn', f'--offline_winds_dataset_path={data}',
               f'--checkpoint_directory={directory}',
               f'--bootstrap_directory={bootstrap}'] + [
                   f'--gin_bindings={b}' for b in (
                       f'train.num_batches_per_epoch={batches}',
                       f'train.num_epochs={epochs}',
                       'train.learning_rate=1e-4') if whole])
  calls, scalars, evals = [], [], []
  real, real_eval = learn.train_step, learn.evaluation

  def train_step(optimizer, batch, rng, kl_weight=512.0):
    if len(calls) == crash_at:
      raise Crash()
    out = real(optimizer, batch, rng, kl_weight)
    calls.append(dict(before=optimizer, batch=np.asarray(batch), kl=kl_weight,
                      rng=np.asarray(rng).tolist(), after=out[0],
                      loss=float(out[1]), mse=float(out[2]),
                      kld=float(out[3]), sigma=float(np.mean(out[4]))))
    return out

  def evaluation(optimizer, fields, *a, **kw):
    out = real_eval(optimizer, fields, *a, **kw)
    evals.append((optimizer, np.asarray(fields), out[0],
                  real_eval(optimizer, fields)[0]))
    return out

  asked = []

  def schedule(epoch):
    asked.append(int(epoch))
    return 0.5 + 0.25 * int(epoch)

  ended = True
  with mock.patch.object(learn, 'train_step', train_step), mock.patch.object(
      learn, 'evaluation', evaluation), mock.patch.object(
          tensorboard, 'SummaryWriter',
          lambda d, *a, **kw: Writer(scalars, d)):
    try:
      if whole:  # The script, which takes its numbers from bindings.
        gin.clear_config()
        with mock.patch.object(learn, 'train', functools.partial(
            learn.train, kl_schedule=schedule)):
          learn.main(['learn'])
      else:
        learn.train(num_batches_per_epoch=batches, num_epochs=epochs,
                    learning_rate=1e-4, kl_schedule=schedule)
    except Crash:
      ended = False
  return calls, scalars, evals, asked, ended


def same(a, b):
  la, lb = (jax.tree_util.tree_leaves(t.target) for t in (a, b))
  return len(la) == len(lb) and all(
      np.array_equal(x, y) for x, y in zip(la, lb)) and int(
          a.state.step) == int(b.state.step)


def _joined():
  """A run that names another run's directory after an epoch of its own."""
  return dict(runs=st.tuples(
      st.just([1, None]), st.tuples(st.integers(2, 3), st.none()).map(list)
      ).map(list), keep=st.just(True), bootstrap=st.just(True),
              late=st.just(True))


def _trainings():
  base = dict(
      salt=gen.ui(0, 10**6), batches=st.integers(1, 3),
      runs=st.lists(st.tuples(st.sampled_from([1, 1, 2, 3, 4]), st.one_of(
          st.none(), st.none(), st.integers(0, 9))).map(list), min_size=1,
                    max_size=4),
      keep=st.sampled_from([True, True, True, False]),
      bootstrap=st.sampled_from([False, True, True]), boot=st.integers(1, 4),
      late=st.booleans())
  return st.sampled_from([base, base, base, {**base, **_joined()}]).flatmap(
      st.fixed_dictionaries)


@sub('C39', 'training', _trainings, quick=48,
     thorough=600, case_timeout=400,
     rule='training runs over a small dataset, ended, extended and crashed '
     'within an epoch, one after the other in one directory, against a '
     'timetable of epochs; non-trivial: a resumed run')
def training(case, ctx):
  r = fakes.rnd(case['salt'])
  with small() as fs, scratch() as d:
    os.makedirs(f'{d}/data')
    rows = r.normal(size=(200,) + fs.grid_shape()).astype(np.float32) * 5
    for i in range(200):
      with open(f'{d}/data/batch{i:04d}.pickle', 'wb') as f:
        pickle.dump(rows[i:i + 1], f)
    directory = f'{d}/run' if case['keep'] else ''
    bootstrap, boot = '', None
    if case['bootstrap']:
      bootstrap = f'{d}/bootstrap'
      boot = run(case['boot'], f'{d}/data', bootstrap, '', 1, None)[0][-1]['after']
    n = case['batches']
    done, last = 0, None       # Completed epochs and the state after them.
    first = True
    for j, (total, crash) in enumerate(case['runs']):
      # A later run may be the first to name the other run.
      named = j > 0 or not case['late']
      calls, scalars, evals, asked, ended = run(
          n, f'{d}/data', directory, bootstrap if named else '', total,
          crash, whole=(case['salt'] + j) % 3 == 0)
      if not case['keep']:
        done, last = 0, None
      start, from_ = done, last
      if last is None and boot is not None and named:
        # A bootstrapped run goes on from the other run's state and count.
        start, from_ = case['boot'] // n, boot
      todo = max(0, total - start) * n
      want = todo if crash is None else min(todo, crash)
      require(len(calls) == want, 'number of training steps', got=len(calls),
              want=want)
      require(ended == (want == todo), 'end of the run')
      epochs = list(range(start + 1, start + 1 + -(-want // n)))
      if not ended and want % n == 0:
        epochs.append(start + 1 + want // n)
      require(asked == epochs, 'the schedule is asked once per epoch',
              got=asked, want=epochs)
      rngs = set()
      for k, c in enumerate(calls):
        e = start + 1 + k // n
        require(c['kl'] == 0.5 + 0.25 * e, 'KL coefficient of the epoch')
        before = calls[k - 1]['after'] if k else from_
        if before is not None:
          require(same(c['before'], before), 'steps build on each other', k=k)
        else:
          require(int(c['before'].state.step) == 0, 'fresh run')
        require(c['batch'].shape == (64,) + fs.grid_shape(), 'size of a batch')
        # Every field is a training row; none is used for evaluation.
        idx = [int(np.abs(rows - b).reshape(200, -1).max(axis=1).argmin())
               for b in c['batch']]
        require(all(np.array_equal(rows[i], b) for i, b in zip(
            idx, c['batch'])), 'fields of the dataset')
        require(max(idx) < 190 and len(set(idx)) == 64, 'distinct training rows')
        rngs.add(str(c['rng']))
      require(len(rngs) == len(calls), 'every step has its own key')
      whole = len(calls) // n
      require(len(evals) == whole, 'one evaluation per epoch', got=len(evals))
      for k, (opt, fields, metrics, plain) in enumerate(evals):
        require(all(float(plain[m]) == float(metrics[m]) for m in plain),
                'the same latents in every evaluation')
        require(same(opt, calls[k * n + n - 1]['after']), 'what is evaluated')
        require(np.array_equal(fields, rows[190:]), 'evaluation rows')
        if not directory:
          continue
        part = calls[k * n:k * n + n]
        got = {t: v for t, v, s in scalars if s == start + 1 + k}
        for name in ('loss', 'mse', 'kld', 'sigma'):
          require_close(got[f'train/{name}'], np.mean([c[name] for c in part]),
                        f'train/{name}', rel=1e-4)
        require_close(got['train/kl_coefficient'], part[0]['kl'], 'coefficient')
        require_close(got['train/mean_speed'], np.mean([np.sqrt(
            (c['batch'].astype(F8)**2).sum(axis=-1)).mean() for c in part]),
                      'train/mean_speed', rel=1e-4)
        for name in metrics:
          require_close(got[f'eval/{name}'], float(metrics[name]),
                        f'eval/{name}', rel=1e-6)
      if not directory:
        require(not scalars, 'nothing is written without a directory')
        continue
      if whole:
        done, last = start + whole, calls[whole * n - 1]['after']
      if last is not None:
        saved = checkpoints.restore_checkpoint(directory, last)
        kept = [f for f in os.listdir(directory) if 'checkpoint' in f]
        require(kept == [f'checkpoint_{done}'], 'checkpoints', got=kept)
        require(same(saved, last), 'the last complete epoch is saved')
      ctx.nontrivial(not first)
      first = False
