"""C33: generated wind fields are source-free, reproducible and queried alike."""

import datetime as dt
import functools
import os
import tempfile

import flax
import gin
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from vlib import fakes
from vlib import fields
from vlib import gen
from vlib.core import require, require_array_close, require_raises, sub

from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units


def resize(a, n):
  """Linear enlargement of the first two axes, in numpy."""
  for axis in (0, 1):
    m = a.shape[axis]
    pos = (np.arange(n) + 0.5) * m / n - 0.5
    w = np.maximum(0.0, 1.0 - np.abs(pos[:, None] - np.arange(m)[None, :]))
    w /= w.sum(axis=1, keepdims=True)
    a = np.moveaxis(np.tensordot(w, a, (1, axis)), 0, axis)
  return a


def decode(params, z, fs):
  """The decoder, in numpy."""
  z = np.asarray(z, np.float64)
  n = len(params)
  for k in range(n):
    z = z @ np.asarray(params[f'Dense_{k}']['kernel'], np.float64) + np.asarray(
        params[f'Dense_{k}']['bias'], np.float64)
    if k < n - 1:
      z = np.maximum(z, 0)
  levels = fs.pressure_slices * fs.time_slices
  psi = resize(z.reshape(fs.flow_field_width, fs.flow_field_width, levels),
               fs.latlng_slices + 2)
  u = (psi[2:, 1:-1] - psi[:-2, 1:-1]) / 2
  v = -(psi[1:-1, 2:] - psi[1:-1, :-2]) / 2
  s = (fs.latlng_slices, fs.latlng_slices, fs.pressure_slices, fs.time_slices)
  return np.stack([u.reshape(s), v.reshape(s)], axis=-1)


def source_free(field, what):
  """No grid cell of any level is a source or a sink of wind."""
  f = np.asarray(field, np.float64)
  u, v = f[..., 0], f[..., 1]
  du = u[1:-1, 2:] - u[1:-1, :-2]
  dv = v[2:, 1:-1] - v[:-2, 1:-1]
  scale = np.abs(f).max() + 1e-9
  require(np.abs(du + dv).max() <= 1e-4 * scale, f'{what}: divergence',
          got=float(np.abs(du + dv).max()), scale=float(scale))


shapes = st.fixed_dictionaries(dict(
    n=st.integers(3, 9), w=st.integers(2, 5), p=st.integers(1, 4),
    t=st.integers(2, 4), hours=st.sampled_from([1, 6]), disp=gen.uf(50, 900),
    lo=gen.uf(3000, 8000), dp=gen.uf(500, 9000)))


def field_shape(c):
  return vae.FieldShape(
      latlng_slices=c['n'], flow_field_width=min(c['w'], c['n'] + 2),
      pressure_slices=c['p'], time_slices=c['t'],
      latlng_displacement_km=c['disp'], min_pressure_pa=c['lo'],
      max_pressure_pa=c['lo'] + c['dp'],
      time_horizon_hours=c['hours'] * (c['t'] - 1))


def perturb(params, r):
  return jax.tree_util.tree_map(
      lambda a: jnp.asarray(np.asarray(a) + r.normal(size=np.shape(a)) * 0.1,
                            jnp.float32), params)


@sub('C33', 'decoder', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), shape=shapes, layers=st.integers(0, 3),
    units=st.integers(2, 20), latents=st.integers(1, 9),
    scale=st.sampled_from([0.1, 1.0, 10.0]))), quick=112, thorough=6000,
     case_timeout=300,
     rule='decoders of generated shapes and parameters against a reference in '
     'numpy, and the absence of sources; non-trivial: a hidden layer')
def decoder(case, ctx):
  fs = field_shape(case['shape'])
  r = fakes.rnd(case['salt'])
  d = vae.Decoder(num_hidden_layers=case['layers'],
                  hidden_layer_network_width=case['units'], field_shape=fs)
  z = (r.normal(size=case['latents']) * case['scale']).astype(np.float32)
  params = d.init(jax.random.PRNGKey(case['salt']), jnp.zeros(case['latents']))
  params = perturb(params, r)
  require(len(params['params']) == case['layers'] + 1, 'number of layers')
  field = np.asarray(d.apply(params, z))
  want = decode(params['params'], z, fs)
  require(field.shape == fs.grid_shape() == want.shape, 'shape of the field',
          got=field.shape, want=want.shape)
  scale = float(np.abs(want).max()) + 1e-6
  require_array_close(field, want, 'field', rel=1e-3, abs_=1e-4 * scale)
  source_free(field, 'field')
  ctx.nontrivial(case['layers'] > 0)


@sub('C33', 'shapes', lambda: st.fixed_dictionaries(dict(shape=shapes)),
     quick=800, thorough=20000,
     rule='field shapes: numbers of points and their coordinates; non-trivial: '
     'always')
def field_shapes(case, ctx):
  c = case['shape']
  fs = field_shape(c)
  n, p, t = c['n'], c['p'], c['t']
  require(tuple(fs.grid_shape()) == (n, n, p, t, 2), 'grid')
  require(tuple(fs.direction_grid_shape()) == (n, n, p, t), 'direction grid')
  require(fs.num_grid_points() == n * n * p * t, 'points')
  require(fs.output_length() == 2 * n * n * p * t, 'outputs')
  require(fs.num_flow_fields() == p * t, 'flow fields')
  require(fs.num_flow_field_units() == p * t * fs.flow_field_width**2, 'units')
  require_array_close(fs.latlng_grid_points(),
                      np.linspace(-c['disp'], c['disp'], n), 'places',
                      rel=1e-5, abs_=1e-3)
  require_array_close(fs.pressure_grid_points(),
                      np.linspace(c['lo'], c['lo'] + c['dp'], p), 'pressures',
                      rel=1e-5, abs_=1e-2)
  require_array_close(fs.time_grid_points(), c['hours'] * np.arange(t),
                      'times')
  ctx.nontrivial()


@sub('C33', 'horizons', lambda: st.fixed_dictionaries(dict(
    t=st.integers(2, 24), hours=st.integers(1, 200))), quick=800,
     thorough=20000,
     rule='times of fields of any horizon: from zero to the horizon, in steps '
     'that are even to the hour; non-trivial: not a whole number of hours')
def horizons(case, ctx):
  t, hours = case['t'], case['hours']
  got = np.asarray(vae.FieldShape(
      time_slices=t, time_horizon_hours=hours).time_grid_points(), np.float64)
  want = np.linspace(0, hours, t)
  require(got.shape == want.shape, 'number of times')
  require(got[0] == 0 and got[-1] == hours, 'ends', got=got.tolist())
  require(np.abs(got - want).max() < 1.0 + 1e-4, 'even times',
          got=got.tolist())
  ctx.nontrivial(hours % (t - 1) != 0)


@sub('C33', 'autoencoder', lambda: st.fixed_dictionaries(dict(
    salt=gen.ui(0, 10**6), shape=shapes, latents=st.integers(1, 6),
    spread=st.sampled_from([0.0, 0.0, -8.0, 8.0]),
    noise=st.booleans(), scale=st.sampled_from([1.0, 20.0, 300.0]))), quick=32,
     thorough=400, case_timeout=300,
     rule='the autoencoder reconstructs fields of its own shape from latents '
     'around the mean that it encodes (against a reference in numpy), '
     'reproducibly by key; non-trivial: always')
def autoencoder(case, ctx):
  fs = field_shape(case['shape'])
  r = fakes.rnd(case['salt'])
  m = vae.WindFieldVAE(num_latents=case['latents'],
                       reparameterize_latents=case['noise'], field_shape=fs)
  x = (r.normal(size=fs.grid_shape()) * case['scale']).astype(np.float32)
  params = m.init(jax.random.PRNGKey(case['salt']), x, jax.random.PRNGKey(0))
  params = flax.core.unfreeze(params)
  # Latents may also be far more or less certain than at first.
  params['params']['encoder']['logvar']['bias'] += case['spread']
  key = jax.random.PRNGKey(case['salt'] + 1)
  out = m.apply(params, x, key)
  # Encoder.
  p = params['params']['encoder']
  h = x.ravel().astype(np.float64)
  h = h / (50.0 + np.abs(h))
  for k in range(3):
    h = np.maximum(h @ np.asarray(p[f'Dense_{k}']['kernel'], np.float64) +
                   np.asarray(p[f'Dense_{k}']['bias'], np.float64), 0)
  mean, logvar = (h @ np.asarray(p[k]['kernel'], np.float64) +
                  np.asarray(p[k]['bias'], np.float64)
                  for k in ('mean', 'logvar'))
  e = out.encoder_output
  require_array_close(e.mean, mean, 'mean', rel=1e-3, abs_=1e-3)
  require_array_close(e.logvar, logvar, 'log variance', rel=1e-3, abs_=1e-3)
  z = np.asarray(e.mean)
  if case['noise']:
    z = z + np.exp(0.5 * np.asarray(e.logvar)) * np.asarray(
        jax.random.normal(key, (case['latents'],)))
  want = decode(params['params']['decoder'], z, fs)
  require(out.reconstruction.shape == fs.grid_shape(), 'shape',
          got=out.reconstruction.shape, want=fs.grid_shape())
  s = float(np.abs(want).max()) + 1e-6
  require_array_close(out.reconstruction, want, 'reconstruction', rel=1e-2,
                      abs_=1e-3 * s)
  made = m.apply(params, jnp.asarray(z, jnp.float32), method=m.generate)
  require_array_close(made, out.reconstruction, 'generated field', rel=1e-2,
                      abs_=1e-3 * s)
  again = m.apply(params, x, key)
  require(np.array_equal(again.reconstruction, out.reconstruction), 'same key')
  other = m.apply(params, x, jax.random.PRNGKey(case['salt'] + 2))
  require(np.array_equal(other.reconstruction, out.reconstruction) ==
          (not case['noise']), 'another key')
  require(float(out.sigma) == 1.0, 'sigma')
  ctx.nontrivial()


@functools.lru_cache(None)
def weights(seed):
  """Made-up parameters of the full decoder, and their path."""
  r = np.random.default_rng(seed)
  sizes = [64, 1000, 1000, 1000, vae.FieldShape().num_flow_field_units()]
  params = {'params': {}}
  for k in range(4):
    gain = (2.0 / sizes[k])**0.5 * (15.0 if k == 3 else 1.0)
    params['params'][f'Dense_{k}'] = dict(
        kernel=r.normal(0, gain, (sizes[k], sizes[k + 1])).astype(np.float32),
        bias=r.normal(0, 0.1, sizes[k + 1]).astype(np.float32))
  fd, path = tempfile.mkstemp(dir=os.environ.get('TMPDIR'))
  with os.fdopen(fd, 'wb') as f:
    f.write(flax.serialization.msgpack_serialize(params))
  return params['params'], path


def uv(w):
  return [float(w.u.meters_per_second), float(w.v.meters_per_second)]


@sub('C33', 'winds', lambda: st.fixed_dictionaries(dict(
    model=st.integers(0, 1), keys=st.lists(gen.seeds(), min_size=1, max_size=3),
    t=gen.timestamps(), pts=st.lists(st.tuples(
        gen.uf(-700, 700), gen.uf(-700, 700), gen.uf(4000, 15000),
        st.one_of(gen.uf(0, 200), gen.uf(200, 3000))).map(list), min_size=1,
                                              max_size=5))), quick=48,
     thorough=2000, case_timeout=300,
     rule='the generative wind field with made-up weights (the real ones are '
     'not available here): its winds are those decoded from normal latents of '
     'the key, interpolated, source-free, reproducible, and the same in the '
     'deprecated class; non-trivial: two keys')
def winds(case, ctx):
  params, path = weights(case['model'])
  fs = vae.FieldShape()
  gin.clear_config()
  gin.parse_config([f"load_offlineskies22.path='{path}'"])
  new = generative_wind_field.generative_wind_field_factory()
  old = generative_wind_field.GenerativeWindField()
  require(isinstance(new, grid_based_wind_field.GridBasedWindField), 'class')
  when = dt.datetime.fromtimestamp(case['t'], tz=dt.timezone.utc)
  sampler = generative_wind_field.GenerativeWindFieldSampler()
  require(sampler.field_shape == fs, 'shape of sampled fields')
  km = lambda a: units.Distance(km=a)
  x, y, p, h = case['pts'][0]
  for wf in (new, old):
    require_raises(RuntimeError, lambda: wf.get_forecast(
        km(x), km(y), p, dt.timedelta(hours=h)), 'forecast before reset')
    require_raises(RuntimeError, lambda: wf.get_forecast_column(
        km(x), km(y), [p], dt.timedelta(hours=h)), 'forecast before reset')
  seen = []
  # Keys that share a word are as different as any.
  keys = [np.asarray(jax.random.PRNGKey(k)) for k in case['keys']]
  first = keys[0].astype(np.uint32)
  keys += [first ^ np.array([1, 0], np.uint32),
           first ^ np.array([0, 1], np.uint32)]
  for key in keys:
    key = jnp.asarray(key)
    want = decode(params, jax.random.normal(key, (64,)), fs)
    field = sampler.sample_field(key, when)
    require_array_close(field, want, 'sampled field', rel=1e-3, abs_=2e-3)
    require(isinstance(field, np.ndarray), 'numpy field')
    source_free(field, 'sampled field')
    require(np.array_equal(field, sampler.sample_field(
        key, when + dt.timedelta(days=9))), 'same key, same field')
    seen.append(field)
    new.reset_forecast(key, when)
    old.reset_forecast(key, when)
    for x, y, p, h in case['pts']:
      t = dt.timedelta(hours=h)
      hours = t.total_seconds() / 3600
      ref, corners = fields.lookup(fs, want, x, y, p, hours)
      tol = 2e-3 + 1e-4 * float(np.abs(corners).max())
      for wf in (new, old):
        got = uv(wf.get_forecast(km(x), km(y), p, t))
        require_array_close(got, ref, 'forecast', rel=1e-3, abs_=tol)
        col = wf.get_forecast_column(km(x), km(y), [p, 9000.0, p], t)
        require(len(col) == 3, 'column')
        require_array_close(uv(col[0]), got, 'column', rel=1e-6, abs_=1e-6)
        require_array_close(uv(col[2]), got, 'column', rel=1e-6, abs_=1e-6)
  for i in range(len(seen)):
    for j in range(i):
      require(np.array_equal(seen[i], seen[j]) ==
              np.array_equal(keys[i], keys[j]), 'other key, other field')
  ctx.nontrivial(len(case['keys']) > 1)
