"""C18: gridded wind fields interpolate their grid and extend it smoothly."""

import datetime as dt

import jax
import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import fields
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.utils import units


def frac():
  return st.one_of(gen.uf(-1.4, 1.4), gen.uf(-1, 1), st.sampled_from(
      [-1.0, 1.0, 0.0]))


def points():
  return st.lists(st.tuples(
      frac(), frac(), frac(), st.one_of(gen.uf(0, 6), gen.uf(0, 1),
                                        gen.uf(6, 60),
                                        st.sampled_from([0., 1., 2., 3.])))
                  .map(list), min_size=1, max_size=6)


def place(fs, p):
  """Maps fractions to (x_km, y_km, pressure, timedelta)."""
  mid = 0.5 * (fs.min_pressure_pa + fs.max_pressure_pa)
  half = 0.5 * (fs.max_pressure_pa - fs.min_pressure_pa)
  return (p[0] * fs.latlng_displacement_km, p[1] * fs.latlng_displacement_km,
          max(1.0, mid + p[2] * half),
          dt.timedelta(seconds=round(p[3] * fs.time_horizon_hours * 3600)))


def D(km):
  return units.Distance(km=km)


def uv(w):
  return np.array([float(w.u.meters_per_second), float(w.v.meters_per_second)])


@sub('C18', 'interpolation', lambda: st.fixed_dictionaries(dict(
    shape=fields.shapes(), seed=gen.seeds(), pts=points(), t=gen.timestamps())),
     quick=2400, thorough=100000,
     rule='random grids of generated shapes, queried inside, on and beyond '
     'their limits against quadrilinear interpolation, boundary extension and '
     'reflected time; columns equal single queries; non-trivial: a query lies '
     'beyond a limit of the grid')
def interpolation(case, ctx):
  fs = fields.shape(case['shape'])
  sampler = fields.Sampler(fs)
  wf = grid_based_wind_field.GridBasedWindField(sampler)
  pts = [place(fs, p) for p in case['pts']]
  for f in (lambda: wf.get_forecast(D(0), D(0), pts[0][2], pts[0][3]),
            lambda: wf.get_forecast_column(D(0), D(0), [pts[0][2]], pts[0][3])):
    require_raises(RuntimeError, f, 'forecast before reset')
  key = jax.random.PRNGKey(case['seed'])
  wf.reset_forecast(key, ble.utc(case['t']))
  require(len(sampler.calls) == 1, 'one field is sampled per reset',
          n=len(sampler.calls))
  require(sampler.calls[0] == (np.asarray(key).tolist(), ble.utc(case['t'])),
          'the sampler gets the key and the date', got=sampler.calls[0])
  field = fields.random_field(fs, sampler.calls[0][0])
  for x, y, p, t in pts:
    got = uv(wf.get_forecast(D(x), D(y), p, t))
    want, corners = fields.lookup(fs, field, x, y, p, t.total_seconds() / 3600)
    for k in range(2):
      require_close(got[k], want[k], 'interpolated wind', rel=1e-4, abs_=3e-3,
                    point=(x, y, p, t.total_seconds() / 3600), component=k)
      lo, hi = min(c[k] for c in corners), max(c[k] for c in corners)
      if abs(got[k] - want[k]) < 1e-6:
        require(lo - 1e-3 <= got[k] <= hi + 1e-3, 'outside the hull')
    inside = (abs(x) <= fs.latlng_displacement_km and
              abs(y) <= fs.latlng_displacement_km and
              fs.min_pressure_pa <= p <= fs.max_pressure_pa and
              t.total_seconds() <= fs.time_horizon_hours * 3600)
    ctx.nontrivial(not inside)
    ctx.label('beyond the time horizon',
              t.total_seconds() > fs.time_horizon_hours * 3600)
    require((uv(wf.get_forecast(D(x), D(y), p, t)) == got).all(),
            'query is not repeatable')
  x, y, _, t = pts[0]
  for col in ([q[2] for q in pts], np.array([q[2] for q in pts])):
    ws = wf.get_forecast_column(D(x), D(y), col, t)
    require(len(ws) == len(pts), 'length of the column')
    for q, w in zip(pts, ws):
      one = uv(wf.get_forecast(D(x), D(y), q[2], t))
      require(np.allclose(uv(w), one, rtol=1e-6, atol=1e-5),
              'column differs from a single query', got=uv(w), want=one)
  # The same column but for one level.
  col = [q[2] for q in pts]
  mid = len(col) // 2
  wf.get_forecast_column(D(x), D(y), col, t)
  col[mid] = 0.5 * (fs.min_pressure_pa + col[mid])
  w = uv(wf.get_forecast_column(D(x), D(y), col, t)[mid])
  one = uv(wf.get_forecast(D(x), D(y), col[mid], t))
  require(np.allclose(w, one, rtol=1e-6, atol=1e-5),
          'column after another differs from a single query', got=w, want=one)


@sub('C18', 'time', lambda: st.fixed_dictionaries(dict(
    shape=fields.shapes(), seed=gen.seeds(), p=points(), k=st.integers(0, 5) | st.integers(6, 50),
    d=gen.ui(-7200, 7200))), quick=1200, thorough=40000,
     rule='time reflects at the horizon: periodic with twice the horizon, '
     'symmetric about every multiple of it, continuous; non-trivial: always')
def time_(case, ctx):
  fs = fields.shape(case['shape'])
  wf = grid_based_wind_field.GridBasedWindField(fields.Sampler(fs))
  wf.reset_forecast(jax.random.PRNGKey(case['seed']), ble.utc(1.4e9))
  x, y, p, t = place(fs, case['p'][0])
  f = lambda s: uv(wf.get_forecast(D(x), D(y), p, dt.timedelta(seconds=s)))
  h = fs.time_horizon_hours * 3600
  s = t.total_seconds()
  require(np.allclose(f(s), f(s + 2 * h), atol=5e-3), 'not periodic',
          a=f(s), b=f(s + 2 * h), s=s, h=h)
  edge = (case['k'] + 1) * h
  d = min(abs(case['d']), edge)
  require(np.allclose(f(edge - d), f(edge + d), atol=5e-3),
          'time is not reflected', a=f(edge - d), b=f(edge + d), edge=edge, d=d)
  a, b = f(s), f(s + 1)
  require(np.abs(a - b).max() < 0.1, 'jump in time', a=a, b=b, s=s)
  ctx.nontrivial()


@sub('C18', 'resets', lambda: st.fixed_dictionaries(dict(
    seeds=st.lists(gen.seeds(), min_size=2, max_size=4), p=points(),
    full=st.booleans(), dates=st.lists(st.one_of(st.just(1.4e9), gen.uf(
        1.2e9, 1.6e9)), min_size=4, max_size=4))), quick=160, thorough=4000,
     rule='several resets of one field against fresh fields: the last key '
     'alone decides; non-trivial: two different keys')
def resets(case, ctx):
  wf = fields.grid_field()
  x, y, p, t = place(wf.field_shape, case['p'][0])
  def winds(w):
    out = [uv(w.get_forecast(D(x), D(y), p, t))]
    if case['full']:
      out.append(uv(w.get_ground_truth(D(x), D(y), p, t)))
    return np.array(out)
  def reset(w, s, t0):
    (w.reset if case['full'] else w.reset_forecast)(
        jax.random.PRNGKey(s), ble.utc(t0))
  got = []
  for s, t0 in zip(case['seeds'], case['dates']):
    reset(wf, s, t0)
    got.append(winds(wf))
  for s, t0, g in zip(case['seeds'], case['dates'], got):
    fresh = fields.grid_field()
    reset(fresh, s, t0)
    require((g == winds(fresh)).all(),
            'an earlier reset shows through the winds')
  ctx.nontrivial(len(set(case['seeds'])) > 1)
