"""Generated gridded wind fields and their reference interpolation."""

import bisect
import datetime as dt

import numpy as np
from hypothesis import strategies as st
from vlib import gen

from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.generative import vae


def shapes():
  """Field shapes; the time step is a whole number of hours."""
  return st.fixed_dictionaries(dict(
      n=st.integers(2, 7), np=st.integers(2, 6), nt=st.integers(2, 5),
      hours=st.integers(1, 12), disp=gen.uf(50, 900), pmin=gen.uf(3000, 8000),
      prange=gen.uf(500, 12000), default=st.booleans()))


def shape(c):
  if c['default']:
    return vae.FieldShape()
  return vae.FieldShape(
      latlng_slices=c['n'], pressure_slices=c['np'], time_slices=c['nt'],
      latlng_displacement_km=c['disp'], min_pressure_pa=c['pmin'],
      max_pressure_pa=c['pmin'] + c['prange'],
      time_horizon_hours=c['hours'] * (c['nt'] - 1))


def random_field(fs, seed, scale=15.0):
  rng = np.random.default_rng(seed)
  return rng.normal(0.0, scale, fs.grid_shape()).astype(np.float32)


class Sampler(grid_wind_field_sampler.GridWindFieldSampler):
  """Samples a field from the key alone, and records what it was given."""

  def __init__(self, fs=None, scale=15.0):
    self.fs = fs or vae.FieldShape()
    self.calls = []
    self.scale = scale

  @property
  def field_shape(self):
    return self.fs

  def sample_field(self, key, date_time):
    k = np.asarray(key).astype(np.uint32).tolist()
    self.calls.append((k, date_time))
    return random_field(self.fs, k, self.scale)


def grid_field(scale=8.0):
  """A cheap, fully random wind field of the default shape."""
  sampler = Sampler(scale=scale)
  wf = grid_based_wind_field.GridBasedWindField(sampler)
  wf.verif_sampler = sampler
  return wf


def axes(fs):
  lin = lambda a, b, n: [a + (b - a) * i / (n - 1) for i in range(n)]
  d = fs.latlng_displacement_km
  return [lin(-d, d, fs.latlng_slices), lin(-d, d, fs.latlng_slices),
          lin(fs.min_pressure_pa, fs.max_pressure_pa, fs.pressure_slices),
          lin(0.0, float(fs.time_horizon_hours), fs.time_slices)]


def reflect(hours, horizon):
  """Time reflected at the horizon and at zero."""
  r = hours % (2.0 * horizon)
  return r if r <= horizon else 2.0 * horizon - r


def lookup(fs, field, x_km, y_km, pressure, hours):
  """Quadrilinear interpolation; returns (wind, the 16 corner winds)."""
  q = [x_km, y_km, pressure, reflect(hours, fs.time_horizon_hours)]
  lo, w = [], []
  for a, v in zip(axes(fs), q):
    v = min(max(v, a[0]), a[-1])
    i = min(max(bisect.bisect_right(a, v) - 1, 0), len(a) - 2)
    lo.append(i)
    w.append((v - a[i]) / (a[i + 1] - a[i]))
  out = np.zeros(2)
  corners = []
  for c in range(16):
    idx, wt = [], 1.0
    for k in range(4):
      b = (c >> k) & 1
      idx.append(lo[k] + b)
      wt *= w[k] if b else 1.0 - w[k]
    val = np.asarray(field[tuple(idx)], dtype=float)
    corners.append(val)
    out += wt * val
  return out, corners
