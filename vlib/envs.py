"""Environments with cheap wind fields, and comparisons of their episodes."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import fields
from vlib import gen
from vlib.core import require

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field

WINDS = {'static': wind_field.SimpleStaticWindField,
         'grid': fields.grid_field}


def make(kind, seed, **kw):
  return balloon_env.BalloonEnv(wind_field_factory=WINDS[kind], seed=seed, **kw)


def winds():
  return st.sampled_from(['static', 'grid'])


def actions(lo=1, hi=10):
  """Action sequences, mixed or of one kind (which drives to the limits)."""
  return st.one_of(
      st.lists(st.integers(0, 2), min_size=lo, max_size=hi),
      st.tuples(st.integers(0, 2), st.integers(lo, hi)).map(
          lambda t: [t[0]] * t[1]))


def wind_of(w):
  return (float(w.u.meters_per_second), float(w.v.meters_per_second))


def same_obs(a, b, msg):
  a, b = np.asarray(a), np.asarray(b)
  require(a.shape == b.shape and a.dtype == b.dtype, f'{msg}: shape')
  if not np.array_equal(a, b):
    i = int(np.flatnonzero(a != b)[0])
    require(False, f'{msg}: observations differ', index=i, a=float(a[i]),
            b=float(b[i]))


def plain(state):
  """All of a balloon state that may be compared."""
  return ble.state_dict(state)


def outcome(step):
  """(obs, reward, done, info) with comparable parts."""
  o, r, d, i = step
  return (np.array(o), float(r), bool(d), dict(i))


def same_step(a, b, msg):
  same_obs(a[0], b[0], msg)
  require(a[1] == b[1], f'{msg}: rewards differ', a=a[1], b=b[1])
  require(a[2] == b[2], f'{msg}: terminals differ', a=a[2], b=b[2])
  require(a[3] == b[3], f'{msg}: info differs', a=a[3], b=b[3])
