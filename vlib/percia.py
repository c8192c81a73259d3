"""Reference for the 1099-dimensional station-seeking feature vector."""

import datetime as dt
import math

import numpy as np
from ref import physics
from ref import tables
from ref import windgp
from vlib import ble
from vlib.core import require, require_close

from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units

LEVELS = np.linspace(5000.0, 14000.0, 181)


def clip01(v):
  return min(max(v, 0.0), 1.0)


def ambient(s):
  """The first 16 features; None where rounding decides the value."""
  d = ble.state_dict(s)
  p, sp = d['pressure'], max(d['superpressure'], 0.0)
  soc = d['charge_wh'] / d['capacity_wh']
  lat, lng = physics.offset_latlng(d['center_lat'], d['center_lng'], d['x'],
                                   d['y'])
  el = ble.sun_at(lat, lng, d['ts'])['el']
  rise, fall = solar.get_next_sunrise_sunset(s.latlng, s.date_time)
  rise, fall = ble.ts(rise), ble.ts(fall)
  now = d['ts']
  if fall < rise:
    phase = math.pi * (now - (rise - 86400)) / (fall - (rise - 86400))
  else:
    phase = math.pi + math.pi * (now - (fall - 86400)) / (rise - (fall - 86400))
  dist = math.hypot(d['x'], d['y'])
  heading = math.atan2(-d['x'], -d['y'])
  if dist == 0:
    heading = None
  charging = physics.solar_power(el, p)
  excess = charging > d['day_w'] and soc > 0.99
  if abs(charging - d['day_w']) < 1e-6 or abs(soc - 0.99) < 1e-12:
    excess = None
  for lim in (physics.shadow_limit(3.3), physics.shadow_limit(2.7),
              physics.MIN_EL):
    if abs(el - lim) < 1e-6:
      excess = None
  ratio = (p + sp) / p
  want = tables.power(ratio, soc)
  lims = [v for t in tables.TABLE for v in t[0]]
  cost = clip01((want - 100.0) / 200.0)
  if (any(abs(ratio - r) < 1e-9 for r in tables.RATIOS) or
      any(abs(soc - l) < 1e-12 for l in lims)):
    cost = None
  paused = (s.power_safety_layer.navigation_is_paused or
            s.envelope_safety_layer.navigation_is_paused or
            s.altitude_safety_layer.navigation_is_paused)
  cmd = d['last_command']
  km = dist / 1000.0
  return [
      clip01((p - 5000.0) / 9000.0), soc, clip01((el + 90.0) / 180.0),
      math.sin(phase), math.cos(phase),
      None if heading is None else math.sin(heading),
      None if heading is None else math.cos(heading),
      km / (km + 250.0),
      float(cmd == 2), float(cmd == 1), float(cmd == 0),
      float(paused), float(not paused),
      None if excess is None else float(excess), cost, ratio]


def nearest_level(p):
  """Index of the nearest level, or None if two are equally near."""
  v = (min(max(p, 5000.0), 14000.0) - 5000.0) / 50.0
  if abs(v - math.floor(v) - 0.5) < 1e-7:
    return None
  return int(math.floor(v + 0.5))


def check(obs, s, atm, locs, errs, forecast, ctx):
  """Compares an observation with the reference.

  Args:
    obs: the feature vector.
    s: the balloon state it describes.
    atm: the atmosphere.
    locs, errs: observed (x, y, p, t) and deviations from the forecast.
    forecast: function (x, y, p, t) -> wind, the forecast.
    ctx: the case context.
  """
  obs = np.asarray(obs)
  require(obs.shape == (1099,) and obs.dtype == np.float32, 'feature shape',
          shape=obs.shape, dtype=str(obs.dtype))
  require(np.isfinite(obs).all(), 'feature not finite')
  names = ('pressure battery elevation sin_cycle cos_cycle sin_heading '
           'cos_heading distance up stay down paused not_paused excess cost '
           'ratio').split()
  for i, w in enumerate(ambient(s)):
    if w is not None:
      require_close(obs[i], w, f'feature {i} ({names[i]})', rel=2e-6,
                    abs_=2e-6)
  require_close(float(obs[5])**2 + float(obs[6])**2, 1.0, 'heading on circle',
                abs_=1e-5)
  require_close(float(obs[3])**2 + float(obs[4])**2, 1.0, 'cycle on circle',
                abs_=1e-5)

  level = nearest_level(float(s.pressure))
  if level is None:
    ctx.label('between two levels')
    return
  r = pressure_range_builder.get_pressure_range(s, atm)
  x, y = float(s.x.meters), float(s.y.meters)
  t = s.time_elapsed.total_seconds()
  mean, var = windgp.predict(locs, errs, [[x, y, p, t] for p in LEVELS])
  wind = obs[16:].reshape(361, 3).astype(float)
  start = 180 - level
  reachable = 0
  dist = math.hypot(x, y)
  for j in range(361):
    k = j - start
    u, b, m = wind[j]
    if not 0 <= k <= 180:
      require((u, b, m) == (0, 1, 1), 'level outside the column is reachable',
              slot=j, level=level, got=wind[j].tolist())
      continue
    p = LEVELS[k]
    if 0 < min(abs(p - r.min_pressure), abs(p - r.max_pressure)) < 1e-6:
      continue
    if not r.min_pressure <= p <= r.max_pressure:
      require((u, b, m) == (0, 1, 1), 'unreachable level is not marked', slot=j,
              pressure=p, lo=r.min_pressure, hi=r.max_pressure)
      continue
    reachable += 1
    f = forecast(x, y, p, t)
    w = mean[k] + np.asarray(f, dtype=float)
    mag = math.hypot(w[0], w[1])
    require_close(u, var[k], 'uncertainty of a level', rel=1e-5, abs_=1e-5,
                  slot=j, pressure=p)
    require_close(m, mag / (mag + 30.0), 'wind magnitude of a level', rel=1e-5,
                  abs_=1e-5, slot=j, pressure=p, wind=w.tolist())
    if dist < 9e-6:
      require(b == 0, 'angle at the station', got=b)
    elif dist > 1.1e-5:
      if mag < 9e-6:
        require_close(b, 1.0, 'angle of no wind', abs_=1e-6)
      elif mag > 1.1e-5:
        cos = -(w[0] * x + w[1] * y) / (mag * dist)
        tol = 2e-5 + 3e-5 / mag + 3e-5 / dist
        require(abs(math.cos(b * math.pi) - cos) <= tol and 0 <= b <= 1 + 1e-6,
                'angle of a level', got=b, cos=cos, slot=j, pressure=p,
                wind=w.tolist())
  ctx.label('reachable levels', reachable > 0)
  ctx.label('unreachable levels', reachable < 181)
  return reachable
