"""C12: solar noon, midnight, sunrise and sunset searches."""

import datetime as dt
import math

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_raises, sub

from balloon_learning_environment.env.balloon import solar
from ref import physics

LIMIT = -4.242


def _el(pos, t):
  return float(solar.solar_calculator(pos, ble.utc(t))[0])


def _crossings(pos, lo, hi, up, step=600):
  """All times in [lo, hi] where the sun crosses the limit up(wards)."""
  out, prev = [], _el(pos, lo) - LIMIT
  t = lo
  while t < hi:
    cur = _el(pos, t + step) - LIMIT
    if (prev < 0 <= cur) if up else (prev >= 0 > cur):
      a, b = t, t + step
      while b - a > 1:
        m = (a + b) // 2
        if (_el(pos, m) >= LIMIT) == up:
          b = m
        else:
          a = m
      out.append(b)
    prev, t = cur, t + step
  return out


def _near(case):
  """Moves some times to within minutes of solar noon or midnight."""
  if case.pop('snap') and _noon_near(case) is not None:
    case['ts'] = _noon_near(case) + case['off']
  case.pop('off')
  return case


def _noon_near(case):
  # Mean solar noon, corrected by the sun's hour angle then.
  ts = case['ts'] - case['ts'] % 43200 - round(
      case['pos'][1] / 360 * 86400)
  for _ in range(2):
    ha = physics.solar_position(*case['pos'], ts)['ha']
    ts -= round(((ha + 90) % 180 - 90) * 240)
  return ts if ts > 0 else None


def _cases():
  return st.fixed_dictionaries(dict(
      pos=st.one_of(gen.latlngs(59.9), gen.latlngs(35.0)), ts=gen.timestamps(),
      snap=st.sampled_from([False, False, True]),
      off=st.one_of(gen.ui(-300, 300), gen.ui(-3000, 3000)),
      res=st.sampled_from([180, 180, 180, 60, 300, 600]),
      default=st.booleans())).map(_near)


@sub('C12', 'sunrise', _cases, quick=600, thorough=20000,
     rule='the next sunrise and sunset against a scan of the elevation for '
     'crossings of the horizon dip (-4.242 degrees); exact to the search '
     'resolution, or one day after the crossing just passed; non-trivial: '
     'always')
def sunrise(case, ctx):
  pos, t = ble.ll(case['pos']), case['ts']
  res = 180 if case['default'] else case['res']
  kw = {} if case['default'] else dict(time_delta=dt.timedelta(seconds=res))
  got = solar.get_next_sunrise_sunset(pos, ble.utc(t), **kw)
  tol = res + 2
  for g, up, name in ((got[0], True, 'sunrise'), (got[1], False, 'sunset')):
    g = ble.ts(g)
    require(t <= g <= t + 86400 + 1200, f'{name} is not within the next day',
            ahead=g - t)
    cs = _crossings(pos, t - 90000, t + 90000, up)
    ahead = [c for c in cs if c >= t - tol]
    ok = any(abs(g - c) <= tol for c in ahead[:1])
    # The next day's event is estimated as one day after the last one.
    ok |= any(abs(g - (c + 86400)) <= tol for c in cs if c <= t + 1 and
              c > t - 87000)
    require(ok, f'{name} is not where the sun crosses the horizon', got=g - t,
            crossings=[c - t for c in cs])
    ctx.label(f'{name} today', any(abs(g - c) <= tol for c in ahead[:1]))
  ctx.label('day' if _el(pos, t) >= LIMIT else 'night')
  ctx.nontrivial()


@sub('C12', 'steps', _cases, quick=600, thorough=20000,
     rule='steps to sunrise: 0 by day, else the time to the crossing in '
     'started steps (up to the resolution); non-trivial: at night')
def steps(case, ctx):
  pos, t = ble.ll(case['pos']), case['ts']
  res = 180 if case['default'] else case['res']
  kw = {} if case['default'] else dict(time_delta=dt.timedelta(seconds=res))
  got = solar.calculate_steps_to_sunrise(pos, ble.utc(t), **kw)
  require(isinstance(got, int), 'not an int', got=got)
  if _el(pos, t) >= LIMIT:
    require(got == 0, 'sun is up', got=got)
    ctx.label('day')
    return
  c = _crossings(pos, t, t + 90000, True)[0]
  require(abs(got * res - (c - t)) <= 2 * res, 'steps to sunrise', got=got,
          seconds=c - t, res=res)
  # In whole steps of the time the search finds, no step more.
  ahead = (solar.get_next_sunrise_sunset(pos, ble.utc(t), **kw)[0] -
           ble.utc(t)).total_seconds()
  require((got - 1) * res < ahead <= got * res, 'not the steps begun by '
          'sunrise', got=got, ahead=ahead, res=res)
  ctx.label('night')
  ctx.nontrivial()


@sub('C12', 'noon', _cases, quick=600, thorough=20000,
     rule='next solar noon and midnight: within a day, at the extreme '
     'elevation; solar afternoon is when the sun sinks; non-trivial: always')
def noon(case, ctx):
  pos, t = ble.ll(case['pos']), case['ts']
  res = 180 if case['default'] else case['res']
  kw = {} if case['default'] else dict(time_delta=dt.timedelta(seconds=res))
  scan = {s: _el(pos, t + s) for s in range(0, 86401, 600)}
  for fn, sign, name in ((solar.get_next_solar_noon, 1, 'noon'),
                         (solar.get_next_solar_midnight, -1, 'midnight')):
    g, el = fn(pos, ble.utc(t), **kw)
    g = ble.ts(g)
    require(t <= g <= t + 86400, f'{name} not within the next day', ahead=g - t)
    require(abs(float(el) - _el(pos, g)) < 1e-6, f'elevation of {name}')
    best = max(sign * e for e in scan.values())
    # Elevation is flat at the extreme; the declination drifts over a day.
    slack = 0.45 + 0.15 * res / 180
    require(sign * float(el) >= best - slack, f'{name} is not extreme',
            got=el, best=sign * best, ahead=g - t)
    # A noon (midnight) is a local extreme of the elevation.
    for d in (3600, 7200):
      require(sign * _el(pos, g + d) < sign * float(el) + 1e-9 and
              sign * _el(pos, g - d) < sign * float(el) + 1e-9,
              f'{name} is no local extreme', d=d)
  a = bool(solar.is_solar_afternoon(pos, ble.utc(t)))
  e0, e1 = _el(pos, t), _el(pos, t + 1)
  require(a == (e1 < e0), 'solar afternoon', e0=e0, e1=e1)
  ctx.label('afternoon' if a else 'morning')
  ctx.nontrivial()


@sub('C12', 'polar', lambda: st.fixed_dictionaries(dict(
    lat=gen.uf(60.0001, 89.9), sign=st.booleans(), lng=gen.uf(-180, 180),
    ts=gen.timestamps())), quick=200, thorough=2000,
     rule='high latitudes are rejected; non-trivial: always')
def polar(case, ctx):
  lat = -case['lat'] if case['sign'] else case['lat']
  require_raises((AssertionError, ValueError),
                 lambda: solar.get_next_sunrise_sunset(
                     ble.ll([lat, case['lng']]), ble.utc(case['ts'])),
                 'high latitude accepted', lat=lat)
  ctx.nontrivial()
