"""C11: solar elevation, azimuth and flux."""

import datetime as dt
import math

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env.balloon import solar
from ref import physics
import s2sphere as s2

FINDING = 'C11-nutation-sign'


def _cases():
  day_ends = st.tuples(gen.ui(14600, 16400), st.sampled_from(
      [-2, -1, 0, 1, 2, 43199, 43200])).map(lambda t: t[0] * 86400 + t[1])
  return st.fixed_dictionaries(dict(
      pos=st.one_of(gen.latlngs(89.5), gen.latlngs(60.0)),
      ts=st.one_of(gen.timestamps(), day_ends, gen.timestamps(
          -2524521600, 4417372800)),  # 1890 to 2109

      us=st.sampled_from([0, 0, 0, 1, 499999, 999999]),
      tz=st.integers(-14 * 60, 14 * 60))).map(
          # Before 1970 fractions of a second are cut the other way.
          lambda c: c if c['ts'] >= 0 else {**c, 'us': 0})


def _close_sun(got, ref):
  el, az, flux = got
  sinz = math.cos(math.radians(ref['el_raw']))
  coslat = ref['coslat']
  az_ok = True
  if sinz * coslat > 1e-3 and abs(ref['ha']) > 1e-5 and abs(
      abs(ref['ha']) - 180) > 1e-5:
    az_ok = abs((az - ref['az'] + 180) % 360 - 180) < 1e-4
  return (abs(el - ref['el']) < 1e-5 and az_ok and
          abs(flux - ref['flux']) < 1e-6)


@sub('C11', 'noaa', _cases, quick=6000, thorough=300000,
     rule='elevation, azimuth and flux against the NOAA solar calculator and '
     "the Almanac's independent formula for places, times (also day ends and "
     'fractions of a second) and timezones; non-trivial: the place is not '
     'within rounding of a refraction limit')
def noaa(case, ctx):
  lat, lng = case['pos']
  t = ble.utc(case['ts']) + dt.timedelta(microseconds=case['us'])
  got = tuple(float(x) for x in solar.solar_calculator(ble.ll(case['pos']), t))
  require(all(math.isfinite(x) for x in got), 'not finite', got=got)
  require(-90 <= got[0] <= 90.2 and 0 <= got[1] <= 360, 'range', got=got)
  refs = []
  for sign in (-1.0, 1.0):
    r = physics.solar_position(lat, lng, case['ts'], nutation=sign)
    r['coslat'] = math.cos(math.radians(lat))
    refs.append(r)
  if any(abs(r['el_raw'] - l) < 1e-4 for r in refs for l in (85.0, 5.0, -0.575)
        ):
    ctx.label('skipped: at a refraction limit')
    return
  if not _close_sun(got, refs[0]):
    # The listed finding is exactly the opposite sign of one NOAA term.
    if _close_sun(got, refs[1]):
      ctx.known(FINDING, 'nutation sign')
      ctx.label('known finding')
    else:
      require(False, 'differs from the NOAA solar calculator', got=got,
              el=refs[0]['el'], az=refs[0]['az'], flux=refs[0]['flux'])
  # Independent of NOAA: refraction and a low-precision ephemeris.
  alm = physics.almanac_elevation(lat, lng, case['ts'])
  require(abs(refs[0]['el_raw'] - alm) < 0.05, 'reference disagrees with the '
          'Almanac', noaa=refs[0]['el_raw'], almanac=alm)
  require(abs(got[0] - alm) < 0.05 + 0.65, 'far from the Almanac')
  # Only the instant matters, not the timezone it is written in.
  zone = dt.timezone(dt.timedelta(minutes=case['tz']))
  other = solar.solar_calculator(ble.ll(case['pos']), t.astimezone(zone))
  for a, b in zip(got, other):
    require_close(b, a, 'depends on the timezone', abs_=1e-9, tz=case['tz'])
  ctx.label('day' if got[0] > 0 else 'night')
  ctx.label('other UTC day', t.astimezone(zone).date() != t.date())
  ctx.nontrivial()


@sub('C11', 'rejects', lambda: st.fixed_dictionaries(dict(
    lat=gen.uf(90.001, 400), lng=gen.uf(180.001, 720), sign=st.booleans(),
    ts=gen.timestamps(), pos=gen.latlngs(89))), quick=500, thorough=5000,
     rule='invalid positions and naive times are rejected; non-trivial: always')
def rejects(case, ctx):
  g = -1 if case['sign'] else 1
  t = ble.utc(case['ts'])
  for lat, lng in ((g * case['lat'], case['pos'][1]),
                   (case['pos'][0], g * case['lng'])):
    require_raises(ValueError, lambda lat=lat, lng=lng: solar.solar_calculator(
        s2.LatLng.from_degrees(lat, lng), t), 'invalid position', lat=lat,
                   lng=lng)
  require_raises(ValueError, lambda: solar.solar_calculator(
      ble.ll(case['pos']), t.replace(tzinfo=None)), 'naive time')
  ctx.nontrivial()


@sub('C11', 'symmetry', lambda: st.fixed_dictionaries(dict(
    pos=gen.latlngs(85), ts=gen.timestamps(), h=st.integers(1, 23))),
     quick=1500, thorough=50000,
     rule='turning the globe by 15 degrees an hour shifts the sun by that time '
     '(within the daily change of declination); non-trivial: always')
def symmetry(case, ctx):
  lat, lng = case['pos']
  h = case['h']
  lng2 = physics.norm_lng(lng - 15.0 * h)
  a = solar.solar_calculator(ble.ll([lat, lng]), ble.utc(case['ts']))
  b = solar.solar_calculator(ble.ll([lat, lng2]),
                             ble.utc(case['ts'] + 3600 * h))
  require(abs(float(a[0]) - float(b[0])) < 0.7, 'shifted sun', a=a, b=b)
  require(1300 < float(a[2]) < 1430, 'solar flux', flux=a[2])
  ctx.nontrivial()
