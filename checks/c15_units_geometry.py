"""C15: unit algebra and spherical geometry."""

import copy
import datetime as dt
import math
import pickle

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.utils import spherical_geometry
from balloon_learning_environment.utils import units
from ref import physics

NUM = lambda: st.one_of(gen.uf(-1e6, 1e6), gen.uf(-10, 10),
                        st.integers(-1000, 1000).map(float))
# Durations, also of the past.
SECONDS = lambda: st.one_of(gen.uf(0.5, 1e6), gen.uf(0.5, 1e6),
                            gen.uf(-1e6, -0.5))


def _two(case):
  """Makes some pairs nearly equal."""
  near = case.pop('near')
  if near is not None:
    case['b'] = case['a'] + near
  return case


NEAR = lambda: st.one_of(st.none(), st.none(), st.sampled_from(
    [0.0, 1e-3, -1e-3, 1e-6, 1e-8, -1e-8, 1e-10]))


@sub('C15', 'distance', lambda: st.fixed_dictionaries(dict(
    a=NUM(), b=NUM(), k=NUM(), s=SECONDS(), near=NEAR())).map(_two), quick=4000,
     thorough=200000,
     rule='distances and velocities: conversions, sums, scaling, comparison and '
     'distance = velocity x time; non-trivial: two different non-zero values')
def distance(case, ctx):
  a, b, k, s = case['a'], case['b'], case['k'], case['s']
  D, V = units.Distance, units.Velocity
  for d, m in ((D(m=a), a), (D(meters=a), a), (D(km=a), 1000 * a),
               (D(kilometers=a), 1000 * a), (D(feet=a), 0.3048 * a)):
    require_close(d.m, m, 'metres', rel=1e-12)
    require_close(d.meters, m, 'meters', rel=1e-12)
    require_close(d.km, m / 1000, 'km', rel=1e-12)
    require_close(d.kilometers, m / 1000, 'kilometers', rel=1e-12)
    require_close(d.feet, m / 0.3048, 'feet', rel=1e-12)
  require_close(V(mps=a, meters_per_second=b, kmph=k, kilometers_per_hour=a).mps,
                a + b + k / 3.6 + a / 3.6, 'mixed speed', rel=1e-12, abs_=1e-6)
  require_close(D(m=a, meters=b, km=k, kilometers=a).m,
                a + b + 1000 * k + 1000 * a, 'mixed', rel=1e-12, abs_=1e-6)
  require_close(D(m=a, km=b, feet=k).m, a + 1000 * b + 0.3048 * k, 'mixed',
                rel=1e-12, abs_=1e-6)
  x, y = D(m=a), D(m=b)
  require_close((x + y).m, a + b, 'sum')
  require_close((x - y).m, a - b, 'difference')
  require_close((x * k).m, a * k, 'scaled', rel=1e-12)
  require_close((k * x).m, a * k, 'scaled from the left', rel=1e-12)
  require_close((3 * x).m, a * 3, 'scaled by an int', rel=1e-12)
  if k:
    require_close((x / k).m, a / k, 'divided', rel=1e-12)
  if b:
    require_close(x / y, a / b, 'ratio', rel=1e-12)
  require((x < y) == (a < b) and (x <= y) == (a <= b) and (x > y) == (a > b)
          and (x >= y) == (a >= b), 'order', a=a, b=b)
  if abs(abs(a - b) - 1e-9) > 1e-12:
    require((x == y) == (abs(a - b) < 1e-9), 'equality')
    require((x != y) == (abs(a - b) >= 1e-9), 'inequality')
  t = dt.timedelta(seconds=s)
  sec = t.total_seconds()
  require_close((x / t).mps, a / sec, 'speed', rel=1e-12)
  v, w = V(mps=a), V(mps=b)
  require_close((v * t).m, a * sec, 'way', rel=1e-12)
  require_close((t * v).m, a * sec, 'way', rel=1e-12)
  require_close(V(kmph=a).mps, a / 3.6, 'kmph', rel=1e-12)
  require_close(V(kilometers_per_hour=a).mps, a / 3.6, 'kmph', rel=1e-12)
  require_close(V(meters_per_second=a).kmph, a * 3.6, 'kmph', rel=1e-12)
  require_close(v.kilometers_per_hour, a * 3.6, 'kmph', rel=1e-12)
  require_close(v.meters_per_second, a, 'mps', rel=1e-12)
  require_close((v + w).mps, a + b, 'sum of speeds')
  require_close((v - w).mps, a - b, 'difference of speeds')
  if k:
    require_close((v / k).mps, a / k, 'divided speed', rel=1e-12)
  if abs(abs(a - b) - 1e-9) > 1e-12:
    require((v == w) == (abs(a - b) < 1e-9), 'equality of speeds')
  require_close(((x / t) * t).m, a, 'speed and back', rel=1e-9)
  require_close(units.relative_distance(x, y).m, math.hypot(a, b), 'norm',
                rel=1e-12)
  require_close(units.distance_to_degrees(x), a / 111e3, 'degrees', rel=1e-12)
  ctx.nontrivial(a != b and a != 0 and b != 0)


@sub('C15', 'energy', lambda: st.fixed_dictionaries(dict(
    a=NUM(), b=NUM(), k=NUM(), s=SECONDS(), near=NEAR())).map(_two), quick=3000,
     thorough=100000,
     rule='power and energy: sums, scaling, order and energy = power x time; '
     'non-trivial: two different non-zero values')
def energy(case, ctx):
  a, b, k = case['a'], case['b'], case['k']
  E, P = units.Energy, units.Power
  t = dt.timedelta(seconds=case['s'])
  x, y, p, q = E(watt_hours=a), E(watt_hours=b), P(watts=a), P(watts=b)
  require_close((x + y).watt_hours, a + b, 'sum')
  require_close((x - y).watt_hours, a - b, 'difference')
  require_close((x * k).watt_hours, a * k, 'scaled', rel=1e-12)
  require_close((k * x).watt_hours, a * k, 'scaled', rel=1e-12)
  if b:
    require_close(x / y, a / b, 'ratio', rel=1e-12)
  require((x > y) == (a > b) and (x >= y) == (a >= b) and (x == y) == (a == b)
          and (x < y) == (a < b) and (x != y) == (a != b), 'order of energies')
  require_close((p + q).watts, a + b, 'sum of powers')
  require_close((p - q).watts, a - b, 'difference of powers')
  require((p > q) == (a > b) and (p == q) == (a == b) and (p < q) == (a < b),
          'order of powers')
  require_close((p * t).watt_hours, a * t.total_seconds() / 3600, 'energy',
                rel=1e-12)
  require_close((t * p).watt_hours, a * t.total_seconds() / 3600, 'energy',
                rel=1e-12)
  require_close(units.seconds_to_hours(a), a / 3600, 'hours', rel=1e-12)
  require_close(units.timedelta_to_hours(t), t.total_seconds() / 3600, 'hours',
                rel=1e-12)
  ctx.nontrivial(a != b and a != 0 and b != 0)


@sub('C15', 'mixing', lambda: st.fixed_dictionaries(dict(
    a=NUM(), kinds=st.lists(st.integers(0, 5), min_size=2, max_size=2),
    op=st.integers(0, 6))), quick=2000, thorough=20000,
     rule='arithmetic that mixes incompatible units raises instead of giving a '
     'number; non-trivial: the kinds are incompatible')
def mixing(case, ctx):
  mk = [units.Distance(m=case['a']), units.Velocity(mps=case['a']),
        units.Energy(watt_hours=case['a']), units.Power(watts=case['a']),
        case['a'], dt.timedelta(seconds=5)]
  i, j = case['kinds']
  x, y = mk[i], mk[j]
  if i >= 4:
    return
  if case['op'] == 6 and i != j:  # May raise, or say that they differ.
    try:
      same = x == y
    except Exception:  # pylint: disable=broad-except
      same = False
    require(not same, 'equality of incompatible units', kinds=case['kinds'])
    ctx.nontrivial()
    return
  allowed = {  # op -> allowed right-hand kinds, per left-hand kind.
      0: {0: {0}, 1: {1}, 2: {2}, 3: {3}},
      1: {0: {0}, 1: {1}, 2: {2}, 3: {3}},
      2: {0: {4}, 1: {5}, 2: {4}, 3: {5}},
      3: {0: {0, 4, 5}, 1: {4}, 2: {2}, 3: set()},
      4: {0: {0}, 1: set(), 2: {2}, 3: {3}},
      5: {0: {0}, 1: set(), 2: {2}, 3: set()},
      6: {0: {0}, 1: {1}, 2: {2}, 3: {3}},
  }[case['op']][i]
  fn = [lambda: x + y, lambda: x - y, lambda: x * y, lambda: x / y,
        lambda: x > y, lambda: x >= y, lambda: x == y][case['op']]
  if j in allowed:
    if case['op'] == 3 and case['a'] == 0:
      return
    got = fn()
    require(case['op'] != 6 or got is True, 'equality')
    ctx.label('compatible')
    return
  require_raises((NotImplementedError, ValueError, TypeError, AttributeError),
                 fn, 'incompatible units', op=case['op'], kinds=case['kinds'])
  ctx.nontrivial()


@sub('C15', 'offset', lambda: st.fixed_dictionaries(dict(
    center=gen.latlngs(85.0), x=st.one_of(gen.uf(-2e6, 2e6), gen.uf(-1e3, 1e3)),
    y=st.one_of(gen.uf(-2e6, 2e6), gen.uf(-1e3, 1e3)), ts=gen.ui(0, 2**31 - 1))
                                                    ),
     quick=4000, thorough=200000,
     rule='the position at an offset is the great-circle destination at that '
     'distance and bearing, and is a normalised position; positions survive '
     'pickling and copying; non-trivial: more than 100 m away')
def offset(case, ctx):
  c = ble.ll(case['center'])
  got = spherical_geometry.calculate_latlng_from_offset(
      c, units.Distance(m=case['x']), units.Distance(m=case['y']))
  require(got.is_valid(), 'position not valid')
  lat, lng = physics.offset_latlng(*case['center'], case['x'], case['y'])
  d = math.hypot(case['x'], case['y'])
  # As positions on the sphere, well conditioned also near the poles.
  def vec(a, b):
    a, b = math.radians(a), math.radians(b)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))
  g = vec(got.lat().degrees, got.lng().degrees)
  w = vec(lat, lng)
  err = math.dist(g, w) * 6371e3
  require(err < 1e-2 + 1e-9 * d, 'position at an offset', metres_off=err,
          got=str(got), want=(lat, lng))
  # Each argument on its own, right after the same call with another.
  for k, dd in enumerate((0.3, 0.3, 0.01)):
    q = [case['x'], case['y'], case['center'][0]]
    q[k] += dd if q[k] < 0 else -dd
    spherical_geometry.calculate_latlng_from_offset(
        c, units.Distance(m=case['x']), units.Distance(m=case['y']))
    near = spherical_geometry.calculate_latlng_from_offset(
        ble.ll([q[2], case['center'][1]]), units.Distance(m=q[0]),
        units.Distance(m=q[1]))
    off = math.dist(vec(near.lat().degrees, near.lng().degrees), vec(
        *physics.offset_latlng(q[2], case['center'][1], q[0], q[1]))) * 6371e3
    require(off < 1e-2 + 1e-9 * d, 'position after another', metres_off=off,
            changed='xyc'[k])
  require_close(c.get_distance(got).radians * 6371e3, d, 'distance',
                rel=1e-6, abs_=0.5)
  for other in (pickle.loads(pickle.dumps(got)), copy.deepcopy(got)):
    require_close(other.lat().degrees, got.lat().degrees, 'copied latitude',
                  abs_=1e-12)
    require_close(other.lng().degrees, got.lng().degrees, 'copied longitude',
                  abs_=1e-12)
  t = units.datetime_from_timestamp(case['ts'])
  require(t == ble.utc(case['ts']) and t.utcoffset() == dt.timedelta(0),
          'timestamp', got=t)
  u = units.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)
  require(u == t and u.utcoffset() == dt.timedelta(0), 'datetime', got=u)
  us, fold = case['ts'] % 10**6, case['ts'] % 2
  zone = dt.timezone(dt.timedelta(minutes=case['ts'] % 1440 - 720))
  for z in (dt.timezone.utc, zone):
    u = units.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second, us,
                       z, fold=fold)
    v = t.replace(microsecond=us, tzinfo=z, fold=fold)
    require(u == v and u.fold == fold and u.tzinfo is z, 'all of a datetime',
            got=u, want=v)
  ctx.nontrivial(d > 100)
  ctx.label('across the date line', abs(lng - case['center'][1]) > 180)
