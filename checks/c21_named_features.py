"""C21: the named view of a feature vector decodes what was encoded."""

import math

import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.utils import units

CMDS = [control.AltitudeControlCommand.UP, control.AltitudeControlCommand.STAY,
        control.AltitudeControlCommand.DOWN]


def vec(seed, cmd, holes):
  rng = np.random.default_rng(seed)
  v = rng.uniform(0, 1, 1099).astype(np.float32)
  v[3:7] = rng.uniform(-1, 1, 4)
  v[8:11] = 0.0
  v[8 + cmd] = 1.0
  v[15] = rng.uniform(1, 1.5)
  for h in holes:
    v[16 + 3 * h:19 + 3 * h] = (0, 1, 1)
  return v


@sub('C21', 'names', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), cmd=st.integers(0, 2),
    holes=st.lists(gen.ui(0, 360), max_size=8),
    levels=st.lists(gen.ui(0, 360), min_size=1, max_size=6),
    near=st.lists(st.tuples(gen.ui(0, 360), st.integers(0, 2)).map(list),
                  max_size=4),
    bad=st.one_of(gen.ui(361, 5000), gen.ui(-5000, -1), st.sampled_from(
        [361, -1])), size=gen.ui(0, 2000))), quick=3200, thorough=100000,
     rule='every named entry of generated vectors against the documented '
     'layout, valid and invalid levels; non-trivial: an unreachable level')
def names(case, ctx):
  v = vec(case['seed'], case['cmd'], case['holes'])
  # Levels with one or two of the three "unreachable" values are reachable.
  holes = set(case['holes'])
  for l, k in case['near']:
    if l not in holes:
      v[16 + 3 * l:19 + 3 * l] = (0, 1, 1)
      v[16 + 3 * l + k] = 0.5
  keep = v.copy()
  f = features.NamedPerciatelliFeatures(v)
  require(f.num_pressure_levels == 361, 'number of levels')
  require(f.wind_column_center() == 180, 'centre of the column')
  require_close(f.balloon_pressure, 5000.0 + float(v[0]) * 9000.0, 'pressure',
                rel=1e-6)
  for name, i in (('battery_charge', 1), ('solar_elevation', 2),
                  ('sin_normalized_solar_cycle', 3),
                  ('cos_normalized_solar_cycle', 4),
                  ('sin_heading_to_station', 5), ('cos_heading_to_station', 6),
                  ('distance_to_station', 7), ('navigation_enabled', 11),
                  ('navigation_paused', 12), ('has_excess_energy', 13),
                  ('descent_cost', 14), ('internal_pressure_ratio', 15)):
    require(getattr(f, name) == v[i], f'{name} is entry {i}',
            got=getattr(f, name), want=v[i])
  require(f.last_command == CMDS[case['cmd']], 'last command')
  for l in case['levels'] + case['holes'] + [n[0] for n in case['near']]:
    w = f.wind_at(l)
    want = v[16 + 3 * l:19 + 3 * l]
    require((w.uncertainty, w.bearing, w.magnitude) == tuple(want),
            'wind of a level', level=l)
    require((f.uncertainty(l), f.bearing(l), f.magnitude(l)) == tuple(want),
            'wind of a level by component', level=l)
    valid = tuple(want) != (0, 1, 1)
    require(bool(f.level_is_valid(l)) == valid, 'validity of a level', level=l,
            wind=want.tolist())
    require(bool(w.is_valid_wind()) == valid, 'validity of a wind', level=l)
  for call in (f.wind_at, f.level_is_valid, f.magnitude, f.bearing,
               f.uncertainty):
    require_raises(ValueError, lambda: call(case['bad']), 'invalid level',
                   level=case['bad'])
  if case['size'] != 1099:
    require_raises(AssertionError, lambda: features.NamedPerciatelliFeatures(
        np.zeros(case['size'], np.float32)), 'vector of the wrong size')
  require((v == keep).all(), 'the vector was changed')
  ctx.nontrivial(bool(holes))


@sub('C21', 'winds', lambda: st.fixed_dictionaries(dict(
    u=gen.uf(0, 1), angle=gen.uf(0, math.pi), speed=gen.uf(0, 200))),
     quick=1600, thorough=50000,
     rule='bearing and magnitude are converted back to radians and m/s; '
     'non-trivial: always')
def winds(case, ctx):
  w = features.convert_wind_feature_to_real_wind(features.PerciatelliWindFeature(
      case['u'], case['angle'] / math.pi,
      case['speed'] / (case['speed'] + 30.0)))
  require(w.uncertainty == case['u'], 'uncertainty')
  require_close(w.bearing, case['angle'], 'bearing')
  require_close(w.magnitude, case['speed'], 'speed', rel=1e-9, abs_=1e-9)
  ctx.nontrivial()


@sub('C21', 'roundtrip', lambda: st.fixed_dictionaries(dict(
    b=ble.balloon_cases(), cmd=st.integers(0, 2), u=gen.uf(-20, 20),
    v=gen.uf(-20, 20))), quick=480, thorough=10000,
     rule='a vector made from a balloon names that balloon again; '
     'non-trivial: always')
def roundtrip(case, ctx):
  s = ble.build_state(case['b'])
  s.last_command = ble.CMD[case['cmd']]
  fcon = features.PerciatelliFeatureConstructor(
      wind_field.SimpleStaticWindField(), ble.atmosphere(case['b']['atm']))
  fcon.observe(simulator_data.SimulatorObservation(
      s, wind_field.WindVector(units.Velocity(mps=case['u']),
                               units.Velocity(mps=case['v']))))
  f = features.NamedPerciatelliFeatures(fcon.get_features())
  require_close(f.balloon_pressure, s.pressure, 'pressure', rel=1e-6)
  require_close(f.battery_charge, s.battery_soc, 'charge', rel=1e-6)
  require(f.last_command == ble.CMD[case['cmd']], 'last command',
          got=f.last_command)
  require(bool(f.has_excess_energy) == bool(s.excess_energy), 'excess energy')
  level = round((s.pressure - 5000.0) / 50.0)
  d = (f.balloon_pressure - 5000.0) / 50.0 - level
  if abs(abs(d) - 0.5) > 1e-3:
    # The centre of the column is the balloon's level.
    center = f.wind_column_center()
    near = min(abs(s.pressure - p) for p in (8000, 10000, 12000)) < 30
    if f.level_is_valid(center) and not near:
      w = features.convert_wind_feature_to_real_wind(f.wind_at(center))
      require_close(w.magnitude, math.hypot(case['u'], case['v']),
                    'wind at the balloon', rel=0.0, abs_=5.0)
      ctx.label('balloon level reachable')
  ctx.nontrivial()
