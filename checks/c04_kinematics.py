"""C04: horizontal motion, the clock and composition of simulation steps."""

import datetime as dt

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib import stepping
from vlib import voyage
from vlib.core import require, require_close, sub

from balloon_learning_environment.env.balloon import balloon
from ref import physics


@sub('C04', 'voyage', lambda: voyage.cases(), quick=24, thorough=1500,
     case_timeout=600, rule='flights of up to 400 steps in the arena and the environment: '
     'motion and clocks as in histories; non-trivial: over a hundred steps')
@sub('C04', 'history', lambda: stepping.histories(1, 6), quick=700,
     thorough=30000,
     rule='flight histories: x and y grow by wind speed times the simulated '
     'time, the clock and the elapsed time by the simulated time, the position '
     'on the globe is the great-circle offset; non-trivial: non-zero wind')
def history(case, ctx):
  for step, b in stepping.run(case, ctx):
    stepping.compare(step, ['x', 'y', 'ts', 'elapsed'])
    a = step.after
    require(a['last_command'] == step.action, 'last command',
            got=a['last_command'], commanded=step.action)
    lat, lng = physics.offset_latlng(a['center_lat'], a['center_lng'], a['x'],
                                     a['y'])
    p = b.state.latlng
    require_close(p.lat().degrees, lat, 'latitude', abs_=1e-7)
    d = physics.norm_lng(p.lng().degrees - lng)
    require(abs(d) < 1e-6 or abs(abs(d) - 360) < 1e-6, 'longitude', diff=d)
    ctx.nontrivial(step.uv != (0.0, 0.0))
    ctx.label('several strides', step.inner > 1)
    ctx.label('ended early', step.inner < step.k)


def _composition():
  return st.fixed_dictionaries(dict(
      b=ble.perturbed_balloon_cases(), a=st.integers(0, 2),
      u=gen.uf(-40, 40), v=gen.uf(-40, 40), k=st.integers(2, 18),
      stride=st.sampled_from([1, 5, 10, 20, 0.5, 2.5]), split=st.integers(1, 17)))


@sub('C04', 'composition', _composition, quick=500, thorough=20000,
     rule='one long step against the same time split in two steps, when no '
     'safety layer interferes; non-trivial: compared to the end')
def composition(case, ctx):
  out = []
  split = min(case['split'], case['k'] - 1)
  for parts in ([case['k']], [split, case['k'] - split]):
    s = ble.build_perturbed(case['b'])
    s.power_safety_layer_enabled = False
    if not stepping.physically_ok(s):
      return
    b = balloon.Balloon(s)
    atm = ble.atmosphere(case['b']['base']['atm'])
    for k in parts:
      if s.status != balloon.BalloonStatus.OK:
        break
      b.simulate_step(stepping.wind(case['u'], case['v']), atm,
                      ble.CMD[case['a']],
                      dt.timedelta(seconds=k * case['stride']),
                      dt.timedelta(seconds=case['stride']))
      if (s.envelope_safety_layer.navigation_is_paused or
          s.altitude_safety_layer.navigation_is_paused):
        ctx.label('safety layer interfered')
        return
    out.append(ble.state_dict(s))
  if out[0]['status'] == 'OK':
    require_close(out[0]['elapsed'] - case['b']['base'].get('age', 0),
                  case['k'] * case['stride'],
                  'elapsed time', abs_=1e-5)
  for k, v in out[0].items():
    w = out[1][k]
    if isinstance(v, float):
      require_close(v, w, f'{k}: one step and two steps differ', rel=1e-9,
                    abs_=1e-6)
    else:
      require(v == w, f'{k}: one step and two steps differ', one=v, two=w)
  ctx.nontrivial()


def _bad():
  return st.fixed_dictionaries(dict(
      b=ble.balloon_cases(), a=st.integers(0, 2),
      stride=st.integers(2, 60), k=st.integers(0, 6), off=st.integers(1, 59),
      fine=st.sampled_from([None, None, 1, 10**5, 999999])))


@sub('C04', 'rejects', _bad, quick=300, thorough=5000,
     rule='a duration that is no multiple of the stride is rejected and the '
     'balloon is not moved; non-trivial: always')
def rejects(case, ctx):
  s = ble.build_state(case['b'])
  off = 1 + case['off'] % (case['stride'] - 1) if case['stride'] > 2 else 1
  off = dt.timedelta(seconds=off)
  if case['fine'] is not None:      # Also by a fraction of a second.
    off = dt.timedelta(microseconds=case['fine'])
  before = ble.state_dict(s)
  try:
    balloon.Balloon(s).simulate_step(
        stepping.wind(1.0, 2.0), ble.atmosphere(case['b']['atm']),
        ble.CMD[case['a']],
        dt.timedelta(seconds=case['k'] * case['stride']) + off,
        dt.timedelta(seconds=case['stride']))
  except (AssertionError, ValueError):
    pass
  else:
    require(False, 'accepted a duration that is no multiple of the stride')
  after = ble.state_dict(s)
  for k in before:
    if k != 'last_command':
      require(before[k] == after[k], f'{k} changed by a rejected step')
  ctx.nontrivial()
