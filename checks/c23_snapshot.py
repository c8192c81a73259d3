"""C23: the simulator state restores the simulator."""

import copy
import math
import pickle

import numpy as np
from hypothesis import strategies as st
from vlib import ble
from vlib import blank
from vlib import envs
from vlib import gen
from vlib.core import require, sub

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.utils import units


def arena(kind, seed):
  return balloon_arena.BalloonArena(blank.Blank, envs.WINDS[kind](), seed)


def layers(s):
  return (s.power_safety_layer.navigation_is_paused,
          s.envelope_safety_layer.navigation_is_paused,
          s.altitude_safety_layer.navigation_is_paused)


def fly(a, acts):
  """Truth after each step until the flight ends."""
  out = []
  for k in acts:
    if a.get_balloon_state().status.name != 'OK':
      break
    a.step(ble.CMD[k])
    s = a.get_balloon_state()
    m = a.get_measurements()
    out.append((ble.state_dict(s), layers(s), envs.wind_of(m.wind_at_balloon)))
  return out


def prepare(s, kind):
  """Flight systems near the limits, so that safety layers hold state."""
  if kind == 'low battery':
    s.battery_charge = units.Energy(watt_hours=200.0)
  elif kind == 'tight envelope':
    s.envelope_safety_layer.get_action(ble.CMD[0],
                                       s.envelope_max_superpressure)
  elif kind == 'low':
    s.altitude_safety_layer.get_action(ble.CMD[0], ble.atmosphere(0), 13500.0)
  elif kind == 'vented':
    s.mols_air = s.mols_air * 0.5


def copies(state, how):
  if how == 'pickle':
    return pickle.loads(pickle.dumps(state))
  return copy.deepcopy(state)


def same(a, b):
  if isinstance(a, float) and isinstance(b, float):
    return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-5)
  return a == b


KINDS = [None, None, 'low battery', 'tight envelope', 'low', 'vented']


@sub('C23', 'restore', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.seeds(), other=gen.seeds(),
    other_wind=envs.winds(), kind=st.sampled_from(KINDS),
    pre=envs.actions(0, 6), post=envs.actions(1, 8), junk=envs.actions(0, 6),
    how=st.sampled_from(['deepcopy', 'pickle']),
    into=st.sampled_from(['same', 'fresh']), resets=st.booleans())), quick=400,
     thorough=20000,
     rule='a copy of the full simulator state is taken in mid-flight; restored '
     'after further flying or into another arena, the flight goes on exactly '
     'as it did; non-trivial: the flight went on for two steps')
def restore(case, ctx):
  a = arena(case['wind'], case['seed'])
  prepare(a.get_balloon_state(), case['kind'])
  fly(a, case['pre'])
  if a.get_balloon_state().status.name != 'OK':
    ctx.label('ended early')
    return
  snap = copies(a.get_simulator_state(), case['how'])
  here = (ble.state_dict(a.get_balloon_state()),
          layers(a.get_balloon_state()))
  want = fly(a, case['post'])
  require(ble.state_dict(snap.balloon_state) == here[0], 'the copy flew along')
  if case['into'] == 'fresh':
    a = arena(case['other_wind'], case['other'])
  else:
    fly(a, case['junk'])
    if case['resets']:
      # Reuses the arena's own wind field and atmosphere objects.
      a.reset(case['other'])
  a.set_simulator_state(copies(snap, 'deepcopy'))
  s = a.get_simulator_state()
  require((ble.state_dict(s.balloon_state), layers(s.balloon_state)) == here,
          'restored state differs')
  require(s.balloon_state == copy.deepcopy(snap).balloon_state,
          'a copy of the state does not equal it')
  got = fly(a, case['post'])
  require(len(got) == len(want), 'the restored flight ends elsewhere')
  for i, (g, w) in enumerate(zip(got, want)):
    # Rounding may differ in a copy (numpy's, by the alignment of arrays).
    diff = {k: (g[0][k], w[0][k]) for k in w[0] if not same(g[0][k], w[0][k])}
    require(not diff, f'restored flight differs at step {i}', diff=diff)
    require(g[1] == w[1], f'safety layers differ at step {i}', got=g[1],
            want=w[1])
    require(same(g[2][0], w[2][0]) and same(g[2][1], w[2][1]),
            f'wind differs at step {i}', got=g[2], want=w[2])
  ctx.nontrivial(len(want) > 1)
  ctx.label(case['into'])
  ctx.label('paused in the copy', any(here[1]))


@sub('C23', 'parts', lambda: st.fixed_dictionaries(dict(
    wind=envs.winds(), seed=gen.seeds(), other=gen.seeds(),
    acts=envs.actions(1, 5))), quick=240, thorough=8000,
     rule='what is set is what is read and flown: balloon state alone, and the '
     'whole simulator state; non-trivial: always')
def parts(case, ctx):
  a, b = arena(case['wind'], case['seed']), arena(case['wind'], case['other'])
  # Balloon alone: winds and atmosphere stay.
  s = copy.deepcopy(a.get_balloon_state())
  before = b.get_simulator_state()
  b.set_balloon_state(s)
  after = b.get_simulator_state()
  require(b.get_balloon_state() is s and after.balloon_state is s,
          'the balloon state that was set')
  require(after.wind_field is before.wind_field and
          after.atmosphere is before.atmosphere, 'winds or atmosphere changed')
  w = envs.wind_of(before.wind_field.get_ground_truth(
      s.x, s.y, s.pressure, s.time_elapsed))
  x0, y0 = s.x.m, s.y.m
  b.step(ble.CMD[case['acts'][0]])
  t = s.time_elapsed.total_seconds()
  require(abs(s.x.m - x0 - w[0] * t) < 1e-3 and
          abs(s.y.m - y0 - w[1] * t) < 1e-3, 'the balloon that was set flies')
  # Everything.
  whole = a.get_simulator_state()
  b.set_simulator_state(whole)
  now = b.get_simulator_state()
  require(now.balloon_state is whole.balloon_state and
          now.wind_field is whole.wind_field and
          now.atmosphere is whole.atmosphere, 'the state that was set')
  m = b.get_measurements()
  require(envs.wind_of(m.wind_at_balloon) == envs.wind_of(
      whole.wind_field.get_ground_truth(
          whole.balloon_state.x, whole.balloon_state.y,
          whole.balloon_state.pressure, whole.balloon_state.time_elapsed)),
          'measurements are of the state that was set')
  require(ble.state_dict(m.balloon_observation) == ble.state_dict(
      whole.balloon_state), 'measurements are of the state that was set')
  ctx.nontrivial()
