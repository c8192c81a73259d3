"""Long flights in the arena, step by step against the reference physics."""

import datetime as dt

from hypothesis import strategies as st
from vlib import ble
from vlib import blank
from vlib import envs
from vlib import fakes
from vlib import gen
from vlib import stepping

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env


def cases(longest=400):
  """Flights of up to `longest` steps; commands come in legs."""
  leg = st.tuples(st.sampled_from([0, 0, 1, 2, 'any', 'swing']),
                  st.integers(1, 120)).map(list)
  return st.fixed_dictionaries(dict(
      voyage=st.lists(leg, min_size=1, max_size=12), limit=gen.ui(20, longest),
      kind=envs.winds(), seed=gen.seeds(), charge=st.one_of(
          st.none(), st.none(), gen.uf(0.03, 1)), via=st.booleans(),
      old=st.sampled_from([0, 0, 5, 24, 47, 71, 300]),
      salt=gen.ui(0, 10**6)))


def commands(case):
  r = fakes.rnd(case['salt'])
  n = 0
  while n < case['limit']:
    for what, length in case['voyage']:
      for k in range(length):
        yield (int(r.integers(3)) if what == 'any' else
               [0, 2][k // 7 % 2] if what == 'swing' else what)
        n += 1
        if n == case['limit']:
          return


def run(case, ctx):
  """Yields (step, balloon) as stepping.run does."""
  if case['via']:
    env = balloon_env.BalloonEnv(
        wind_field_factory=envs.WINDS[case['kind']], seed=case['seed'],
        feature_constructor_factory=blank.Blank)
    env.reset()
    arena = env.arena
    fly = env.step
  else:
    arena = balloon_arena.BalloonArena(
        blank.Blank, envs.WINDS[case['kind']](), case['seed'])
    fly = lambda a: arena.step(ble.CMD[a])
  sim = arena.get_simulator_state()
  s = sim.balloon_state
  if case['charge'] is not None:
    s.battery_charge = s.battery_capacity * case['charge']
  ref_atm = ble.ref_atmosphere(sim.atmosphere)
  layers = stepping.Layers(s, s.power_safety_layer_enabled)
  age = dt.timedelta(hours=case.get('old', 0))  # Days away from any arena.
  s.time_elapsed += age
  s.date_time += age
  days = set()
  for n, a in enumerate(commands(case)):
    s = arena.get_balloon_state()
    w = sim.wind_field.get_ground_truth(s.x, s.y, s.pressure, s.time_elapsed)
    u, v = envs.wind_of(w)
    step = stepping.Step()
    step.before = ble.state_dict(s)
    step.action = a
    height = ref_atm.at_pressure(step.before['pressure'])['height']
    step.effective = layers.act(a, step.before, height)
    if layers.ambiguous:
      ctx.label('stopped: at a safety threshold')
      return
    step.uv, step.k, step.stride = (u, v), 18, 10
    step.ref_atm = ref_atm
    step.want = stepping.predict(step.before, u, v, ref_atm, step.effective,
                                 10, 18, step)
    out = fly(a)
    step.after = ble.state_dict(arena.get_balloon_state())
    step.layers = layers
    step.done = out[2] if case['via'] else None
    if stepping.marginal(step):
      ctx.label('stopped: marginal terminal event')
      return
    yield step, _Balloon(arena)
    if step.after['status'] != 'OK':
      return
    days.add(step.after['solar_w'] > 0)
    ctx.label('over a hundred steps', n > 100)
    ctx.nontrivial(n > 100)
    ctx.label('over a day', n > 480)
    ctx.label('by day and night', len(days) > 1)


class _Balloon:
  """What the checks use of a balloon, in an arena."""

  def __init__(self, arena):
    self._arena = arena

  @property
  def state(self):
    return self._arena.get_balloon_state()

  def simulate_step(self, unused_wind, unused_atm, command, *unused):
    return self._arena.step(command)
