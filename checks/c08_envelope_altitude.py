"""C08: altitude and envelope safety layers, and how layers combine."""

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib import stepping
from vlib import voyage
from vlib.core import require, sub

from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import envelope_safety
from balloon_learning_environment.utils import units
from ref import physics


def _heights():
  ft = st.one_of(st.tuples(st.sampled_from([50e3, 50.5e3, 51e3]), st.one_of(
      gen.uf(-700, 700, False), st.sampled_from([-1e-3, 1e-3, 0.5, -0.5]))).map(
          sum), gen.uf(48e3, 53e3),
                 gen.uf(30e3, 70e3))
  return st.fixed_dictionaries(dict(
      atm=st.lists(gen.seeds(), min_size=1, max_size=3),
      steps=st.lists(st.tuples(ft, st.integers(0, 2)).map(list), min_size=1,
                     max_size=12)))


@sub('C08', 'altitude', _heights, quick=2500, thorough=100000,
     rule='sequences of altitudes around the 50,000 ft floor and commands '
     'against the hysteresis automaton; non-trivial: paused and resumed, or '
     'a command was overridden')
def altitude(case, ctx):
  # The atmosphere may change on the way.
  atms = [ble.atmosphere(k) for k in case['atm']]
  layer = altitude_safety.AltitudeSafetyLayer()
  ref = physics.AltitudeLayer()
  require(not layer.navigation_is_paused, 'a fresh layer pauses')
  was_paused = overridden = resumed = False
  for k, (ft, a) in enumerate(case['steps']):
    atm = atms[k * len(atms) // len(case['steps'])]
    p = float(atm.at_height(units.Distance(feet=ft)).pressure)
    if min(abs(ft - t) for t in (50e3, 50.5e3, 51e3)) < 1e-5:
      ctx.label('stopped: at a threshold')
      return
    got = layer.get_action(ble.CMD[a], atm, p)
    ref.update(ft * physics.FOOT)
    want = ref.act(a)
    require(int(got) == want, 'action of the altitude layer', got=got,
            want=want, ft=ft, state=ref.state)
    require(bool(layer.navigation_is_paused) == ref.paused, 'paused',
            got=layer.navigation_is_paused, ft=ft, state=ref.state)
    if ft < 50e3:
      require(int(got) == physics.UP, 'below the floor and not ascending')
    if ref.paused:
      require(int(got) != physics.DOWN, 'descends while paused')
    overridden |= want != a
    resumed |= was_paused and not ref.paused
    was_paused = ref.paused
    ctx.label(f'state {ref.state}')
  ctx.label('resumed', resumed)
  ctx.nontrivial(overridden or resumed)


def _superpressures():
  limit = gen.uf(0, 1).map(lambda x: [800 + 3200 * x, float(
      int(800 + 3200 * x))][int(x * 1e5) % 2])
  return st.tuples(limit, st.lists(st.tuples(
      st.sampled_from(['low', 'high', 'any']), st.one_of(
          gen.uf(-120, 500), st.sampled_from([150.0, 250.0, 300.0])),
      gen.uf(0, 1), st.integers(0, 2)).map(list), min_size=1, max_size=14)
                   ).map(lambda t: dict(max=t[0], steps=[
                       [d if k == 'low' else t[0] - d if k == 'high' else
                        x * t[0] * 1.1, a] for k, d, x, a in t[1]]))


@sub('C08', 'envelope', _superpressures, quick=4000, thorough=200000,
     rule='sequences of superpressures around both limits and commands against '
     'the hysteresis automaton; non-trivial: resumed or overridden')
def envelope(case, ctx):
  layer = envelope_safety.EnvelopeSafetyLayer(case['max'])
  ref = physics.EnvelopeLayer(case['max'])
  was_paused = overridden = resumed = False
  mx = case['max']
  for sp, a in case['steps']:
    gap = min(abs(sp - t) for t in (150, 250, 300, mx - 300, mx - 250,
                                    mx - 150))
    # Whole numbers are exact, so the limits themselves are decidable.
    ctx.label('exactly at a limit', gap == 0 and mx == int(mx))
    if gap < 1e-9 and not (gap == 0 and mx == int(mx)):
      ctx.label('stopped: at a threshold')
      return
    got = layer.get_action(ble.CMD[a], sp)
    ref.update(sp)
    want = ref.act(a)
    require(int(got) == want, 'action of the envelope layer', got=got,
            want=want, sp=sp, max=mx, state=ref.state)
    require(bool(layer.navigation_is_paused) == ref.paused, 'paused', sp=sp,
            max=mx)
    overridden |= want != a
    resumed |= was_paused and not ref.paused
    was_paused = ref.paused
    ctx.label(f'state {ref.state}')
  ctx.label('resumed', resumed)
  ctx.nontrivial(overridden or resumed)


def _flight_bias(case):
  """Starts low, so the altitude and envelope layers have work to do."""
  b = dict(case['b'])
  base = dict(b['base'])
  x = (base['pressure'] - 5200) / 7800
  base['pressure'] = 10500 + 2500 * x
  b['base'] = base
  return dict(case, b=b)


@sub('C08', 'voyage', lambda: voyage.cases(), quick=24, thorough=1500,
     case_timeout=600, rule='flights of up to 400 steps in the arena and the environment: '
     'the command filtered by the layers; non-trivial: over a hundred steps')
@sub('C08', 'flight', lambda: st.one_of(
    stepping.histories(2, 12), stepping.histories(2, 12).map(_flight_bias)),
     quick=700, thorough=30000,
     rule='flight histories: the action that takes effect is the command '
     'filtered by the power, then envelope, then altitude layer, decided once '
     'per step; non-trivial: a layer overrode a command')
def flight(case, ctx):
  for step, b in stepping.run(case, ctx):
    s, a = b.state, step.after
    if a['acs_w'] > 0:
      seen = physics.DOWN
    elif a['acs_mass_flow'] < 0:
      seen = physics.UP
    else:
      seen = physics.STAY
    # Venting at zero superpressure moves no air.
    want = step.effective
    if want == physics.UP and seen == physics.STAY:
      require(a['acs_mass_flow'] == step.want['acs_mass_flow'] or
              abs(step.want['acs_mass_flow']) < 1e-12, 'no venting')
    else:
      require(seen == want, 'action that took effect', seen=seen, want=want,
              commanded=step.action, altitude=step.layers.alt.state,
              envelope=step.layers.env.state, power=step.layers.power.paused)
    require(bool(s.navigation_is_paused) == step.layers.paused,
            'navigation_is_paused', got=s.navigation_is_paused,
            want=step.layers.paused)
    require(bool(s.altitude_safety_layer.navigation_is_paused) ==
            step.layers.alt.paused, 'altitude layer paused')
    require(bool(s.envelope_safety_layer.navigation_is_paused) ==
            step.layers.env.paused, 'envelope layer paused')
    ctx.label('overridden by altitude', step.layers.alt.paused)
    ctx.label('overridden by envelope', step.layers.env.paused)
    ctx.label('paused by power',
              step.layers.power_enabled and step.layers.power.paused)
    ctx.nontrivial(step.effective != step.action)
