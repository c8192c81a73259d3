"""Flight histories: the simulator's step against the reference physics."""

import datetime as dt
import math

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from hypothesis import strategies as st
from ref import physics
from vlib import ble
from vlib import gen
from vlib.core import require


def histories(min_steps=1, max_steps=8, strides=(10, 10, 10, 1, 5, 20, 30, 2.5, 0.5, 60,
                                               150)):
  step = st.tuples(st.integers(0, 2), gen.uf(-40, 40), gen.uf(-40, 40),
                   st.integers(1, 18), st.booleans()).map(list)
  return st.fixed_dictionaries(dict(
      b=ble.perturbed_balloon_cases(),
      power_layer=st.booleans(),
      stride=st.sampled_from(list(strides)),
      bias=st.sampled_from([None, None, 0, 2, 1]),
      steps=st.lists(step, min_size=min_steps, max_size=max_steps)))


def wind(u, v):
  return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))


class Layers:
  """Reference copies of the three safety layers of a fresh balloon."""

  def __init__(self, s, power_enabled):
    self.alt = physics.AltitudeLayer()
    self.env = physics.EnvelopeLayer(s.envelope_max_superpressure)
    rise, fall = solar.get_next_sunrise_sunset(s.latlng, s.date_time)
    self.power = physics.PowerLayer(ble.ts(rise), ble.ts(fall))
    self.power_enabled = power_enabled
    self.ambiguous = False

  def act(self, a, d, height):
    """Effective action for command a in dict state d at `height` metres."""
    ft = height / physics.FOOT
    if min(abs(ft - t) for t in (50e3, 50.5e3, 51e3)) < 1e-5:
      self.ambiguous = True
    sp, mx = d['superpressure'], self.env.max
    if min(abs(sp - t) for t in (150, 250, 300, mx - 300, mx - 250,
                                 mx - 150)) < 1e-9:
      self.ambiguous = True
    if self.power_enabled:
      p = self.power
      left = (d['charge_wh'] - d['night_w'] * (p.rise - d['ts']) / 3600.0)
      if (abs(left / d['capacity_wh'] - 0.025) < 1e-9 or
          abs(d['charge_wh'] / d['capacity_wh'] - 0.05) < 1e-12):
        self.ambiguous = True
      a = p.act(a, d['ts'], d['night_w'], d['charge_wh'], d['capacity_wh'])
    self.env.update(sp)
    a = self.env.act(a)
    self.alt.update(height)
    return self.alt.act(a)

  @property
  def paused(self):
    return ((self.power_enabled and self.power.paused) or self.env.paused or
            self.alt.paused)


LIMITS = None


def near_solar_limit(el, margin=1e-6):
  global LIMITS
  if LIMITS is None:
    LIMITS = [physics.shadow_limit(3.3), physics.shadow_limit(2.7),
              physics.MIN_EL]
  return any(abs(el - l) < margin for l in LIMITS)


class Step:
  """One outer step: state before, after, and what the reference predicts."""

  def __init__(self):
    self.before = self.after = self.want = None
    self.action = self.effective = None
    self.inner = 0        # Inner strides the reference executed.
    self.equilibrium = False
    self.solar_limit = False
    self.charges = []
    self.wobble = None


def predict(before, u, v, atm, effective, stride, k, step):
  d = dict(before)
  for _ in range(k):
    # Compression and expansion may leave the modelled atmosphere.
    n = physics.physics_step(d, u, v, atm, effective, stride, ble.sun_at)
    step.inner += 1
    step.equilibrium |= n['_lift_rel'] < (1e-11 if k == 1 else 1e-8)
    step.solar_limit |= near_solar_limit(n['_el'])
    step.charges.append((d['charge_wh'], n['solar_w'], n['load_w'],
                         n['charge_wh']))
    d = n
    if d['status'] != 'OK':
      break
  return d


def perturbed(step):
  """Outcomes of the reference from starts that differ by rounding only.

  Velocity is the root of the lift, so near balance the explicit Euler steps
  amplify rounding errors by many orders of magnitude.
  """
  if step.wobble is None:
    u, v = step.uv
    step.wobble = []
    for f in ('pressure', 'mols_air', 'internal_temperature',
              'mols_lift_gas'):
      for eps in (1e-10, -1e-10, 1e-11, -1e-11):
        before = dict(step.before)
        before[f] *= 1 + eps
        step.wobble.append(predict(before, u, v, step.ref_atm, step.effective,
                                   step.stride, step.k, Step()))
  return step.wobble


def run(case, ctx):
  """Yields (step, state) for every outer step of a history."""
  if 'voyage' in case:
    from vlib import voyage  # pylint: disable=g-import-not-at-top
    yield from voyage.run(case, ctx)
    return
  s = ble.build_perturbed(case['b'])
  s.power_safety_layer_enabled = case['power_layer']
  if not physically_ok(s):
    ctx.label('skipped: implausible start')
    return
  atm = ble.atmosphere(case['b']['base']['atm'])
  ref_atm = ble.ref_atmosphere(atm)
  layers = Layers(s, case['power_layer'])
  b = balloon.Balloon(s)
  stride = case['stride']
  for a, u, v, k, biased in case['steps']:
    if stride >= 60:         # Coarse steps of many strides are not sound.
      k = 1 + k % 2
    if biased and case['bias'] is not None:
      a = case['bias']
    st_ = Step()
    st_.before = ble.state_dict(b.state)
    st_.action = a
    height = ref_atm.at_pressure(st_.before['pressure'])['height']
    st_.effective = layers.act(a, st_.before, height)
    if layers.ambiguous:
      ctx.label('stopped: at a safety threshold')
      return
    st_.want = predict(st_.before, u, v, ref_atm, st_.effective, stride, k,
                       st_)
    st_.uv, st_.ref_atm = (u, v), ref_atm
    st_.k, st_.stride = k, stride
    b.simulate_step(wind(u, v), atm, ble.CMD[a],
                    dt.timedelta(seconds=k * stride),
                    dt.timedelta(seconds=stride))
    st_.after = ble.state_dict(b.state)
    st_.layers = layers
    # An event decided within rounding of its threshold may go either way.
    if marginal(st_):
      ctx.label('stopped: marginal terminal event')
      return
    yield st_, b
    if st_.after['status'] != 'OK':
      return
    if not 2000 < st_.after['pressure'] < 60000:
      return


def marginal(st_):
  for w in (st_.want, st_.after):
    sp, mx = w['superpressure'], w['envelope_max_superpressure']
    if abs(sp - mx) < 1e-5 or 0 < sp < 1e-5 or 0 < w['charge_wh'] < 1e-8:
      return True
  w, g = st_.want, st_.after
  if st_.k > 1 and (w['status'] != g['status'] or
                    abs(w['elapsed'] - g['elapsed']) > 1e-6):
    return any(p['status'] == g['status'] and
               abs(p['elapsed'] - g['elapsed']) < 1e-6 for p in perturbed(st_))
  return False


def physically_ok(s):
  return (150 < s.internal_temperature < 320 and s.envelope_volume > 500 and
          s.superpressure < 20000)


def compare(step, fields, tols=None):
  """The listed fields of the state after a step equal the reference's."""
  w, g = step.want, step.after
  # (relative, absolute); wider if buoyancy was balanced to the last digits,
  # where rounding decides the direction of motion.
  base = dict(x=(1e-12, 1e-6), y=(1e-12, 1e-6), ts=(0, 1e-5),
              elapsed=(0, 1e-5), pressure=(0, 1e-5),
              ambient_temperature=(0, 1e-7), internal_temperature=(0, 1e-7),
              mols_air=(1e-9, 1e-6), envelope_volume=(1e-9, 1e-6),
              superpressure=(0, 1e-4), acs_w=(1e-7, 1e-6),
              acs_mass_flow=(1e-6, 1e-10), solar_w=(1e-7, 1e-6),
              load_w=(1e-7, 1e-6), charge_wh=(1e-10, 1e-6))
  if tols:
    base.update(tols)
  for f in fields:
    rel, ab = base[f]
    if f not in ('x', 'y', 'ts', 'elapsed'):
      # Rounding errors grow along several strides, too.
      factor = 1e5 if step.equilibrium else 1e3 if step.inner > 1 else 1.0
      rel, ab = max(rel, min(rel * factor, 1e-6)), ab * factor
    ok = math.isclose(g[f], w[f], rel_tol=rel, abs_tol=ab)
    if not ok and step.k > 1 and f not in ('x', 'y', 'ts', 'elapsed'):
      ok = abs(g[f] - w[f]) <= 2 * max(
          abs(p[f] - w[f]) for p in perturbed(step))
    require(ok, f'{f} after a step differs from the documented dynamics',
            got=g[f], want=w[f], before=step.before[f],
            effective=step.effective, k=step.inner, stride=step.stride)
