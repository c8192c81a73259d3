"""C37: equilibrium initialisation and the accessible pressure range."""

import dataclasses

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, sub

from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import thermal
from balloon_learning_environment.utils import units
from ref import physics

SET = ('ambient_temperature', 'internal_temperature', 'mols_air',
       'envelope_volume', 'superpressure')


@sub('C37', 'equilibrium', lambda: ble.perturbed_balloon_cases(), quick=1500,
     thorough=50000,
     rule='cold-start states: ambient temperature of the level, ballonet air '
     'that balances the weight at the base volume, thermal equilibrium, '
     'envelope law; nothing else is touched; non-trivial: air in the ballonet')
def equilibrium(case, ctx):
  case = dict(case, stable=True)
  s = ble.build_perturbed(case)
  # A second state, initialised in two stages, shows what is written.
  atm = ble.atmosphere(case['base']['atm'])
  d = ble.state_dict(s)
  ref = ble.ref_atmosphere(atm)
  t = ref.at_pressure(d['pressure'])['temperature']
  require_close(d['ambient_temperature'], t, 'ambient temperature', rel=1e-7)
  rho = d['pressure'] * physics.M_AIR / (physics.R * t)
  air = (rho * d['envelope_volume_base'] - d['envelope_mass'] -
         d['payload_mass'] - physics.M_HE * d['mols_lift_gas']) / physics.M_AIR
  require_close(d['mols_air'], max(air, 0.0), 'air in the ballonet', rel=1e-6,
                abs_=1e-3)
  lat, lng = physics.offset_latlng(d['center_lat'], d['center_lng'], d['x'],
                                   d['y'])
  sun = ble.sun_at(lat, lng, d['ts'])
  rate = physics.dtemp_dt(
      d['envelope_volume_base'], d['envelope_mass'], d['internal_temperature'],
      d['ambient_temperature'], d['pressure'], sun['el'], sun['flux'],
      d['upwelling_infrared'])
  require(abs(rate) < 2e-5, 'not in thermal equilibrium', rate=rate)
  vol, sp = physics.volume_superpressure(
      d['mols_lift_gas'], d['mols_air'], d['internal_temperature'],
      d['pressure'], d['envelope_volume_base'],
      d['envelope_volume_dv_pressure'])
  require_close(d['envelope_volume'], vol, 'volume', rel=1e-8)
  require_close(d['superpressure'], sp, 'superpressure', rel=1e-6, abs_=1e-4)
  ctx.nontrivial(d['mols_air'] > 0)
  ctx.label('inflated', d['superpressure'] > 0)
  # Idempotent, and nothing but the five equilibrium values is written.
  s.internal_temperature += 7.0
  s.mols_air += 100.0
  before = ble.state_dict(s)
  stable_init.cold_start_to_stable_params(s, atm)
  after = ble.state_dict(s)
  for k in before:
    if k in SET:
      require_close(after[k], d[k], f'{k} depends on the previous state',
                    rel=1e-9, abs_=1e-7)
    else:
      require(after[k] == before[k], f'{k} was touched')
  # The state-free calculation is the same.
  p = stable_init.calculate_stable_params_for_pressure(
      s.pressure, s.envelope_volume_base, s.envelope_volume_dv_pressure,
      s.envelope_mass, s.payload_mass, s.mols_lift_gas, s.latlng, s.date_time,
      s.upwelling_infrared, atm)
  for k in SET:
    require_close(getattr(p, k), d[k], f'{k} of the parameters', rel=1e-9,
                  abs_=1e-7)


def _sp_at(s, atm, p):
  return float(stable_init.calculate_stable_params_for_pressure(
      p, s.envelope_volume_base, s.envelope_volume_dv_pressure,
      s.envelope_mass, s.payload_mass, s.mols_lift_gas, s.latlng, s.date_time,
      s.upwelling_infrared, atm).superpressure)


@sub('C37', 'range', lambda: st.fixed_dictionaries(dict(
    b=ble.balloon_cases(), lift=gen.uf(6400, 7300), maxsp=gen.uf(1000, 2700),
    v0=gen.uf(1700, 1900), nominal=st.sampled_from([True, False, False]),
    cut=st.one_of(st.none(), gen.uf(0.02, 0.98)),
    heavy=st.one_of(st.just(0.0), gen.uf(20.0, 110.0))))
     , quick=3000, thorough=40000,
     rule='the accessible pressure range is ordered, ends above the altitude '
     'floor, floats at safe superpressure at both ends (with nominal vehicle constants: throughout), and ends where flight '
     'becomes unsafe; non-trivial: a superpressure limit shaped an end')
def range_(case, ctx):
  extra = {} if case['nominal'] else dict(
      mols_lift_gas=case['lift'], envelope_max_superpressure=case['maxsp'],
      envelope_volume_base=case['v0'])
  if case['heavy'] and not case['nominal']:
    # A heavier vehicle (and the gas that carries it) is at home lower down,
    # where superpressure falls with pressure.
    extra['payload_mass'] = 92.5 + case['heavy']
    extra['mols_lift_gas'] = case['lift'] + case['heavy'] / (
        physics.M_AIR - physics.M_HE)
  s = ble.build_state(case['b'], **extra)
  atm = ble.atmosphere(case['b']['atm'])
  before = ble.state_dict(s)
  ref = ble.ref_atmosphere(atm)
  floor = ref.at_height(50_000 * physics.FOOT)['pressure']
  mx = s.envelope_max_superpressure
  empty = (s.payload_mass + s.envelope_mass + s.mols_lift_gas * physics.M_HE)
  p_over_t = empty * physics.R / (physics.M_AIR * s.envelope_volume_base)
  def ratio(p):
    return p / ref.at_pressure(p)['temperature']
  a, b = 1000.0, floor
  for _ in range(60):
    m = 0.5 * (a + b)
    a, b = (m, b) if ratio(m) < p_over_t else (a, m)
  top = 0.5 * (a + b)
  if case['cut'] is not None and not case['nominal']:
    # The limit is reached somewhere between the top and the floor.
    limit = _sp_at(s, atm, top + case['cut'] * (floor - top)) + 250.0
    if limit > 510.0:
      s.envelope_max_superpressure = mx = limit
      before = ble.state_dict(s)
      ctx.label('limit crossed on the way')
  spacing = (floor - 1000.0) / 19
  def widest():
    """The widest stretch of clearly safe levels."""
    run, best, p = 0.0, 0.0, top + 20.0
    while p <= floor:
      run = run + 50.0 if 255 < _sp_at(s, atm, p) < mx - 255 else 0.0
      best, p = max(best, run), p + 50.0
    return best
  try:
    r = pressure_range_builder.get_pressure_range(s, atm)
  except ValueError:
    ctx.label('no safe pressure')
    # Refused only where there is none to be found.
    run = widest()
    require(run < 1.1 * spacing + 50.0, 'a safe range was refused', run=run)
    return
  require(ble.state_dict(s) == before, 'the balloon was changed')
  lo, hi = r.min_pressure, r.max_pressure
  require(isinstance(lo, float) and isinstance(hi, float), 'types')
  if not lo < hi and not case['nominal'] and widest() < spacing:
    # Safe only within a cell of the search, whose ends are interpolated from
    # both sides.
    ctx.label('narrower than the search')
    return
  require(0 < lo < hi, 'range is not ordered', lo=lo, hi=hi)
  require(hi <= floor * (1 + 1e-9), 'range reaches below the altitude floor',
          hi=hi, floor=floor)
  # Piecewise linear interpolation on a grid of 607 Pa: its error is within the
  # second difference of the superpressure over a cell.
  h = 610.0
  def tol_at(p):
    return 20.0 + abs(_sp_at(s, atm, p + h) - 2 * _sp_at(s, atm, p) +
                      _sp_at(s, atm, p - h))
  for k in (range(21) if case['nominal'] else (0, 20)):
    p = lo + (hi - lo) * k / 20
    sp = _sp_at(s, atm, p)
    tol = tol_at(p) if k in (0, 20) else 40.0
    require(250 - tol <= sp <= mx - 250 + tol,
            'unsafe superpressure inside the range', p=p, sp=sp, lo=lo, hi=hi)
  # Ends: the empty ballonet, the floor, or a superpressure limit.
  at_limit = lambda p: min(abs(_sp_at(s, atm, p) - 250),
                           abs(_sp_at(s, atm, p) - (mx - 250)))
  # The table of P/T is linear over a cell: at a kink of the profile (a
  # pause) its error is within the second difference.
  dtop = 15.0 + 2 * h * abs(
      (ratio(top + h) - 2 * ratio(top) + ratio(top - h)) /
      (ratio(top + h) - ratio(top - h)))
  require(abs(lo - top) < dtop or (lo > top and at_limit(lo) < tol_at(lo)),
          'lower end of the range', lo=lo, empty_ballonet=top,
          sp=_sp_at(s, atm, lo))
  require(abs(hi - floor) < 1e-3 or at_limit(hi) < tol_at(hi),
          'upper end of the range', hi=hi, floor=floor, sp=_sp_at(s, atm, hi))
  if hi == floor or abs(hi - floor) < 1e-6:
    sp = _sp_at(s, atm, floor)     # Not interpolated.
    require(250 - 1e-3 <= sp <= mx - 250 + 1e-3, 'the floor is not safe', sp=sp)
  ctx.label('lower end at the empty ballonet', abs(lo - top) < dtop)
  ctx.label('upper end at the floor', abs(hi - floor) < 1e-3)
  ctx.nontrivial(abs(lo - top) >= dtop or abs(hi - floor) >= 1e-3)
