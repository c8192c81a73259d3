"""C05: vertical motion, gas temperatures, volume and superpressure."""

import math

from hypothesis import strategies as st
from vlib import gen
from vlib import stepping
from vlib import voyage
from vlib.core import require, require_close, sub

from balloon_learning_environment.env.balloon import balloon
from ref import physics

FIELDS = ['pressure', 'ambient_temperature', 'internal_temperature',
          'mols_air', 'envelope_volume', 'superpressure']
CONSTS = physics.CONSTS + ['night_w', 'day_w', 'valve_m', 'capacity_wh']


@sub('C05', 'voyage', lambda: voyage.cases(), quick=24, thorough=1500,
     case_timeout=600, rule='flights of up to 400 steps in the arena and the environment: '
     'vertical motion by the Euler model; non-trivial: over a hundred steps')
@sub('C05', 'history', lambda: stepping.histories(1, 6), quick=800,
     thorough=40000,
     rule='flight histories of 1-6 outer steps of 1-18 strides from generated '
     'states (also off equilibrium, custom vehicles) against the independent '
     'Euler model; non-trivial: the pressure moved by more than 1 Pa or the '
     'ballonet changed')
def history(case, ctx):
  for step, _ in stepping.run(case, ctx):
    if step.solar_limit:
      ctx.label('stopped: sun at a table limit')
      return
    stepping.compare(step, FIELDS)
    for c in CONSTS:
      require(step.after[c] == step.before[c], f'constant {c} changed')
    ctx.label(f'effective action {step.effective}')
    ctx.label('command overridden', step.effective != step.action)
    ctx.label('ballonet empty', step.after['mols_air'] == 0)
    ctx.label('ended ' + step.after['status'], step.after['status'] != 'OK')
    ctx.label('balanced to the last digits', step.equilibrium)
    ctx.nontrivial(abs(step.after['pressure'] - step.before['pressure']) > 1 or
                   step.after['mols_air'] != step.before['mols_air'])


@sub('C05', 'volume', lambda: st.fixed_dictionaries(dict(
    gas=gen.uf(4000, 9000), air=gen.uf(0, 6000), t=gen.uf(170, 300),
    p=gen.uf(2000, 20000), v0=gen.uf(1000, 3000), dv=gen.uf(0.002, 0.08))),
     quick=8000, thorough=400000,
     rule='ideal gas law and envelope law of calculate_superpressure_and_volume'
     '; non-trivial: the envelope is fully inflated')
def volume(case, ctx):
  c = case
  v, sp = balloon.calculate_superpressure_and_volume(
      c['gas'], c['air'], c['t'], c['p'], c['v0'], c['dv'])
  nrt = (c['gas'] + c['air']) * physics.R * c['t']
  require(v > 0 and sp >= 0, 'sign', v=v, sp=sp)
  # Ideal gas at internal pressure, whatever the inflation.
  require_close(v * (c['p'] + sp), nrt, 'ideal gas law', rel=1e-9)
  if nrt / c['p'] <= c['v0'] * (1 - 1e-12):
    require(sp == 0, 'superpressure while not fully inflated', sp=sp)
  elif nrt / c['p'] > c['v0'] * (1 + 1e-12):
    ctx.nontrivial()
    require_close(v, c['v0'] + c['dv'] * sp, 'envelope stretch', rel=1e-9)
    ctx.label('inflated')
  # More gas, more heat or less outside pressure never lowers superpressure.
  for k, f in (('air', 1.02), ('t', 1.01), ('p', 0.98)):
    d = dict(c)
    d[k] = c[k] * f + (1 if k == 'air' else 0)
    _, sp2 = balloon.calculate_superpressure_and_volume(
        d['gas'], d['air'], d['t'], d['p'], d['v0'], d['dv'])
    require(sp2 >= sp - 1e-6, f'superpressure not monotone in {k}', sp=sp,
            sp2=sp2)


@sub('C05', 'direction', lambda: stepping.histories(1, 4, (1, 10)), quick=400,
     thorough=10000,
     rule='sign of motion: pressure falls iff buoyancy exceeds weight, venting '
     'never adds air, pumping never removes it; non-trivial: always')
def direction(case, ctx):
  case = dict(case, steps=[[a, u, v, 1, bb] for a, u, v, _, bb in
                           case['steps']])
  for step, _ in stepping.run(case, ctx):
    b, g = step.before, step.after
    rho = b['pressure'] * physics.M_AIR / (
        physics.R * b['ambient_temperature'])
    mass = (physics.M_HE * b['mols_lift_gas'] + physics.M_AIR * b['mols_air'] +
            b['envelope_mass'] + b['payload_mass'])
    net = rho * b['envelope_volume'] / mass - 1
    if net > 1e-9:
      require(g['pressure'] < b['pressure'], 'lighter than air must climb')
    elif net < -1e-9:
      require(g['pressure'] > b['pressure'], 'heavier than air must sink')
    d_air = g['mols_air'] - b['mols_air']
    require(g['mols_air'] >= 0, 'negative air')
    if step.effective == physics.UP:
      require(d_air <= 0 and g['acs_mass_flow'] <= 0, 'venting added air')
    elif step.effective == physics.DOWN:
      require(d_air >= 0 and g['acs_mass_flow'] >= 0, 'pumping removed air')
    else:
      require(d_air == 0 and g['acs_mass_flow'] == 0, 'stay moved air')
    ctx.nontrivial()
    ctx.label('climbs' if net > 0 else 'sinks')
