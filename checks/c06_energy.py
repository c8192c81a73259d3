"""C06: energy accounting along flights."""

from vlib import ble
from vlib import stepping
from vlib import voyage
from vlib.core import require, require_close, sub

from ref import physics


@sub('C06', 'voyage', lambda: voyage.cases(), quick=24, thorough=1500,
     case_timeout=600, rule='flights of up to 400 steps in the arena and the environment: '
     'energy by the reference; non-trivial: over a hundred steps')
@sub('C06', 'history', lambda: stepping.histories(1, 6), quick=800,
     thorough=40000,
     rule='flight histories: solar, load, compressor power and charge against '
     'the reference for every stride; non-trivial: the charge changed and was '
     'not clipped')
def history(case, ctx):
  for step, b in stepping.run(case, ctx):
    if step.solar_limit:
      ctx.label('stopped: sun at a table limit')
      return
    a, w = step.after, step.want
    stepping.compare(step, ['acs_w', 'solar_w', 'load_w', 'charge_wh'])
    require(0.0 <= a['charge_wh'] <= a['capacity_wh'] * (1 + 1e-12),
            'charge outside [0, capacity]', charge=a['charge_wh'])
    soc = float(b.state.battery_soc)
    require_close(soc, a['charge_wh'] / a['capacity_wh'], 'state of charge')
    require(0.0 <= soc <= 1.0 + 1e-12, 'state of charge outside [0, 1]')
    if step.effective != physics.DOWN:
      require(a['acs_w'] == 0.0, 'compressor runs without a descent')
    else:
      require(100.0 - 1e-9 <= a['acs_w'] <= 400.0 + 1e-9,
              'compressor power outside the table', got=a['acs_w'])
    day = a['solar_w'] > 0
    ctx.label('day' if day else 'night')
    ctx.label('compressor on', a['acs_w'] > 0)
    ctx.label('full battery', a['charge_wh'] == a['capacity_wh'])
    ctx.label('empty battery', a['charge_wh'] == 0)
    # Conservation over the whole outer step, unless the battery clipped.
    total = sum(sol - load for _, sol, load, _ in step.charges)
    clipped = any(not 0 < c[3] < a['capacity_wh'] for c in step.charges)
    if not clipped:
      require_close(a['charge_wh'] - step.before['charge_wh'],
                    total * step.stride / 3600.0, 'energy balance', rel=1e-6,
                    abs_=1e-6)
      ctx.nontrivial(a['charge_wh'] != step.before['charge_wh'])
    del w
