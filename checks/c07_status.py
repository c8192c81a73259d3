"""C07: how flights end."""

import datetime as dt

from vlib import ble
from vlib import gen
from vlib import stepping
from vlib import voyage
from vlib.core import require, sub
from hypothesis import strategies as st

from balloon_learning_environment.env.balloon import balloon


def _deadly():
  """Histories biased towards bursting, zero pressure and an empty battery."""
  return st.tuples(stepping.histories(1, 8), st.sampled_from(
      ['burst', 'zero', 'power', 'any']), gen.uf(0, 1)).map(_bias)


def _bias(t):
  case, kind, x = t
  b = dict(case['b'], stable=False, custom=True)
  if kind == 'burst':
    b.update(dT=8 + 16 * x, dair=300 + 400 * x, maxsp=1500 + 500 * x)
  elif kind == 'zero':
    b.update(dT=-5 - 20 * x, dair=-200 - 500 * x)
  elif kind == 'power':
    b['base'] = dict(b['base'], soc=0.003 * x)
    case = dict(case, power_layer=False)
  return dict(case, b=b)


@sub('C07', 'voyage', lambda: voyage.cases(), quick=24, thorough=1500,
     case_timeout=600, rule='flights of up to 400 steps in the arena and the environment: '
     'status by superpressure and charge; non-trivial: over a hundred steps')
@sub('C07', 'history', _deadly, quick=800, thorough=40000,
     rule='flight histories biased towards failures: the status after every '
     'step follows from superpressure and charge, motion stops at the stride '
     'that ends the flight, an ended flight cannot be stepped; non-trivial: '
     'the flight ended')
def history(case, ctx):
  for step, b in stepping.run(case, ctx):
    a, w = step.after, step.want
    if step.solar_limit or step.equilibrium:
      return
    allowed = set()
    if a['superpressure'] > a['envelope_max_superpressure']:
      allowed.add('BURST')
    if a['superpressure'] <= 0:
      allowed.add('ZEROPRESSURE')
    if a['charge_wh'] <= 0:
      allowed.add('OUT_OF_POWER')
    allowed = allowed or {'OK'}
    require(a['status'] in allowed, 'status does not follow from the state',
            got=a['status'], allowed=sorted(allowed),
            superpressure=a['superpressure'], charge=a['charge_wh'])
    require((a['status'] == 'OK') == (w['status'] == 'OK'),
            'flight ended at another time than the dynamics say',
            got=a['status'], want=w['status'])
    require(abs(a['elapsed'] - step.before['elapsed'] -
                step.inner * step.stride) < 1e-6,
            'simulated past the end of the flight',
            elapsed=a['elapsed'] - step.before['elapsed'],
            want=step.inner * step.stride)
    ctx.label('ended ' + a['status'], a['status'] != 'OK')
    if a['status'] != 'OK':
      ctx.nontrivial()
      for cmd in (0, 1, 2):
        try:
          b.simulate_step(stepping.wind(3, 4), ble.atmosphere(0), ble.CMD[cmd],
                          dt.timedelta(seconds=step.stride),
                          dt.timedelta(seconds=step.stride))
        except Exception:  # pylint: disable=broad-except
          pass
        else:
          require(False, 'an ended flight was stepped', status=a['status'])
        now = ble.state_dict(b.state)
        for k in a:
          if k != 'last_command':
            require(now[k] == a[k], f'{k} changed by stepping an ended flight')


@sub('C07', 'fresh', ble.balloon_cases, quick=300, thorough=5000,
     rule='a balloon initialised in its accessible range is OK and survives '
     'its first step; non-trivial: always')
def fresh(case, ctx):
  s = ble.build_state(case)
  require(s.status == balloon.BalloonStatus.OK, 'fresh balloon not OK')
  ctx.nontrivial()
