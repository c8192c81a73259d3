"""C09: the power safety layer."""

import datetime as dt

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib import stepping
from vlib import voyage
from vlib.core import require, sub

from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from ref import physics


def _cases():
  step = st.tuples(
      st.one_of(gen.ui(10, 3600), gen.ui(3600, 4 * 3600), gen.ui(3600, 40000),
                gen.ui(40000, 900000)),
      st.one_of(gen.uf(0, 1), gen.near([0.05, 0.025], 0.02).map(abs),
                st.tuples(st.just('margin'), gen.uf(-0.05, 0.05)).map(list)),
      st.integers(0, 2)).map(list)
  return st.fixed_dictionaries(dict(
      pos=gen.latlngs(59.0), ts=gen.timestamps(),
      night=gen.uf(80, 260), cap=gen.uf(1000, 5000),
      steps=st.lists(step, min_size=1, max_size=25)))


@sub('C09', 'layer', _cases, quick=2500, thorough=100000,
     rule='sequences of times (up to days), charges (also within 5 % of the '
     'critical charge) and commands against the pause automaton; non-trivial: '
     'the layer paused')
def layer(case, ctx):
  pos, t = ble.ll(case['pos']), case['ts']
  rise, fall = (ble.ts(x) for x in solar.get_next_sunrise_sunset(
      pos, ble.utc(t)))
  real = power_safety.PowerSafetyLayer(pos, ble.utc(t))
  ref = physics.PowerLayer(rise, fall)
  night, cap = case['night'], case['cap']
  require(not real.navigation_is_paused, 'a fresh layer pauses')
  for delta, soc, a in case['steps']:
    t += delta
    if isinstance(soc, list):
      # Relative to the charge that is just enough until sunrise.
      nxt = ref.rise
      while t > nxt:
        nxt += 86400.0
      soc = 0.025 + night * (nxt - t) / 3600.0 / cap + soc[1]
      soc = min(max(soc, 0.0), 1.0)
    charge = soc * cap
    nxt = ref.rise
    while t > nxt:
      nxt += 86400.0
    if (abs((charge - night * (nxt - t) / 3600.0) / cap - 0.025) < 1e-9 or
        abs(soc - 0.05) < 1e-12):
      ctx.label('stopped: at a threshold')
      return
    got = real.get_action(ble.CMD[a], ble.utc(t), units.Power(watts=night),
                          units.Energy(watt_hours=charge),
                          units.Energy(watt_hours=cap))
    was = ref.paused
    want = ref.act(a, t, night, charge, cap)
    require(int(got) == want, 'action of the power layer', got=got, want=want,
            command=a, soc=soc, to_sunrise=ref.rise - t, paused=ref.paused)
    require(bool(real.navigation_is_paused) == ref.paused, 'paused',
            got=real.navigation_is_paused, want=ref.paused)
    if a != physics.DOWN:
      require(int(got) == a, 'changed a command that costs no power')
    if ref.paused:
      require(int(got) != physics.DOWN, 'descends while paused')
      ctx.nontrivial()
    ctx.label('paused', ref.paused and not was)
    ctx.label('resumed', was and not ref.paused)
    ctx.label('stays paused by day', was and ref.paused and ref.set < ref.rise)
    ctx.label('overridden', want != a)
    ctx.label('day' if ref.set < ref.rise else 'night')


@sub('C09', 'margin', lambda: st.fixed_dictionaries(dict(
    pos=gen.latlngs(59.0), ts=gen.timestamps(), frac=gen.uf(0.02, 0.98),
    night=gen.uf(80, 260), cap=gen.uf(2000, 5000), eps=gen.uf(1e-6, 0.3))),
     quick=1000, thorough=40000,
     rule='at night, a charge just above (below) what lasts until half an hour '
     'after sunrise with 2.5 % left allows (stops) a descent; non-trivial: '
     'both sides were in range')
def margin(case, ctx):
  pos = ble.ll(case['pos'])
  rise, fall = solar.get_next_sunrise_sunset(pos, ble.utc(case['ts']))
  if fall < rise:
    now = fall + (rise - fall) * case['frac']
  else:
    now = ble.utc(case['ts']) + (rise - ble.utc(case['ts'])) * case['frac']
    if rise - now < dt.timedelta(minutes=1):
      return
  # Ask for a layer at that moment, in the night.
  rise, fall = solar.get_next_sunrise_sunset(pos, now)
  if fall < rise:
    ctx.label('skipped: twilight resolution')
    return
  need = case['night'] * ((rise - now).total_seconds() + 1800.0) / 3600.0
  need = need + 0.025 * case['cap']
  for sign in (1, -1):
    charge = need + sign * case['eps'] * case['cap']
    if not 0 <= charge <= case['cap']:
      continue
    layer_ = power_safety.PowerSafetyLayer(pos, now)
    got = layer_.get_action(
        ble.CMD[0], now, units.Power(watts=case['night']),
        units.Energy(watt_hours=charge), units.Energy(watt_hours=case['cap']))
    require(int(got) == (physics.DOWN if sign > 0 else physics.STAY),
            'descent at night', charge=charge, need=need, got=got)
    ctx.label('enough' if sign > 0 else 'not enough')
    ctx.nontrivial()


@sub('C09', 'flight', lambda: st.fixed_dictionaries(dict(
    h=stepping.histories(2, 12), eps=gen.uf(-0.02, 0.02))), quick=600,
     thorough=20000,
     rule='flight histories whose battery starts near what lasts until sunrise: '
     'pauses and overridden descents of the flying balloon against the pause '
     'automaton fed with its night load and charge; non-trivial: the layer '
     'paused or it is a night in which it narrowly did not')
def flight(case, ctx):
  h = case['h']
  base = dict(h['b']['base'])
  s = ble.build_perturbed(h['b'])
  rise, fall = solar.get_next_sunrise_sunset(s.latlng, s.date_time)
  if rise < fall:
    need = (s.nighttime_power_load.watts * (
        (rise - s.date_time).total_seconds() + 1800.0) / 3600.0 /
            s.battery_capacity.watt_hours)
    base['soc'] = min(1.0, max(0.0, need + 0.025 + case['eps']))
  h = dict(h, power_layer=True, b=dict(h['b'], base=base), bias=0)
  obeys(stepping.run(h, ctx), ctx)
  ctx.nontrivial(rise < fall)
  ctx.label('night', rise < fall)


def obeys(steps, ctx):
  """Steps of a flight follow the automaton."""
  for step, b in steps:
    lay, a = step.layers, step.after
    require(bool(b.state.power_safety_layer.navigation_is_paused) ==
            lay.power.paused, 'power layer paused',
            want=lay.power.paused, charge=step.before['charge_wh'],
            night_w=step.before['night_w'])
    if lay.power.paused:
      require(a['acs_w'] == 0.0, 'air is pumped in while paused')
      require(bool(b.state.navigation_is_paused), 'navigation_is_paused')
      ctx.label('descent prevented', step.action == physics.DOWN)
    if step.effective == physics.DOWN:
      require(a['acs_w'] > 0.0, 'a descent was not carried out')
    ctx.label('paused', lay.power.paused)
    ctx.nontrivial(lay.power.paused)


@sub('C09', 'voyage', lambda: voyage.cases(900), quick=16, thorough=1000,
     case_timeout=900, rule='flights of up to 900 steps in the arena and the '
     'environment, with batteries of any charge: pauses and overridden '
     'descents against the automaton; non-trivial: over a hundred steps')
def long_flight(case, ctx):
  obeys(voyage.run(case, ctx), ctx)
