"""C13: solar power, shadowing, attenuation and the thermal balance."""

import math

from hypothesis import strategies as st
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import thermal
from ref import physics

EL = lambda: st.one_of(gen.uf(-90, 90), gen.uf(-6, 10), gen.near(
    [-4.242, 0, physics.shadow_limit(3.3), physics.shadow_limit(2.7)], 0.5))
PRESSURE = lambda: st.one_of(gen.uf(0, 101325), gen.uf(4000, 15000))


@sub('C13', 'power', lambda: st.fixed_dictionaries(dict(
    el=EL(), el2=EL(), p=PRESSURE(), p2=PRESSURE(), panel=gen.uf(0.1, 20))),
     quick=6000, thorough=300000,
     rule='attenuation, shadow and panel power against the reference and their '
     'monotonicity; non-trivial: the sun is up')
def power(case, ctx):
  el, p, panel = case['el'], case['p'], case['panel']
  at = float(solar.solar_atmospheric_attenuation(el, p))
  require(0.0 <= at <= 1.0, 'attenuation outside [0, 1]', got=at)
  if abs(el - physics.MIN_EL) > 1e-9:
    require_close(at, physics.attenuation(el, p), 'attenuation', rel=1e-9)
  # More sun and less air never attenuate more.
  lo, hi = sorted([el, case['el2']])
  require(float(solar.solar_atmospheric_attenuation(lo, p)) <=
          float(solar.solar_atmospheric_attenuation(hi, p)) + 1e-12,
          'attenuation not monotone in elevation', lo=lo, hi=hi)
  lo, hi = sorted([p, case['p2']])
  require(float(solar.solar_atmospheric_attenuation(el, lo)) >=
          float(solar.solar_atmospheric_attenuation(el, hi)) - 1e-12,
          'attenuation not monotone in pressure', lo=lo, hi=hi)
  if abs(el - physics.shadow_limit(panel)) > 1e-9:
    require_close(solar.balloon_shadow(el, panel), physics.shadow(el, panel),
                  'shadow')
  w = float(solar.solar_power(el, p).watts)
  require(w >= 0.0, 'negative solar power', got=w)
  if all(abs(el - l) > 1e-9 for l in (
      physics.MIN_EL, physics.shadow_limit(3.3), physics.shadow_limit(2.7))):
    require_close(w, physics.solar_power(el, p), 'solar power', rel=1e-9)
  if el < physics.MIN_EL - 1e-9:
    require(w == 0.0, 'power below the horizon', got=w)
  ctx.label('up' if el >= physics.MIN_EL else 'down')
  ctx.nontrivial(el >= physics.MIN_EL)


@sub('C13', 'rejects', lambda: st.fixed_dictionaries(dict(
    d=gen.uf(1e-6, 1e4), el=gen.uf(-90, 90), p=gen.uf(0, 101325))),
     quick=500, thorough=5000,
     rule='elevations and pressures out of range are rejected; non-trivial: '
     'always')
def rejects(case, ctx):
  d, el, p = case['d'], case['el'], case['p']
  for f in (solar.solar_atmospheric_attenuation, solar.solar_power):
    for a, b in ((90 + d, p), (-90 - d, p), (el, 101325 + d), (el, -d)):
      require_raises(ValueError, lambda f=f, a=a, b=b: f(a, b), 'out of range',
                     el=a, p=b)
  ctx.nontrivial()


def _thermal():
  return st.fixed_dictionaries(dict(
      vol=gen.uf(800, 3000), mass=gen.uf(40, 120), tb=gen.uf(160, 290),
      ta=gen.uf(180, 260), p=gen.uf(3000, 20000), el=EL(),
      flux=gen.uf(1300, 1430), ir=gen.uf(100, 400), d=gen.uf(0.5, 40)))


@sub('C13', 'thermal', _thermal, quick=5000, thorough=200000,
     rule='heating rate of the envelope against the reference balance, and its '
     'signs: falls with gas temperature, grows with sunlight and upwelling '
     'infrared, inverse to the mass; non-trivial: the sun is up')
def thermal_(case, ctx):
  c = case
  f = lambda **k: float(thermal.d_balloon_temperature_dt(*[
      dict(c, **k)[n] for n in ('vol', 'mass', 'tb', 'ta', 'p', 'el', 'flux',
                                'ir')]))
  got = f()
  if abs(c['el'] - physics.MIN_EL) > 1e-9:
    want = physics.dtemp_dt(c['vol'], c['mass'], c['tb'], c['ta'], c['p'],
                            c['el'], c['flux'], c['ir'])
    require_close(got, want, 'heating rate', rel=1e-7, abs_=1e-12)
  # Each argument on its own, right after the same call with another.
  for n in ('vol', 'mass', 'tb', 'ta', 'p', 'el', 'flux', 'ir'):
    v = dict(c, **{n: c[n] * 0.98})
    if min(abs(v['el'] - physics.MIN_EL), abs(c['el'] - physics.MIN_EL)) > 1e-9:
      f()
      require_close(f(**{n: v[n]}), physics.dtemp_dt(*[
          v[k] for k in ('vol', 'mass', 'tb', 'ta', 'p', 'el', 'flux', 'ir')]),
                    'heating rate after another', rel=1e-7, abs_=1e-12,
                    changed=n)
  require(f(tb=c['tb'] + c['d']) < got, 'hotter gas heats faster')
  require(f(ir=c['ir'] + c['d']) > got, 'more infrared heats less')
  if c['el'] > physics.MIN_EL + 1e-9:
    require(f(flux=c['flux'] + c['d']) > got, 'more sunlight heats less')
    ctx.nontrivial()
  elif c['el'] < physics.MIN_EL - 1e-9:
    require_close(f(flux=c['flux'] + c['d']), got, 'sun below the horizon')
  require_close(f(mass=c['mass'] * 2), got / 2, 'inverse to the mass', rel=1e-9,
                abs_=1e-15)
  ctx.label('heats' if got > 0 else 'cools')


@sub('C13', 'bodies', lambda: st.fixed_dictionaries(dict(
    t=gen.uf(50, 400), a=gen.uf(0, 1), r=gen.uf(0, 0.99), radius=gen.uf(3, 12),
    ta=gen.uf(180, 280), p=gen.uf(1000, 30000))), quick=4000, thorough=100000,
     rule='black-body flux and temperature are inverse, total absorptivity is '
     'the closed form or rejected, convection pulls towards the ambient '
     'temperature; non-trivial: always')
def bodies(case, ctx):
  t = case['t']
  flux = thermal.black_body_temperature_to_flux(t)
  require_close(flux, physics.SIGMA * t**4, 'Stefan-Boltzmann', rel=1e-9)
  require_close(thermal.black_body_flux_to_temperature(flux), t, 'inverse',
                rel=1e-9)
  require_close(thermal.absorptivity_ir(t), physics.absorptivity_ir(t),
                'infrared absorptivity', rel=1e-9)
  a, r = case['a'], case['r']
  want = physics.total_absorptivity(a, r)
  if 1e-9 < want < 1 - 1e-9:
    require_close(thermal.total_absorptivity(a, r), want, 'total absorptivity',
                  rel=1e-9)
    ctx.label('valid')
  elif want < -1e-9 or want > 1 + 1e-9:
    require_raises(ValueError, lambda: thermal.total_absorptivity(a, r),
                   'impossible absorptivity', a=a, r=r)
    ctx.label('rejected')
  q = float(thermal.convective_heat_air_factor(case['radius'], t, case['ta'],
                                               case['p']))
  require_close(q, physics.convective(case['radius'], t, case['ta'], case['p']),
                'convection', rel=1e-8)
  require((q > 0) == (case['ta'] > t) or q == 0, 'convection has wrong sign')
  ctx.nontrivial()
