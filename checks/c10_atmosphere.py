"""C10: the atmosphere model."""

from hypothesis import strategies as st
from vlib import ble
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import jax
from ref import physics


def _heights():
  return st.one_of(
      gen.uf(-610, 84999.0), gen.uf(12e3, 25e3),
      gen.near(physics.HEIGHTS[1:-1], 50.0))


@sub('C10', 'profile', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), hs=st.lists(_heights(), min_size=2, max_size=8),
    other=gen.seeds())),
     quick=1500, thorough=60000,
     rule='temperature, pressure and density at generated heights of seeded '
     'atmospheres against the layered reference, and height-pressure-height '
     'round trips; non-trivial: always')
def profile(case, ctx):
  atm = standard_atmosphere.Atmosphere(jax.random.PRNGKey(case['seed']))
  alpha = physics.recover_alpha(
      float(atm.at_height(units.Distance(m=17000.0 - 1e-6)).temperature))
  require(-1e-6 <= alpha <= 1 + 1e-6, 'lapse rates outside the documented band',
          alpha=alpha)
  ref = physics.Atmosphere(alpha)
  rows = []
  other = standard_atmosphere.Atmosphere(jax.random.PRNGKey(case['other']))
  ref2 = physics.Atmosphere(physics.recover_alpha(
      float(other.at_height(units.Distance(m=17000.0 - 1e-6)).temperature)))
  for h in sorted(case['hs']):
    # Right after the same questions to another atmosphere.
    o = other.at_height(units.Distance(m=h))
    require_close(o.pressure, ref2.at_height(h)['pressure'], 'other atmosphere',
                  rel=1e-7)
    a = atm.at_height(units.Distance(m=h))
    r = ref.at_height(h)
    require_close(a.height.meters, h, 'height', rel=1e-12, abs_=1e-9)
    require_close(a.temperature, r['temperature'], 'temperature', rel=1e-8)
    require_close(a.pressure, r['pressure'], 'pressure', rel=1e-7)
    require_close(a.density, r['density'], 'density', rel=1e-7)
    require_close(a.density * physics.R_AIR * float(a.temperature), a.pressure,
                  'ideal gas law', rel=1e-6)
    # The lookup by pressure is the inverse of the lookup by height.
    p = float(a.pressure)
    if ref2.p[-1] < p < ref2.p[0]:
      require_close(other.at_pressure(p).temperature,
                    ref2.at_pressure(p)['temperature'], 'other atmosphere',
                    rel=1e-7)
    b = atm.at_pressure(p)
    require_close(b.height.meters, h, 'height of the pressure at a height',
                  rel=0, abs_=1e-3)
    require_close(b.temperature, a.temperature, 'temperature by pressure',
                  rel=1e-7)
    require_close(b.pressure, p, 'pressure by pressure', rel=1e-12)
    require_close(b.density, a.density, 'density by pressure', rel=1e-7)
    rows.append((h, p))
    for i in range(7):
      if physics.HEIGHTS[i] <= h < physics.HEIGHTS[i + 1]:
        ctx.label(f'layer {i}')
  for (h0, p0), (h1, p1) in zip(rows, rows[1:]):
    if h1 > h0 + 1e-6:
      require(p1 < p0, 'pressure does not fall with height', h0=h0, h1=h1)
  ctx.nontrivial()


@sub('C10', 'seeding', lambda: st.fixed_dictionaries(dict(
    a=gen.seeds(), b=gen.seeds(), h=gen.uf(0, 30e3),
    p=gen.uf(1200, 60e3), after=st.booleans())), quick=500,
     thorough=10000,
     rule='equal keys give equal atmospheres, also through reset of one that '
     'was used for the same queries before; non-trivial: the two keys differ')
def seeding(case, ctx):
  h = units.Distance(m=case['h'])
  mk = lambda s: standard_atmosphere.Atmosphere(jax.random.PRNGKey(s))
  one, two = mk(case['a']), mk(case['b'])
  want_a, want_b = (float(x.at_height(h).pressure) for x in (one, two))
  require(float(mk(case['a']).at_height(h).pressure) == want_a,
          'same key, different atmosphere')
  p = case['p']
  if case['after']:  # Used before its reset.
    one.at_pressure(p)
    one.at_height(h)
  one.reset(jax.random.PRNGKey(case['b']))
  require(float(one.at_height(h).pressure) == want_b,
          'reset differs from construction')
  for what in ('temperature', 'density', 'pressure'):
    for x, y in ((one.at_height(h), two.at_height(h)),
                 (one.at_pressure(p), two.at_pressure(p))):
      require(float(getattr(x, what)) == float(getattr(y, what)),
              'reset differs from construction', what=what)
  require(float(one.at_pressure(p).height.meters) ==
          float(two.at_pressure(p).height.meters),
          'reset differs from construction (by pressure)')
  if case['a'] != case['b']:
    ctx.nontrivial()
    ctx.label('atmospheres differ', want_a != want_b)


@sub('C10', 'variety', lambda: st.fixed_dictionaries(dict(first=gen.seeds())),
     quick=8, thorough=100, blocks=8,
     rule='120 consecutive keys spread over the whole band of lapse rates; '
     'non-trivial: always')
def variety(case, ctx):
  al = []
  for k in range(120):
    atm = ble.atmosphere(case['first'] + k)
    al.append(physics.recover_alpha(
        float(atm.at_height(units.Distance(m=17000.0 - 1e-6)).temperature)))
  require(min(al) < 0.3 and max(al) > 0.7, 'atmospheres do not vary',
          lo=min(al), hi=max(al))
  ctx.nontrivial()


@sub('C10', 'range', lambda: st.fixed_dictionaries(dict(
    seed=gen.seeds(), d=gen.uf(1e-3, 1e5))), quick=400, thorough=5000,
     rule='heights and pressures outside the model are rejected; non-trivial: '
     'always')
def range_(case, ctx):
  atm = ble.atmosphere(case['seed'])
  ref = ble.ref_atmosphere(atm)
  err = (AssertionError, ValueError)
  d = case['d']
  require_raises(err, lambda: atm.at_height(units.Distance(m=-610.0 - d)),
                 'below the model')
  require_raises(err, lambda: atm.at_height(units.Distance(m=85000.0 + d)),
                 'above the model')
  require_raises(err, lambda: atm.at_height(units.Distance(m=85000.0)),
                 'above the model')
  require_raises(err, lambda: atm.at_pressure(108870.8213 + d),
                 'pressure above the model')
  require_raises(err, lambda: atm.at_pressure(ref.p[-1] * (1 - 1e-6) - d),
                 'pressure below the model')
  ctx.nontrivial()
