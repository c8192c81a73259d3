"""C14: altitude control compressor and power tables."""

import bisect

from hypothesis import strategies as st
from vlib import gen
from vlib.core import require, require_close, require_raises, sub

from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import power_table
from balloon_learning_environment.utils import units
from ref import physics
from ref import tables

RATIOS, TABLE = tables.RATIOS, tables.TABLE


@sub('C14', 'compressor', lambda: st.fixed_dictionaries(dict(
    ratio=st.one_of(gen.uf(1.0, 1.45), gen.near(physics.POWER_X, 0.02),
                    gen.uf(0.9, 3.0)),
    watts=st.one_of(gen.uf(100, 400), gen.uf(0, 600)))), quick=6000,
     thorough=300000,
     rule='compressor power, fan efficiency and mass flow against the tables '
     '(linear and bilinear interpolation); non-trivial: inside the table')
def compressor(case, ctx):
  r, w = case['ratio'], case['watts']
  p = acs.get_most_efficient_power(r)
  require_close(p.watts, physics.acs_power(r), 'compressor power', rel=1e-9)
  if r >= 1.0:
    require(100.0 - 1e-9 <= float(p.watts) <= 400.0 + 1e-9,
            'compressor power out of range', got=p.watts)
  e = acs.get_fan_efficiency(r, units.Power(watts=w))
  require_close(e, physics.fan_efficiency(r, w), 'fan efficiency', rel=1e-8,
                abs_=1e-9)
  require(0.0 <= e <= 0.4 + 1e-9, 'efficiency out of range', got=e)
  best = acs.get_fan_efficiency(r, p)
  require_close(best, physics.fan_efficiency(r, physics.acs_power(r)),
                'efficiency at the chosen power', rel=1e-8, abs_=1e-9)
  require(best > 0.0, 'no air is moved at the chosen power', ratio=r)
  require_close(acs.get_mass_flow(units.Power(watts=w), e), e * w / 3600.0,
                'mass flow', rel=1e-12)
  ctx.nontrivial(1.05 < r < 1.35 and 100 < w < 400)
  ctx.label('chosen power below 400 W', physics.acs_power(r) < 400)


@sub('C14', 'lookup', lambda: st.fixed_dictionaries(dict(
    ratio=st.one_of(gen.uf(0.99, 1.4), gen.uf(0.99, 5.0),
                    st.sampled_from(RATIOS + [0.99, 5.0])),
    soc=st.one_of(gen.uf(0, 1), st.sampled_from(
        [0.3, 0.4, 0.5, 0.6, 0.7])), soc2=gen.uf(0, 1))), quick=5000,
     thorough=200000,
     rule='the power table, its interval ends and that more charge never '
     'means less power; non-trivial: non-zero power')
def lookup(case, ctx):
  r, s = case['ratio'], case['soc']
  got = power_table.lookup(r, s)
  lims, vals = TABLE[bisect.bisect_right(RATIOS, r)]
  require(got == vals[bisect.bisect_right(lims, s)], 'power table', ratio=r,
          soc=s, got=got, want=vals[bisect.bisect_right(lims, s)])
  lo, hi = sorted([s, case['soc2']])
  require(power_table.lookup(r, lo) <= power_table.lookup(r, hi),
          'more charge, less power', ratio=r, lo=lo, hi=hi)
  ctx.nontrivial(got > 0)
  ctx.label('at an interval end', r in RATIOS or s in lims)


@sub('C14', 'rejects', lambda: gen.uf(1e-9, 10), quick=200, thorough=2000,
     rule='pressure ratios outside [0.99, 5] are rejected; non-trivial: always')
def rejects(case, ctx):
  for r in (0.99 - case, 5.0 + case):
    require_raises((AssertionError, ValueError),
                   lambda r=r: power_table.lookup(r, 0.5), 'ratio', ratio=r)
  ctx.nontrivial()
