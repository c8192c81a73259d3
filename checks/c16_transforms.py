"""C16: the feature rescaling functions."""

import math

from hypothesis import strategies as st
from vlib import gen
from vlib.core import require, require_array_close, require_close
from vlib.core import require_raises, sub

from balloon_learning_environment.utils import transforms as tr
import numpy as np

X = lambda: st.one_of(gen.uf(-1e4, 1e4), gen.uf(-2, 2))


@sub('C16', 'linear', lambda: st.fixed_dictionaries(dict(
    x=X(), y=X(), lo=X(), span=st.one_of(gen.uf(1e-3, 1e4), gen.uf(0.1, 2)),
    arr=st.lists(X(), min_size=1, max_size=5))), quick=5000, thorough=200000,
     rule='linear rescaling maps the interval to [0, 1], extrapolates, '
     'saturates, keeps order and is undone; non-trivial: x is outside the '
     'interval')
def linear(case, ctx):
  lo, hi, x, y = case['lo'], case['lo'] + case['span'], case['x'], case['y']
  if not hi > lo:
    return
  f, g = tr.linear_rescale_with_extrapolation, tr.linear_rescale_with_saturation
  want = (x - lo) / (hi - lo)
  scale = 1e-9 * (1 + abs(want))
  require_close(f(x, lo, hi), want, 'rescale', rel=1e-9)
  require_close(f(lo, lo, hi), 0.0, 'lower end')
  require_close(f(hi, lo, hi), 1.0, 'upper end')
  require_close(tr.undo_linear_rescale_with_extrapolation(
      f(x, lo, hi), lo, hi), x, 'round trip', rel=1e-9,
                abs_=1e-9 * (abs(lo) + abs(hi) + abs(x) + 1))
  require_close(f(tr.undo_linear_rescale_with_extrapolation(want, lo, hi), lo,
                  hi), want, 'round trip', rel=1e-6,
                abs_=1e-9 * (abs(lo) + abs(hi)) / case['span'] + scale)
  sat = g(x, lo, hi)
  require(isinstance(sat, float) and 0.0 <= sat <= 1.0, 'saturation', got=sat)
  require_close(sat, min(1.0, max(0.0, want)), 'saturated value', rel=1e-9)
  if x <= y:
    require(f(x, lo, hi) <= f(y, lo, hi) and g(x, lo, hi) <= g(y, lo, hi),
            'order')
  a = np.array(case['arr'])
  require_array_close(f(a, lo, hi), (a - lo) / (hi - lo), 'array', rel=1e-9)
  require_raises(ValueError, lambda: f(x, hi, lo), 'reversed interval')
  require_raises(ValueError, lambda: f(x, lo, lo), 'empty interval')
  require_raises(ValueError, lambda: g(x, lo, lo), 'empty interval')
  require_raises(ValueError, lambda: g(x, hi, lo), 'reversed interval')
  for b in ((hi, lo), (lo, lo)):
    require_raises(ValueError, lambda b=b:
                   tr.undo_linear_rescale_with_extrapolation(x, *b),
                   'bad interval')
  ctx.nontrivial(not lo <= x <= hi)
  ctx.label('inside', lo <= x <= hi)


@sub('C16', 'squash', lambda: st.fixed_dictionaries(dict(
    x=st.one_of(gen.uf(0, 1e4), gen.uf(0, 2)), y=gen.uf(0, 1e4),
    c=st.one_of(gen.uf(1e-3, 1e3), gen.uf(0.5, 200)), neg=gen.uf(1e-9, 1e4),
    z=gen.uf(0, 0.999999), arr=st.lists(gen.uf(0, 1e4), min_size=1,
                                        max_size=5), at=st.integers(0, 4))),
     quick=5000, thorough=200000,
     rule='squashing maps non-negative values into [0, 1) in order, half at '
     'the constant, is undone, and rejects what it must; non-trivial: x > 0')
def squash(case, ctx):
  x, y, c = case['x'], case['y'], case['c']
  f, g = tr.squash_to_unit_interval, tr.undo_squash_to_unit_interval
  v = f(x, c)
  require(0 <= v < 1 or x > 1e9 * c, 'range', got=v)
  require_close(v, x / (x + c), 'squash', rel=1e-12)
  require_close(f(c, c), 0.5, 'half at the constant')
  require(f(0.0, c) == 0.0, 'zero')
  if x <= y:
    require(f(x, c) <= f(y, c), 'order')
  require_close(g(v, c), x, 'round trip', rel=1e-6 + 1e-15 * (x + c)**2 / c / (
      x + 1e-30), abs_=1e-9)
  z = case['z']
  require_close(f(g(z, c), c), z, 'round trip', rel=1e-9)
  a = np.array(case['arr'])
  require_array_close(f(a, c), a / (a + c), 'array', rel=1e-12)
  n = case['neg']
  require_raises(ValueError, lambda: f(-n, c), 'negative value')
  a[case['at'] % len(a)] = -n
  require_raises(ValueError, lambda: f(a, c), 'negative value in an array')
  for bad in (0.0, -n):
    require_raises(ValueError, lambda bad=bad: f(x, bad), 'bad constant')
    require_raises(ValueError, lambda bad=bad: g(z, bad), 'bad constant')
  for bad in (-n, 1.0, 1.0 + n):
    require_raises(ValueError, lambda bad=bad: g(bad, c), 'outside [0, 1)')
  ctx.nontrivial(x > 0)
