"""Core types: sub-checks, case contexts and the registry.

A *sub-check* decides (part of) one property.  It has a Hypothesis strategy that
builds JSON-serialisable cases and a function `check(case, ctx)` that evaluates
one case against the code in /repo and raises on a violation.  Every random
choice is inside the case, so a case alone is a complete reproduction.
"""

import hashlib
import json
import math


class Violation(AssertionError):
  """The code under test broke the property for this case."""


class HarnessError(Exception):
  """Something is wrong with the harness; never reported as a violation."""


class Ctx:
  """Collects what one case exercised."""

  def __init__(self):
    self.labels = set()
    self.is_nontrivial = False
    self.knowns = []

  def label(self, name, cond=True):
    if cond:
      self.labels.add(str(name))

  def nontrivial(self, cond=True):
    if cond:
      self.is_nontrivial = True

  def known(self, finding_id, detail):
    """The case hit the listed known finding `finding_id` (exactly)."""
    self.knowns.append((finding_id, detail))


class Sub:

  def __init__(self, prop, name, strategy, fn, quick, thorough, rule,
               blocks=8, case_timeout=240, cases=None):
    self.prop, self.name = prop, name
    self.strategy, self.fn = strategy, fn
    self.quick, self.thorough = quick, thorough
    self.rule = rule
    self.blocks = blocks
    self.case_timeout = case_timeout
    self.cases = cases


REGISTRY = {}


def sub(prop, name, strategy=None, quick=100, thorough=None, rule='', blocks=8,
        case_timeout=240, cases=None):
  """Registers a sub-check.

  Args:
    prop: the property id.
    name: unique name within the property.
    strategy: zero-argument callable returning a Hypothesis strategy.
    quick: number of cases in the quick tier.
    thorough: number of cases in the thorough tier.
    rule: how cases are made and what makes one non-trivial.
    blocks: into how many independently seeded blocks the cases are split.
    case_timeout: seconds after which one case counts as not terminating.
    cases: instead of a strategy, a zero-argument callable returning the
      finite list of cases to be enumerated.
  """
  def deco(fn):
    s = Sub(prop, name, strategy, fn, quick,
            thorough if thorough is not None else quick * 20, rule, blocks,
            case_timeout, cases)
    d = REGISTRY.setdefault(prop, {})
    if name in d:
      raise HarnessError(f'duplicate sub-check {prop}.{name}')
    d[name] = s
    return fn
  return deco


def canon(case):
  return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(case):
  return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- assertions


def require(cond, msg='', **kw):
  if not cond:
    extra = ' '.join(f'{k}={v!r}' for k, v in kw.items())
    raise Violation(f'{msg} {extra}'.strip())


def close(a, b, rel=1e-9, abs_=1e-9):
  a, b = float(a), float(b)
  if a == b:
    return True
  if math.isnan(a) or math.isnan(b):
    return math.isnan(a) and math.isnan(b)
  return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


def require_close(a, b, msg='', rel=1e-9, abs_=1e-9, **kw):
  if not close(a, b, rel, abs_):
    extra = ' '.join(f'{k}={v!r}' for k, v in kw.items())
    raise Violation(f'{msg}: got {float(a)!r}, expected {float(b)!r} {extra}')


def require_array_close(a, b, msg='', rel=1e-9, abs_=1e-9):
  import numpy as np
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    raise Violation(f'{msg}: shape {a.shape} != {b.shape}')
  ok = np.isclose(a, b, rtol=rel, atol=abs_, equal_nan=True)
  if not ok.all():
    i = tuple(int(x) for x in np.argwhere(~ok)[0])
    raise Violation(f'{msg}: at {i}: got {a[i]!r}, expected {b[i]!r} '
                    f'({int((~ok).sum())} of {ok.size} differ)')


def require_raises(exc, fn, msg='', **kw):
  try:
    r = fn()
  except exc:
    return
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f'{msg}: raised {type(e).__name__}({e}) instead of {exc} '
                    f'{kw}') from e
  raise Violation(f'{msg}: returned {r!r} instead of raising {exc} {kw}')
