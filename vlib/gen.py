"""Generator helpers (all Hypothesis strategies of JSON-serialisable values).

Hypothesis' wide integer ranges are strongly biased towards small values, so
even spreads are built from fixed-size binary strings instead.
"""

from hypothesis import strategies as st


def bits(nbytes=4):
  """Evenly spread non-negative integers below 256**nbytes."""
  return st.binary(min_size=nbytes, max_size=nbytes).map(
      lambda b: int.from_bytes(b, 'big'))


def uf(lo, hi, edges=True):
  """Floats spread evenly over [lo, hi], with extra weight on the end points."""
  lo, hi = float(lo), float(hi)
  even = bits(3).map(
      lambda k: min(hi, max(lo, lo + (hi - lo) * (k / 0xffffff))))
  if not edges:
    return even
  return st.one_of(even, even, even, even, even, even, st.floats(lo, hi),
                   st.sampled_from([lo, hi]))


def ui(lo, hi):
  """Integers spread evenly over [lo, hi]."""
  return bits(6).map(lambda k: lo + k * (hi - lo + 1) // 2**48)


def near(values, spread):
  """Floats at or close to one of `values`."""
  return st.tuples(
      st.sampled_from([float(v) for v in values]),
      st.one_of(st.sampled_from([0.0, 1e-9, -1e-9, 1e-3, -1e-3]),
                uf(-spread, spread))).map(lambda t: t[0] + t[1])


def seeds():
  return st.one_of(ui(0, 2**31 - 1), st.integers(0, 20))


def wide_seeds():
  """Also seeds such as a clock gives, beyond 32 bits."""
  return st.one_of(seeds(), seeds(), ui(0, 2**53))


# Unix times, 2000-2037 with emphasis on the years BLE uses.
def timestamps(lo=946684800, hi=2145916800):
  return st.one_of(ui(1293840000, 1420070399), ui(lo, hi))


def latlngs(max_lat=89.0):
  return st.tuples(uf(-max_lat, max_lat), uf(-180, 180)).map(list)
