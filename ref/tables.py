"""The documented power table: compressor watts by pressure ratio and charge."""

import bisect

RATIOS = [1.08, 1.11, 1.14, 1.17, 1.2, 1.23, 1.26]
TABLE = [
    ([0.3, 0.4, 0.5], [0, 150, 175, 200]),
    ([0.3, 0.4, 0.7], [0, 200, 200, 225]),
    ([0.3, 0.4, 0.6], [0, 225, 225, 250]),
    ([0.3, 0.4, 0.5], [0, 200, 225, 250]),
    ([0.3, 0.4, 0.5], [0, 225, 250, 275]),
    ([0.4, 0.5], [0, 275, 300]),
    ([0.5, 0.6], [0, 300, 325]),
    ([0.5, 0.6], [0, 325, 350]),
]


def power(ratio, soc):
  lims, vals = TABLE[bisect.bisect_right(RATIOS, ratio)]
  return vals[bisect.bisect_right(lims, soc)]
