"""Reference physics, written from the documentation with the math module only.

Nothing here imports the code under test.
"""

import bisect
import datetime as dt
import math

R = 8.3144621            # J/(mol K)
M_AIR = 0.028964922481160
M_HE = 0.004002602
G = 9.80665
R_AIR = R / M_AIR
EARTH_KM = 6371.0
FOOT = 0.3048
MIN_EL = -4.242
UTC = dt.timezone.utc


# ---------------------------------------------------------------- atmosphere

HEIGHTS = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0,
           85000.0]
LAPSE_LOW = [-0.007, 0.006, 0.001, 0.0028, 0.0, -0.0028, -0.002]
LAPSE_HIGH = [-0.0058, 0.005, 0.001, 0.0028, 0.0, -0.0028, -0.002]


class Atmosphere:
  """US-standard-like atmosphere with lapse rates mixed by alpha in [0, 1]."""

  def __init__(self, alpha):
    self.lapse = [(1 - alpha) * a + alpha * b
                  for a, b in zip(LAPSE_LOW, LAPSE_HIGH)]
    self.t = [300.0]
    self.p = [108870.8213]
    for i, l in enumerate(self.lapse):
      dh = HEIGHTS[i + 1] - HEIGHTS[i]
      self.t.append(self.t[i] + l * dh)
      self.p.append(self._p(i, dh))

  def _p(self, i, dh):
    l = self.lapse[i]
    if l == 0.0:
      return self.p[i] * math.exp(-G * dh / (R_AIR * self.t[i]))
    return self.p[i] * ((self.t[i] + l * dh) / self.t[i])**(-G / (R_AIR * l))

  def at_height(self, h):
    i = min(bisect.bisect_right(HEIGHTS, h) - 1, len(self.lapse) - 1)
    dh = h - HEIGHTS[i]
    t, p = self.t[i] + self.lapse[i] * dh, self._p(i, dh)
    return {'height': h, 'temperature': t, 'pressure': p,
            'density': p / (R_AIR * t)}

  def at_pressure(self, p):
    i = 0
    while i < len(self.lapse) - 1 and p <= self.p[i + 1]:
      i += 1
    l = self.lapse[i]
    ratio = p / self.p[i]
    if l == 0.0:
      dh = -R_AIR * self.t[i] / G * math.log(ratio)
    else:
      dh = (ratio**(-R_AIR * l / G) - 1) * self.t[i] / l
    t = self.t[i] + l * dh
    return {'height': HEIGHTS[i] + dh, 'temperature': t, 'pressure': p,
            'density': p / (R_AIR * t)}


def recover_alpha(temperature_at_17km):
  """The lapse-rate mix of an atmosphere, from its temperature at 17 km."""
  lapse = (temperature_at_17km - 300.0) / 17610.0
  return (lapse - LAPSE_LOW[0]) / (LAPSE_HIGH[0] - LAPSE_LOW[0])


# --------------------------------------------------------------------- solar


def julian_day(ts):
  """Julian date of a unix time (whole seconds)."""
  return 2440587.5 + ts / 86400.0


def solar_position(lat_deg, lng_deg, ts, nutation=-1.0):
  """NOAA solar calculator: elevation, azimuth [deg], flux [W/m^2].

  `nutation` is the sign of the nutation term in the apparent longitude; NOAA
  has -1.
  """
  ts = math.floor(ts)
  day, sec = divmod(ts, 86400)
  frac = sec / 86400.0
  jd = 2440587.5 + day + frac
  t = (jd - 2451545.0) / 36525.0
  rad, deg = math.radians, math.degrees

  l0 = 280.46646 + t * (36000.76983 + 0.0003032 * t)
  m = 357.52911 + t * (35999.05029 - 0.0001537 * t)
  e = 0.016708634 - t * (0.000042037 + 0.0000001267 * t)
  omega = 125.04 - 1934.136 * t
  seconds = 21.448 - t * (46.815 + t * (0.00059 - 0.001813 * t))
  eps0 = 23.0 + (26.0 + seconds / 60.0) / 60.0
  eps = rad(eps0 + 0.00256 * math.cos(rad(omega)))
  c = (math.sin(rad(m)) * (1.914602 - t * (0.004817 + 0.000014 * t)) +
       math.sin(rad(2 * m)) * (0.019993 - 0.000101 * t) +
       math.sin(rad(3 * m)) * 0.000289)
  lam = l0 + c - 0.00569 + nutation * 0.00478 * math.sin(rad(omega))
  decl = math.asin(math.sin(eps) * math.sin(rad(lam)))
  y = math.tan(eps / 2)**2
  eqt = 4 * deg(y * math.sin(rad(2 * l0)) - 2 * e * math.sin(rad(m)) +
                4 * e * y * math.sin(rad(m)) * math.cos(rad(2 * l0)) -
                0.5 * y * y * math.sin(rad(4 * l0)) -
                1.25 * e * e * math.sin(rad(2 * m)))
  tst = (1440.0 * frac + eqt + 4.0 * lng_deg) % 1440.0
  ha = tst / 4.0 - 180.0    # [-180, 180)
  lat = rad(lat_deg)
  cosz = (math.sin(lat) * math.sin(decl) +
          math.cos(lat) * math.cos(decl) * math.cos(rad(ha)))
  z = math.acos(max(-1.0, min(1.0, cosz)))
  el = 90.0 - deg(z)
  if el > 85.0:
    refr = 0.0
  elif el > 5.0:
    te = math.tan(rad(el))
    refr = 58.1 / te - 0.07 / te**3 + 0.000086 / te**5
  elif el > -0.575:
    refr = 1735.0 - 518.2 * el + 103.4 * el**2 - 12.79 * el**3 + 0.711 * el**4
  else:
    refr = -20.772 / math.tan(rad(el))
  sinz = math.sin(z)
  if abs(math.cos(lat) * sinz) < 1e-12:
    az = float('nan')
  else:
    ca = (math.sin(lat) * math.cos(z) - math.sin(decl)) / (
        math.cos(lat) * sinz)
    a = deg(math.acos(max(-1.0, min(1.0, ca))))
    az = a + 180.0 if ha > 0 else 180.0 - a
  flux = 1366.0 * (1 + 0.5 * (((1 + e) / (1 - e))**2 - 1) * math.cos(rad(m)))
  return {'el': el + refr / 3600.0, 'az': az, 'flux': flux, 'ha': ha,
          'el_raw': el, 'decl': deg(decl)}


def almanac_elevation(lat_deg, lng_deg, ts):
  """Geometric solar elevation from the Astronomical Almanac's low-precision
  formulae (independent of NOAA's; good to about 0.02 deg, 1950-2050)."""
  n = julian_day(math.floor(ts)) - 2451545.0
  g = math.radians((357.528 + 0.9856003 * n) % 360)
  q = (280.460 + 0.9856474 * n) % 360
  lam = math.radians(q + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
  eps = math.radians(23.439 - 0.0000004 * n)
  ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
  dec = math.asin(math.sin(eps) * math.sin(lam))
  gmst = (280.46061837 + 360.98564736629 * n) % 360
  ha = math.radians(gmst + lng_deg) - ra
  lat = math.radians(lat_deg)
  return math.degrees(math.asin(
      math.sin(lat) * math.sin(dec) +
      math.cos(lat) * math.cos(dec) * math.cos(ha)))


def attenuation(el, p):
  if el < MIN_EL:
    return 0.0
  s = 614.0 * math.sin(math.radians(el))
  airmass = 0.34764 * (p / 101325.0) * (math.sqrt(1229.0 + s * s) - s)
  return 0.5 * (math.exp(-0.65 * airmass) + math.exp(-0.95 * airmass))


def shadow_limit(panel):
  return math.degrees(math.atan2(math.sqrt(panel * (10.41603 + panel)),
                                 8.69275))


def shadow(el, panel):
  return 0.4392 if el >= shadow_limit(panel) else 1.0


def solar_power(el, p):
  return 210.0 * attenuation(el, p) * (
      4 * math.cos(math.radians(el - 35)) * shadow(el, 3.3) +
      2 * math.cos(math.radians(el - 65)) * shadow(el, 2.7))


# ------------------------------------------------------------------- thermal

SIGMA = 0.000000056704
REFLECT = 0.0291


def total_absorptivity(a, r):
  return a * (1.0 + (1.0 - a - r) / (1.0 - r))


def absorptivity_ir(t):
  return 0.04587 + 0.000232 * (t - 210.0)


def convective(radius, tb, ta, p):
  mu = 1.458e-6 * ta**1.5 / (ta + 110.4)
  k = 0.0241 * (ta / 273.15)**0.9
  pr = 0.804 - 3.25e-4 * ta
  rho = p * M_AIR / (R * ta)
  gr = 9.80665 * rho**2 * (2 * radius)**3 / (ta * mu**2) * abs(ta - tb)
  ra = pr * gr
  nu = 2 + 0.457 * ra**0.25 + (1 + 2.69e-8 * ra)**(1 / 12)
  return nu * k / (2 * radius) * (ta - tb)


def dtemp_dt(vol, mass, tb, ta, p, el, flux, ir):
  r = (3 * vol / (4 * math.pi))**(1 / 3)
  area = 4 * math.pi * r * r
  q_sun = flux * attenuation(el, p) * 0.25 * area * total_absorptivity(
      0.01435, REFLECT)
  t_ir = (ir / SIGMA)**0.25
  q_earth = ir * 0.4605 * area * total_absorptivity(
      absorptivity_ir(t_ir), REFLECT)
  q_out = SIGMA * tb**4 * area * total_absorptivity(
      absorptivity_ir(tb), REFLECT)
  q_conv = area * convective(r, tb, ta, p)
  return (q_sun + q_earth + q_conv - q_out) / (1500.0 * mass)


# -------------------------------------------------------------------- balloon


def volume_superpressure(mols_gas, mols_air, tb, p, v0, dv):
  n_r_t = (mols_gas + mols_air) * R * tb
  free = n_r_t / p
  if free <= v0:
    return free, 0.0
  # V = v0 + dv (pg - p), pg V = nRT  =>  V^2 - (v0 - dv p) V - dv nRT = 0.
  b = v0 - dv * p
  v = 0.5 * (b + math.sqrt(b * b + 4 * dv * n_r_t))
  return v, n_r_t / v - p


POWER_X = [1.0, 1.05, 1.2, 1.25, 1.35]
POWER_Y = [100.0, 100.0, 300.0, 400.0, 400.0]


def acs_power(ratio):
  """Piecewise linear in the table; the end segments extend outwards."""
  i = min(max(bisect.bisect_left(POWER_X, ratio) - 1, 0), len(POWER_X) - 2)
  x0, x1, y0, y1 = POWER_X[i], POWER_X[i + 1], POWER_Y[i], POWER_Y[i + 1]
  return y0 + (y1 - y0) * (ratio - x0) / (x1 - x0)


EFF = [
    [0.4, 0.4, 0.3, 0.2, 0.2, 0, 0, 0, 0, 0, 0, 0, 0],
    [0.4, 0.3, 0.3, 0.30, 0.25, 0.23, 0.20, 0.15, 0.12, 0.10, 0, 0, 0],
    [0, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15, 0.13, 0.12, 0.11],
    [0, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20, 0.20, 0.20, 0.18, 0.16, 0.15,
     0.13],
]


def fan_efficiency(ratio, watts):
  """Bilinear in the 13 x 4 table, clamped to the table's range."""
  fx = min(max((ratio - 1.05) / 0.025, 0.0), 12.0)
  fy = min(max((watts - 100.0) / 100.0, 0.0), 3.0)
  i, j = min(int(fx), 11), min(int(fy), 2)
  a, b = fx - i, fy - j
  return ((1 - a) * (1 - b) * EFF[j][i] + a * (1 - b) * EFF[j][i + 1] +
          (1 - a) * b * EFF[j + 1][i] + a * b * EFF[j + 1][i + 1])


def offset_latlng(lat_deg, lng_deg, x_m, y_m):
  """Destination on the 6371 km sphere after a great-circle leg."""
  dist = math.hypot(x_m, y_m)
  if dist == 0.0:
    return lat_deg, norm_lng(lng_deg)
  ang = dist / (EARTH_KM * 1000.0)
  lat, lng = math.radians(lat_deg), math.radians(lng_deg)
  # Unit vectors: position, local north, local east.
  pos = (math.cos(lat) * math.cos(lng), math.cos(lat) * math.sin(lng),
         math.sin(lat))
  north = (-math.sin(lat) * math.cos(lng), -math.sin(lat) * math.sin(lng),
           math.cos(lat))
  east = (-math.sin(lng), math.cos(lng), 0.0)
  d = [(x_m * e + y_m * n) / dist for e, n in zip(east, north)]
  v = [math.cos(ang) * p + math.sin(ang) * q for p, q in zip(pos, d)]
  return (math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))),
          math.degrees(math.atan2(v[1], v[0])))


def norm_lng(lng):
  return (lng + 180.0) % 360.0 - 180.0


DOWN, STAY, UP = 0, 1, 2

CONSTS = ['envelope_volume_base', 'envelope_volume_dv_pressure',
          'envelope_mass', 'envelope_max_superpressure', 'envelope_cod',
          'payload_mass', 'night_w', 'day_w', 'valve_m', 'capacity_wh',
          'mols_lift_gas', 'upwelling_infrared', 'center_lat', 'center_lng']


def physics_step(s, u, v, atm, action, dt_s, sun_at=None):
  """One explicit-Euler physics step on a plain dict state; returns a new one.

  `atm` has at_pressure(p) -> {'height', 'temperature'}; sun_at(lat, lng, ts)
  gives {'el', 'flux'}.  All right-hand sides
  use the state before the step.
  """
  n = dict(s)
  n['x'] = s['x'] + u * dt_s
  n['y'] = s['y'] + v * dt_s

  rho = s['pressure'] * M_AIR / (R * s['ambient_temperature'])
  mass = (M_HE * s['mols_lift_gas'] + M_AIR * s['mols_air'] +
          s['envelope_mass'] + s['payload_mass'])
  lift = rho * s['envelope_volume'] - mass
  sign = 1.0 if lift >= 0 else -1.0
  drag = s['envelope_cod'] * s['envelope_volume']**(2.0 / 3.0)
  dh_dt = sign * math.sqrt(abs(2 * lift * G / (rho * drag)))
  h0 = atm.at_pressure(s['pressure'])['height']
  h1 = atm.at_pressure(s['pressure'] + sign)['height']
  n['pressure'] = s['pressure'] + sign / (h1 - h0) * dh_dt * dt_s
  n['_lift_rel'] = abs(lift) / mass

  lat, lng = offset_latlng(s['center_lat'], s['center_lng'], s['x'], s['y'])
  sun = (sun_at or solar_position)(lat, lng, s['ts'])
  n['_el'] = sun['el']
  n['ambient_temperature'] = atm.at_pressure(s['pressure'])['temperature']
  n['internal_temperature'] = s['internal_temperature'] + dt_s * dtemp_dt(
      s['envelope_volume'], s['envelope_mass'], s['internal_temperature'],
      s['ambient_temperature'], s['pressure'], sun['el'], sun['flux'],
      s['upwelling_infrared'])

  n['envelope_volume'], n['superpressure'] = volume_superpressure(
      s['mols_lift_gas'], s['mols_air'], s['internal_temperature'],
      s['pressure'], s['envelope_volume_base'],
      s['envelope_volume_dv_pressure'])
  if n['superpressure'] > s['envelope_max_superpressure']:
    n['status'] = 'BURST'
  if n['superpressure'] <= 0.0:
    n['status'] = 'ZEROPRESSURE'

  ratio = (s['pressure'] + max(s['superpressure'], 0.0)) / s['pressure']
  if action == UP:
    area = math.pi * s['valve_m']**2 / 4.0
    dens = (s['superpressure'] + s['pressure']) * M_AIR / (
        R * s['internal_temperature'])
    n['acs_w'] = 0.0
    n['acs_mass_flow'] = -0.62 * area * math.sqrt(
        2.0 * s['superpressure'] * dens)
  elif action == DOWN:
    n['acs_w'] = acs_power(ratio)
    n['acs_mass_flow'] = fan_efficiency(ratio, n['acs_w']) * n['acs_w'] / 3600.0
  else:
    n['acs_w'] = 0.0
    n['acs_mass_flow'] = 0.0
  n['mols_air'] = max(0.0, s['mols_air'] + n['acs_mass_flow'] / M_AIR * dt_s)

  day = sun['el'] > MIN_EL
  n['solar_w'] = solar_power(sun['el'], s['pressure']) if day else 0.0
  n['load_w'] = (s['day_w'] if day else s['night_w']) + n['acs_w']
  charge = s['charge_wh'] + (n['solar_w'] - n['load_w']) * dt_s / 3600.0
  n['charge_wh'] = min(max(charge, 0.0), s['capacity_wh'])
  if n['charge_wh'] <= 0.0:
    n['status'] = 'OUT_OF_POWER'
  n['ts'] = s['ts'] + dt_s
  n['elapsed'] = s['elapsed'] + dt_s
  return n


# -------------------------------------------------------------- safety layers


class AltitudeLayer:
  """50,000 ft floor, 500 ft buffer, 500 ft restart hysteresis."""

  def __init__(self):
    self.state = 'nominal'

  def update(self, height_m):
    ft = height_m / FOOT
    if ft < 50_000.0:
      self.state = 'very_low'
    elif ft < 50_500.0:
      self.state = 'low'
    elif ft < 51_000.0:
      self.state = 'nominal' if self.state == 'nominal' else 'low'
    else:
      self.state = 'nominal'

  @property
  def paused(self):
    return self.state != 'nominal'

  def act(self, a):
    if self.state == 'very_low':
      return UP
    if self.state == 'low' and a == DOWN:
      return STAY
    return a


class EnvelopeLayer:
  """150 Pa critical buffer, 250 Pa buffer, 50 Pa restart hysteresis."""

  def __init__(self, max_sp):
    self.max = max_sp
    self.state = 'nominal'

  def update(self, sp):
    if sp < 150:
      self.state = 'low_critical'
    elif sp < 250:
      self.state = 'low'
    elif sp < 300:
      self.state = 'low' if self.state.startswith('low') else 'nominal'
    elif sp < self.max - 300:
      self.state = 'nominal'
    elif sp < self.max - 250:
      self.state = 'high' if self.state.startswith('high') else 'nominal'
    elif sp < self.max - 150:
      self.state = 'high'
    else:
      self.state = 'high_critical'

  @property
  def paused(self):
    return self.state != 'nominal'

  def act(self, a):
    if self.state.endswith('critical'):
      return UP
    if self.state in ('low', 'high') and a == DOWN:
      return STAY
    return a


class PowerLayer:
  """Pauses descents at night when the battery would not last to sunrise."""

  def __init__(self, sunrise_ts, sunset_ts):
    self.rise = sunrise_ts + 1800.0
    self.set = sunset_ts
    self.paused = False

  def act(self, a, ts, night_w, charge_wh, capacity_wh):
    while ts > self.rise:
      self.rise += 86400.0
    while ts > self.set:
      self.set += 86400.0
    if self.set < self.rise:   # Day.
      if self.paused and charge_wh / capacity_wh < 0.05:
        return STAY if a == DOWN else a
      self.paused = False
      return a
    if not self.paused:
      left = charge_wh - night_w * (self.rise - ts) / 3600.0
      if left / capacity_wh < 0.025:
        self.paused = True
    if self.paused:
      return STAY if a == DOWN else a
    return a
