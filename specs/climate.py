"""Reference standard atmosphere of Recommendation ITU-R P.835-6 and the extrapolation of a profile with it."""
import numpy as np
from specs.dsl import All, Array, First, size
from specs.basic import e_of_w, esw, w_of_e


# ---------------------------------------------------------------- section 1: mean annual global reference atmosphere
def geopotential(h):
    """geopotential height [km'] of the geometric height h [km]"""
    return 6356.766 * h / (6356.766 + h)


def std_t(h):
    hp = geopotential(h)
    if hp <= 11:
        return 288.15 - 6.5 * hp
    if hp <= 20:
        return 216.65
    if hp <= 32:
        return 216.65 + (hp - 20)
    if hp <= 47:
        return 228.65 + 2.8 * (hp - 32)
    if hp <= 51:
        return 270.65
    if hp <= 71:
        return 270.65 - 2.8 * (hp - 51)
    if hp <= 84.852:
        return 214.65 - 2.0 * (hp - 71)
    if h <= 91:
        return 186.8673
    return 263.1905 - 76.3232 * np.sqrt(1 - ((h - 91) / 19.9429) ** 2)


def std_p(h):
    hp = geopotential(h)
    if hp <= 11:
        return 1013.25 * (288.15 / (288.15 - 6.5 * hp)) ** (-34.1632 / 6.5)
    if hp <= 20:
        return 226.3226 * np.exp(-34.1632 * (hp - 11) / 216.65)
    if hp <= 32:
        return 54.74980 * (216.65 / (216.65 + (hp - 20))) ** 34.1632
    if hp <= 47:
        return 8.680422 * (228.65 / (228.65 + 2.8 * (hp - 32))) ** (34.1632 / 2.8)
    if hp <= 51:
        return 1.109106 * np.exp(-34.1632 * (hp - 47) / 270.65)
    if hp <= 71:
        return 0.6694167 * (270.65 / (270.65 - 2.8 * (hp - 51))) ** (-34.1632 / 2.8)
    if hp <= 84.852:
        return 0.03956649 * (214.65 / (214.65 - 2.0 * (hp - 71))) ** (-34.1632 / 2.0)
    return np.exp(95.571899 - 4.011801 * h + 6.424731e-2 * h ** 2 - 4.789660e-4 * h ** 3 + 1.340543e-6 * h ** 4)


def std_rho(h, h0, rho0):
    return rho0 * np.exp(-h / h0)


def std_e(h, h0, rho0):
    """vapour pressure e = rho T / 216.7"""
    return std_rho(h, h0, rho0) * std_t(h) / 216.7


# ---------------------------------------------------------------- sections 2-4: low, mid and high latitudes
def low_t(h):
    if h < 17:
        return 300.4222 - 6.3533 * h + 0.005886 * h ** 2
    if h < 47:
        return 194 + (h - 17) * 2.533
    if h < 52:
        return 270.0
    if h < 80:
        return 270 - (h - 52) * 3.0714
    return 184.0


def mid_summer_t(h):
    if h < 13:
        return 294.9838 - 5.2159 * h - 0.07109 * h ** 2
    if h < 17:
        return 215.15
    if h < 47:
        return 215.15 * np.exp((h - 17) * 0.008128)
    if h < 53:
        return 275.0
    if h < 80:
        return 275 + 20 * (1 - np.exp((h - 53) * 0.06))
    return 175.0


def mid_winter_t(h):
    if h < 10:
        return 272.7241 - 3.6217 * h - 0.1759 * h ** 2
    if h < 33:
        return 218.0
    if h < 47:
        return 218 + (h - 33) * 3.3571
    if h < 53:
        return 265.0
    if h < 80:
        return 265 - (h - 53) * 2.0370
    return 210.0


def high_summer_t(h):
    if h < 10:
        return 286.8374 - 4.7805 * h - 0.1402 * h ** 2
    if h < 23:
        return 225.0
    if h < 48:
        return 225 * np.exp((h - 23) * 0.008317)
    if h < 53:
        return 277.0
    if h < 79:
        return 277 - (h - 53) * 4.0769
    return 171.0


def high_winter_t(h):
    if h < 8.5:
        return 257.4345 + 2.3474 * h - 1.5479 * h ** 2 + 0.08473 * h ** 3
    if h < 30:
        return 217.5
    if h < 50:
        return 217.5 + (h - 30) * 2.125
    if h < 54:
        return 260.0
    return 260 - (h - 54) * 1.667


def layered_p(h, a, b, c, p10, p72, k1, k2):
    """quadratic up to 10 km, then two exponential layers joined at 72 km"""
    if h <= 10:
        return a - b * h + c * h ** 2
    if h <= 72:
        return p10 * np.exp(-k1 * (h - 10))
    return p72 * np.exp(-k2 * (h - 72))


def low_p(h):
    return layered_p(h, 1012.0306, 109.0338, 3.6316, 284.8526, 0.0313660, 0.147, 0.165)


def mid_summer_p(h):
    return layered_p(h, 1012.8186, 111.5569, 3.8646, 283.7096, 0.03124022, 0.147, 0.165)


def mid_winter_p(h):
    return layered_p(h, 1018.8627, 124.2954, 4.8307, 258.9787, 0.02851702, 0.147, 0.155)


def high_summer_p(h):
    return layered_p(h, 1008.0278, 113.2494, 3.9408, 269.6138, 0.04582115, 0.140, 0.165)


def high_winter_p(h):
    return layered_p(h, 1010.8828, 122.2411, 4.554, 243.8718, 0.02685355, 0.147, 0.150)


def vapour(h, top, rho0, a1, a2, a3, a4):
    """no vapour above the top of its layer"""
    return rho0 * np.exp(a1 * h + a2 * h ** 2 + a3 * h ** 3 + a4 * h ** 4) if h <= top else 0.0


def low_rho(h):
    return vapour(h, 15, 19.6542, -0.2313, -0.1122, 0.01351, -0.0005923)


def mid_summer_rho(h):
    return vapour(h, 15, 14.3542, -0.4174, -0.02290, 0.001007, 0.0)


def mid_winter_rho(h):
    return vapour(h, 10, 3.4742, -0.2697, -0.03604, 0.0004489, 0.0)


def high_summer_rho(h):
    return vapour(h, 15, 8.988, -0.3614, -0.005402, -0.001955, 0.0)


def high_winter_rho(h):
    return vapour(h, 10, 1.2319, 0.07481, -0.0981, 0.00281, 0.0)


LAW = {'low_latitude_temperature': low_t, 'low_latitude_pressure': low_p, 'low_latitude_water_vapour': low_rho,
       'mid_latitude_temperature_summer': mid_summer_t, 'mid_latitude_pressure_summer': mid_summer_p,
       'mid_latitude_water_vapour_summer': mid_summer_rho,
       'mid_latitude_temperature_winter': mid_winter_t, 'mid_latitude_pressure_winter': mid_winter_p,
       'mid_latitude_water_vapour_winter': mid_winter_rho,
       'high_latitude_temperature_summer': high_summer_t, 'high_latitude_pressure_summer': high_summer_p,
       'high_latitude_water_vapour_summer': high_summer_rho,
       'high_latitude_temperature_winter': high_winter_t, 'high_latitude_pressure_winter': high_winter_p,
       'high_latitude_water_vapour_winter': high_winter_rho,
       'standard_temperature': std_t, 'standard_pressure': std_p}


def at(h, f):
    """f at a height or at every height of an array"""
    return Array(size(h), lambda k: f(h[k])) if isinstance(h, np.ndarray) else f(h)


def law(self, h, name):
    return at(h, LAW[name])


def reference(what, lat, h, season):
    """zone by absolute latitude: low below 22, mid below 45, high otherwise"""
    a = -lat if lat < 0 else lat
    low, mid, high = LAW['low_latitude_' + what], LAW['mid_latitude_' + what + '_' + season], LAW['high_latitude_' + what + '_' + season]
    if a < 22:
        return low(h)
    return mid(h) if a < 45 else high(h)


def reference_all(what, lat, h, season):
    """everywhere on the given latitude(s) and height(s)"""
    if season not in ('summer', 'winter'):
        raise ValueError(season)
    if isinstance(lat, np.ndarray) and isinstance(h, np.ndarray):
        return Array(size(h), lambda k: reference(what, lat[k], h[k], season))
    if isinstance(lat, np.ndarray):
        return Array(size(lat), lambda k: reference(what, lat[k], h, season))
    return at(h, lambda x: reference(what, lat, x, season))


def temperature(self, lat, h, season='summer'):
    return reference_all('temperature', lat, h, season)


def pressure(self, lat, h, season='summer'):
    return reference_all('pressure', lat, h, season)


def water_vapour_density(self, lat, h, season='summer'):
    return reference_all('water_vapour', lat, h, season)


def standard_temperature(self, h, T_0=None):
    return at(h, std_t)


def standard_pressure(self, h, T_0=None, P_0=None):
    return at(h, std_p)


def standard_water_vapour_density(self, h, h_0=2, rho_0=7.5):
    return at(h, lambda x: std_rho(x, h_0, rho_0))


def standard_water_vapour_pressure(self, h, h_0=2, rho_0=7.5):
    return at(h, lambda x: std_e(x, h_0, rho_0))


def every(h, f):
    return All(size(h), lambda k: f(h[k])) if isinstance(h, np.ndarray) else f(h)


def inside(x):
    """heights of the Recommendation; the sliver of 6 cm below 86 km that neither height scale covers is left out"""
    return 0 <= x and x <= 100 and (geopotential(x) <= 84.852 or x >= 86)


def covered(self, h, *rest):
    return every(h, inside)


def in_range(self, h, *rest):
    return every(h, lambda x: 0 <= x and x <= 100)


def in_range_lat(self, lat, h, *rest):
    return in_range(self, h)


def season_of(self, lat, month):
    north, south = lat > 20, lat < -20
    if (north and month in (6, 7, 8)) or (south and month in (12, 1, 2)):
        return 'summer'
    if (north and month in (12, 1, 2)) or (south and month in (6, 7, 8)):
        return 'winter'
    return 'standard'


# ---------------------------------------------------------------- the public class
def new_extrapolation(mode='ITU-Annex1'):
    """grid of the Recommendation: every km to 25, every 2.5 km to 50, every 5 km to 100"""
    if mode != 'ITU-Annex1':
        raise ValueError(mode)
    return Array(46, lambda k: 1.0 * k if k <= 25 else 25 + 2.5 * (k - 25) if k <= 35 else 50 + 5.0 * (k - 35))


def get_height(self):
    return self._height


def set_height(self, height):
    if not isinstance(height, np.ndarray):
        raise ValueError(height)
    self._height = height


# ---------------------------------------------------------------- extrapolation of a profile
def relative_humidity(rho, t, p):
    """fraction: vapour pressure of the density over the saturation pressure over water, both with the mixing ratio between"""
    return e_of_w(p, w_of_e(p, rho * t / 216.7)) / esw(t)


def ref_p(lat, season, x):
    return std_p(x) if season == 'standard' else reference('pressure', lat, x, season)


def ref_t(lat, season, x):
    return std_t(x) if season == 'standard' else reference('temperature', lat, x, season)


def ref_rho(lat, season, x):
    return std_rho(x, 2, 7.5) if season == 'standard' else reference('water_vapour', lat, x, season)


def profile_extrapolation(self, lat, month, z, q):
    """the given levels, then every 3.2 km below 50 km, then the levels of the grid above those"""
    p, t, rh = q
    n, grid = size(z), self._height
    top = np.max(z)
    more = np.arange(top + 3.2, 50, 3.2) if top < 50 else np.array([])
    m = size(more)
    lower = Array(n + m, lambda k: z[k] if k < n else more[k - n])
    reach = np.max(lower)
    g = First(size(grid), lambda k: grid[k] > reach)
    height = Array(n + m + size(grid) - g, lambda k: lower[k] if k < n + m else grid[g + k - n - m])
    season = season_of(self, lat, month)
    pres = Array(size(height), lambda k: p[k] if k < n else ref_p(lat, season, height[k]))
    temp = Array(size(height), lambda k: t[k] if k < n else ref_t(lat, season, height[k]))
    hum = Array(size(height), lambda k: rh[k] if k < n else relative_humidity(ref_rho(lat, season, height[k]), temp[k], pres[k]))
    return height, pres, temp, hum


def extrapolation_defined(self, lat, month, z, q):
    """ascending grid within the range of the Recommendation"""
    grid = self._height
    return All(size(grid) - 1, lambda k: grid[k] <= grid[k + 1]) and All(size(grid), lambda k: inside(grid[k]))
