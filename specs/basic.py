"""Elementary physics: constants, Planck function, saturation pressure, conversions, uncertainty propagation."""
import numpy as np
from specs.dsl import Sum, Prod, First, Last, All, Any, Array, size

H = 6.626075499999999e-34     # Planck constant [J s]
K = 1.3806579999999998e-23    # Boltzmann constant [J/K]


def constants(name):
    if name == 'avogadro':
        return [6.022140857e+23, '[mol-1]']
    if name == 'boltzmann':
        return [1.3806579999999998e-23, '[J K-1]']
    if name == 'EarthRadius':
        return [6370.949, '[km]']
    if name == 'gravity':
        return [9.80665, '[m s-2]']
    if name == 'light':
        return [299792458.0, '[m s-1]']
    if name == 'Np2dB':
        return [4.342944819032518, '[dB/Np]']
    if name == 'planck':
        return [6.626075499999999e-34, '[J Hz-1]']
    if name == 'Rdry':
        return [287.04, '[J kg-1 K-1]']
    if name == 'Rwatvap':
        return [461.52, '[J kg-1 K-1]']
    if name == 'Tcosmicbkg':
        return [2.728, '[K]']
    if name == 'R':
        return [8.31446261815324, '[J mol-1 K-1]']
    raise ValueError(name)


def constants_all():
    return ['avogadro', 'boltzmann', 'EarthRadius', 'gravity', 'light', 'Np2dB', 'planck', 'Rdry', 'Rwatvap', 'Tcosmicbkg', 'R']


def planck_radiance(f, t):
    """modified Planck radiance at frequency f [GHz] and temperature t [K]"""
    return 1.0 / (np.exp(f * 1e9 * H / (K * t)) - 1.0)


def tk2b_mod(hvk, t):
    return 1.0 / (np.exp(hvk / t) - 1.0)


def bright(hvk, boft):
    return 0.0 if boft == 0.0 else hvk / np.log(1.0 + 1.0 / boft)


# ------------------------------------------------------------------ saturation pressure
def esw(t):
    """Goff-Gratch saturation vapour pressure over water [mb] at temperature t [K]"""
    r = 373.16 / t
    return 10.0 ** (-7.90298 * (r - 1.0) + 5.02808 * np.log10(r) - 1.3816e-7 * (10.0 ** (11.344 * (1.0 - 1.0 / r)) - 1.0)
                    + 8.1328e-3 * (10.0 ** (-3.49149 * (r - 1.0)) - 1.0) + np.log10(1013.246))


def esi(t, t0):
    """Goff-Gratch saturation vapour pressure over ice [mb], ice-point temperature t0"""
    r = t0 / t
    return 10.0 ** (-9.09718 * (r - 1.0) - 3.56654 * np.log10(r) + 0.876793 * (1.0 - 1.0 / r) + np.log10(6.1071))


def eswat(t):
    return Array(size(t), lambda i: esw(t[i]))


def esice(t):
    return Array(size(t), lambda i: esi(t[i], 273.15))


def eswat_scalar(t):
    return esw(t)


def esice_scalar(t):
    return esi(t, 273.15)


def es_at(t, tconv):
    """over ice at or below the threshold, over water elsewhere; no (or zero) threshold: always water"""
    if tconv:
        return esi(t, 273.15) if t <= tconv else esw(t)
    return esw(t)


def satvap(t, tconv=None):
    return Array(size(t), lambda i: es_at(t[i], tconv))


EPS = 0.621970585


def w_of_e(p, e):
    """mixing ratio [g/kg] of vapour pressure e at pressure p"""
    return 1000.0 * EPS * e / (p - e)


def e_of_w(p, w):
    return p * w / (1000.0 * EPS + w)


def satmix(p, t, tconv=None):
    return Array(size(t), lambda i: w_of_e(p[i], es_at(t[i], tconv)))


def e2mr(p, e):
    return Array(size(p), lambda i: w_of_e(p[i], e[i]))


def mr2e(p, w):
    return Array(size(p), lambda i: e_of_w(p[i], w[i]))


def mr2rh(p, t, w, tconv=None):
    return (Array(size(p), lambda i: 100.0 * e_of_w(p[i], w[i]) / es_at(t[i], tconv)),
            Array(size(p), lambda i: 100.0 * w[i] / w_of_e(p[i], es_at(t[i], tconv))))


RV = 461.52e-5        # gas constant of water vapour in mb m3 g-1 K-1


def mr2rho(mr, t, p):
    return Array(size(p), lambda i: mr[i] * p[i] / ((1000.0 * EPS + mr[i]) * RV * t[i]))


def rho2mr(rho, t, p):
    return Array(size(p), lambda i: 1000.0 * EPS * RV * rho[i] / (p[i] / t[i] - RV * rho[i]))


def rho2rh(rho, t, p):
    def e(i):
        return rho[i] * t[i] / 216.7

    def w(i):
        return w_of_e(p[i], e(i))
    return (Array(size(p), lambda i: 100.0 * e_of_w(p[i], w(i)) / esw(t[i])),
            Array(size(p), lambda i: 100.0 * w(i) / w_of_e(p[i], esw(t[i]))))


def kgkg_to_kgm3(q, p, t):
    return Array(size(p), lambda i: 100.0 * p[i] / (287.04 * (1.0 + (1.0 - EPS) / EPS * q[i]) * t[i]))


def ppmv_to_moleculesm3(mr, p, t):
    return Array(size(p), lambda i: 6.022140857e23 * p[i] / (8.31446261815324 * t[i]) * mr[i] * 1e-6)


def dewpoint2rh(td, t, ice=False, method='arm'):
    if method == 'arm':
        return np.exp(17.625 * td / (243.04 + td)) / np.exp(17.625 * t / (243.04 + t))
    a = 9.5 if ice else 7.5
    b = 265.5 if ice else 237.3
    return 10.0 ** (a * td / (b + td)) / 10.0 ** (a * t / (b + t))


# ------------------------------------------------------------------ gas masses
def amu(g):
    """molecular mass of gas g (HITRAN order of AtmosphericProfiles) in units of the proton mass, from its atoms"""
    h, c, n, o, f, p, s, cl, br, io = 1, 12, 14, 16, 19, 31, 32, 35, 80, 127
    table = [2 * h + o, c + 2 * o, 3 * o, 2 * n + o, c + o, c + 4 * h, 2 * o, n + o, s + 2 * o, n + 2 * o, n + 3 * h,
             h + n + 3 * o, o + h, h + f, h + cl, h + br, h + io, cl + o, o + c + s, 2 * h + c + o, h + o + cl, 2 * n, h + c + n,
             c + 3 * h + cl, 2 * h + 2 * o, 2 * c + 2 * h, 2 * c + 6 * h, p + 3 * h, c + o + 2 * f, s + 6 * f, 2 * h + s,
             h + c + 2 * o + h]
    if 0 <= g <= 31:
        return table[g]
    if g == 99:
        return 28.9402753669
    raise ValueError(g)


def gas_mass(g):
    return 1.6726485e-27 * amu(g)


def ppmv2gkg(ppmv, g):
    m = amu(g)
    return Array(size(ppmv), lambda i: ppmv[i] * 1e-6 * m / 28.9402753669 * 1000.0)


# ------------------------------------------------------------------ height, thickness, temperature
def p_exp():
    return 8.314462618 / 0.02896546 * (-0.0065) / 9.80665


def pressure_to_height(p):
    return 288.0 / -0.0065 * (1 - (p / 1013.25) ** p_exp())


def height_to_pressure(h):
    return 1013.25 * (1 - h * (-0.0065) / 288.0) ** (1 / p_exp())


def vt(t, mr):
    e = 287.04 / 461.52
    return t * (mr + e) / (e * (1 + mr))


def virtual_temperature(t, mr):
    return Array(size(t), lambda i: vt(t[i], mr[i]))


def tv_at(t, mr, k):
    return t[k] if mr is None else vt(t[k], mr[k])


def thickness(p, t, mr=None):
    return -8.314462618 / 0.02896546 / 9.80665 * Sum(1, size(p), lambda k: (np.log(p[k]) - np.log(p[k - 1])) * (
        tv_at(t, mr, k) + tv_at(t, mr, k - 1)) / 2)


def atmospheric_thickness(p, t, mr=None):
    return Array(size(p), lambda i: 0.0 if i == 0 else -8.314462618 / 0.02896546 / 9.80665 / 1000.0 * Sum(
        1, i + 1, lambda k: (np.log(p[k]) - np.log(p[k - 1])) * (tv_at(t, mr, k) + tv_at(t, mr, k - 1)) / 2))


def to_kelvin(t):
    return Array(size(t), lambda i: t[i] + 273.25)


def to_celsius(t):
    return Array(size(t), lambda i: t[i] - 273.25)


# ------------------------------------------------------------------ uncertainty propagation
def uncertainty_propagation(fun, A, B, sA, sB, a=1.0, b=1.0, sAB=0.0):
    if fun == 'aA':
        return (a * A, np.abs(a) * sA)
    if fun == 'aA+bB':
        return (a * A + b * B, np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 + 2 * a * b * sAB))
    if fun == 'aA-bB':
        return (a * A - b * B, np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 - 2 * a * b * sAB))
    if fun == 'A*B':
        return (A * B, np.abs(A * B) * np.sqrt((sA / A) ** 2 + (sB / B) ** 2 + 2 * sAB / (A * B)))
    if fun == 'A/B':
        return (A / B, np.abs(A / B) * np.sqrt((sA / A) ** 2 + (sB / B) ** 2 - 2 * sAB / (A * B)))
    if fun == 'A^a':
        return (A ** a, np.abs(a) * A ** (a - 1) * sA)
    raise ValueError(fun)


# ------------------------------------------------------------------ vapour and refractivity
def vapor(t, rh, ice=False):
    def es(i):
        return esi(t[i], 273.16) if (ice and t[i] < 263.16) else esw(t[i])
    return (Array(size(t), lambda i: rh[i] * es(i)),
            Array(size(t), lambda i: rh[i] * es(i) / (461.52e-5 * t[i])))


def thayer_dry(p, t, e):
    pa = p - e
    tc = t - 273.16
    rza = 1.0 + pa * (57.90e-8 * (1.0 + 0.52 / t) - 9.4611e-4 * tc / t ** 2)
    return 77.6036 * (pa / t) * rza


def thayer_wet(p, t, e):
    tc = t - 273.16
    rzw = 1.0 + 1650.0 * (e / t ** 3) * (1.0 - 0.01317 * tc + 1.75e-4 * tc ** 2 + 1.44e-6 * tc ** 3)
    return (64.79 * (e / t) + 377600.0 * (e / t ** 2)) * rzw


def refractivity(p, t, e):
    return (Array(size(p), lambda i: thayer_dry(p[i], t[i], e[i])),
            Array(size(p), lambda i: thayer_wet(p[i], t[i], e[i])),
            Array(size(p), lambda i: 1.0 + 1e-6 * (thayer_dry(p[i], t[i], e[i]) + thayer_wet(p[i], t[i], e[i]))))
