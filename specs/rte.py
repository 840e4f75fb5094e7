"""Path integration, ray tracing, radiative transfer and cloud functions."""
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import LiqAbsModel, H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
from specs.dsl import Sum, Prod, First, Last, All, Any, Array, size
from specs.basic import H, K, tk2b_mod, bright


# ------------------------------------------------------------------ path integration
def layer_mean(zeroflg, a, b):
    """logarithmic mean of the bounding values a (lower) and b (upper)"""
    if np.abs(b - a) < 1e-9:
        return b
    if a == 0.0 or b == 0.0:
        return 0.5 * (a + b) if zeroflg else 0.0
    return (b - a) / np.log(b / a)


def exponential_integration(zeroflg, x, ds, ibeg, iend, factor):
    def low(i):
        return x[size(x) - 1] if i == 0 else x[i - 1]

    def part(i):
        return layer_mean(zeroflg, low(i), x[i]) * ds[i]
    bad = First(iend - ibeg, lambda k: low(ibeg + k) < 0.0 or x[ibeg + k] < 0.0)
    layers = Array(size(ds), lambda i: part(i) if ibeg <= i and i < ibeg + bad else 0.0)
    if bad < iend - ibeg:
        return Sum(ibeg, ibeg + bad, part), layers
    return factor * Sum(ibeg, iend, part), layers


def ei_pre(zeroflg, x, ds, ibeg, iend, factor):
    return ibeg <= iend


# ------------------------------------------------------------------ ray tracing
RE = 6370.949


def refbar(n0, n1):
    if n0 == n1 or n0 == 1.0 or n1 == 1.0:
        return 0.5 * (n0 + n1)
    return 1.0 + (n0 - n1) / np.log((n0 - 1.0) / (n1 - 1.0))


def ray_tracing(z, n, angle, z0):
    nl = size(z)
    if Any(nl, lambda i: n[i] < 1):
        return None
    if 89 <= angle and angle <= 91 or -91 <= angle and angle <= -89:
        return Array(nl, lambda i: 0.0 if i == 0 else z[i] - z[i - 1])
    th0 = angle * np.pi / 180
    rs = RE + z[0] + z0

    def r(i):
        return RE + z[i] + z0

    def argdth(i):
        return z[i] / rs - (n[0] - n[i]) * np.cos(th0) / n[i]

    def argth(i):
        return 0.5 * (2.0 * np.sin(0.5 * th0) ** 2 + argdth(i)) / r(i)

    def sint(i):
        return np.sqrt(r(i) * argth(i))

    def theta1(i):
        return 2.0 * np.arcsin(sint(i))

    def dtheta(i):
        if theta1(i) - 2.0 * th0 <= 0.0:
            dendth = 2.0 * (sint(i) + np.sin(0.5 * th0)) * np.cos(0.25 * (theta1(i) + th0))
            return 4.0 * np.arcsin((0.5 * argdth(i) - z[i] * argth(i)) / dendth)
        return theta1(i) - th0

    def tanth(i):
        return np.tan(th0) if i == 0 else np.tan(th0 + dtheta(i))

    def dtau(i):
        return 0.5 * (1.0 / tanth(i) + 1.0 / tanth(i - 1)) * (n[i - 1] - n[i]) / refbar(n[i - 1], n[i])

    def tau(i):
        return Sum(1, i + 1, dtau)

    def phi(i):
        return 0.0 if i == 0 else dtheta(i) + tau(i)

    def chord(i):
        return np.sqrt((z[i] - z[i - 1]) ** 2 + 4.0 * r(i) * r(i - 1) * np.sin(0.5 * (phi(i) - phi(i - 1))) ** 2)

    def path(i):
        if dtau(i) != 0.0:
            d = np.abs(dtau(i))
            return chord(i) * d / (2.0 * np.sin(0.5 * d))
        return chord(i)
    duct = 1 + First(nl - 1, lambda k: argth(k + 1) <= 0)
    return Array(nl, lambda i: 0.0 if i == 0 or i >= duct else path(i))


def straight_ray(z, n, angle, z0):
    """parts of the straight line leaving the antenna at the angle, between the spheres of the levels"""
    rs = RE + z[0] + z0
    s = np.sin(angle * np.pi / 180)

    def along(i):
        return np.sqrt((rs * s) ** 2 + (RE + z[i] + z0) ** 2 - rs ** 2) - rs * s
    return Array(size(z), lambda i: 0.0 if i == 0 else along(i) - along(i - 1))


# ------------------------------------------------------------------ radiative transfer
EXPMAX = 125.0


def rte(frq, t, taulay, from_sat, eps):
    n = size(t)
    hvk = frq * 1e9 * H / K

    def B(i):
        return tk2b_mod(hvk, t[i])
    if from_sat:
        def tau(i):
            return Sum(i + 1, n, lambda k: taulay[k])

        def atm(i):
            return Sum(i, n - 1, lambda k: (B(k + 1) + B(k) * np.exp(-taulay[k + 1])) / (1.0 + np.exp(-taulay[k + 1])) * np.exp(
                -tau(k + 1)) * (1.0 - np.exp(-taulay[k + 1])))
        far = 0
        source = eps * B(0)
    else:
        def tau(i):
            return Sum(1, i + 1, lambda k: taulay[k])

        def atm(i):
            return Sum(1, i + 1, lambda k: (B(k - 1) + B(k) * np.exp(-taulay[k])) / (1.0 + np.exp(-taulay[k])) * np.exp(
                -tau(k - 1)) * (1.0 - np.exp(-taulay[k])))
        far = n - 1
        source = tk2b_mod(hvk, 2.728)
    if tau(far) < EXPMAX:
        bak = source * np.exp(-tau(far))
        mr = atm(far) / (1.0 - np.exp(-tau(far)))
    else:
        bak = 0.0
        mr = atm(far)
    return (bak + atm(far), Array(size(taulay), atm), mr, Array(size(taulay), tau), hvk, Array(size(taulay), B), bak)


def planck_down(frq, t, taulay):
    return rte(frq, t, taulay, False, 1.0)


def planck_up(frq, t, taulay, eps):
    return rte(frq, t, taulay, True, eps)


# laws of the solution: one step of an induction along the path (the start, atm = 0 where tau = 0, is the code's contract)
def isothermal_step_down(frq, t0, taulay, i):
    """in an isothermal atmosphere the emission added by a layer is B times the transmittance it takes away"""
    r = RTEquation.planck(frq, Array(size(taulay), lambda j: t0), taulay)
    return r[1][i + 1] - r[1][i]


def isothermal_step_down_law(frq, t0, taulay, i):
    r = RTEquation.planck(frq, Array(size(taulay), lambda j: t0), taulay)
    return tk2b_mod(frq * 1e9 * H / K, t0) * (np.exp(-r[3][i]) - np.exp(-r[3][i + 1]))


def isothermal_step_up(frq, t0, taulay, i):
    r = RTEquation.planck(frq, Array(size(taulay), lambda j: t0), taulay)
    return r[1][i] - r[1][i + 1]


def isothermal_step_up_law(frq, t0, taulay, i):
    r = RTEquation.planck(frq, Array(size(taulay), lambda j: t0), taulay)
    return tk2b_mod(frq * 1e9 * H / K, t0) * (np.exp(-r[3][i + 1]) - np.exp(-r[3][i]))


def inside(frq, t0, taulay, i):
    return i + 1 < size(taulay)


def layer_step_down(frq, t, taulay, i):
    r = RTEquation.planck(frq, t, taulay)
    return r[1][i + 1] - r[1][i]


def layer_step_down_law(frq, t, taulay, i):
    """a convex combination of the two bounding Planck values (hence never above the larger), times the transmittance
    the layer takes away"""
    r = RTEquation.planck(frq, t, taulay)
    w = 1.0 / (1.0 + np.exp(taulay[i + 1]))
    return ((1.0 - w) * r[5][i] + w * r[5][i + 1]) * (np.exp(-r[3][i]) - np.exp(-r[3][i + 1]))


def layer_step_up(frq, t, taulay, i):
    r = RTEquation.planck(frq, t, taulay)
    return r[1][i] - r[1][i + 1]


def layer_step_up_law(frq, t, taulay, i):
    r = RTEquation.planck(frq, t, taulay)
    w = 1.0 / (1.0 + np.exp(taulay[i + 1]))
    return ((1.0 - w) * r[5][i + 1] + w * r[5][i]) * (np.exp(-r[3][i + 1]) - np.exp(-r[3][i]))


# ------------------------------------------------------------------ clouds
def cloud_radiating_temperature(ibase, itop, hvk, tauprof, boftatm):
    if tauprof[ibase] > EXPMAX:
        return None
    em = boftatm[itop] - boftatm[ibase]
    cld = tauprof[itop] - tauprof[ibase]
    if cld > EXPMAX:
        return bright(hvk, em * np.exp(tauprof[ibase]))
    return bright(hvk, em * np.exp(tauprof[ibase]) / (1.0 - np.exp(-cld)))


def crt_pre(ibase, itop, hvk, tauprof, boftatm):
    return ibase <= itop and itop < size(tauprof)


def cloud_integrated_density(dencld, ds, lbase, ltop):
    return 0.1 * Sum(0, size(lbase), lambda c: Sum(int(lbase[c]) + 1, int(ltop[c]) + 1, lambda j: ds[j] * (dencld[j] + dencld[j - 1]) / 2.0))


def cid_pre(dencld, ds, lbase, ltop):
    return All(size(lbase), lambda c: lbase[c] >= 0 and ltop[c] < size(ds))


def ice_law(den, frq):
    """0.0959553 * 8.18645/wavelength[cm] dB/km per 100 g/m3, in Np/km"""
    wave = 29979245800.0 / (frq * 1e9)
    return 8.18645 / wave * den * 0.000959553 * np.log(10.0) / 10.0


def cloudy_absorption(t, denl, deni, frq):
    return (Array(size(t), lambda i: LiqAbsModel.liquid_water_absorption(denl[i], frq, t[i]) if denl[i] > 0 else 0.0),
            Array(size(t), lambda i: ice_law(deni[i], frq) if deni[i] > 0 else 0.0))


def dilec12(f, t):
    tc = t - 273.15
    th = 300.0 / t
    kappa = -43.7527 * th ** 0.05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    z = complex(0.0, f)
    sd = 1164.023 * np.exp(-651.4728 / (tc + 133.07))
    debye = 80.69715 * np.exp(-tc / 226.45) * z / (sd + z)
    delta = 4.008724 * np.exp(-tc / 103.05)
    f1 = 10.46012 + 0.1454962 * tc + 0.063267156 * tc ** 2 + 0.00093786645 * tc ** 3
    z1 = complex(-0.75, 1.0) * f1
    z2 = complex(-4500.0, 2000.0)
    c = np.log(z2 / z1)
    b = 0.5 * delta * (np.log((z - z2) / (z - z1)) / c + np.log((z - np.conj(z2)) / (z - np.conj(z1))) / np.conj(c))
    return kappa - debye + b - delta


def double_debye(freq, temp, r03):
    th = 1.0 - 300.0 / temp
    eps0 = 77.66 - 103.3 * th
    eps1 = 0.0671 * eps0
    fp = 20.1 * np.exp(7.88 * th) if r03 else 20.2 + 146.4 * th + 316.0 * th ** 2
    fs = 39.8 * fp
    return (eps0 - eps1) / complex(1.0, freq / fp) + (eps1 - 3.52) / complex(1.0, freq / fs) + 3.52


def liquid_water_absorption(water, freq, temp, model):
    if water <= 0:
        return 0.0
    if model == 'R98' or model == 'R03':
        eps = double_debye(freq, temp, model == 'R03')
    else:
        eps = dilec12(freq, temp)
    return -0.06286 * np.imag((eps - 1.0) / (eps + 2.0)) * freq * water


def liquid_unknown(water, freq, temp, model):
    if water <= 0:
        return 0.0
    raise ValueError(model)


def liquid_scaled(k, water, freq, temp):
    return LiqAbsModel.liquid_water_absorption(k * water, freq, temp)


def liquid_scaled_law(k, water, freq, temp):
    return k * LiqAbsModel.liquid_water_absorption(water, freq, temp)


# ------------------------------------------------------------------ clear sky
WITH_OZONE = ('R18', 'R21', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24')


def clearsky_absorption(p, t, e, frq, o3n, amu, n2, o3):
    nepers = 0.182 * frq * 0.1 * np.log(10.0)

    def pdry(i):
        return p[i] / 10.0 - e[i] / 10.0

    def wet(i):
        line, cont = H2OAbsModel().h2o_absorption(pdry(i), 300.0 / t[i], e[i] / 10.0, frq, amu)
        return nepers * (line + cont)

    def dry(i):
        line, cont = O2AbsModel().o2_absorption(pdry(i), 300.0 / t[i], e[i] / 10.0, frq, amu)
        a = nepers * (line + cont)
        if n2:
            a = a + N2AbsModel.n2_absorption(t[i], 10.0 * pdry(i), frq)
        if o3n is not None and o3 in WITH_OZONE:
            a = a + O3AbsModel().o3_absorption(t[i], p[i], frq, o3n[i], amu)
        return a
    return Array(size(p), wet), Array(size(p), dry)
