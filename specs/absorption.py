"""Gas absorption laws: water vapour, oxygen, nitrogen, ozone."""
import numpy as np
from pyrtlib.utils import _dcerror as dcerror
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
from specs.dsl import Sum, Prod, First, Last, All, Any, Array, size

DB2NP = 0.1 * np.log(10.0)
RVAP = 0.01 * 8.31451 / 18.01528


# ------------------------------------------------------------------ complex error function
HUI_A = (122.607931777104326, 214.382388694706425, 181.928533092181549, 93.155580458138441, 30.180142196210589, 5.912626209773153,
         0.564189583562615)
HUI_B = (122.607931773875350, 352.730625110963558, 457.334478783897737, 348.703917719495792, 170.354001821091472, 53.992906912940207,
         10.479857114260399)


def _dcerror(x, y):
    """Hui-Armstrong-Wray (1978), degree 6 over degree 7; lower half plane by w(z) = 2 exp(-z^2) - conj(w(conj z))"""
    z = complex(np.abs(y), -x)
    num = HUI_A[0] + z * (HUI_A[1] + z * (HUI_A[2] + z * (HUI_A[3] + z * (HUI_A[4] + z * (HUI_A[5] + z * HUI_A[6])))))
    den = HUI_B[0] + z * (HUI_B[1] + z * (HUI_B[2] + z * (HUI_B[3] + z * (HUI_B[4] + z * (HUI_B[5] + z * (HUI_B[6] + z))))))
    w = num / den
    if y < 0:
        return 2.0 * np.exp(-(complex(x, y) ** 2)) - w
    return w


# ------------------------------------------------------------------ nitrogen
def n2_absorption(t, p, f, model):
    th = 300.0 / t
    roll = 0.5 + 0.5 / (1.0 + (f / 450.0) ** 2)
    if model == 'MWL24':
        return 0.84 * 1e5 * n2_absorption_mwl24(t, p, f)
    if model == 'R98':
        return 6.4e-14 * p ** 2 * f ** 2 * th ** 3.55
    if model == 'R03':
        return 1.29 * 6.5e-14 * roll * p ** 2 * f ** 2 * th ** 3.6
    if model in ('R16', 'R17', 'R18', 'R19', 'R19SD'):
        return 1.34 * 6.5e-14 * roll * p ** 2 * f ** 2 * th ** 3.6
    if model in ('R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24'):
        return 9.95e-14 * roll * p ** 2 * f ** 2 * th ** 3.22
    raise ValueError(model)


def n2_absorption_mwl24(t, p, f):
    """classical trajectory fit, 1/cm"""
    th = 300.0 / t
    k = 0.6950354549
    d = 108.0 / (k * t)
    d300 = 108.0 / (k * 300.0)
    pot = (np.exp(d) - 1.0 - d) / (np.exp(d300) - 1.0 - d300)
    m0 = 1.4359 - 0.0005385 * f + 1.6182e-7 * f ** 2 + 1.8845e-10 * f ** 3
    aa = 0.07988 - 0.0005165 * f + 1.131e-6 * f ** 2 - 5.738e-10 * f ** 3
    shape = 1.754e-18 * 0.5 * (1.0 + 1.033 * (1.0 + 0.1510 / (1.0 + ((f - 358.0) / 127.0) ** 2)) / (1.0 + ((f - 44.0) / 568.0) ** 2)
                               + 0.1420 * np.exp(-(f / 92.0 - 1.0) ** 2))
    return shape * th ** (m0 + aa * np.log(th)) * pot * (0.7500616827 * p) ** 2 * f ** 2


def n2_scaled(k, t, p, f):
    return N2AbsModel.n2_absorption(t, k * p, f)


def n2_scaled_law(k, t, p, f):
    return k * k * N2AbsModel.n2_absorption(t, p, f)


# ------------------------------------------------------------------ ozone
def o3_absorption(self, t, p, f, o3n, amu, model, ll):
    if o3n == 0:
        return 0.0
    n = size(ll.fl)
    ti = ll.reftline / t

    def line(k):
        strength = ll.s1[k] * np.exp(ll.b[k] * (1.0 - ti))
        wc = ll.w[k] * p * ti ** ll.x[k]
        if model == 'R22' or model == 'R22SD':
            beta = 0.62065e-7 * ll.fl[k] * np.sqrt(t)
            return strength * np.real(dcerror((ll.fl[k] - f) / beta, wc / beta)) / beta
        w = 0.5346 * wc + np.sqrt(0.2166 * wc ** 2 + 0.6931 * 3.85e-15 * t * ll.fl[k] ** 2)
        return strength * (f / ll.fl[k]) ** 2 * w / ((f - ll.fl[k]) ** 2 + w ** 2)
    c = 0.56419e-4 if model == 'R22' or model == 'R22SD' else 3.183e-5
    total = Sum(0, n, lambda k: line(k) if f - 1.0 <= ll.fl[k] and ll.fl[k] <= f + 1.0 else 0.0)
    return c * total * (1.0 - np.exp(-1008.0 / t)) * ti ** 2.5 * 1e-6 * o3n


def o3_ordered(self, t, p, f, o3n, amu, model, ll):
    return All(size(ll.fl) - 1, lambda k: ll.fl[k] <= ll.fl[k + 1])


# ------------------------------------------------------------------ water vapour
SELFCON = (2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21)
SELFEXP = (6.413, 6.414, 6.275, 6.049, 5.789, 5.557)
STEP = 299.792458


def h2o_continuum(self, frq, vx, nfreq):
    """MT_CKD 4.1 self continuum: cubic interpolation of the 10 cm-1 table (mirrored below zero)"""
    theta = 296.0 * vx / 300.0
    tab = [6.532e12 * SELFCON[k] * theta ** (SELFEXP[k] + 3.0) for k in (1, 0, 1, 2, 3, 4, 5)]
    x = frq / STEP
    j = 0 if x < 1 else 1 if x < 2 else 2 if x < 3 else 3
    p = x - j
    c = (3.0 - 2.0 * p) * p ** 2
    b = 0.5 * p * (1.0 - p)
    cs = -tab[j] * b * (1.0 - p) + tab[j + 1] * (1.0 - c + b * p) + tab[j + 2] * (c + b * (1.0 - p)) - tab[j + 3] * b * p
    return Array(nfreq, lambda i: cs)


def below_1199(self, frq, vx, nfreq):
    return frq < 4.0 * STEP


B_SVC = (-7.804242E+6, 8.345651E+4, -4.212794E+2, 1.242946, -2.409822E-3, 3.017768E-6, -2.518957E-9, 1.350628E-12, -4.134191E-16,
         5.530774E-20)


def h2o_continuum_mwl24(self, frq, vx):
    atm = 1013.25
    t = 300.0 / vx
    b = B_SVC[0] + B_SVC[1] * t + B_SVC[2] * t ** 2 + B_SVC[3] * t ** 3 + B_SVC[4] * t ** 4 + B_SVC[5] * t ** 5 + B_SVC[6] * t ** 6 \
        + B_SVC[7] * t ** 7 + B_SVC[8] * t ** 8 + B_SVC[9] * t ** 9
    virial = -b * (100.0 / t) ** 6
    kbd = 4.7856E-4 * np.exp(1669.8 / t - 5.10485E-3 * t)
    kmd = ((virial - 30.5) / (82.05746 * t) - kbd) / atm
    bound = (5.55E-8 / (434.8 ** 2 + (frq - 219.5) ** 2) + 4.93E-10 / (21.06 ** 2 + frq ** 2) + 1.34E-14) * (268.0 / t) ** 10
    meta = (1e-13 * (4.06 + 7.12E-3 * frq) / atm * 0.3 * (266.0 / t) ** 2.9 + 0.7 * bound / (kbd / atm)) * kmd
    wings = 8.5E-15 * frq ** 2.2 * (296.0 / t) ** 1.5
    return ((bound + meta) * frq ** 2 + wings) * 1e5


SD = ('R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')
SD2 = ('R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')


def h2o_absorption(self, pdrykpa, vx, ekpa, frq, amu, model, ll):
    if ekpa == 0:
        return 0.0, 0.0
    t = 300.0 / vx
    rho = 10.0 * ekpa / (RVAP * t)
    if model in ('R03', 'R16', 'R17', 'R98'):
        pvap = rho * t / 217.0
    elif model in ('R22SD', 'R23SD', 'R24', 'MWL24'):
        pvap = 461.52 * 1e-5 * rho * t
    else:
        pvap = rho * t / 216.68
    pda = 10.0 * (pdrykpa + ekpa) - pvap
    return h2o_lines(pda, pvap, rho, t, frq, model, ll), h2o_cont(self, pda, pvap, t, vx, frq, model, ll)


def h2o_cont(self, pda, pvap, t, vx, f, model, ll):
    th = ll.reftcon / t
    if model in ('R03', 'R98'):
        con = (5.43e-10 * pda * th ** 3 + 1.8e-8 * pvap * th ** 7.5) * pvap * f ** 2
    elif model == 'MWL24':
        con = H2OAbsModel().h2o_continuum_mwl24(f, vx) * pvap ** 2 + 7.1e-10 * (300.0 / t) ** 4.4 * f ** 1.96 * pda * pvap
    elif model in ('R23SD', 'R24'):
        tl = ll.reftline / t
        if ll.cs > 0:
            cs = ll.cs * tl ** ll.xcs
        else:
            cs = H2OAbsModel().h2o_continuum(f, vx, 1)[0]
        con = (ll.cf * tl ** ll.xcf * pda + cs * pvap) * pvap * f ** 2
    else:
        con = (ll.cf * pda * th ** ll.xcf + ll.cs * pvap * th ** ll.xcs) * pvap * f ** 2
    return con / DB2NP / (0.182 * f)


def h2o_lines(pda, pvap, rho, t, f, model, ll):
    n = size(ll.fl)
    ti = ll.reftline / t
    lnti = np.log(ti)

    def width(i):
        return ll.w0[i] * pda * ti ** ll.x[i] + ll.w0s[i] * pvap * ti ** ll.xs[i]

    def shift(i):
        if model == 'R98':
            return 0.0
        if model == 'R03':
            return ll.sr[i] * width(i)
        if model in ('R16', 'R17'):
            return ll.sr[i] * ll.w0[i] * pda * ti ** ll.x[i]
        if model == 'R18':
            return ll.sh[i] * pda * ti ** ll.xh[i] + ll.shs[i] * pvap * ti ** ll.xhs[i]
        return ll.sh[i] * pda * (1.0 - ll.aair[i] * lnti) * ti ** ll.xh[i] + ll.shs[i] * pvap * (1.0 - ll.aself[i] * lnti) * ti ** ll.xhs[i]

    def width2(i):
        if model in SD2:
            if ll.w2[i] > 0:
                return ll.w2[i] * pda * ti ** ll.xw2[i] + ll.w2s[i] * pvap * ti ** ll.xw2s[i]
            return 0.0
        return ll.w2[i] * pda + ll.w2s[i] * pvap

    def delta2(i):
        if model in SD2:
            return ll.d2[i] * pda + ll.d2s[i] * pvap
        if model == 'R20SD' and i == 1:
            return ll.d2air * pda + ll.d2self * pvap
        return 0.0

    def lorentz(i, d):
        return width(i) / (d ** 2 + width(i) ** 2)

    def sdshape(i, d):
        """speed-dependent resonant shape"""
        if model == 'R19SD':
            q = width2(i)
            x = complex(width(i) - 1.5 * width2(i), d) / q
        else:
            q = complex(width2(i), -delta2(i))
            x = complex(width(i) - 1.5 * width2(i), d + 1.5 * delta2(i)) / q
        r = np.sqrt(x)
        return np.real(2.0 * (1.0 - 1.77245385090551603 * r * dcerror(-np.imag(r), np.real(r))) / q)

    def base(i):
        return width(i) / (750.0 ** 2 + width(i) ** 2)

    def near(d):
        if model in ('R16', 'R03', 'R17', 'R98'):
            return np.abs(d) <= 750.0
        return np.abs(d) < 750.0

    def resonant(i):
        d = f - ll.fl[i] - shift(i)
        if model in SD and width2(i) > 0 and np.abs(d) < 10.0 * width(i):
            return sdshape(i, d) - base(i)
        if near(d):
            return lorentz(i, d) - base(i)
        return 0.0

    def mirror(i):
        d = f + ll.fl[i] + shift(i)
        if near(d):
            return lorentz(i, d) - base(i)
        return 0.0

    total = Sum(0, n, lambda i: ll.s1[i] * ti ** 2.5 * np.exp(ll.b2[i] * (1.0 - ti)) * (resonant(i) + mirror(i)) * (f / ll.fl[i]) ** 2)
    if model in ('R22SD', 'R23SD', 'R24'):
        npp = 1e-10 * rho * total / (np.pi * 2.9915075E-23)
    elif model in ('R03', 'R16', 'R98'):
        npp = 3.1831e-5 * 3.335e16 * rho * total
    else:
        npp = 3.1831e-5 * 3.344e16 * rho * total
    return npp / DB2NP / (0.182 * f)


# ------------------------------------------------------------------ oxygen
BAND = 38     # lines 0..37 are the 118 GHz line and the 60 GHz band


def o2_absorption(self, pdrykpa, vx, ekpa, frq, amu, model, ll):
    t = 300.0 / vx
    p = 10.0 * (pdrykpa + ekpa)
    vapden = 10.0 * ekpa / (RVAP * t)
    if model in ('R03', 'R16', 'R17', 'R18', 'R98'):
        pv = vapden * t / 217.0
    elif model in ('R22', 'R23', 'R24'):
        pv = 4.615228e-3 * vapden * t
    else:
        pv = vapden * t / 216.68
    pda = p - pv
    th = 300.0 / t
    b = th ** ll.x
    if model == 'R98':
        den = 0.001 * (pda + 1.1 * pv) * th
    elif model == 'R03':
        den = 0.001 * (pda * th ** 0.9 + 1.1 * pv * th)
    elif model == 'R16':
        den = 0.001 * (pda * b + 1.1 * pv * th)
    else:
        den = 0.001 * (pda * b + 1.2 * pv * th)
    dfnr = ll.wb300 * den
    nonres = frq ** 2 * dfnr / (th * (frq ** 2 + dfnr ** 2))
    if model in ('R03', 'R98'):
        ncpp = 1.6e-17 * nonres * 5.034e11 * pda * th ** 3 / 3.14159
        lines = 5.034e11 * o2_first_order(frq, th, b, den, p, model, ll) * pda * th ** 3 / 3.14159
    else:
        ncpp = 1.584e-17 * nonres * 1.6097e11 * pda * th ** 3
        if model in ('R17', 'R18'):
            lines = 1.6097e11 * o2_first_order(frq, th, b, den, p, model, ll) * pda * th ** 3
        elif model in ('R19', 'R19SD'):
            lines = 1.6097e11 * (1.584e-17 * nonres + o2_first_order(frq, th, b, den, p, model, ll)) * pda * th ** 3
        elif model == 'R16':
            lines = 1.6097e11 * o2_second_order(frq, th, den, ll) * pda * th ** 3
        elif model == 'R23':
            lines = 1.6097e11 * o2_r23(frq, th, den, ll) * pda * frq ** 2 * th ** 3
        elif model == 'R24':
            lines = 1.6097e11 * o2_r24(frq, th, den, ll) * pda * frq ** 2 * th ** 2
        else:
            lines = 1.6097e11 * (1.584e-17 * nonres + o2_second_order(frq, th, den, ll)) * pda * th ** 3
    if model in ('R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24'):
        ncpp = 0.0
    if model != 'R98':
        lines = np.maximum(lines, 0.0)
    if model in ('R20', 'R20SD', 'R22'):
        lines = 1.004 * lines
    return lines / DB2NP / (0.182 * frq), ncpp / DB2NP / (0.182 * frq)


def o2_first_order(f, th, b, den, p, model, ll):
    """lines with first-order mixing"""
    th1 = th - 1.0

    def term(k):
        w = ll.w300[k] * den
        y = (ll.y300[k] + ll.v[k] * th1) * (0.001 * p * b if model in ('R03', 'R98') else den)
        s = ll.s300[k] * np.exp(-ll.be[k] * th1)
        up = (w + (f - ll.f[k]) * y) / ((f - ll.f[k]) ** 2 + w ** 2)
        dn = (w - (f + ll.f[k]) * y) / ((f + ll.f[k]) ** 2 + w ** 2)
        return s * (up + dn) * (f / ll.f[k]) ** 2
    return Sum(0, size(ll.f), term)


def o2_second_order(f, th, den, ll):
    """lines with second-order mixing"""
    th1 = th - 1.0

    def term(k):
        w = ll.w300[k] * den
        y = den * (ll.y0[k] + ll.y1[k] * th1)
        dnu = den ** 2 * (ll.dnu0[k] + ll.dnu1[k] * th1)
        g = 1.0 + den ** 2 * (ll.g0[k] + ll.g1[k] * th1)
        s = ll.s300[k] * np.exp(-ll.be[k] * th1)
        d1 = f - ll.f[k] - dnu
        d2 = f + ll.f[k] + dnu
        return s * ((w * g + d1 * y) / (d1 ** 2 + w ** 2) + (w * g - d2 * y) / (d2 ** 2 + w ** 2)) * (f / ll.f[k]) ** 2
    return Sum(0, size(ll.f), term)


def sd118(f, fcen, w, y):
    """speed-dependent shape of the 118 GHz line"""
    w2 = 0.076 * w
    r = np.sqrt(complex(w - 1.5 * w2, f - fcen) / w2)
    pxw = 1.77245385090551603 * r * dcerror(-np.imag(r), np.real(r))
    return np.real(complex(1.0, y) * 2.0 * (1.0 - pxw) / w2)


def o2_shape(k, f, fcen, w, g, y):
    if k == 0 and np.abs(f - fcen) < 10.0 * w:
        return sd118(f, fcen, w, y) + (w * g - (f + fcen) * y) / ((f + fcen) ** 2 + w ** 2)
    return (w * g + (f - fcen) * y) / ((f - fcen) ** 2 + w ** 2) + (w * g - (f + fcen) * y) / ((f + fcen) ** 2 + w ** 2)


def o2_r23(f, th, den, ll):
    th1 = th - 1.0
    n = size(ll.f)
    pe1 = 0.99 * den
    pe2 = pe1 ** 2

    def a(k):
        return ll.s300[k] * np.exp(-ll.be[k] * th1) / ll.f[k] ** 2

    def g(k):
        return ll.g0[k] + ll.g1[k] * th1
    off = Sum(1, BAND, lambda k: a(k) * g(k)) / Sum(1, BAND, lambda k: a(k))

    def term(k):
        w = ll.w300[k] * den
        y = pe1 * (ll.y300[k] + ll.y1[k] * th1)
        gf = 1.0 + pe2 * (g(k) - off) if 1 <= k and k < BAND else 1.0
        fcen = ll.f[k] + pe2 * (ll.dnu0[k] + ll.dnu1[k] * th1)
        return a(k) * o2_shape(k, f, fcen, w, gf, y)
    dfnr = ll.wb300 * den
    band = 1.584e-17 / th * dfnr / (f ** 2 + dfnr ** 2) + Sum(0, BAND, term)
    return np.maximum(band, 0.0) + Sum(BAND, n, term)


def o2_r24(f, th, den, ll):
    th1 = th - 1.0
    n = size(ll.f)
    pe2 = den ** 2

    def a(k):
        return ll.s300[k] * np.exp(-ll.be[k] * th1) * th / ll.f[k] ** 2

    def y0(k):
        return 0.99 * (ll.y300[k] + ll.y1[k] * th1)

    def g0(k):
        return ll.g0[k] + ll.g1[k] * th1
    bias = (1.584e-17 * ll.wb300 + Sum(0, BAND, lambda k: 2.0 * a(k) * (ll.w300[k] + y0(k) * ll.f[k]))) / (2.0 * Sum(1, BAND, a))
    ratio = Sum(1, BAND, lambda k: a(k) * g0(k)) / Sum(1, BAND, lambda k: a(k) ** 2)

    def term(k):
        inband = 1 <= k and k < BAND
        w = ll.w300[k] * den
        y = den * (y0(k) - bias / ll.f[k] if inband else y0(k))
        gf = 1.0 + pe2 * (g0(k) - a(k) * ratio) if inband else 1.0
        fcen = ll.f[k] + pe2 * (ll.dnu0[k] + ll.dnu1[k] * th1)
        return a(k) * o2_shape(k, f, fcen, w, gf, y)
    wnr = ll.wb300 * den
    return 1.584e-17 * wnr / (f ** 2 + wnr ** 2) + Sum(0, n, term)


def o2_enough(self, pdrykpa, vx, ekpa, frq, amu, model, ll):
    """the band normalisation of the last two models needs the whole 60 GHz band in the catalogue"""
    if model in ('R23', 'R24'):
        return size(ll.f) >= BAND
    return size(ll.f) >= 1
