"""Spectroscopic parameters: tables, perturbation, use by the absorption models."""
import numpy as np
from types import SimpleNamespace
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, O3AbsModel
from pyrtlib.uncertainty.absmod_uncertainty import SpectroscopicParameter, AbsModUncertainty
from specs.absorption import h2o_absorption, o2_absorption, o3_absorption
from specs.dsl import Array, size

OLD = ('R98', 'R03', 'R16', 'R17')
MIXED = ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD')


# ------------------------------------------------------------------ perturbation
def perturb(SP, what, mode, index):
    SpectroscopicParameter.set_parameters(SP)
    r = AbsModUncertainty.parameters_perturbation(what, mode, index)
    return table(r)


def table(r):
    return {k: (r[k].value, r[k].uncer, r[k].units, r[k].refer, r[k].name) for k in r}


def perturbed(SP, what, mode, index):
    """the named parameters (all when none is named) moved by one uncertainty, everything else as registered"""
    SpectroscopicParameter.SP = SP
    if mode == 'ran':
        raise NotImplementedError
    if mode not in ('max', 'min', 'non'):
        raise ValueError
    sign = {'max': 1.0, 'min': -1.0, 'non': 0.0}[mode]
    return {k: (moved(SP[k].value, SP[k].uncer, sign, index) if mode != 'non' and (len(what) == 0 or k in what) else SP[k].value,
                SP[k].uncer, SP[k].units, SP[k].refer, SP[k].name) for k in SP}


def moved(value, uncer, sign, index):
    if not isinstance(value, np.ndarray) and not isinstance(uncer, np.ndarray):
        return value + sign * uncer
    if not isinstance(value, np.ndarray):
        return Array(size(uncer), lambda j: value + sign * uncer[j])
    if not isinstance(uncer, np.ndarray):
        return Array(size(value), lambda j: value[j] + sign * uncer)
    return Array(size(value), lambda j: value[j] + sign * uncer[j] if index is None or j == index else value[j])


def in_range(SP, what, mode, index):
    if index is None:
        return True
    return index < size(SP['A'].value)


def perturb_then_write(SP, what, mode, index):
    """writing into the perturbed parameters afterwards leaves the registered ones as they are"""
    SpectroscopicParameter.set_parameters(SP)
    r = AbsModUncertainty.parameters_perturbation(what, mode, index)
    for k in r:
        r[k].value = 7.0 if not isinstance(r[k].value, np.ndarray) else write_first(r[k].value, 7.0)
    return table(SpectroscopicParameter.SP)


def write_first(a, v):
    a[0] = v
    return a


def registered(SP, what, mode, index):
    SpectroscopicParameter.SP = SP
    return table(SP)


# ------------------------------------------------------------------ tables
def water_table(model):
    t = SpectroscopicParameter.water_parameters(model)
    return values(t), H2OAbsModel.model


def values(t):
    return {k: (t[k].value, t[k].units) for k in t}


KM = '1/(km*(mb^2*GHz^2))'
WATER = (('con_Cf', 'cf', 1.0, KM), ('con_Cs', 'cs', 1.0, KM), ('con_Xf', 'xcf', 1.0, 'unitless'), ('con_Xs', 'xcs', 1.0, 'unitless'),
         ('FL', 'fl', 1.0, 'GHz'), ('S', 's1', 1.0, 'Hz*cm^2'), ('B2', 'b2', 1.0, 'unitless'), ('gamma_a', 'w0', 1e3, 'MHz/mb'), ('gamma_w', 'w0s', 1e3, 'MHz/mb'),
         ('n_a', 'x', 1.0, 'unitless'), ('n_w', 'xs', 1.0, 'unitless'))
SHIFTS = (('n_da', 'xh', 1.0, ''), ('n_dw', 'xhs', 1.0, ''), ('delta_a', 'sh', 1e3, 'MHz/mb'), ('delta_w', 'shs', 1e3, 'MHz/mb'))


def column(v, factor=1.0):
    """the catalogue's own values"""
    if isinstance(v, np.ndarray):
        return Array(size(v), lambda j: v[j] * factor)
    return v * factor


def water_values(model, ll):
    H2OAbsModel.model = model
    t = {k: (column(getattr(ll, a), f), u) for k, a, f, u in WATER}
    t['wv_nS'] = (0.0, '')
    t['con_Cf_factr'] = (1.11 if model in OLD else 1, 'unitless')
    t['con_Cs_factr'] = (0.79 if model in OLD else 1, 'unitless')
    if model not in OLD:
        for k, a, f, u in SHIFTS:
            t[k] = (column(getattr(ll, a), f), u)
    elif model != 'R98':
        t['SR'] = (column(ll.sr), 'unitless')
    return t, model


def oxygen_table(model):
    t = SpectroscopicParameter.oxygen_parameters(model)
    return values(t), O2AbsModel.model


OXYGEN = (('O2FL', 'f', 'GHz'), ('O2S', 's300', 'cm2*Hz'), ('O2BE', 'be', 'unitless'), ('O2gamma', 'w300', 'MHz/mb'), ('O2gamma_NL', 'w300', 'MHz/mb'),
          ('WB300', 'wb300', 'MHz/mb'), ('X05', 'x', 'unitless'))
MIX = '1/bar == 1/1e5Pa =~ 1/atm'


def oxygen_values(model, ll):
    O2AbsModel.model = model
    t = {k: (column(getattr(ll, a)), u) for k, a, u in OXYGEN}
    t['Snr'] = (1.6e-17, 'Hz*cm2/GHz2')
    t['X11'] = (0.785, 'unitless')
    t['X16'] = (0.765, 'unitless')
    t['O2_nS'] = (2.0, 'unitless')
    t['w2a'] = (1.2, 'unitless')
    if model in MIXED:
        t['O2_V'] = (column(ll.v), MIX)
        t['O2_V_NL'] = (column(ll.v), '1/mb')
    if model in MIXED or model in ('R23', 'R24'):
        t['Y300'] = (column(ll.y300), MIX)
        t['Y300_NL'] = (column(ll.y300), '1/mb')
    else:
        t['y0'] = (column(ll.y0), '')
    if model not in MIXED:
        t['y1'] = (column(ll.y1), '')
        t['dnu0'] = (column(ll.dnu0), '')
        t['dnu1'] = (column(ll.dnu1), '')
    return t, model


def ozone_table(model):
    t = SpectroscopicParameter.ozono_parameters(model)
    return values(t), O3AbsModel.model


OZONE = (('O3_FL', 'fl', 'GHz'), ('O3_S1', 's1', 'Hz*cm^2'), ('O3_B', 'b', 'unitless'), ('O3_W', 'w', 'GHz/mb'), ('O3_X', 'x', 'unitless'), ('O3_SR', 'sr', 'unitless'))


def ozone_values(model, ll):
    O3AbsModel.model = model
    return {k: (column(getattr(ll, a)), u) for k, a, u in OZONE}, model


def scribble(t):
    """write a different number into every parameter, then read all of them"""
    v = 1000.0
    for k in t:
        v = v + 1.0
        if isinstance(t[k].value, np.ndarray):
            t[k].value[0] = v
    return {k: t[k].value[0] for k in t if isinstance(t[k].value, np.ndarray)}


def scribbled(t):
    v = 1000.0
    r = {}
    for k in t:
        v = v + 1.0
        if isinstance(t[k].value, np.ndarray):
            r[k] = v
    return r


def water_scribble(model):
    return scribble(SpectroscopicParameter.water_parameters(model))


def water_scribbled(model, ll):
    H2OAbsModel.model = model
    return scribbled(SpectroscopicParameter.water_parameters(model))


def oxygen_scribble(model):
    return scribble(SpectroscopicParameter.oxygen_parameters(model))


def oxygen_scribbled(model, ll):
    O2AbsModel.model = model
    return scribbled(SpectroscopicParameter.oxygen_parameters(model))


def ozone_scribble(model):
    return scribble(SpectroscopicParameter.ozono_parameters(model))


def ozone_scribbled(model, ll):
    O3AbsModel.model = model
    return scribbled(SpectroscopicParameter.ozono_parameters(model))


# ------------------------------------------------------------------ absorption with perturbed parameters
def h2o_catalogue(model, ll, amu):
    """the catalogue as the given parameters make it"""
    v = {k: amu[k].value for k in amu}
    c = dict(reftline=ll.reftline, reftcon=ll.reftcon, xcf=v['con_Xf'], xcs=v['con_Xs'], s1=v['S'], b2=v['B2'], w0=column(v['gamma_a'], 1e-3),
             w0s=column(v['gamma_w'], 1e-3), x=v['n_a'], xs=v['n_w'], fl=v['FL'])
    if model in OLD:
        c['cf'] = v['con_Cf'] * v['con_Cf_factr']
        c['cs'] = v['con_Cs'] * v['con_Cs_factr']
        if model != 'R98':
            c['sr'] = v['SR']
    else:
        c.update(cf=v['con_Cf'], cs=v['con_Cs'], sh=column(v['delta_a'], 1e-3), shs=column(v['delta_w'], 1e-3), xh=v['n_da'], xhs=v['n_dw'])
    for k in ('aair', 'aself', 'w2', 'w2s', 'xw2', 'xw2s', 'd2', 'd2s', 'd2air', 'd2self'):
        if hasattr(ll, k):
            c[k] = getattr(ll, k)
    return SimpleNamespace(**c)


def h2o_perturbed(self, pdrykpa, vx, ekpa, frq, amu, model, ll):
    return h2o_absorption(self, pdrykpa, vx, ekpa, frq, None, model, h2o_catalogue(model, ll, amu))


def o2_catalogue(model, ll, amu):
    v = {k: amu[k].value for k in amu}
    n = size(ll.w300)

    def width(j):
        return v['O2gamma_NL'][j] if 34 <= j and j < 49 else v['O2gamma'][j] if j < 38 else ll.w300[j]

    def patched(a, b):
        return Array(n, lambda j: b[j] if 34 <= j and j < 49 else a[j])
    c = dict(f=v['O2FL'], s300=v['O2S'], be=v['O2BE'], w300=Array(n, width), wb300=v['WB300'], x=v['X05'])
    if model in MIXED:
        c.update(v=patched(v['O2_V'], v['O2_V_NL']), y300=patched(v['Y300'], v['Y300_NL']))
    else:
        c.update(y1=v['y1'], dnu0=v['dnu0'], dnu1=v['dnu1'], g0=ll.g0, g1=ll.g1)
        if model in ('R23', 'R24'):
            c['y300'] = patched(v['Y300'], v['Y300_NL'])
        else:
            c['y0'] = v['y0']
    return SimpleNamespace(**c)


def o2_perturbed(self, pdrykpa, vx, ekpa, frq, amu, model, ll):
    return o2_absorption(self, pdrykpa, vx, ekpa, frq, None, model, o2_catalogue(model, ll, amu))


def o3_perturbed(self, t, p, f, o3n, amu, model, ll):
    v = {k: amu[k].value for k in amu}
    c = SimpleNamespace(fl=v['O3_FL'], s1=v['O3_S1'], b=v['O3_B'], w=v['O3_W'], x=v['O3_X'], sr=v['O3_SR'], reftline=ll.reftline)
    return o3_absorption(self, t, p, f, o3n, None, model, c)


def o3_amu_ordered(self, t, p, f, o3n, amu, model, ll):
    from specs.absorption import o3_ordered
    return o3_ordered(self, t, p, f, o3n, None, model, SimpleNamespace(fl=amu['O3_FL'].value))


# parameters straight from the table: same absorption as without parameters
def h2o_with_table(self, pdrykpa, vx, ekpa, frq, model):
    return self.h2o_absorption(pdrykpa, vx, ekpa, frq, SpectroscopicParameter.water_parameters(model))


def h2o_without(self, pdrykpa, vx, ekpa, frq, model, ll):
    H2OAbsModel.model = model
    if model in ('R16', 'R17'):     # these two carry the continuum factors of Turner et al. (2009) in their table
        ll = SimpleNamespace(cf=1.11 * ll.cf, cs=0.79 * ll.cs, reftline=ll.reftline, reftcon=ll.reftcon, xcf=ll.xcf, xcs=ll.xcs, s1=ll.s1, b2=ll.b2, w0=ll.w0,
                             w0s=ll.w0s, x=ll.x, xs=ll.xs, fl=ll.fl, sr=ll.sr)
    return h2o_absorption(self, pdrykpa, vx, ekpa, frq, None, model, ll)


def o2_with_table(self, pdrykpa, vx, ekpa, frq, model):
    return self.o2_absorption(pdrykpa, vx, ekpa, frq, SpectroscopicParameter.oxygen_parameters(model))


def o2_without(self, pdrykpa, vx, ekpa, frq, model, ll):
    O2AbsModel.model = model
    return o2_absorption(self, pdrykpa, vx, ekpa, frq, None, model, ll)


def o2_enough(self, pdrykpa, vx, ekpa, frq, model, ll):
    return size(ll.f) >= (38 if model in ('R23', 'R24') else 1)


def o3_with_table(self, t, p, f, o3n, model):
    return self.o3_absorption(t, p, f, o3n, SpectroscopicParameter.ozono_parameters(model))


def o3_without(self, t, p, f, o3n, model, ll):
    O3AbsModel.model = model
    return o3_absorption(self, t, p, f, o3n, None, model, ll)


def o3_sorted(self, t, p, f, o3n, model, ll):
    from specs.absorption import o3_ordered
    return o3_ordered(self, t, p, f, o3n, None, model, ll)


def has_lines(model, ll):
    return size(ll.f if hasattr(ll, 'f') else ll.fl) >= 1
