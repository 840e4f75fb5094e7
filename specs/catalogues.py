"""Climatologies and line catalogues shipped with the package: which file, group and column each value comes from."""
import importlib
import numpy as np
from pyrtlib.absorption_model import AbsModelError, H2OAbsModel, O2AbsModel, O3AbsModel
from specs.dsl import Array, Catalogue, Table, size

NAMES = ('Tropical', 'Midlatitude Summer', 'Midlatitude Winter', 'Subarctic Summer', 'Subarctic Winter', 'US Standard')


def atm_profiles():
    return {0: 'Tropical', 1: 'Midlatitude Summer', 2: 'Midlatitude Winter', 3: 'Subarctic Summer', 4: 'Subarctic Winter', 5: 'US Standard'}


def gl_atm(atm):
    """height (km), pressure (mb), density (cm-3), temperature (K) and the seven main gases (ppmv) of the named climatology"""
    for i in range(6):
        if atm == i:
            m = Table('climatology/' + NAMES[i].lower().replace(' ', '_') + '.dat')
            n = size(m)

            def column(c):
                return Array(n, lambda k: m[k, c])
            return column(0), column(1), column(2), column(3), Array((n, 7), lambda k, g: m[k, 4 + g])
    raise ValueError(atm)


def gas_column(path, first, last, gas):
    if gas < first or gas > last:
        raise ValueError(gas)
    m = Table(path)
    return Array(size(m), lambda k: m[k, gas - first])


def gl_atm_minor(gas):
    """minor gases, ids 7 (NO) to 27 (PH3) in this order"""
    return gas_column('climatology/gas_minor.dat', 7, 27, gas)


def gl_atm_trace(gas):
    """trace gases, ids 28 (COF2) to 43 (HNO4) in this order"""
    return gas_column('climatology/gas_trace.dat', 28, 43, gas)


def several(path, first, last, gas):
    n = size(gas)
    for i in range(n):
        if gas[i] < first or gas[i] > last:
            raise ValueError(gas)
    m = Table(path)
    return Array((size(m), n), lambda k, i: m[k, gas[i] - first])


def gl_atm_minor_list(gas):
    return several('climatology/gas_minor.dat', 7, 27, gas)


def gl_atm_trace_list(gas):
    return several('climatology/gas_trace.dat', 28, 43, gas)


# line parameters: column of the line list and unit factor; the list a model has
WIDTHS = {'fl': (1, 1.0), 's1': (2, 1.0), 'b2': (3, 1.0), 'w0': (4, 1000.0), 'x': (5, 1.0)}
SELF = {'w0s': (6, 1000.0), 'xs': (7, 1.0)}
SHIFTED = {'sr': (6, 1.0), 'w0s': (7, 1000.0), 'xs': (8, 1.0)}
SHIFTS = {'sh': (8, 1000.0), 'xh': (9, 1.0), 'shs': (10, 1000.0), 'xhs': (11, 1.0)}
LOGS = {'aair': (12, 1.0), 'aself': (13, 1.0)}
SPEED = {'w2': (14, 1000.0), 'w2s': (15, 1000.0)}
SPEEDS = {'w2': (14, 1000.0), 'xw2': (15, 1.0), 'w2s': (16, 1000.0), 'xw2s': (17, 1.0), 'd2': (18, 1000.0), 'd2s': (19, 1000.0)}
H2O = {'R98': (WIDTHS, SELF), 'R03': (WIDTHS, SHIFTED), 'R16': (WIDTHS, SHIFTED), 'R17': (WIDTHS, SHIFTED), 'R18': (WIDTHS, SELF, SHIFTS),
       'R19': (WIDTHS, SELF, SHIFTS, LOGS), 'R19SD': (WIDTHS, SELF, SHIFTS, LOGS, SPEED), 'R20': (WIDTHS, SELF, SHIFTS, LOGS),
       'R20SD': (WIDTHS, SELF, SHIFTS, LOGS, SPEED), 'R21SD': (WIDTHS, SELF, SHIFTS, LOGS, SPEEDS), 'R22SD': (WIDTHS, SELF, SHIFTS, LOGS, SPEEDS),
       'R23SD': (WIDTHS, SELF, SHIFTS, LOGS, SPEEDS), 'R24': (WIDTHS, SELF, SHIFTS, LOGS, SPEEDS), 'MWL24': (WIDTHS, SELF, SHIFTS, LOGS, SPEEDS)}
CONTINUUM = ('reftcon', 'cf', 'xcf', 'cs', 'xcs')
O3 = {'fl': (1, 1.0), 's1': (2, 1.0), 'b': (3, 1.0), 'w': (4, 1000.0), 'x': (5, 1.0), 'sr': (6, 1.0)}
FIRST = ('v', 'y300')
SECOND = ('y0', 'y1', 'g0', 'g1', 'dnu0', 'dnu1')
MIXED = ('y300', 'y1', 'g0', 'g1', 'dnu0', 'dnu1')
O2 = {'R98': FIRST, 'R03': FIRST, 'R16': SECOND, 'R17': FIRST, 'R18': FIRST, 'R19': FIRST, 'R19SD': FIRST, 'R20': SECOND, 'R20SD': SECOND,
      'R22': SECOND, 'R23': MIXED, 'R24': MIXED}
MODELS_O3 = ('R18', 'R22', 'R23')


def parameters(gas, model):
    """names of the parameters the catalogue of a model must expose"""
    if gas == 'O2':
        return ('f', 's300', 'be', 'w300', 'wb300', 'x') + O2[model]
    if gas == 'O3':
        return tuple(O3) + ('reftline',)
    names = ()
    for part in H2O[model]:
        names = names + tuple(part)
    return names + CONTINUUM + ('reftline',) + (('d2air', 'd2self') if model == 'R20SD' else ())


def load_h2o(model, before):
    """(driver) the catalogue after loading `before`, writing into what was loaded, and then loading `model`"""
    if before is not None:
        H2OAbsModel.model = before
        H2OAbsModel.set_ll()
        for name in parameters('H2O', before):
            setattr(H2OAbsModel.h2oll, name, 0.0)
    H2OAbsModel.model = model
    H2OAbsModel.set_ll()
    return tuple(getattr(H2OAbsModel.h2oll, name) for name in parameters('H2O', model))


def load_o2(model, before):
    if before is not None:
        O2AbsModel.model = before
        O2AbsModel.set_ll()
        for name in parameters('O2', before):
            setattr(O2AbsModel.o2ll, name, 0.0)
    O2AbsModel.model = model
    O2AbsModel.set_ll()
    return tuple(getattr(O2AbsModel.o2ll, name) for name in parameters('O2', model))


def load_o3(model, before):
    if before is not None:
        O3AbsModel.model = before
        O3AbsModel.set_ll()
        for name in parameters('O3', before):
            setattr(O3AbsModel.o3ll, name, 0.0)
    O3AbsModel.model = model
    O3AbsModel.set_ll()
    return tuple(getattr(O3AbsModel.o3ll, name) for name in parameters('O3', model))


def line_list(path, model, name, columns):
    if name in columns:
        m = Catalogue(path, model, 'mtx')
        c, unit = columns[name]
        return Array(size(m), lambda k: m[k, c] / unit)
    if name in CONTINUUM:
        return Catalogue(path, model, 'ctr')[CONTINUUM.index(name)]
    return Catalogue(path, model, name).item()


def catalogue_h2o(model, before):
    if model not in H2O:
        raise AbsModelError(model, '')
    H2OAbsModel.model = model
    columns = {}
    for part in H2O[model]:
        columns.update(part)
    return tuple(line_list('_lineshape/h2o_lineshape.nc', model, name, columns) for name in parameters('H2O', model))


def catalogue_o2(model, before):
    if model not in O2:
        raise AbsModelError(model, '')
    O2AbsModel.model = model

    def of(name):
        a = Catalogue('_lineshape/o2_lineshape.nc', model, name)
        return a.item() if name in ('wb300', 'x') else a
    return tuple(of(name) for name in parameters('O2', model))


def catalogue_o3(model, before):
    if model not in MODELS_O3:
        raise AbsModelError(model, '')
    O3AbsModel.model = model
    return tuple(line_list('_lineshape/o3_lineshape.nc', model, name, O3) for name in parameters('O3', model))


def implemented_models():
    return {'Oxygen': list(O2), 'WaterVapour': list(H2O), 'Ozone': list(MODELS_O3)}


def load_covariances():
    """(driver) the covariance matrices of the spectroscopic parameters, as the module gives them"""
    module = importlib.import_module('pyrtlib.uncertainty.covariance_matrix')
    importlib.reload(module)
    return module.R17_111, module.R17_112, module.R19


def covariances():
    """R17: Cimini et al. 2018 (111 parameters) and 2019 (112); R19: Gallucci et al. 2023 (135)"""
    path = 'uncertainty/covariance_matrix/'
    return (Catalogue(path + 'R17/Cov_parameters_Cimini_et_al_2018_V1.1.nc', '', 'Cov_p'),
            Catalogue(path + 'R17/Cov_parameters_Cimini_et_al_2019_V2.0.nc', '', 'Cov_p'),
            Catalogue(path + 'R19/Cov_parameters_Gallucci_et_al_ACPD_2023_V1.0.nc', '', 'Cov_p'))
