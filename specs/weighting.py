"""Weighting functions."""
import types
import numpy as np
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, LiqAbsModel
from pyrtlib.weighting_functions import WeightingFunctions
from specs import spectrum
from specs.dsl import All, Array, Interp, Sum, size


def create(z, p, t, rh, *step):
    w = WeightingFunctions(z, p, t, rh, *step)
    return (w.zinterp, w.pinterp, w.tinterp, w.rhinterp, w.frequencies, w.satellite, w.emissivity, w.model, w.angle, w.bandpass)


def created(z, p, t, rh, step=1):
    """regular grid from 0 to the top, profiles interpolated on it; satellite view at nadir, black surface"""
    n = size(z)
    m = int(np.ceil((np.max(z) + step) / step))

    def on_grid(x):
        return Array(m, lambda k: Interp(step * k, n, lambda i: z[i], lambda i: x[i]))
    return Array(m, lambda k: step * k), on_grid(p), on_grid(t), on_grid(rh), None, True, 1.0, 'R24', 90.0, None


def ascending(z, *rest):
    return All(size(z) - 1, lambda k: z[k] < z[k + 1])


def calculation(self, latest):
    """the clear-sky simulation of the interpolated profile along the chosen path, oxygen always by the latest model"""
    n, nf = size(self.zinterp), size(self.frequencies)
    H2OAbsModel.model = self.model
    N2AbsModel.model = self.model
    LiqAbsModel.model = self.model
    O2AbsModel.model = latest[-1]
    e = self.emissivity
    z0 = self.zinterp[0]
    run = types.SimpleNamespace(
        z=Array(n, lambda k: self.zinterp[k] - z0), z0=z0, p=self.pinterp, tk=self.tinterp, rh=self.rhinterp, frq=self.frequencies,
        angles=Array(1, lambda k: self.angle), o3n=None, amu=None, ray_tracing=True, _satellite=self._satellite, cloudy=False,
        _uncertainty=False, ice=False, _es=e if isinstance(e, np.ndarray) else Array(nf, lambda j: e))
    return spectrum.execute(run, False, [])[1]


def calculation_defined(self, latest):
    return ascending(self.zinterp) and self.angle > 0 and self.angle < 180


def generate(self):
    """absorption times transmittance of the layers from the one below the level up to the top, or from the ground up to the level"""
    other = self._perform_calculation()
    n, nf = size(self.zinterp), size(self.frequencies)

    def tau(f, k):
        return other['taulaywet'][f, 0, k] + other['taulaydry'][f, 0, k] + other['taulayliq'][f, 0, k] + other['taulayice'][f, 0, k]

    def trans(f, j):
        return np.exp(-Sum(j, n, lambda k: tau(f, k))) if self._satellite else np.exp(-Sum(0, j + 1, lambda k: tau(f, k)))
    self.l0 = n - 1 if self._satellite else 0
    return Array((nf, n), lambda f, j: trans(f, j) * (other['awet'][f, 0, j] + other['adry'][f, 0, j]))


def generate_defined(self):
    return ascending(self.zinterp)


def mean_channel(self, a, bandpass):
    """mean of the rows of each channel, the channels taking consecutive rows"""
    m, c = size(bandpass), size(a, 1)

    def start(i):
        return Sum(0, i, lambda q: bandpass[q])
    return Array((m, c), lambda i, j: Sum(start(i), start(i) + bandpass[i], lambda r: a[r, j]) / bandpass[i])


def channels_fit(self, a, bandpass):
    """every channel takes at least one row and all channels fit in the table"""
    m = size(bandpass)
    return All(m, lambda i: bandpass[i] >= 1) and Sum(0, m, lambda q: bandpass[q]) == size(a, 0)


def set_frequencies(self, f):
    if not isinstance(f, np.ndarray):
        raise ValueError(f)
    self._frequencies = f


def get_frequencies(self):
    return self._frequencies


def set_satellite(self, v):
    if not isinstance(v, bool):
        raise ValueError(v)
    self._satellite = v


def get_satellite(self):
    return self._satellite
