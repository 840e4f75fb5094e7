"""The simulation driver: TbCloudRTE."""
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, O3AbsModel, N2AbsModel, LiqAbsModel
from pyrtlib.tb_spectrum import TbCloudRTE
from specs.dsl import Sum, Prod, First, Last, All, Any, Array, size, memo, Frame


def execute(self, only_bt, o3names):
    H2OAbsModel.set_ll()
    O2AbsModel.set_ll()
    if self.o3n is not None and O3AbsModel.model in o3names:
        O3AbsModel.set_ll()
    RTEquation._from_sat = self._satellite
    nf, na, nl = size(self.frq), size(self.angles), size(self.z)
    e, rho = RTEquation.vapor(self.tk, self.rh, self.ice)
    dryn, wetn, refindx = RTEquation.refractivity(self.p, self.tk, e)
    amu = self.amu if self._uncertainty else None

    def path(k):
        if self.ray_tracing:
            return RTEquation.ray_tracing(self.z, refindx, self.angles[k], self.z0)
        airmass = 1 / np.sin(self.angles[k] * np.pi / 180)
        return Array(nl, lambda i: (self.z[i] - self.z[i - 1]) * airmass if i > 0 else 0.0)
    path = memo(path)

    def gas(j):
        return RTEquation.clearsky_absorption(self.p, self.tk, e, self.frq[j], self.o3n, amu)
    gas = memo(gas)

    def tau(kind, j, k):
        """(integral, layers) along the path of wet (0), dry (1), liquid (2), ice (3) absorption"""
        if kind >= 2:
            if not self.cloudy:
                return 0.0, Array(nl, lambda i: 0.0)
            water = RTEquation.cloudy_absorption(self.tk, self.denliq, self.denice, self.frq[j])[kind - 2]
            return RTEquation.exponential_integration(False, water, path(k), 1, nl, 1)
        return RTEquation.exponential_integration(True, gas(j)[kind], path(k), 1, nl, 1)
    tau = memo(tau)

    def layers(j, k):
        return Array(nl, lambda i: tau(0, j, k)[1][i] + tau(1, j, k)[1][i] + tau(3, j, k)[1][i] + tau(2, j, k)[1][i])

    def rte(j, k):
        RTEquation._emissivity = self._es[j]
        return RTEquation.planck(self.frq[j], self.tk, layers(j, k))
    rte = memo(rte)

    def cld(j, k):
        if self.cloudy:
            return RTEquation.cloud_radiating_temperature(self.beglev[0], self.endlev[0], rte(j, k)[4], rte(j, k)[3], rte(j, k)[1])
        return 0.0

    table = Frame(na, nf, {
        'tbtotal': lambda k, j: RTEquation.bright(rte(j, k)[4], rte(j, k)[0]),
        'tbatm': lambda k, j: RTEquation.bright(rte(j, k)[4], rte(j, k)[1][nl - 1]),
        'tmr': lambda k, j: RTEquation.bright(rte(j, k)[4], rte(j, k)[2]),
        'tmrcld': lambda k, j: cld(j, k),
        'tauwet': lambda k, j: tau(0, j, k)[0],
        'taudry': lambda k, j: tau(1, j, k)[0],
        'tauliq': lambda k, j: tau(2, j, k)[0],
        'tauice': lambda k, j: tau(3, j, k)[0],
        'angle': lambda k, j: self.angles[k]})
    if only_bt:
        return table

    def column(x, k):
        return RTEquation.exponential_integration(True, x, path(k), 0, nl, 0.1)[0]

    def cloud(liquid, k):
        if not self.cloudy:
            return 0.0
        return RTEquation.cloud_integrated_density(self.denliq if liquid else self.denice, path(k), self.beglev, self.endlev)
    return table, {
        'taulaywet': Array((nf, na, nl), lambda j, k, i: tau(0, j, k)[1][i]),
        'taulaydry': Array((nf, na, nl), lambda j, k, i: tau(1, j, k)[1][i]),
        'taulayliq': Array((nf, na, nl), lambda j, k, i: tau(2, j, k)[1][i]),
        'taulayice': Array((nf, na, nl), lambda j, k, i: tau(3, j, k)[1][i]),
        'awet': Array((nf, na, nl), lambda j, k, i: gas(j)[0][i]),
        'adry': Array((nf, na, nl), lambda j, k, i: gas(j)[1][i]),
        'srho': Array((1, na), lambda q, k: column(rho, k)),
        'swet': Array((1, na), lambda q, k: column(wetn, k)),
        'sdry': Array((1, na), lambda q, k: column(dryn, k)),
        'sliq': Array((1, na), lambda q, k: cloud(True, k)),
        'sice': Array((1, na), lambda q, k: cloud(False, k))}


def run_pre(self, only_bt, o3names):
    """elevation angles strictly between the horizons; cloud levels inside the profile, one emissivity per frequency"""
    ok = All(size(self.angles), lambda k: self.angles[k] > 0 and self.angles[k] < 180)
    if self.cloudy:
        nl, m = size(self.z), size(self.beglev)
        ok = ok and m >= 1 and All(m, lambda q: self.beglev[q] <= self.endlev[q] and self.endlev[q] < nl)
    return ok


# ---------------------------------------------------------------- set-up
def observed(s):
    """what a created simulation holds"""
    return (s.z, s.z0, s.p, s.tk, s.rh, s.frq, s.angles, s.o3n, s.amu, s.ray_tracing, s.satellite, s.cloudy, s.emissivity,
            s.nl, s.nf, s.nang)


def create(z, p, t, rh, frq, angles, o3n, absmdl, ray, sat, cloudy):
    s = TbCloudRTE(z, p, t, rh, frq, angles, o3n, None, absmdl, ray, sat, cloudy)
    return observed(s)


def created(z, p, t, rh, frq, angles, o3n, absmdl, ray, sat, cloudy):
    n, nf = size(z), size(frq)
    up = All(n - 1, lambda i: z[i] < z[i + 1])
    down = All(n - 1, lambda i: z[i] > z[i + 1])
    if not up and not down:
        raise SystemExit
    if absmdl:
        H2OAbsModel.model = absmdl
        O2AbsModel.model = absmdl
        N2AbsModel.model = absmdl
        LiqAbsModel.model = absmdl

    def order(x):
        return Array(n, lambda i: x[i] if up else x[n - 1 - i])
    z0 = z[0] if up else z[n - 1]
    return (Array(n, lambda i: (z[i] if up else z[n - 1 - i]) - z0), z0, order(p), order(t), order(rh), frq, angles,
            None if o3n is None else order(o3n), None, ray, sat, cloudy, Array(nf, lambda j: 1.0), n, nf, size(angles))


def rev(x):
    n = size(x)
    return Array(n, lambda i: x[n - 1 - i])


def create_upside_down(z, p, t, rh, frq, angles, o3n, absmdl, ray, sat, cloudy):
    s = TbCloudRTE(rev(z), rev(p), rev(t), rev(rh), frq, angles, None if o3n is None else rev(o3n), None, absmdl, ray, sat, cloudy)
    return observed(s)


def several_levels(z, p, t, rh, frq, angles, o3n, absmdl, ray, sat, cloudy):
    return size(z) >= 2 and All(size(z) - 1, lambda i: z[i] < z[i + 1])


def set_direction(self, v):
    self.satellite = v
    return self.satellite, self._satellite


def set_direction_spec(self, v):
    if isinstance(v, bool):
        self._satellite = v
        return v, v
    raise ValueError


def keep_direction(self, v):
    before = self.satellite
    try:
        self.satellite = v
    except ValueError:
        return self.satellite == before
    return isinstance(v, bool)


def keep_emissivity(self, v):
    try:
        self.emissivity = v
    except ValueError:
        return self.emissivity
    return None


def kept_emissivity(self, v):
    return self._es


def always(self, v):
    return True


def set_emissivity(self, v):
    self.emissivity = v
    return self.emissivity


def set_emissivity_float(self, v):
    self._es = Array(self.nf, lambda j: v)
    return self._es


def set_emissivity_array(self, v):
    self._es = v
    return v


def set_emissivity_bad(self, v):
    raise ValueError


def set_model(self, m):
    self.init_absmdl(m)
    return H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model, LiqAbsModel.model


def model_set(self, m):
    H2OAbsModel.model = m
    O2AbsModel.model = m
    N2AbsModel.model = m
    LiqAbsModel.model = m
    return m, m, m, m


def set_clouds(z, p, t, rh, frq, angles, sat, cloudy, cldh, denice, denliq):
    """(driver) a simulation created and given clouds"""
    s = TbCloudRTE(z, p, t, rh, frq, angles, None, None, '', False, sat, cloudy)
    s.init_cloudy(cldh, denice, denliq)
    if cloudy:
        return s.beglev, s.endlev, s.denice, s.denliq
    return s.beglev, s.endlev, None, None


def monotone(z, p, t, rh, frq, angles, sat, cloudy, cldh, denice, denliq):
    n = size(z)
    return n >= 2 and (All(n - 1, lambda i: z[i] < z[i + 1]) or All(n - 1, lambda i: z[i] > z[i + 1]))


def clouds_set(z, p, t, rh, frq, angles, sat, cloudy, cldh, denice, denliq):
    """cloud base and top levels: the levels at those heights (the first level when there is none); densities from the ground up"""
    m, n = size(cldh, 1), size(z)
    up = All(n - 1, lambda i: z[i] < z[i + 1])
    z0 = z[0] if up else z[n - 1]

    def order(x):
        return Array(n, lambda i: x[i] if up else x[n - 1 - i])

    def level(row):
        def f(j):
            if not cloudy:
                return 0
            i = Last(n, lambda q: (z[q] if up else z[n - 1 - q]) - z0 == cldh[row, j] - z0)
            return i if i >= 0 else 0
        return f
    return Array(m, level(0)), Array(m, level(1)), order(denice) if cloudy else None, order(denliq) if cloudy else None


def set_perturbation(self, amu):
    self.set_amu(amu)
    return self.amu is amu, self._uncertainty


def perturbation_set(self, amu):
    self.amu = amu
    self._uncertainty = True
    return True, True
