"""Laws relating several functions of the code: each composes the real functions and is compared with a simple law."""
import numpy as np
from pyrtlib.utils import (tk2b_mod, e2mr, mr2e, mr2rho, rho2mr, satvap, eswat_goffgratch, esice_goffgratch,
                           pressure_to_height, height_to_pressure, virtual_temperature, to_kelvin, to_celsius)
from pyrtlib.rt_equation import RTEquation
from pyrtlib.uncertainty.absmod_uncertainty import AbsModUncertainty
from specs.dsl import Sum, Prod, First, Last, All, Any, Array, size
from specs.basic import uncertainty_propagation


def always(*args):
    return True


def ident(x):
    return x


def first_arg(x, t, p):
    return Array(size(x), lambda i: x[i])


def planck_roundtrip(hvk, t):
    return RTEquation.bright(hvk, tk2b_mod(hvk, t))


def planck_roundtrip_spec(hvk, t):
    return t


def radiance_roundtrip(hvk, b):
    return tk2b_mod(hvk, RTEquation.bright(hvk, b))


def radiance_roundtrip_spec(hvk, b):
    return b


def planck_positive(hvk, t):
    return tk2b_mod(hvk, t) > 0


def planck_increasing(hvk, t, dt):
    return tk2b_mod(hvk, t) < tk2b_mod(hvk, t + dt)


def uncertainty_arrays_spec(fun, A, B, sA, sB, a, b, sAB):
    return (Array(size(A), lambda i: uncertainty_propagation(fun, A[i], B[i], sA[i], sB[i], a, b, sAB)[0]),
            Array(size(A), lambda i: uncertainty_propagation(fun, A[i], B[i], sA[i], sB[i], a, b, sAB)[1]))


def uncertainty_scaled(fun, k, A, B, sA, sB, a, b, sAB):
    return AbsModUncertainty.uncertainty_propagation(fun, A, B, k * sA, k * sB, a, b, k * k * sAB)[1]


def uncertainty_scaled_spec(fun, k, A, B, sA, sB, a, b, sAB):
    return k * AbsModUncertainty.uncertainty_propagation(fun, A, B, sA, sB, a, b, sAB)[1]


def uncertainty_sum(A, B, sA, sB, a, b):
    return AbsModUncertainty.uncertainty_propagation('aA+bB', A, B, sA, sB, a, b)[1]


def uncertainty_diff(A, B, sA, sB, a, b):
    return AbsModUncertainty.uncertainty_propagation('aA-bB', A, B, sA, sB, a, b)[1]


def es_from_rte(t):
    return RTEquation.vapor(t, np.ones(size(t)))[0]


def es_from_utils(t):
    return satvap(t)


def es_positive(t):
    return (eswat_goffgratch(t) > 0) and (esice_goffgratch(t) > 0)


def dew_defined(td, t, ice=False, method='arm'):
    return td > -200.0 and t > -200.0


def e_w_e(e, t, p):
    return mr2e(p, e2mr(p, e))


def w_e_w(w, t, p):
    return e2mr(p, mr2e(p, w))


def rho_w_rho(rho, t, p):
    return mr2rho(rho2mr(rho, t, p), t, p)


def w_rho_w(w, t, p):
    return rho2mr(mr2rho(w, t, p), t, p)


def pre_e_w_e(e, t, p):
    return All(size(p), lambda i: e[i] < p[i])


def pre_w_e_w(w, t, p):
    return True


def pre_rho_w_rho(rho, t, p):
    return All(size(p), lambda i: 461.52e-5 * rho[i] * t[i] < p[i])


def pre_w_rho_w(w, t, p):
    return True


def height_ok(h, dh=0.0):
    return h > -44000.0


def p_h_p(p):
    return height_to_pressure(pressure_to_height(p))


def h_p_h(h):
    return pressure_to_height(height_to_pressure(h))


def p2h_decreasing(p, dp):
    return pressure_to_height(p + dp) < pressure_to_height(p)


def h2p_decreasing(h, dh):
    return height_to_pressure(h + dh) < height_to_pressure(h)


def virtual_dry(t):
    return virtual_temperature(t, 0.0)


def virtual_exceeds(t, mr):
    return virtual_temperature(t, mr) > t


def k_c(t):
    return to_kelvin(to_celsius(t))


def c_k(t):
    return to_celsius(to_kelvin(t))


def c_increasing(t, dt):
    return to_kelvin(t) < to_kelvin(t + dt) and to_celsius(t) < to_celsius(t + dt)


# ---------------------------------------------------------------- reference atmosphere
def extrapolation_grid(*mode):
    from pyrtlib.climatology.extrapolation import ProfileExtrapolation
    return ProfileExtrapolation(*mode).height
