"""fib Model Code 2010: materials, creep, shrinkage and bond, restated."""

import math
import warnings

import numpy as np

CEM = ('32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R')
D = {
    '*': {
        'fck': 'R', 'delta_f': 'R', 'fctm': 'P', 'fcm': '[10,140]',
        'agg_type': ('basalt', 'quartzite', 'limestone', 'sandstone',
                     'Basalt', 'QUARTZITE'),
        'EC0': 'P', 'time': '(0,40000]', 'cem_class': CEM,
        'beta_cc': '(0,2]', 'beta_e': '(0,2]', 'Eci': 'P', 'alpha_cc': 'R',
        'gamma_c': 'P', 'fyk': 'R', 'gamma_s': 'R', 'epsuk': 'R',
        'gamma_eps': 'R',
        'ductility_class': ('A', 'B', 'C', 'D', 'a', 'b', 'c', 'd', 'E',
                            'X', ''),
        'T_cur': '[-30,80]', 'dt': 'P', 't_T': 'P', 'ts': '[0,100]',
        'notional_size': '[10,3000]', 'rh': '[0,110]', 'beta_s1': '(0,1]',
        'eps_cds0': 'P', 'beta_ds': '[0,1]', 'beta_rh': 'R', 'eps_cbs0': 'R',
        'beta_bs': '[0,1]', 't0': '[0,100]', 't0_adj': '[0.5,5000]',
        'beta_bc_fcm': 'P', 'beta_bc_t': 'N', 'alpha_fcm': 'P',
        'beta_h': 'P', 'gamma_t0': '(0,1]', 'beta_dc_fcm': 'P',
        'beta_dc_RH': 'N', 'beta_dc_t0': 'P', 'beta_dc_t': 'N', 'sigma': 'R',
        'phi_bc': 'N', 'phi_dc': 'N', 'E_ci_t0': 'P', 'phi': 'N',
        'E_ci': 'P',
        'bond': ('good', 'other', 'Good', 'OTHER', 'bad', '', None),
        'eta_2': 'P', 'f_cm': 'P', 'c_min': 'P', 'c_max': 'P', 'k_m': 'P',
        'K_tr': 'N', 'n_t': 'P', 'A_st': 'P', 'n_b': 'P', 's_t': 'P',
        'failmod': ('PO', 'SP', 'po', 'Sp', 'x', None),
        'confinement': ('unconfined', 'stirrups', 'Stirrups', 'x', None),
        'c_clear': 'P', 's_1': 'P', 'tau_bmax': 'P', 'tau_bu_split': 'P',
        'alpha': 'P', 'l_b': 'P', 'f_y': 'P',
    },
    'fcd': {'gamma_c': 'P'},
    'reinforcement_duct_props': {'fyk': 'P'},
    'beta_cc': {'cem_class': CEM + ('32.5 n', '42.5 r')},
    'beta_bc_t': {'time': '[100,40000]'},
    'beta_dc_t': {'time': '[100,40000]'},
    'tau_bu_split': {'phi': 'P'},
    'K_tr': {'phi': 'P'},
    'f_stm': {'phi': 'P'},
    'tau_yield': {'phi': 'P'},
    'n_parabolic_rectangular': {'fck': '[8,120]'},
    'eps_c2': {'fck': '[8,120]'},
    'eps_cu2': {'fck': '[8,120]'},
    'eps_c3': {'fck': '[8,120]'},
    'eps_cu3': {'fck': '[8,120]'},
    's_3': {'bond': ('good', 'other', 'OTHER', 'bad', None)},
}
ARRAYS = {
    'beta_cc': ['time'], 'beta_e': ['beta_cc'], 'Eci_t': ['beta_e'],
    't_T': ['T_cur', 'dt'], 'beta_ds': ['time'], 'eps_cds': ['beta_ds'],
    'beta_bs': ['time'], 'eps_cbs': ['beta_bs'], 'beta_bc_t': ['time'],
    'phi_bc': ['beta_bc_t'], 'beta_dc_t': ['time'], 'phi_dc': ['beta_dc_t'],
    'phi': ['phi_bc', 'phi_dc'], 'calc_J': ['phi'],
}
SUMS = ('t_T',)


def fcm(fck, delta_f=8.0):
    return abs(fck) + abs(delta_f)


def fctm(fck):
    if abs(fck) <= 50:
        return 0.3 * abs(fck) ** (2 / 3)
    return 2.12 * math.log(1 + 0.1 * (abs(fck) + 8))


def fctkmin(fctm):
    return 0.7 * fctm


def fctkmax(fctm):
    return 1.3 * fctm


def Gf(fck):
    return 73 * (abs(fck) + 8) ** 0.18


AGG = {'basalt': 1.2, 'quartzite': 1.0, 'limestone': 0.9, 'sandstone': 0.7}


def Eci(fcm, agg_type='quartzite', EC0=21500):
    return EC0 * AGG[agg_type.lower()] * (fcm / 10) ** (1 / 3)


def _s(c):
    if c == '32.5 N':
        return 0.38
    if c in ('32.5 R', '42.5 N'):
        return 0.25
    return 0.2


def beta_cc(time, fcm, cem_class):
    s = _s(cem_class.upper())
    if fcm > 60:
        s = 0.2
    return math.exp(s * (1 - math.sqrt(28 / time)))


def beta_e(beta_cc):
    return math.sqrt(beta_cc)


def Eci_t(beta_e, Eci):
    return beta_e * Eci


def fcd(fck, alpha_cc=1.0, gamma_c=1.5):
    return abs(alpha_cc) * abs(fck) / gamma_c


GRADE = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110,
         120]


def eps_c1(fck):
    if fck < 12 or fck > 120:
        raise ValueError
    return np.interp(fck, GRADE, [
        -1.9, -2.0, -2.1, -2.2, -2.3, -2.3, -2.4, -2.5, -2.6, -2.6, -2.7,
        -2.7, -2.8, -2.9, -3.0, -3.0, -3.0]) / 1000


def eps_clim(fck):
    if fck < 12 or fck > 120:
        raise ValueError
    return np.interp(fck, GRADE, [
        -3.5, -3.5, -3.5, -3.5, -3.5, -3.5, -3.5, -3.5, -3.4, -3.4, -3.3,
        -3.2, -3.1, -3.0, -3.0, -3.0, -3.0]) / 1000


def eps_cu1(fck):
    return eps_clim(fck)


def k_sargin(fck):
    if fck < 12 or fck > 120:
        raise ValueError
    return np.interp(fck, GRADE, [
        2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55,
        1.47, 1.41, 1.36, 1.32, 1.24, 1.18])


def eps_c2(fck):
    if fck <= 50:
        return 0.002
    return (2 + 0.085 * (fck - 50) ** 0.53) / 1000


def eps_cu2(fck):
    if fck <= 50:
        return 0.0035
    return (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000


def n_parabolic_rectangular(fck):
    if fck <= 50:
        return 2
    return 1.4 + 23.4 * ((90 - fck) / 100) ** 4


def eps_c3(fck):
    if fck <= 50:
        return 0.00175
    return (1.75 + 0.55 * (fck - 50) / 40) / 1000


def eps_cu3(fck):
    if fck <= 50:
        return 0.0035
    return (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000


def fyd(fyk, gamma_s=1.15):
    if fyk < 0 or gamma_s < 1:
        raise ValueError
    return fyk / gamma_s


def epsud(epsuk, gamma_eps=0.9):
    if epsuk < 0 or gamma_eps > 1:
        raise ValueError
    return epsuk * gamma_eps


def reinforcement_duct_props(fyk, ductility_class):
    c = ductility_class.upper()
    if c == 'A':
        return {'epsuk': 0.025, 'ftk': 1.05 * fyk}
    if c == 'B':
        return {'epsuk': 0.05, 'ftk': 1.08 * fyk}
    if c == 'C':
        return {'epsuk': 0.075, 'ftk': 1.15 * fyk}
    if c == 'D':
        return {'epsuk': 0.08, 'ftk': 1.25 * fyk}
    raise ValueError


# ------------------------------------------------- creep and shrinkage
def t_T(T_cur, dt):
    return dt * math.exp(13.65 - 4000 / (273 + T_cur))


def _cem(c):
    """-1 slow, 0 normal, 1 rapid."""
    if c == '32.5 N':
        return -1
    if c in ('32.5 R', '42.5 N'):
        return 0
    return 1


def t0_adj(t_T, cem_class):
    return max(t_T * (9 / (2 + t_T**1.2) + 1) ** _cem(cem_class), 0.5)


def eps_cds0(fcm, cem_class):
    c = _cem(cem_class)
    a1 = {-1: 3, 0: 4, 1: 6}[c]
    a2 = {-1: 0.013, 0: 0.012, 1: 0.012}[c]
    return (220 + 110 * a1) * math.exp(-a2 * fcm) / 1000000


def beta_ds(time, ts, notional_size):
    dt = max(time - ts, 0)
    return math.sqrt(dt / (0.035 * notional_size**2 + dt))


def beta_s1(fcm):
    return min(1, (35 / fcm) ** 0.1)


def _fraction(rh):
    if rh < 0.4 or (rh > 1 and rh < 40) or rh > 100:
        raise ValueError
    if rh > 1:
        return rh / 100
    return rh


def beta_RH(rh, beta_s1):
    r = _fraction(rh)
    if r >= 0.99 * beta_s1:
        return 0.25
    if r < 0.4 * beta_s1:
        raise ValueError
    return -1.55 * (1 - r**3)


def eps_cds(eps_cds0, beta_ds, beta_rh):
    return eps_cds0 * beta_rh * beta_ds


def eps_cbs0(fcm, cem_class):
    a = {-1: 800, 0: 700, 1: 600}[_cem(cem_class)]
    return -a * (0.1 * fcm / (6 + 0.1 * fcm)) ** 2.5 / 1000000


def beta_bs(time):
    return 1 - math.exp(-0.2 * math.sqrt(time))


def eps_cbs(eps_cbs0, beta_bs):
    return eps_cbs0 * beta_bs


def beta_bc_fcm(fcm):
    return 1.8 / fcm**0.7


def beta_bc_t(time, t0, t0_adj):
    return math.log((30 / t0_adj + 0.035) ** 2 * (time - t0) + 1)


def phi_bc(beta_bc_fcm, beta_bc_t):
    return beta_bc_fcm * beta_bc_t


def beta_dc_fcm(fcm):
    return 412 / fcm**1.4


def beta_dc_RH(rh, notional_size):
    return (1 - _fraction(rh)) / (0.1 * notional_size / 100) ** (1 / 3)


def beta_dc_t0(t0_adj):
    return 1 / (0.1 + t0_adj**0.2)


def alpha_fcm(fcm):
    return math.sqrt(35 / fcm)


def beta_h(notional_size, alpha_fcm):
    return min(1.5 * notional_size + 250 * alpha_fcm, 1500 * alpha_fcm)


def gamma_t0(t0_adj):
    return 1 / (2.3 + 3.5 / math.sqrt(t0_adj))


def beta_dc_t(time, t0, beta_h, gamma_t0):
    dt = time - t0
    return (dt / (beta_h + dt)) ** gamma_t0


def phi_dc(beta_dc_fcm, beta_dc_RH, beta_dc_t0, beta_dc_t):
    return beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t


def k_sigma(sigma, fcm):
    if abs(sigma) > 0.6 * fcm:
        raise ValueError
    if abs(sigma) > 0.4 * fcm:
        warnings.warn('nonlinear')
    return abs(sigma) / fcm


def phi(phi_bc, phi_dc, sigma, fcm):
    k = k_sigma(sigma, fcm)
    if k > 0.4:
        return math.exp(1.5 * (k - 0.4)) * (phi_bc + phi_dc)
    return phi_bc + phi_dc


def calc_J(E_ci_t0, phi, E_ci):
    return 1 / E_ci_t0 + phi / E_ci


# ---------------------------------------------------------------- bond
def _good(bond):
    if bond is None:
        raise ValueError
    b = bond.lower()
    if b == 'good':
        return True
    if b == 'other':
        return False
    raise ValueError


def eta_2(bond):
    return 1.0 if _good(bond) else 0.7


def tau_bu_split(eta_2, f_cm, phi, c_min, c_max, k_m, K_tr):
    return (eta_2 * 6.5 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2
            * ((c_min / phi) ** 0.33 * (c_max / c_min) ** 0.1 + k_m * K_tr))


def K_tr(n_t, A_st, n_b, phi, s_t):
    return min(0.05, n_t * A_st / (n_b * phi * s_t))


def tau_bmax(bond, f_cm):
    return (2.5 if _good(bond) else 1.25) * math.sqrt(f_cm)


def s_1(bond):
    return 1.0 if _good(bond) else 1.8


def s_2(bond):
    return 2.0 if _good(bond) else 3.6


def s_3(failmod, bond, confinement, c_clear, s_1):
    if failmod is None:
        raise ValueError
    m = failmod.lower()
    if m not in ('po', 'sp'):
        raise ValueError
    _good(bond)
    if m == 'po':
        return c_clear
    if confinement is None:
        raise ValueError
    c = confinement.lower()
    if c == 'unconfined':
        return 1.2 * s_1
    if c == 'stirrups':
        return 0.5 * c_clear
    raise ValueError


def s_tau_bu_split(tau_bmax, tau_bu_split, alpha, s_1):
    return (tau_bu_split / tau_bmax) ** (1 / alpha) * s_1


def f_stm(f_cm, phi, l_b, c_min, c_max, k_m, K_tr):
    if f_cm <= 15 or f_cm >= 110:
        warnings.warn('f_cm')
    if c_min / phi <= 0.5 or c_min / phi >= 3.5:
        warnings.warn('c_min')
    if c_max / c_min <= 1 or c_max / c_min >= 5:
        warnings.warn('c_max')
    if K_tr > 0.05:
        warnings.warn('K_tr')
    return (54 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2
            * (l_b / phi) ** 0.55
            * ((c_min / phi) ** 0.25 * (c_max / c_min) ** 0.1 + k_m * K_tr))


def tau_yield(f_y, l_b, phi):
    return f_y * phi / (4 * l_b)
