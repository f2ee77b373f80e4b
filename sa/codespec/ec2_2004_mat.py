"""EN 1992-1-1:2004: materials, creep and shrinkage, restated."""

import math

import numpy as np

# domains: (lo, hi) with brackets; 'P' positive, 'N' not negative, 'R' any
# real number; a tuple lists options; ('~', ...) options in any case / padding
D = {
    '*': {
        'fck': '[8,110]', 'fcm': '[12,130]', 'delta_f': 'P', 'fctm': 'P',
        'Ecm': 'P', 'eps_c1': '(0,0.1]', 'alpha_cc': 'P', 'gamma_c': 'P',
        't': '(0,40000]', 's': '(0,1]', 'cement_class': ('~', 'S', 'N', 'R'),
        'beta_cc': '(0,2]', 'alpha': '[0.5,1]', 'fcm_time': 'P',
        'fyk': 'R', 'gamma_s': 'R', 'epsuk': 'R', 'gamma_eps': 'R',
        'ductility_class': ('A', 'B', 'C', 'a', 'b', 'c', 'D', 'X', ''),
        'eps_cd': 'R', 'eps_ca': 'R', 'beta_ds': '[0,1]', 'k_h': '(0,1]',
        'eps_cd_0': 'P', 't_s': '[0,100]', 'h_0': '[10,3000]',
        'alpha_ds1': '[1,10]', 'alpha_ds2': '(0,1]', 'fcm_0': 'P',
        'beta_RH': 'P', 'RH': '(0,100]', 'RH_0': 'P', 'beta_as': '[0,1]',
        'eps_ca_inf': 'P', 'phi_0': 'P', 'beta_c': '[0,1]', 'phi_RH': 'P',
        'beta_fcm': 'P', 'beta_t0': 'P', 'alpha_1': 'P', 'alpha_2': 'P',
        'alpha_3': 'P', 't0': '(0,5000]', 'Ac': 'P', 'u': 'P',
        'beta_H': 'P', 'T': '[-30,80]', 'dt': 'P',
    },
    'reinforcement_duct_props': {'fyk': 'P'},
    't0_adj': {'alpha_cement': (-1, 0, 1)},
    'alpha_cement': {'cement_class': ('S', 'N', 'R', 's', 'n', 'r', 'X',
                                      'SN', '')},
    'fcm': {'fck': 'R', 'delta_f': 'R'},
    'fctm': {'fck': 'R'},
    'fctk_5': {'fctm': 'R'},
    'fctk_95': {'fctm': 'R'},
}
ARRAYS = {
    'beta_cc': ['t'], 'beta_ct': ['t'], 'beta_E': ['t'],
    'fcm_time': ['beta_cc'], 'fctm_time': ['beta_cc'],
    'Ecm_time': ['fcm_time'], 'eps_cs': ['eps_cd', 'eps_ca'],
    'eps_cd': ['beta_ds'], 'beta_ds': ['t'], 'eps_ca': ['beta_as'],
    'beta_as': ['t'], 'phi': ['beta_c'], 'beta_c': ['t'],
    't_T': ['T', 'dt'],
}
SUMS = ('t_T',)


def fcm(fck, delta_f=8):
    return abs(fck) + abs(delta_f)


def fctm(fck):
    if abs(fck) <= 50:
        return 0.3 * abs(fck) ** (2 / 3)
    return 2.12 * math.log(1 + (abs(fck) + 8) / 10)


def fctk_5(fctm):
    return 0.7 * abs(fctm)


def fctk_95(fctm):
    return 1.3 * abs(fctm)


def Ecm(fcm):
    return 22000 * (fcm / 10) ** 0.3


def eps_c1(fcm):
    return min(0.7 * fcm**0.31, 2.8) / 1000


def eps_cu1(fck):
    if fck < 50:
        return 0.0035
    return (2.8 + 27 * ((98 - (fck + 8)) / 100) ** 4) / 1000


def k_sargin(Ecm, fcm, eps_c1):
    return 1.05 * Ecm * eps_c1 / fcm


def eps_c2(fck):
    if fck <= 50:
        return 0.002
    return (2 + 0.085 * (fck - 50) ** 0.53) / 1000


def eps_cu2(fck):
    if fck <= 50:
        return 0.0035
    return (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000


def n_parabolic_rectangular(fck):
    if fck <= 50:
        return 2
    return 1.4 + 23.4 * ((90 - fck) / 100) ** 4


def eps_c3(fck):
    if fck <= 50:
        return 0.00175
    return (1.75 + 0.55 * (fck - 50) / 40) / 1000


def eps_cu3(fck):
    if fck <= 50:
        return 0.0035
    return (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000


def fcd(fck, alpha_cc, gamma_c):
    return alpha_cc * fck / gamma_c


def beta_cc(t, s):
    return math.exp(s * (1 - math.sqrt(28 / t)))


def beta_ct(t, s):
    b = math.exp(s * (1 - math.sqrt(28 / t)))
    if t < 28:
        return b
    return b ** (2 / 3)


def beta_E(t, s):
    return math.exp(s * (1 - math.sqrt(28 / t))) ** 0.3


def s_time_development(cement_class):
    c = cement_class.strip().upper()
    if c == 'R':
        return 0.2
    if c == 'N':
        return 0.25
    if c == 'S':
        return 0.38
    raise ValueError


def fcm_time(fcm, beta_cc):
    return beta_cc * fcm


def fctm_time(fctm, beta_cc, alpha):
    return beta_cc**alpha * fctm


def Ecm_time(fcm, fcm_time, Ecm):
    return (fcm_time / fcm) ** 0.3 * Ecm


def fyd(fyk, gamma_s):
    if fyk < 0 or gamma_s < 1:
        raise ValueError
    return fyk / gamma_s


def epsud(epsuk, gamma_eps=0.9):
    if epsuk < 0 or gamma_eps > 1:
        raise ValueError
    return epsuk * gamma_eps


def reinforcement_duct_props(fyk, ductility_class):
    c = ductility_class.upper()
    if c == 'A':
        return {'epsuk': 0.025, 'ftk': 1.05 * fyk}
    if c == 'B':
        return {'epsuk': 0.05, 'ftk': 1.08 * fyk}
    if c == 'C':
        return {'epsuk': 0.075, 'ftk': 1.15 * fyk}
    raise ValueError


# ------------------------------------------------- creep and shrinkage
def eps_cs(eps_cd, eps_ca):
    return eps_cd + eps_ca


def eps_cd(beta_ds, k_h, eps_cd_0):
    return beta_ds * k_h * eps_cd_0


def beta_ds(t, t_s, h_0):
    dt = max(t - t_s, 0)
    return dt / (dt + 0.04 * h_0**1.5)


def k_h(h_0):
    return np.interp(h_0, [100, 200, 300, 500], [1.0, 0.85, 0.75, 0.7])


def eps_cd_0(alpha_ds1, alpha_ds2, fcm, beta_RH, fcm_0=10):
    return (0.85 * (220 + 110 * alpha_ds1) * math.exp(-alpha_ds2 * fcm / fcm_0)
            / 1000000 * beta_RH)


def alpha_ds1(cement_class):
    c = cement_class.strip().upper()
    if c == 'S':
        return 3
    if c == 'N':
        return 4
    if c == 'R':
        return 6
    raise ValueError


def alpha_ds2(cement_class):
    c = cement_class.strip().upper()
    if c == 'S':
        return 0.13
    if c == 'N':
        return 0.12
    if c == 'R':
        return 0.11
    raise ValueError


def beta_RH(RH, RH_0=100):
    return 1.55 * (1 - (RH / RH_0) ** 3)


def eps_ca(beta_as, eps_ca_inf):
    return beta_as * eps_ca_inf


def eps_ca_inf(fck):
    return 2.5 * (fck - 10) / 1000000


def beta_as(t):
    return 1 - math.exp(-0.2 * math.sqrt(t))


def phi(phi_0, beta_c):
    return phi_0 * beta_c


def phi_0(phi_RH, beta_fcm, beta_t0):
    return phi_RH * beta_fcm * beta_t0


def phi_RH(h_0, fcm, RH, alpha_1, alpha_2):
    x = (1 - RH / 100) / (0.1 * h_0 ** (1 / 3))
    if fcm <= 35:
        return 1 + x
    return (1 + x * alpha_1) * alpha_2


def beta_fcm(fcm):
    return 16.8 / math.sqrt(fcm)


def beta_t0(t0):
    return 1 / (0.1 + t0**0.2)


def h_0(Ac, u):
    return 2 * Ac / u


def beta_c(t0, t, beta_H):
    dt = max(t - t0, 0)
    return (dt / (beta_H + dt)) ** 0.3


def beta_H(h_0, fcm, RH, alpha_3):
    x = 1.5 * (1 + (0.012 * RH) ** 18) * h_0
    if fcm <= 35:
        return min(x + 250, 1500)
    return min(x + 250 * alpha_3, 1500 * alpha_3)


def alpha_1(fcm):
    return (35 / fcm) ** 0.7


def alpha_2(fcm):
    return (35 / fcm) ** 0.2


def alpha_3(fcm):
    return math.sqrt(35 / fcm)


def t0_adj(t0, alpha_cement):
    return max(t0 * (9 / (2 + t0**1.2) + 1) ** alpha_cement, 0.5)


def t_T(T, dt):
    return dt * math.exp(13.65 - 4000 / (273 + T))


def alpha_cement(cement_class):
    c = cement_class.upper()
    if c == 'S':
        return -1
    if c == 'N':
        return 0
    if c == 'R':
        return 1
    raise ValueError
