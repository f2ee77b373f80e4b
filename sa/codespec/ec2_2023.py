"""EN 1992-1-1:2023, sections 5 and 9, annex B, restated."""

import math

import numpy as np
from scipy.interpolate import griddata

CLASSES = ('~', 'CS', 'CN', 'CR', 'slow', 'normal', 'rapid')
D = {
    '*': {
        'fck': 'R', 'delta_f': 'R', 'fctm': 'R', 'fcm': 'R', 'kE': 'R',
        'Ac': 'R', 'u': 'R', 'hn': 'R', 'A_exponent': 'R',
        'atm_conditions': ('~', 'dry', 'humid'), 't0': 'R',
        'strength_dev_class': CLASSES, 'fck_28': 'R', 'fck_ref': 'R',
        't_ref': 'R', 'eta_cc': 'R', 'k_tc': 'R', 'gamma_c': 'R',
        'fctk_5': 'R', 'k_tt': 'R', 'Ecm': 'R', 'eps_c1': 'R',
        'concrete_type': ('~', 'nc', 'npc'), 'fyk': 'R', 'gamma_s': 'R',
        'eps_uk': 'R', 'eps': 'R', 'fy': 'R', 'k': 'R', 'eps_u': 'R',
        'Es': 'R',
        'prestress_class': ('~', 'Y1570', 'Y1670', 'Y1770', 'Y1860', 'Y1960',
                            'Y2060', 'Y1030', 'Y1050', 'Y1100', 'Y1230'),
        'element': ('~', 'W', 'S', 'B'), 'fp01k': 'R', 'gamma_P': 'R',
        'fpy': 'R', 'fpu': 'R', 'Ep': 'R',
        'ductility_class': ('A', 'B', 'C', 'a', 'b', 'c', 'D', 'X', ''),
        'fcm_28': 'P',
        'phi': 'N', 'NEd': 'R', 'b': 'P', 'h': 'P', 'fct_eff': 'P',
        'kw': 'P', 'k_1_r': 'P', 'srm_cal': 'P', 'epssm_epscm': 'P',
        'x': 'N', 'ay': 'P', 'sigma_s': 'N', 'kt': '(0,1]', 'rho_eff': 'P',
        'alphae': 'P', 'xg': 'P', 'hceff': 'P', 'hc_eff': 'P', 'c': 'P',
        'kfl_': 'P', 'kb': 'P', 'delta_loads': 'N', 'delta_shr': 'N',
        'fck1': '[8,110]', 'phi1': 'N', 'b1': 'P', 'd': 'P', 'As1': 'P',
        'Mk': 'P',
    },
    'reinforcement_duct_props': {'fyk': 'P'},
    'Ec_eff': {'fcm': 'P', 'kE': 'P'},
    'As_min_y': {'fyk': 'P'},
    'epssm_epscm': {'Es': 'P'},
    'wk_cal': {'Es': 'P'},
}
ARRAYS = {}


def fcm(fck, delta_f=8.0):
    return abs(fck) + abs(delta_f)


def fctm(fck):
    if abs(fck) <= 50:
        return 0.3 * abs(fck) ** (2 / 3)
    return 1.1 * abs(fck) ** (1 / 3)


def fctk_5(fctm):
    return 0.7 * abs(fctm)


def fctk_95(fctm):
    return 1.3 * abs(fctm)


def Ecm(fcm, kE=9500):
    if fcm < 0 or kE < 5000 or kE > 13000:
        raise ValueError
    return kE * fcm ** (1 / 3)


def hn(Ac, u):
    if Ac < 0 or u < 0:
        raise ValueError
    return 2 * Ac / u


def A_phi_correction_exp(hn, atm_conditions):
    if hn < 100 or hn > 1000:
        raise ValueError
    a = atm_conditions.lower().strip()
    if a == 'dry':
        return np.interp(hn, [100, 200, 500, 1000], [0.82, 0.79, 0.75, 0.72])
    if a == 'humid':
        return np.interp(hn, [100, 200, 500, 1000], [0.71, 0.68, 0.66, 0.64])
    raise ValueError


def phi_correction_factor(fck, A_exponent):
    if fck < 12 or fck > 100 or A_exponent < 0.64 or A_exponent > 0.82:
        raise ValueError
    return (35 / fck) ** A_exponent


def _class(name):
    n = name.upper().strip()
    if n in ('CS', 'SLOW'):
        return 0
    if n in ('CN', 'NORMAL'):
        return 1
    if n in ('CR', 'RAPID'):
        return 2
    raise ValueError


def _atm(name):
    n = name.lower().strip()
    if n == 'dry':
        return 0
    if n == 'humid':
        return 1
    raise ValueError


SIZES = (100, 200, 500, 1000)
AGES = ((3, 10, 32, 91, 365), (1, 7, 28, 91, 365), (1, 3, 23, 91, 365))
CREEP = (
    (4.2, 3.8, 3.4, 3.1, 3.1, 2.8, 2.5, 2.3, 2.4, 2.2, 1.9, 1.8,
     1.9, 1.7, 1.5, 1.4, 1.4, 1.3, 1.1, 1.0),
    (3.0, 2.8, 2.6, 2.5, 2.2, 2.1, 2.0, 1.9, 1.7, 1.6, 1.6, 1.5,
     1.4, 1.3, 1.2, 1.2, 1.0, 0.9, 0.9, 0.8),
)


def phi_50y_t0(t0, atm_conditions, hn, strength_dev_class):
    if t0 < 1 or hn < 100 or hn > 1000:
        raise ValueError
    a = _atm(atm_conditions)
    c = _class(strength_dev_class)
    v = griddata([(x, y) for x in AGES[c] for y in SIZES], CREEP[a],
                 (t0, hn), method='linear')
    if math.isnan(v):
        raise ValueError
    return v


GRADES = ((20, 35, 50), (20, 35, 50, 80), (35, 50, 80))
SHRINK = (
    ((0.57, 0.56, 0.48, 0.36, 0.53, 0.51, 0.45, 0.35, 0.49, 0.48, 0.43, 0.35),
     (0.67, 0.65, 0.56, 0.41, 0.60, 0.59, 0.51, 0.39, 0.55, 0.54, 0.48, 0.37,
      0.48, 0.48, 0.43, 0.36),
     (0.76, 0.74, 0.65, 0.48, 0.67, 0.66, 0.58, 0.44, 0.55, 0.54, 0.49,
      0.39)),
    ((0.33, 0.32, 0.28, 0.21, 0.31, 0.31, 0.27, 0.22, 0.30, 0.29, 0.27, 0.23),
     (0.38, 0.37, 0.32, 0.24, 0.34, 0.34, 0.30, 0.24, 0.31, 0.31, 0.28, 0.23,
      0.30, 0.30, 0.28, 0.25),
     (0.42, 0.41, 0.36, 0.28, 0.36, 0.35, 0.32, 0.26, 0.31, 0.30, 0.28,
      0.25)),
)


def eps_cs_50y(fck_28, atm_conditions, hn, strength_dev_class):
    if fck_28 < 20 or fck_28 > 80 or hn < 100 or hn > 1000:
        raise ValueError
    a = _atm(atm_conditions)
    c = _class(strength_dev_class)
    v = griddata([(x, y) for x in GRADES[c] for y in SIZES], SHRINK[a][c],
                 (fck_28, hn), method='linear')
    if math.isnan(v):
        raise ValueError
    return v


def eta_cc(fck, fck_ref=40):
    if fck < 12 or fck_ref <= 0:
        raise ValueError
    return min(1, (fck_ref / fck) ** (1 / 3))


def k_tc(t_ref, t0, strength_dev_class):
    if t_ref < 0 or t0 < 0:
        raise ValueError
    limit = 56 if _class(strength_dev_class) == 0 else 28
    if t_ref <= limit and t0 > 90:
        return 1
    return 0.85


def fcd(fck, eta_cc, k_tc, gamma_c):
    if fck < 12 or eta_cc < 0 or eta_cc > 1 or gamma_c < 1:
        raise ValueError
    return eta_cc * k_tc * fck / gamma_c


def k_tt(t_ref, strength_dev_class):
    if t_ref < 0:
        raise ValueError
    limit = 56 if _class(strength_dev_class) == 0 else 28
    if t_ref <= limit:
        return 0.8
    return 0.7


def fctd(fctk_5, k_tt, gamma_c):
    if fctk_5 < 0 or gamma_c < 1:
        raise ValueError
    return k_tt * fctk_5 / gamma_c


def eps_c1(fcm):
    if fcm < 20:
        raise ValueError
    return min(0.7 * fcm ** (1 / 3), 2.8) / 1000


def eps_cu1(fcm):
    if fcm < 20:
        raise ValueError
    return min(2.8 + 14 * (1 - fcm / 108) ** 4, 3.5) / 1000


def k_sargin(Ecm, fcm, eps_c1):
    if Ecm <= 0 or fcm < 20 or eps_c1 <= 0:
        raise ValueError
    return 1.05 * Ecm * eps_c1 / fcm


def eps_c2():
    return 0.002


def eps_cu2():
    return 0.0035


def n_parabolic_rectangular():
    return 2


def weight_c(concrete_type):
    c = concrete_type.lower().strip()
    if c == 'nc':
        return 25
    if c == 'npc':
        return 24
    raise ValueError


def alpha_c_th():
    return 0.00001


def Es():
    return 200000


def alpha_s_th():
    return 0.00001


def weight_s():
    return 78.5


def fyd(fyk, gamma_s):
    if fyk < 0 or gamma_s < 1:
        raise ValueError
    return fyk / gamma_s


def eps_ud(eps_uk, gamma_s):
    if eps_uk < 0 or gamma_s < 1:
        raise ValueError
    return eps_uk / gamma_s


def sigma_s(eps, fy, k, eps_u, Es=200000):
    if eps < 0 or eps_u <= 0 or Es <= 0 or fy <= 0 or k < 1:
        raise ValueError
    if k > 1 and eps > eps_u:
        raise ValueError
    ey = fy / Es
    if eps <= ey:
        return Es * eps
    return fy + fy * (k - 1) * (eps - ey) / (eps_u - ey)


def p_steel_stress_params(prestress_class, element):
    p = prestress_class.upper().strip()
    e = element.upper().strip()
    if e == 'W':
        t = {'Y1570': (1380, 1570), 'Y1670': (1470, 1670),
             'Y1770': (1550, 1770), 'Y1860': (1650, 1860)}
    elif e == 'S':
        t = {'Y1770': (1560, 1770), 'Y1860': (1640, 1860),
             'Y1960': (1740, 1960), 'Y2060': (1830, 2060)}
    elif e == 'B':
        t = {'Y1030': (835, 1030), 'Y1050': (950, 1050),
             'Y1100': (900, 1100), 'Y1230': (1080, 1230)}
    else:
        raise ValueError
    if p not in t:
        raise ValueError
    return t[p]


def fpd(fp01k, gamma_P):
    if fp01k < 0 or gamma_P < 1:
        raise ValueError
    return fp01k / gamma_P


def sigma_p(eps, fpy, fpu, eps_u=0.035, Ep=190000):
    if eps < 0 or eps_u <= 0 or fpy <= 0 or fpu < fpy or Ep <= 0:
        raise ValueError
    if eps > eps_u and fpu != fpy:
        raise ValueError
    ey = fpy / Ep
    if eps <= ey:
        return Ep * eps
    return fpy + (fpu - fpy) * (eps - ey) / (eps_u - ey)


def reinforcement_duct_props(fyk, ductility_class):
    c = ductility_class.upper()
    if c == 'A':
        return {'epsuk': 0.025, 'ftk': 1.05 * fyk}
    if c == 'B':
        return {'epsuk': 0.05, 'ftk': 1.08 * fyk}
    if c == 'C':
        return {'epsuk': 0.075, 'ftk': 1.15 * fyk}
    raise ValueError


def alpha_c(fcm_28):
    return max(1, 1 / (0.8 + 0.2 * fcm_28 / 88))


# ------------------------------------------------------------ section 9
def Ec_eff(fcm, phi, kE=9500):
    return alpha_c(fcm) * kE * fcm ** (1 / 3) / (1 + phi)


def kh(b, h):
    return min(0.8, max(0.5, 0.8 - 0.6 * (min(b, h) - 0.3)))


def As_min_y(NEd, b, h, fct_eff, fyk):
    t = kh(b, h) * fct_eff * b * h
    a1 = min(max((0.3 * NEd / 1000 + 0.2 * t) / fyk, 0),
             0.5 * t / fyk) * 10000
    a2 = min(max(NEd / fyk * 10 - a1, 0), a1)
    return a1, a2


def wk_cal2(kw, k_1_r, srm_cal, epssm_epscm):
    return kw * k_1_r * srm_cal * epssm_epscm


def k_1_r(h, x, ay):
    return (h - x) / (h - ay - x)


def epssm_epscm(sigma_s, kt, fct_eff, rho_eff, alphae, Es):
    a = (sigma_s - kt * fct_eff / rho_eff * (1 + alphae * rho_eff)) / Es
    return max(a, (1 - kt) * sigma_s / Es)


def kfl(h, xg, hceff):
    return max(0.5, 0.5 * (1 + (h - xg - hceff) / (h - xg)))


def srm_cal(c, kfl_, kb, phi, rho_eff, kw, h, x):
    return min(1.5 * c + kfl_ * kb / 7.2 * phi / rho_eff,
               1.3 / kw * (h - x))


def wk_cal(kw, h, xg, hc_eff, c, kb, phi, rho_eff, x, sigma_s, kt, fct_eff,
           alphae, Es):
    a = k_1_r(h, x, c + phi / 2)
    b = srm_cal(c, kfl(h, xg, hc_eff), kb, phi, rho_eff, kw, h, x)
    e = epssm_epscm(sigma_s, kt, fct_eff, rho_eff, alphae, Es)
    return kw * a * b * e, a, b, e


def delta_simpl(delta_loads, delta_shr, fck1, phi1, b1, h, d, As1, Mk):
    mcr = fctm(fck1) * 1000 * b1 * h**2 / 6
    if Mk < mcr:
        return delta_loads + delta_shr
    z = 1 - 0.5 * (mcr / Mk) ** 2
    rho = As1 / (b1 * d) / 10000
    n = 200000 / Ec_eff(fcm(fck1), phi1)
    ratio = 1 / (2.7 * (n * rho) ** 0.6 * (d / h) ** 3)
    ks = 455 * rho**2 - 35 * rho + 1.6
    return (z * ratio + (1 - z)) * (delta_loads + ks * delta_shr)
