"""EN 1992-1-1:2004, 6.2 and 7.3, EN 1992-3:2006, restated."""

import math

import numpy as np
from scipy.interpolate import griddata

D = {
    '*': {
        'fck': '[8,110]', 'd': 'P', 'Asl': 'N', 'bw': 'P', 'NEd': 'R',
        'Ac': 'P', 'fcd': 'P', 'k1': '(0,1]', 'gamma_c': 'P',
        'CRdc': ('=P', None), 'Iy': 'P', 'S': 'P', 'fctd': 'P',
        'L_x': ('=P', None), 'L_pt2': ('=P', None), 'Asw': 'P', 's': 'P',
        'z': 'P', 'theta': '[1,89]', 'fyk': 'P', 'alpha': '[10,90]',
        'gamma_s': 'P', 'Ved': 'P', 'fywd': 'P', 'limit_fyd': (True, False),
        'Ned': 'R',
        'exposure_class': ('~', 'X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1',
                           'XD2', 'XS1', 'XS2', 'XS3'),
        'load_combination': ('~', 'f', 'qp'),
        'A_ct': 'R', 'sigma_s': 'R', 'fct_eff': 'R', 'k': 'R', 'kc': 'R',
        'h': 'R', 'b': 'R', 'N_ed': 'R', 'f_cr': 'R', 'xi': 'R',
        'phi_p': 'R', 'phi_s': 'R', 'x': 'R', 'Ap': 'R', 'delta_s': 'R',
        'wk': 'R', 'h_cr': 'R', 'Es': 'R', 'Ecm': 'R', 'As': 'R', 'xi1': 'R',
        'Ac_eff': 'R', 'load_type': ('~', 'short', 'long'), 'alpha_e': 'R',
        'rho_p_eff': 'R', 'kt': (0.6, 0.4, 0.5, 0, 1), 'c': 'R', 'phi': 'R',
        'n1': 'int', 'n2': 'int', 'phi1': 'R', 'phi2': 'R',
        'bond_type': ('~', 'bond', 'plain'), 'eps_r': 'R', 'k2': 'R',
        'k3': ('=R', None), 'k4': ('=R', None), 'sr_max_y': 'R',
        'sr_max_z': 'R', 'sr_max': 'R', 'eps_sm_eps_cm': 'R',
    },
    'kc_rect_area': {'fct_eff': 'P'},
    'kc_flanges_area': {'fct_eff': 'P'},
    'As_min': {},
    'As_min_2': {'d': 'R', 'kc': ('=R', None)},
    'hc_eff': {'d': 'R'},
    'eps_sm_eps_cm_restraint_end': {
        'alpha_e': 'P', 'rho_p_eff': 'P', 'kc': 'P', 'k': 'P',
        'fct_eff': 'P', 'Es': 'P'},
    'sr_max_close': {'k1': (0.8, 1.6, 0.4, 1.0, 0)},
    'sr_max_theta': {'theta': 'R'},
    'k': {'h': 'R'},
}


# ------------------------------------------------------------------ 6.2
def _k(d):
    return min(2, 1 + math.sqrt(200 / d))


def alpha_cw(Ned, Ac, fcd):
    r = Ned / Ac
    if r >= fcd:
        raise ValueError
    if r <= 0:
        return 1
    if r <= 0.25 * fcd:
        return 1 + r / fcd
    if r <= 0.5 * fcd:
        return 1.25
    return 2.5 * (1 - r / fcd)


def VRdc(fck, d, Asl, bw, NEd, Ac, fcd, k1=0.15, gamma_c=1.5, CRdc=None):
    if CRdc is None:
        CRdc = 0.18 / gamma_c
    rho = min(Asl / (bw * d), 0.02)
    axial = k1 * min(NEd / Ac, 0.2 * fcd)
    v = CRdc * _k(d) * (100 * rho * fck) ** (1 / 3) + axial
    low = 0.035 * _k(d) ** 1.5 * math.sqrt(fck) + axial
    return max(v * bw * d, low * bw * d, 0)


def vmin(fck, d):
    return 0.035 * _k(d) ** 1.5 * math.sqrt(fck)


def VRdc_prin_stress(Iy, bw, S, fctd, NEd, Ac, L_x=None, L_pt2=None):
    a = 1
    if L_x is not None and L_pt2 is not None:
        a = min(1, L_x / L_pt2)
    return Iy * bw / S * math.sqrt(fctd**2 + a * NEd / Ac * fctd)


def v(fck):
    return 0.6 * (1 - fck / 250)


def v1(fck):
    if fck <= 60:
        return 0.6
    return max(0.5, 0.9 - fck / 200)


def VEdmax_unreinf(bw, d, fck, fcd):
    return 0.5 * bw * d * v(fck) * fcd


def _cot_ok(theta):
    c = round(1 / math.tan(math.radians(theta)), 2)
    if c < 1.0:
        raise ValueError
    if c > 2.5:
        raise ValueError


def VRds(Asw, s, z, theta, fyk, alpha=90.0, gamma_s=1.15):
    _cot_ok(theta)
    t = math.radians(theta)
    a = math.radians(alpha)
    return (Asw / s * z * fyk / gamma_s
            * (1 / math.tan(t) + 1 / math.tan(a)) * math.sin(a))


def Asw_s_required(Ved, z, theta, fywd, alpha=90.0):
    _cot_ok(theta)
    t = math.radians(theta)
    a = math.radians(alpha)
    return Ved / (z * fywd * (1 / math.tan(t) + 1 / math.tan(a))
                  * math.sin(a))


def VRdmax(bw, z, fck, theta, NEd, Ac, fcd, alpha=90.0, limit_fyd=False):
    _cot_ok(theta)
    t = math.radians(theta)
    a = math.radians(alpha)
    nu = v1(fck) if limit_fyd else v(fck)
    return (alpha_cw(NEd, Ac, fcd) * bw * z * nu * fcd
            * (1 / math.tan(t) + 1 / math.tan(a))
            / (1 + (1 / math.tan(t)) ** 2))


def Asw_max(fcd, fck, bw, s, fywd, NEd, Ac, alpha=90.0):
    return (0.5 * alpha_cw(NEd, Ac, fcd) * v(fck) * fcd * bw * s
            / (fywd * math.sin(math.radians(alpha))))


# ------------------------------------------------------------------ 7.3
def w_max(exposure_class, load_combination):
    c = exposure_class.upper().strip()
    comb = load_combination.lower().strip()
    if comb == 'f':
        if c in ('X0', 'XC1', 'XC2', 'XC3', 'XC4'):
            return 0.2
        raise ValueError
    if comb == 'qp':
        if c in ('X0', 'XC1'):
            return 0.4
        if c in ('XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2', 'XS3'):
            return 0.3
    raise ValueError


def As_min(A_ct, sigma_s, fct_eff, k, kc):
    if A_ct <= 0 or sigma_s < 0:
        raise ValueError
    if k < 0.65 or k > 1 or kc < 0 or kc > 1:
        raise ValueError
    return kc * k * abs(fct_eff) * A_ct / sigma_s


def k(h):
    if h < 0:
        raise ValueError
    if h <= 300:
        return 1
    if h >= 800:
        return 0.65
    return 1 - 0.35 * (h - 300) / 500


def kc_tension():
    return 1


def kc_rect_area(h, b, fct_eff, N_ed):
    if h < 0 or b < 0:
        raise ValueError
    hs = min(h, 1000)
    if N_ed >= 0:
        k1 = 1.5
    else:
        k1 = 2 * hs / (3 * h)
    x = 0.4 * (1 - N_ed * 1000 / (b * h) / (k1 * (h / hs) * fct_eff))
    return min(1, max(0, x))


def kc_flanges_area(f_cr, A_ct, fct_eff):
    if A_ct < 0:
        raise ValueError
    return max(0.5, 0.9 * abs(f_cr) * 1000 / (A_ct * fct_eff))


def xi1(xi, phi_p, phi_s):
    if phi_p <= 0 or phi_s < 0 or xi < 0.15 or xi > 0.8:
        raise ValueError
    if phi_s > 0:
        return math.sqrt(xi * phi_s / phi_p)
    return math.sqrt(xi)


def hc_eff(h, d, x):
    if h < 0 or d < 0 or x < 0 or d > h or x > h:
        raise ValueError
    return min(2.5 * (h - d), (h - x) / 3, h / 2)


def As_min_p(A_ct, sigma_s, fct_eff, k, kc, Ap, phi_s, phi_p, xi, delta_s):
    if Ap < 0 or delta_s < 0 or A_ct <= 0 or sigma_s < 0:
        raise ValueError
    if k < 0.65 or k > 1 or kc < 0 or kc > 1:
        raise ValueError
    return (kc * k * abs(fct_eff) * A_ct
            - xi1(xi, phi_p, phi_s) * Ap * delta_s) / sigma_s


def As_min_2(wk, sigma_s, fct_eff, h_cr, h, d, delta_s=0, kc=None):
    if wk < 0 or fct_eff < 0 or h_cr < 0 or h < 0 or d < 0:
        raise ValueError
    if kc is not None and (kc < 0 or kc > 1):
        raise ValueError
    s = sigma_s - delta_s
    if s <= 0:
        return (0, 0)
    nan = None
    dia = griddata(
        [(a, w) for a in (160, 200, 240, 280, 320, 360, 400, 450)
         for w in (0.4, 0.3, 0.2)],
        [40, 32, 25, 32, 25, 16, 20, 16, 12, 16, 12, 8, 12, 10, 6, 10, 8, 5,
         8, 6, 4, 6, 5, nan], (s, wk), method='linear')
    spa = griddata(
        [(a, w) for a in (160, 200, 240, 280, 320, 360)
         for w in (0.4, 0.3, 0.2)],
        [300, 300, 200, 300, 250, 150, 250, 200, 100, 200, 150, 50, 150, 100,
         nan, 100, 50, nan], (s, wk), method='linear')
    if kc is None:
        phi = dia * (fct_eff / 2.9) * h_cr / (8 * (h - d))
    else:
        phi = dia * (fct_eff / 2.9) * kc * h_cr / (2 * (h - d))
    if math.isnan(phi) or math.isnan(spa):
        raise ValueError
    return phi, spa


def alpha_e(Es, Ecm):
    if Es < 0 or Ecm < 0:
        raise ValueError
    return Es / Ecm


def rho_p_eff(As, xi1, Ap, Ac_eff):
    if As < 0 or xi1 < 0 or Ap < 0 or Ac_eff < 0:
        raise ValueError
    return (As + xi1**2 * Ap) / Ac_eff


def kt(load_type):
    t = load_type.lower().strip()
    if t == 'short':
        return 0.6
    if t == 'long':
        return 0.4
    raise ValueError


def eps_sm_eps_cm(sigma_s, alpha_e, rho_p_eff, kt, fct_eff, Es):
    if (sigma_s < 0 or alpha_e < 0 or rho_p_eff < 0 or fct_eff < 0
            or Es < 0):
        raise ValueError
    if kt not in (0.6, 0.4):
        raise ValueError
    return max((sigma_s - kt * fct_eff / rho_p_eff * (1 + alpha_e * rho_p_eff))
               / Es, 0.6 * sigma_s / Es)


def w_spacing(c, phi):
    if c < 0 or phi < 0:
        raise ValueError
    return 5 * (c + phi / 2)


def phi_eq(n1, n2, phi1, phi2):
    if n1 < 0 or n2 < 0 or phi1 < 0 or phi2 < 0:
        raise ValueError
    return (n1 * phi1**2 + n2 * phi2**2) / (n1 * phi1 + n2 * phi2)


def k1(bond_type):
    t = bond_type.lower().strip()
    if t == 'bond':
        return 0.8
    if t == 'plain':
        return 1.6
    raise ValueError


def k2(eps_r):
    if eps_r < 0 or eps_r > 1:
        raise ValueError
    return (1 + eps_r) / 2


def k3():
    return 3.4


def k4():
    return 0.425


def sr_max_close(c, phi, rho_p_eff, k1, k2, k3=None, k4=None):
    if k3 is None:
        k3 = 3.4
    if k4 is None:
        k4 = 0.425
    if c < 0 or phi < 0 or rho_p_eff < 0 or k3 < 0 or k4 < 0:
        raise ValueError
    if k1 not in (0.8, 1.6) or k2 < 0.5 or k2 > 1:
        raise ValueError
    return k3 * c + k1 * k2 * k4 * phi / rho_p_eff


def sr_max_far(h, x):
    if x < 0 or h < 0 or x > h:
        raise ValueError
    return 1.3 * (h - x)


def sr_max_theta(sr_max_y, sr_max_z, theta):
    if sr_max_y < 0 or sr_max_z < 0 or theta < 0 or theta > math.pi / 2:
        raise ValueError
    return 1 / (math.cos(theta) / sr_max_y + math.sin(theta) / sr_max_z)


def wk(sr_max, eps_sm_eps_cm):
    if sr_max < 0 or eps_sm_eps_cm < 0:
        raise ValueError
    return sr_max * eps_sm_eps_cm


def eps_sm_eps_cm_restraint_end(alpha_e, rho_p_eff, kc, k, fct_eff, Es):
    return (0.5 * alpha_e * kc * k * fct_eff
            * (1 + 1 / (alpha_e * rho_p_eff)) / Es)
