"""fib Model Code 2010, 7.3: shear, torsion, punching, interfaces."""

import math
import warnings

D = {
    '*': {
        'fck': '[8,120]', 'f_ck': '[8,120]', 'z': 'P', 'bw': 'P',
        'dg': 'N', 'E_s': 'P', 'As': 'P', 'loads': 'loads', 'asw': 'P',
        'sw': 'P', 'f_ywk': 'P', 'theta': '[10,80]', 'alpha': '[10,90]',
        'gamma_c': 'P', 'gamma_s': 'P', 'approx_lvl': (1, 2, 3, 4),
        'with_shear_reinforcment': (True, False), 'Med': 'R', 'Ved': 'R',
        'Ned': 'R', 'delta_e': 'R', 'approx_lvl_h': (1, 2, 3),
        'f_ctd': 'P', 'i_c': 'P', 's_c': 'P', 'b_w': 'P', 'sigma_cp': 'N',
        'l_x': 'P', 'l_bd0': 'P', 'S_cy': 'P', 'b_wy': 'P', 'y': 'R',
        'y_c': 'P', 'A_c': 'P', 'A_cy': 'P', 'y_pt': 'P', 'f_p_lx': 'P',
        'f_p_lx_dx': 'P', 'v_ed': 'P', 'v_prep_d_max': 'P', 'l_y': 'P',
        'e_u': 'R', 'b_s': 'P', 'inner': (True, False),
        'edge_par': (True, False), 'edge_per': (True, False),
        'corner': (True, False), 'x_direction': (True, False),
        'is_level_three_approximation': (True, False),
        'column_edge_or_corner': (True, False), 'b_sr': ('=P', None),
        'f_yd': 'P', 'd_eff': 'P', 'e_s': 'P', 'r_s': 'P', 'm_ed': 'P',
        'm_rd': 'P', 'm_Pd': 'N', 'psi_punching_level_one': 'P',
        'psi_punching_level_two': 'P', 'psi_punching_level_three': 'P',
        'is_uncracked_model': (True, False),
        'is_moment_from_uncracked_model': (True, False),
        'approx_lvl_p': (1, 2, 3, 4), 'd_g': 'N', 'k_dg': 'P',
        'psi_punching': 'P', 'k_psi_val': 'P', 'b_0': 'P', 'd_v': 'P',
        'f_bd': 'P', 'f_ywd': 'P', 'phi_w': 'P', 'b_u': 'P',
        'sigma_swd': 'P', 'a_sw': 'P', 'd_head': (True, False),
        'stirrups_compression': (True, False), 'b0_val': 'P', 'v_rd_c': 'P',
        'v_rd_s': 'P', 'v_rd_max': 'P', 't_ed': 'P', 'a_k': 'P',
        'z_i': 'P', 'd_k': 'P', 'beta': 'P', 'b_i': 'P', 'c_a': 'P',
        'mu': 'P', 'sigma_n': 'N', 'f_cd': 'P', 'c_r': 'P', 'k1': 'P',
        'k2': 'P', 'ro': 'P', 'beta_c': 'P',
    },
    'v_rds_punching': {'e_u': 'N'},
    'v_rdc_approx3': {'approx_lvl': (3,)},
}
ARRAYS = {}


def _rad(a):
    return a * math.pi / 180


def _cot(a):
    return 1 / math.tan(_rad(a))


def epsilon_x(E_s, As, z, loads):
    f = (abs(loads['Med']) / z + abs(loads['Ved'])
         + loads['Ned'] * (0.5 + loads['delta_e'] / z))
    return max(0, f / (2 * E_s * As))


def eta_fc(fck):
    return min(1, (30 / fck) ** (1 / 3))


def create_load_dict(Med, Ved, Ned, delta_e):
    return {'Med': Med, 'Ved': Ved, 'Ned': Ned, 'delta_e': delta_e}


def v_rdc_approx1(fck, z, bw, gamma_c=1.5):
    return 180 / (1000 + 1.25 * z) * min(8, math.sqrt(fck)) * z * bw / gamma_c


def v_rdc_approx2(fck, z, bw, dg, E_s, As, loads, gamma_c=1.5):
    if fck > 70:
        dg = 0
    kdg = max(0.75, 32 / (16 + dg))
    e = epsilon_x(E_s, As, z, loads)
    kv = 0.4 / (1 + 1500 * e) * 1300 / (1000 + kdg * z)
    return kv * min(8, math.sqrt(fck)) * z * bw / gamma_c


def v_rdc_approx3(approx_lvl, fck, z, bw, E_s, As, loads, alpha=90.0,
                  gamma_c=1.5):
    e = epsilon_x(E_s, As, z, loads)
    vmax = v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha, gamma_c)
    kv = max(0, 0.4 / (1 + 1500 * e) * (1 - loads['Ved'] / vmax))
    return kv * min(8, math.sqrt(fck)) * z * bw / gamma_c


def v_rdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha=90.0,
          gamma_c=1.5):
    if approx_lvl == 1:
        return v_rdc_approx1(fck, z, bw, gamma_c)
    if approx_lvl == 2:
        return v_rdc_approx2(fck, z, bw, dg, E_s, As, loads, gamma_c)
    if approx_lvl == 3:
        return v_rdc_approx3(3, fck, z, bw, E_s, As, loads, alpha, gamma_c)
    raise ValueError


def v_rds(asw, sw, z, f_ywk, theta=45.0, alpha=90.0, gamma_s=1.15):
    if theta > 45 or theta < 20:
        warnings.warn('theta')
    return (asw / sw * z * f_ywk / gamma_s * (_cot(theta) + _cot(alpha))
            * math.sin(_rad(alpha)))


def _strut(theta, alpha):
    return (_cot(theta) + _cot(alpha)) / (1 + _cot(theta) ** 2)


def v_rd_max_approx1(fck, bw, theta, z, alpha=90.0, gamma_c=1.5):
    return (0.55 * eta_fc(fck) * fck / gamma_c * bw * z
            * _strut(theta, alpha))


def _keps(e, theta):
    e1 = e + (e + 0.002) * _cot(theta) ** 2
    return min(0.65, 1 / (1.2 + 55 * e1))


def v_rd_max_approx2(fck, bw, theta, z, E_s, As, loads, alpha=90.0,
                     gamma_c=1.5):
    e = epsilon_x(E_s, As, z, loads)
    return (_keps(e, theta) * eta_fc(fck) * fck / gamma_c * bw * z
            * _strut(theta, alpha))


def v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha=90.0, gamma_c=1.5):
    e = epsilon_x(E_s, As, z, loads)
    return v_rd_max_approx2(fck, bw, 20 + 10000 * e, z, E_s, As, loads,
                            alpha, gamma_c)


def v_rd_max(approx_lvl, fck, bw, theta, z, E_s=None, As=None, loads=None,
             alpha=90, gamma_c=1.5):
    if approx_lvl == 1:
        return v_rd_max_approx1(fck, bw, theta, z, alpha, gamma_c)
    if approx_lvl == 2:
        return v_rd_max_approx2(fck, bw, theta, z, E_s, As, loads, alpha,
                                gamma_c)
    if approx_lvl == 3:
        return v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha, gamma_c)
    raise ValueError


def v_rd(approx_lvl, with_shear_reinforcment, fck, z, bw, dg, E_s, As, loads,
         asw=None, sw=None, f_ywk=None, theta=None, alpha=90.0, gamma_c=1.5,
         gamma_s=1.15):
    if not with_shear_reinforcment:
        if approx_lvl != 1 and approx_lvl != 2:
            warnings.warn('level')
        return v_rdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha,
                     gamma_c)
    if approx_lvl not in (1, 2, 3):
        raise ValueError
    steel = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
    if approx_lvl == 3:
        both = steel + v_rdc(3, fck, z, bw, dg, E_s, As, loads, alpha,
                             gamma_c)
        if both < v_rd_max(3, fck, bw, theta, z, E_s, As, loads, alpha,
                           gamma_c):
            return both
        approx_lvl = 2
    return min(steel, v_rd_max(approx_lvl, fck, bw, theta, z, E_s, As, loads,
                               alpha, gamma_c))


def v_rd_ct_approx1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0):
    a = l_x / (1.2 * l_bd0)
    return (0.8 * i_c * b_w / s_c
            * math.sqrt(f_ctd**2 + a * sigma_cp * f_ctd))


def v_rd_ct_approx2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c, A_c, A_cy,
                    y_pt, f_p_lx, f_p_lx_dx):
    a = l_x / (1.2 * l_bd0)
    s = (y_c - y) / (A_c * i_c) * f_p_lx
    t = (A_cy / A_c - S_cy * (y_c - y_pt) / i_c) * f_p_lx_dx / b_wy
    return i_c * b_wy / S_cy * (math.sqrt(f_ctd**2 + a * s * f_ctd) - t)


def v_rd_ct(approx_lvl_h, f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0, S_cy,
            b_wy, y, y_c, A_c, A_cy, y_pt, f_p_lx, f_p_lx_dx):
    if approx_lvl_h == 1:
        return v_rd_ct_approx1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0)
    if approx_lvl_h == 2:
        return v_rd_ct_approx2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c,
                               A_c, A_cy, y_pt, f_p_lx, f_p_lx_dx)
    raise ValueError


# ------------------------------------------------------------- torsion
def v_ed_ti(t_ed, a_k, z_i):
    return t_ed * z_i / (2 * a_k)


def t_rd_max(f_ck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads,
             gamma_c=1.5):
    if approx_lvl == 1:
        k = 0.55
    elif approx_lvl == 2:
        k = _keps(epsilon_x(E_s, As, z, loads), theta)
    elif approx_lvl == 3:
        e = epsilon_x(E_s, As, z, loads)
        k = _keps(e, 20 + 10000 * e)
    else:
        raise ValueError
    return (eta_fc(f_ck) * k * f_ck * d_k / 8 * 2 * a_k
            * math.sin(_rad(theta)) * math.cos(_rad(theta)) / gamma_c)


def t_rd(t_ed, approx_lvl, fck, bw, theta, z, E_s, As, loads, d_k, a_k,
         alpha=90.0, gamma_c=1.5):
    a = t_ed / t_rd_max(fck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads,
                        gamma_c)
    b = loads['Ved'] / v_rd_max(approx_lvl, fck, bw, theta, z, E_s, As, loads,
                                alpha, gamma_c)
    return a**2 + b**2 <= 1


# ---------------------------------------------------------- interfaces
def tau_edi(beta, v_ed, z, b_i):
    return beta * v_ed / (z * b_i)


def _nu(f_ck):
    return min(0.55, 0.55 * (30 / f_ck) ** (1 / 3))


def tau_rdi_without_reinforcement(c_a, f_ctd, mu, sigma_n, f_ck, f_cd):
    return min(c_a * f_ctd + mu * sigma_n, 0.5 * _nu(f_ck) * f_cd)


def tau_rdi_with_reinforcement(c_r, k1, k2, mu, ro, sigma_n, alpha, beta_c,
                               f_ck, f_yd, f_cd):
    a = (c_r * f_ck ** (1 / 3) + mu * sigma_n
         + k1 * ro * f_yd * (mu * math.sin(_rad(alpha))
                             + math.cos(_rad(alpha)))
         + k2 * ro * math.sqrt(f_yd * f_cd))
    return min(a, beta_c * _nu(f_ck) * f_cd)


# ------------------------------------------------------------ punching
def b_0(v_ed, v_prep_d_max):
    return v_ed / v_prep_d_max


def b_s(l_x, l_y):
    return min(1.5 * math.sqrt(0.22 * l_x * (0.22 * l_y)), min(l_x, l_y))


def b_sr(l_x, l_y):
    return min(l_x, l_y)


def m_ed(v_ed, e_u, b_s, inner, edge_par, edge_per, corner):
    if inner:
        return v_ed * (1 / 8 + abs(e_u) / (2 * b_s))
    if edge_par:
        return max(v_ed * (1 / 8 + e_u / (2 * b_s)), v_ed / 4)
    if edge_per:
        return v_ed * (1 / 8 + e_u / b_s)
    if corner:
        return max(v_ed * (1 / 8 + e_u / b_s), v_ed / 2)
    raise ValueError


def r_s(l_x, l_y, x_direction, is_level_three_approximation=False,
        column_edge_or_corner=False, b_sr=None):
    r = 0.22 * l_x if x_direction else 0.22 * l_y
    if is_level_three_approximation and column_edge_or_corner:
        if b_sr is None:
            raise ValueError
        return max(r, 0.67 * b_sr)
    return r


def psi_punching_level_one(l_x, l_y, f_yd, d_eff, e_s):
    return 1.5 * 0.22 * max(l_x, l_y) * f_yd / (d_eff * e_s)


def _ok_psi_punching_level_two(r_s, f_yd, d_eff, e_s, m_ed, m_rd, m_Pd=0):
    return [m_Pd < m_ed, m_Pd < m_rd]


def psi_punching_level_two(r_s, f_yd, d_eff, e_s, m_ed, m_rd, m_Pd=0):
    return (1.5 * r_s * f_yd / (d_eff * e_s)
            * ((m_ed - m_Pd) / (m_rd - m_Pd)) ** 1.5)


def psi_punching_level_three(psi_punching_level_two, is_uncracked_model=False,
                             is_moment_from_uncracked_model=False):
    if is_uncracked_model and is_moment_from_uncracked_model:
        return 0.8 * psi_punching_level_two
    return psi_punching_level_two


def psi_punching(psi_punching_level_one, psi_punching_level_two,
                 psi_punching_level_three, approx_lvl_p):
    if approx_lvl_p == 1:
        return psi_punching_level_one
    if approx_lvl_p == 2:
        return psi_punching_level_two
    if approx_lvl_p == 3:
        return psi_punching_level_three
    raise ValueError


def k_dg(d_g):
    return max(0.75, 32 / (16 + d_g))


def k_psi(k_dg, d_eff, psi_punching):
    return min(0.6, 1 / (1.5 + 0.9 * k_dg * d_eff * psi_punching))


def v_rdc_punching(k_psi_val, b_0, d_v, f_ck, gamma_c=1.5):
    return k_psi_val * b_0 * d_v * math.sqrt(f_ck) / gamma_c


def f_ywd(f_ywk, gamma_s):
    return f_ywk / gamma_s


def sigma_swd(e_s, psi_punching, alpha, f_bd, d_eff, f_ywd, phi_w):
    s = math.sin(_rad(alpha))
    c = math.cos(_rad(alpha))
    return min(e_s * psi_punching / 6 * (s + c)
               * (s + f_bd * d_eff / (f_ywd * phi_w)), f_ywd)


def v_rds_punching(f_ywd, e_u, b_u, alpha, sigma_swd, a_sw, v_ed):
    ke = 1 / (1 + e_u / b_u)
    if a_sw * ke * f_ywd < 0.5 * v_ed:
        warnings.warn('weak')
    return a_sw * ke * sigma_swd * math.sin(_rad(alpha))


def v_rd_max_punching(d_v, f_ck, d_head, stirrups_compression, b0_val,
                      k_psi_val, gamma_c=1.5):
    k = 2
    if stirrups_compression:
        k = 2.4
    if d_head:
        k = 2.8
    base = b0_val * d_v * math.sqrt(f_ck) / gamma_c
    return min(base, k * k_psi_val * base)


def v_rd_punching(v_rd_c, v_rd_s, v_rd_max):
    return min(v_rd_c + v_rd_s, v_rd_max)
