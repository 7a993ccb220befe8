"""Reference tables and definitions of the tidal constituents (the functions are read by the analysis, never executed)."""
import re
import numpy as np

# amplitude (m), phase at 1992-01-01 (radians), angular frequency (radians per second), load tide factor, species
PARAMETERS = {
    'm2': (0.2441, 1.731557546, 0.0001405189, 0.693, 2),
    's2': (0.112743, 0.0, 0.0001454441, 0.693, 2),
    'k1': (0.141565, 0.173003674, 7.292117e-05, 0.736, 1),
    'o1': (0.100661, 1.558553872, 6.759774e-05, 0.695, 1),
    'n2': (0.046397, 6.050721243, 0.0001378797, 0.693, 2),
    'p1': (0.046848, 6.110181633, 7.252295e-05, 0.706, 1),
    'k2': (0.030684, 3.487600001, 0.0001458423, 0.693, 2),
    'q1': (0.019273, 5.877717569, 6.495854e-05, 0.695, 1),
    '2n2': (0.006141, 4.086699633, 0.0001352405, 0.693, 2),
    'mu2': (0.007408, 3.463115091, 0.0001355937, 0.693, 2),
    'nu2': (0.008811, 5.427136701, 0.0001382329, 0.693, 2),
    'l2': (0.006931, 0.553986502, 0.0001431581, 0.693, 2),
    't2': (0.006608, 0.05039847, 0.000145245, 0.693, 2),
    'j1': (0.007915, 2.137025284, 7.556036e-05, 0.695, 1),
    'm1': (0.007915, 2.436575, 7.025945e-05, 0.695, 1),
    'oo1': (0.004338, 1.92904613, 7.824458e-05, 0.695, 1),
    'rho1': (0.003661, 5.254133027, 6.531174e-05, 0.695, 1),
    'mf': (0.042041, 1.756042456, 5.3234e-06, 0.693, 0),
    'mm': (0.022191, 1.96402161, 2.6392e-06, 0.693, 0),
    'ssa': (0.019567, 3.487600001, 3.982e-07, 0.693, 0),
    'm4': (0.0, 3.463115091, 0.0002810377, 0.693, 4),
    'ms4': (0.0, 1.731557546, 0.000285963, 0.693, 4),
    'mn4': (0.0, 1.499093481, 0.0002783984, 0.693, 4),
    'm6': (0.0, 5.194672637, 0.0004215566, 0.693, 6),
    'm8': (0.0, 6.926230184, 0.0005620755, 0.693, 8),
    'mk3': (0.0, 1.90456122, 0.0002134402, 0.693, 3),
    's6': (0.0, 0.0, 0.0004363323, 0.693, 6),
    '2sm2': (0.0, 4.551627762, 0.0001503693, 0.693, 2),
    '2mk3': (0.0, 3.290111417, 0.0002081166, 0.693, 3),
    'msf': (0.003681, 4.551627762, 4.9252e-06, 0.693, 0),
    'sa': (0.003104, 6.232786837, 1.99097e-07, 0.693, 0),
    'mt': (0.008044, 3.720064066, 7.962619e-06, 0.693, 0),
    '2q1': (0.002565, 3.91369596, 6.231934e-05, 0.693, 1),
}
# order of the constituents in the table of equilibrium arguments
TABLE = ['sa', 'ssa', 'mm', 'msf', 'mf', 'mt', 'alpha1', '2q1', 'sigma1', 'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1',
    'pi1', 'p1', 's1', 'k1', 'psi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2', 'm2a', 'm2', 'm2b',
    'lambda2', 'l2', 't2', 's2', 'r2', 'k2', 'eta2', 'mns2', '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4', 'ms4', 'mk4',
    's4', 's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2', 'msqm', 'mtm', 'n4', 'eps2', 'z0']
# compound-like names that are not compounds, or whose coefficients do not follow from their name
EXEMPT = ('3ks4', 'ojm1', 'qms3', '2mm3', '2jk3', '4ms4', 'mnm5', 'msm5', '2mno6', '2mn8')


def love(omega, model):
    """body tide Love numbers with the free core nutation resonance in the diurnal band (Wahr, 1981)"""
    import pyTMD.arguments
    if model == '1066A':
        fcn, h0, h1, k0, k1, l0, l1 = 1.0021714, 6.03e-1, -2.46e-3, 2.98e-1, -1.23e-3, 8.42e-2, 7.81e-5
    elif model == 'PEM-C':
        fcn, h0, h1, k0, k1, l0, l1 = 1.0021771, 6.02e-1, -2.46e-3, 2.98e-1, -1.24e-3, 8.39e-2, 7.69e-5
    elif model == 'C2':
        fcn, h0, h1, k0, k1, l0, l1 = 1.0021844, 6.02e-1, -2.45e-3, 2.98e-1, -1.23e-3, 8.46e-2, 7.58e-5
    else:
        fcn, h0, h1, k0, k1, l0, l1 = 1.0023214, 5.994e-1, -2.532e-3, 2.962e-1, -1.271e-3, 8.378e-2, 7.932e-5
    ratio = (omega - pyTMD.arguments.frequency('o1')[0]) / (fcn * 7.292115e-5 - omega)
    if omega > 1e-4:
        return 0.609, 0.302, 0.0852
    elif omega < 2e-5:
        return 0.606, 0.299, 0.0840
    return h0 + h1 * ratio, k0 + k1 * ratio, l0 + l1 * ratio


def digits(coef):
    """offsets of five for all but the species, which leads"""
    d = np.array(coef[:6]).astype(int)
    d[1:] += 5
    return d


def doodson(coef):
    """Doodson number; ten and eleven as X and E"""
    d = digits(coef)
    if np.any(d < 0) or np.any(d > 11):
        return None
    elif np.any(d == 10) or np.any(d == 11):
        return np.str_('{0}{1}{2}.{3}{4}{5}'.format(*[str(v).replace('10', 'X').replace('11', 'E') for v in d]))
    return np.round(np.sum([v * 10 ** (2 - o) for o, v in enumerate(d)]), decimals=3).astype(float)


def from_doodson(DO):
    d = np.array([c.replace('X', '10').replace('E', '11') for c in re.findall(r'\w', str(DO).zfill(7))], dtype=int)
    d[1:] -= 5
    return d


def extended(coef):
    return np.str_(''.join(['RSTUVWXYZABCDEFGHIJKLMNOP'[v + 8] for v in np.array(coef).astype(int)]))


def from_extended(XDO):
    return np.array(['RSTUVWXYZABCDEFGHIJKLMNOP'.index(c) - 8 for c in str(XDO)], dtype=int)


def potential_row(path, k):
    with path.open(mode='r', encoding='utf8') as f:
        lines = f.readlines()
    dtype = np.dtype({'names': ('tau', 's', 'h', 'p', 'n', 'pp', 'Hs1', 'Hs2', 'Hs3', 'DO', 'Hs0'),
                      'formats': ('i', 'i', 'i', 'i', 'i', 'i', 'f', 'f', 'f', 'U7', 'f')})
    return np.array(tuple(lines[k].split()[:11]), dtype=dtype)
