"""Reference definitions of the nodal modulations (read by the analysis, never executed).

Every lunar constituent is modulated by f*exp(i*u).  Series modulations are given as
term2 + i*term1 (Doodson and Warburg 1941, Ray 1999, Ray 2006 perth5); FES modulations are
Schureman (1958); perth3 modulations are the truncated series of Doodson (1928)."""
import numpy as np

UNIT = ([], [])
# name: (sine terms, cosine terms), each a list of (coefficient, multiple of p, multiple of n) in degrees
COMMON = {
    'mm': ([(-0.0534, 2, 0), (-0.0219, 2, -1)], [(-0.1308, 0, 1), (-0.0534, 2, 0), (-0.0219, 2, -1)]),
    'mf': ([(-0.04324, 2, 0), (-0.41465, 0, 1), (-0.03873, 0, 2)], [(0.04324, 2, 0), (0.41465, 0, 1), (0.03873, 0, 2)]),
    'mt': ([(-0.018, 2, 0), (-0.4145, 0, 1), (-0.040, 0, 2)], [(0.018, 2, 0), (0.4145, 0, 1), (0.040, 0, 2)]),
    'msf': ([(0.137, 0, 1)], []),
    'mst': ([(-0.380, 2, 0), (-0.413, 0, 1), (-0.037, 0, 2)], [(0.380, 2, 0), (0.413, 0, 1), (0.037, 0, 2)]),
    'o1': ([(0.1886, 0, 1), (-0.0058, 0, 2), (-0.0065, 2, 0)], [(0.1886, 0, 1), (-0.0058, 0, 2), (-0.0065, 2, 0)]),
    'q1': ([(0.1886, 0, 1)], [(0.1886, 0, 1)]),
    'tau1': ([(0.219, 0, 1)], [(-0.219, 0, 1)]),
    'beta1': ([(0.226, 0, 1)], [(0.226, 0, 1)]),
    'm1': ([(-0.2294, 0, 1), (-0.3594, 2, 0), (-0.0664, 2, -1)], [(0.1722, 0, 1), (0.3594, 2, 0), (0.0664, 2, -1)]),
    'chi1': ([(-0.250, 0, 1)], [(0.193, 0, 1)]),
    'p1': ([(-0.0112, 0, 1)], [(-0.0112, 0, 1)]),
    'k1': ([(-0.1554, 0, 1), (0.0031, 0, 2)], [(0.1158, 0, 1), (-0.0028, 0, 2)]),
    'j1': ([(-0.227, 0, 1)], [(0.169, 0, 1)]),
    'oo1': ([(-0.640, 0, 1), (-0.134, 0, 2), (-0.150, 2, 0)], [(0.640, 0, 1), (0.134, 0, 2), (0.150, 2, 0)]),
    'm2': ([(-0.03731, 0, 1), (0.00052, 0, 2)], [(-0.03731, 0, 1), (0.00052, 0, 2)]),
    'l2': ([(-0.250, 2, 0), (-0.110, 2, -1), (-0.037, 0, 1)], [(-0.250, 2, 0), (-0.110, 2, -1), (-0.037, 0, 1)]),
    'l2b': ([(0.441, 0, 1)], [(0.441, 0, 1)]),
    'k2': ([(-0.3108, 0, 1), (-0.0324, 0, 2)], [(0.2853, 0, 1), (0.0324, 0, 2)]),
    'gamma2': ([(0.147, -2, 2)], [(0.147, -2, 2)]),
    'delta2': ([(0.505, 2, 0), (0.505, 0, 1), (-0.165, 0, 2)], [(-0.505, 2, 0), (-0.505, 0, 1), (0.165, 0, 2)]),
    'eta2': ([(-0.436, 0, 1)], [(0.436, 0, 1)]),
    's2': ([(0.00225, 0, 1)], [(0.00225, 0, 1)]),
    "m1'": ([(-0.01815, 0, 1)], [(-0.27837, 0, 1)]),
    "q1'": ([(0.3915, 0, 1), (0.033, 0, 2), (0.061, 2, 0)], [(0.3915, 0, 1), (0.033, 0, 2), (0.060, 2, 0)]),
    "j1'": ([(-0.438, 0, 1), (-0.033, 0, 2)], [(0.372, 0, 1), (0.033, 0, 2)]),
    "2n2'": ([(0.166, 0, 1)], [(0.166, 0, 1)]),
    "n2'": ([(0.1705, 0, 1), (-0.0035, 0, 2), (-0.0176, 2, 0)], [(0.1705, 0, 1), (-0.0035, 0, 2), (-0.0176, 2, 0)]),
    "l2'": ([(-0.2495, 0, 1)], [(0.1315, 0, 1)]),
    'm3': ([(-0.05644, 0, 1)], [(-0.05644, 0, 1)]),
    'f3': ([(-0.464, 0, 1), (-0.052, 0, 2)], [(0.387, 0, 1), (0.052, 0, 2)]),
    'l3': ([(-0.373, 2, 0), (-0.164, 2, -1)], [(-0.373, 2, 0), (-0.164, 2, -1)])}
OTIS = {
    'mm': ([], [(-0.130, 0, 1)]),
    'mt': ([(-0.203, 0, 1), (-0.040, 0, 2)], [(0.203, 0, 1), (0.040, 0, 2)]),
    'chi1': ([(-0.221, 0, 1)], [(0.221, 0, 1)]),
    'k1': ([(-0.1554, 0, 1), (0.0029, 0, 2)], [(0.1158, 0, 1), (-0.0029, 0, 2)]),
    'oo1': ([(-0.640, 0, 1), (-0.134, 0, 2)], [(0.640, 0, 1), (0.134, 0, 2)]),
    'l2': ([(-0.25, 2, 0), (-0.11, 2, -1), (-0.04, 0, 1)], [(-0.25, 2, 0), (-0.11, 2, -1), (-0.04, 0, 1)]),
    'k2': ([(-0.3108, 0, 1), (-0.0324, 0, 2)], [(0.2852, 0, 1), (0.0324, 0, 2)])}
# constituents that share the modulation of another one
CLASS = {
    'mm': ['msm'], 'mf': ['msqm', 'msp', 'mq'], 'mt': ['mtm'], 'o1': ['so3', 'op2'], 'q1': ['2q1', 'rho1', 'sigma1'],
    'k1': ['sk3', '2sk5'], 'j1': ['theta1'], 'oo1': ['ups1'], 'l2': ['sl4'], 'k2': ['sk4', '2sk6', 'kp1'], 'eta2': ['zeta2'],
    'm3': ['e3'], 'f3': ['j3'],
    'm2': ['2n2', 'mu2', 'n2', 'nu2', 'lambda2', 'ms4', 'eps2', '2sm6', '2sn6', 'mp1', 'mp3', 'sn4']}


def series(n, p, S, K):
    t1, t2 = 0.0, 1.0
    for (a, j, k) in S:
        t1 = t1 + a * np.sin(np.radians(j * p + k * n))
    for (a, j, k) in K:
        t2 = t2 + a * np.cos(np.radians(j * p + k * n))
    return np.sqrt(t1 ** 2 + t2 ** 2), np.arctan2(t1, t2)


def truncated(n, a0, A, B):
    """f and u as separate truncated series in the node (u in degrees)"""
    f, u = a0, 0.0
    for k, a in enumerate(A):
        f = f + a * np.cos(np.radians((k + 1) * n))
    for k, b in enumerate(B):
        u = u + b * np.sin(np.radians((k + 1) * n))
    return f, np.radians(u)


def schureman(n, p):
    N = np.radians(n)
    I = np.arccos(0.913694997 - 0.035692561 * np.cos(N))
    a = np.arctan(1.01883 * np.tan(N / 2.0))
    b = np.arctan(0.64412 * np.tan(N / 2.0))
    xi = N - a - b
    xi = np.arctan2(np.sin(xi), np.cos(xi))
    nu = a - b
    return I, xi, nu


def fes(c, n, p):
    I, xi, nu = schureman(n, p)
    # (tables of Schureman 1958: formula 73 on)
    if c == 'mm':
        t2 = (2.0 / 3.0 - np.sin(I) ** 2) / 0.5021
        return np.sqrt(t2 ** 2), np.arctan2(0.0, t2)
    elif c in ('mf', 'mt'):
        return np.sin(I) ** 2 / 0.1578, -2.0 * xi
    elif c == 'msf':
        return 1.0, 2.0 * xi - 2.0 * nu
    elif c in ('o1', 'q1'):
        return np.sin(I) * np.cos(I / 2.0) ** 2 / 0.38, 2.0 * xi - nu
    elif c in ('j1', 'chi1'):
        return np.sin(2.0 * I) / 0.7214, -nu
    elif c == 'k1':
        f = np.sqrt(0.8965 * np.sin(2.0 * I) ** 2 + 0.6001 * np.sin(2.0 * I) * np.cos(nu) + 0.1006)
        return f, -np.arctan(np.sin(2.0 * I) * np.sin(nu) / (np.sin(2.0 * I) * np.cos(nu) + 0.3347))
    elif c == 'oo1':
        return np.sin(I) * np.sin(I / 2.0) ** 2 / 0.0164, -2.0 * xi - nu
    elif c == 'm2':
        return np.cos(I / 2.0) ** 4 / 0.9154, 2.0 * xi - 2.0 * nu
    elif c == 'l2':
        P = np.radians(p) - xi
        Ra = np.sqrt(1.0 - 12.0 * np.tan(I / 2.0) ** 2 * np.cos(2.0 * P) + 36.0 * np.tan(I / 2.0) ** 4)
        R = np.arctan(np.sin(2.0 * P) / (1.0 / (6.0 * np.tan(I / 2.0) ** 2) - np.cos(2.0 * P)))
        return Ra * np.cos(I / 2.0) ** 4 / 0.9154, 2.0 * xi - 2.0 * nu - R
    elif c == 'k2':
        f = np.sqrt(19.0444 * np.sin(I) ** 4 + 2.7702 * np.sin(I) ** 2 * np.cos(2.0 * nu) + 0.0981)
        return f, -np.arctan(np.sin(I) ** 2 * np.sin(2.0 * nu) / (np.sin(I) ** 2 * np.cos(2.0 * nu) + 0.0727))
    elif c == 'eta2':
        return np.sin(I) ** 2 / 0.1565, -2.0 * nu
    elif c == 'm3':
        return np.cos(I / 2.0) ** 6 / 0.8758, 3.0 * xi - 3.0 * nu


def fes_l2_degrees(n, p):
    # recorded defect: perigee in degrees
    I, xi, nu = schureman(n, p)
    P = p - xi
    Ra = np.sqrt(1.0 - 12.0 * np.tan(I / 2.0) ** 2 * np.cos(2.0 * P) + 36.0 * np.tan(I / 2.0) ** 4)
    R = np.arctan(np.sin(2.0 * P) / (1.0 / (6.0 * np.tan(I / 2.0) ** 2) - np.cos(2.0 * P)))
    return Ra * np.cos(I / 2.0) ** 4 / 0.9154, 2.0 * xi - 2.0 * nu - R


def perth3(c, n):
    if c in ('o1', 'q1'):
        return truncated(n, 1.009, [0.187, -0.015], [10.8, -1.3])
    elif c == 'k1':
        return truncated(n, 1.006, [0.115, -0.009], [-8.9, 0.7])
    elif c in ('m2', 'n2'):
        return truncated(n, 1.000, [-0.037], [-2.1])
    elif c == 'k2':
        return truncated(n, 1.024, [0.286, 0.008], [-17.7, 0.7])


def otis(c, n):
    if c == 'mf':
        return truncated(n, 1.043, [0.414], [-23.7, 2.7, -0.4])
    elif c == 'o1':
        f, u = series(n, 0.0, [(0.189, 0, 1), (-0.0058, 0, 2)], [(0.189, 0, 1), (-0.0058, 0, 2)])
        return f, np.radians(10.8 * np.sin(np.radians(n)) - 1.3 * np.sin(np.radians(2.0 * n)) + 0.2 * np.sin(np.radians(3.0 * n)))
    elif c == 'q1':
        f, u = series(n, 0.0, [(0.188, 0, 1)], [(0.188, 0, 1)])
        return f, np.arctan(0.189 * np.sin(np.radians(n)) / (1.0 + 0.189 * np.cos(np.radians(n))))


def m1(n, p, M1):
    P, Q = np.radians(p), np.radians(p - n)
    if M1 == 'Doodson':
        t1, t2 = np.sin(P) + 0.2 * np.sin(Q), 2.0 * np.cos(P) + 0.4 * np.cos(Q)
    else:
        t1, t2 = 0.64 * np.sin(P) + 0.135 * np.sin(Q), 1.36 * np.cos(P) + 0.267 * np.cos(Q)
    return np.sqrt(t1 ** 2 + t2 ** 2), np.arctan2(t1, t2)


# modulations of the minor constituents (index in the table of minor arguments)
MINOR = {
    0: ([(0.189, 0, 1), (-0.0058, 0, 2)], [(0.189, 0, 1), (-0.0058, 0, 2)]),
    3: ([(0.185, 0, 1)], [(0.185, 0, 1)]), 4: ([(-0.201, 0, 1)], [(0.201, 0, 1)]), 5: ([(-0.221, 0, 1)], [(0.221, 0, 1)]),
    9: ([(-0.198, 0, 1)], [(0.198, 0, 1)]), 10: ([(-0.640, 0, 1), (-0.134, 0, 2)], [(0.640, 0, 1), (0.134, 0, 2)]),
    11: ([(-0.0373, 0, 1)], [(-0.0373, 0, 1)]), 16: ([(-0.441, 0, 1)], [(0.441, 0, 1)])}
MINOR_LIKE = {1: 0, 2: 0, 12: 11, 13: 11, 15: 11}
MINOR_NAMES = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1a', 'chi1', 'pi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2', 'lambda2',
               'l2a', 'l2b', 't2', 'eps2', 'eta2']
MINOR_FES = {0: 'o1', 1: 'o1', 2: 'o1', 3: 'o1', 4: 'j1', 5: 'j1', 9: 'j1', 10: 'oo1', 11: 'm2', 12: 'm2', 13: 'm2', 14: 'm2', 15: 'l2',
             18: 'm2', 19: 'eta2'}
MINOR_GOT = {18: ([(-0.0373, 0, 1)], [(-0.0373, 0, 1)]), 19: ([(-0.436, 0, 1)], [(0.436, 0, 1)])}


def series_principal(n, p, S, K):
    """phase in the principal branch (the cosine part is positive)"""
    t1, t2 = 0.0, 1.0
    for (a, j, k) in S:
        t1 = t1 + a * np.sin(np.radians(j * p + k * n))
    for (a, j, k) in K:
        t2 = t2 + a * np.cos(np.radians(j * p + k * n))
    return np.sqrt(t1 ** 2 + t2 ** 2), np.arctan(t1 / t2)
