"""Reference definitions of the astronomical arguments, ephemerides and rotations (read by the analysis, never executed)."""
import numpy as np
import timescale.eop
import timescale.time
import pyTMD.astro


def horner(c, T):
    total = 0.0
    for i, v in enumerate(c):
        total = total + v * T ** i
    return total


def mean_longitudes(MJD, method):
    """mean longitudes of moon, sun, lunar perigee, ascending node and solar perigee (degrees)"""
    if method == 'MEEUS':
        T = MJD - 51544.5
        s = horner([218.3164591, 13.17639647754579, -9.9454632e-13, 3.8086292e-20, -8.6184958e-27], T)
        h = horner([280.46645, 0.985647360164271, 2.2727347e-13], T)
        p = horner([83.3532430, 0.11140352391786447, -7.7385418e-12, -2.5636086e-19, 2.95738836e-26], T)
        n = horner([125.0445550, -0.052953762762491446, 1.55628359e-12, 4.390675353e-20, -9.26940435e-27], T)
        pp = 282.94 + 1.7192 * T / 36525.0
    elif method == 'ASTRO5':
        T = (MJD - 51544.5) / 36525.0
        s = horner([218.3164477, 481267.88123421, -0.0015786, 1.855835e-6, -1.53388e-8], T)
        D = horner([297.8501921, 445267.1114034, -0.0018819, 1.83195e-6, -8.8445e-9], T)
        h = s - D
        p = horner([83.3532465, 4069.0137287, -0.01032, -1.249172e-5], T)
        n = horner([125.04452, -1934.136261, 0.0020708, 2.22222e-6], T)
        pp = 282.94 + 1.7192 * T
    else:
        T = MJD - 51544.4993
        s = 218.3164 + 13.17639648 * T
        h = 280.4661 + 0.98564736 * T
        p = 83.3535 + 0.11140353 * T
        n = 125.0445 - 0.05295377 * T
        pp = 282.8 + 0.0 * T
    return np.mod(s, 360.0), np.mod(h, 360.0), np.mod(p, 360.0), np.mod(n, 360.0), pp


def doodson_arguments(MJD, equinox, apply_correction):
    """IERS fundamental arguments for the tides (radians)"""
    T = (MJD - 51544.5) / 36525.0
    s = horner([218.3164477, 481267.88123421, -0.0015786, 1.855835e-6, -1.53388e-8], T)
    if equinox:
        tau = 360.0 * timescale.time.Timescale(MJD=MJD).st + 180.0 - s
    else:
        tau = 15.0 * 24.0 * np.mod(MJD, 1) - s + horner([280.4606184, 36000.7700536, 0.00038793, -2.58e-8], T)
    if apply_correction:
        s = s + horner([0.0, 1.396971278, 0.000308889, 2.1e-8, 7.0e-9], T)
    h = horner([280.46645, 36000.7697489, 0.00030322222, 2.0e-8, -6.54e-9], T)
    p = horner([83.3532465, 4069.0137287, -0.01032172222, -1.24991e-5, 5.263e-8], T)
    n = horner([234.95544499, 1934.13626197, -0.00207561111, -2.13944e-6, 1.65e-8], T)
    pp = horner([282.93734098, 1.71945766667, 0.00045688889, -1.778e-8, -3.34e-9], T)
    r = np.pi / 180.0
    return (r * np.mod(tau, 360.0), r * np.mod(s, 360.0), r * np.mod(h, 360.0), r * np.mod(p, 360.0), r * np.mod(n, 360.0), r * np.mod(pp, 360.0))


def delaunay_arguments(MJD):
    """IERS 2010 equation 5.43 (radians)"""
    T = (MJD - 51544.5) / 36525.0
    a = np.pi / 648000.0
    l = horner([485868.249036, 1717915923.2178, 31.8792, 0.051635, -2.447e-4], T)
    lp = horner([1287104.79305, 129596581.0481, -0.5532, 1.36e-4, -1.149e-5], T)
    F = horner([335779.526232, 1739527262.8478, -12.7512, -1.037e-3, 4.17e-6], T)
    D = horner([1072260.70369, 1602961601.2090, -6.3706, 6.593e-3, -3.169e-5], T)
    N = horner([450160.398036, -6962890.5431, 7.4722, 7.702e-3, -5.939e-5], T)
    return (a * np.mod(l, 1296000), a * np.mod(lp, 1296000), a * np.mod(F, 1296000), a * np.mod(D, 1296000), a * np.mod(N, 1296000))


def mean_obliquity(MJD):
    T = (MJD - 51544.5) / 36525.0
    return np.pi / 648000.0 * horner([84381.406, -46.836769, -0.0001831, 0.00200340, -5.76e-7, -4.34e-8], T)


def matrix_x(t):
    return [[1.0, 0.0, 0.0], [0.0, np.cos(t), np.sin(t)], [0.0, -np.sin(t), np.cos(t)]]


def matrix_y(t):
    return [[np.cos(t), 0.0, -np.sin(t)], [0.0, 1.0, 0.0], [np.sin(t), 0.0, np.cos(t)]]


def matrix_z(t):
    return [[np.cos(t), np.sin(t), 0.0], [-np.sin(t), np.cos(t), 0.0], [0.0, 0.0, 1.0]]


def product(A, B):
    return [[A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j] for j in range(3)] for i in range(3)]


def rotate(theta, axis):
    if axis.lower() == 'x':
        return matrix_x(theta)
    elif axis.lower() == 'y':
        return matrix_y(theta)
    return matrix_z(theta)


def nutation_matrix(mean_obliquity, true_obliquity, psi):
    return product(matrix_x(-true_obliquity), product(matrix_z(-psi), matrix_x(mean_obliquity)))


def precession_matrix(T):
    a = np.pi / 648000.0
    psi = a * horner([0.0, 5038.481507, -1.0790069, -0.00114045, 0.000132851, -9.51e-8], T)
    omega = a * horner([84381.406, -0.025754, 0.0512623, -0.00772503, -4.67e-7, 3.337e-7], T)
    chi = a * horner([0.0, 10.556403, -2.3814292, -0.00121197, 0.000170663, -5.60e-8], T)
    return product(matrix_z(chi), product(matrix_x(-omega), product(matrix_z(-psi), matrix_x(a * 84381.406))))


def frame_bias_matrix():
    """second-order rotation (offsets of the celestial pole and of the mean equinox at J2000)"""
    a = np.pi / 648000.0
    xi, eta, da = -0.016617 * a, -0.0068192 * a, -0.0146 * a
    return [[1.0 - 0.5 * (da ** 2 + xi ** 2), da, -xi], [-da, 1.0 - 0.5 * (da ** 2 + eta ** 2), -eta], [xi, eta, 1.0 - 0.5 * (eta ** 2 + xi ** 2)]]


def polar_motion_matrix(T):
    a = np.pi / 648000.0
    px, py = timescale.eop.iers_polar_motion(36525.0 * T + 51544.5)
    return product(matrix_x(a * py), product(matrix_y(a * px), matrix_z(4.7e-5 * a * T)))


def itrs(T):
    """the four rotations applied in turn, then the sidereal rotation"""
    ts = timescale.time.Timescale(MJD=36525.0 * T + 51544.5)
    e = pyTMD.astro.mean_obliquity(ts.tt - 2400000.5)
    dpsi, deps = pyTMD.astro._nutation_angles(T)
    P = pyTMD.astro._precession_matrix(ts.T)
    N = pyTMD.astro._nutation_matrix(e, e + deps, dpsi)
    B = pyTMD.astro._frame_bias_matrix()
    W = pyTMD.astro._polar_motion_matrix(ts.T)
    G = pyTMD.math.rotate(2.0 * np.pi * pyTMD.astro.gast(T), 'z')
    return P, N, B, W, G


def mul33(A, B):
    return [[A[i, 0] * B[0, j] + A[i, 1] * B[1, j] + A[i, 2] * B[2, j] for j in range(3)] for i in range(3)]


def mulf3(A, B):
    return [[A[i, 0] * B[0][j] + A[i, 1] * B[1][j] + A[i, 2] * B[2][j] for j in range(3)] for i in range(3)]


def itrs_factors(P, N, B, W, G):
    return mulf3(G, mulf3(P, mulf3(N, mul33(B, W))))


def itrs_standard(P, N, B, W, G):
    """IERS 2010 equation 5.1: sidereal rotation after nutation, precession and frame bias; polar motion last"""
    return mulf3(W, mulf3(G, mulf3(N, mul33(P, B))))


def gast(T):
    """Greenwich apparent sidereal time (turns): mean sidereal time plus the equation of the equinoxes"""
    ts = timescale.time.Timescale(MJD=36525.0 * T + 51544.5)
    e = pyTMD.astro.mean_obliquity(ts.tt - 2400000.5)
    dpsi, deps = pyTMD.astro._nutation_angles(T)
    eqeq = dpsi * np.cos(e + deps) + pyTMD.astro._eqeq_complement(T)
    return np.mod(ts.st + eqeq / (2.0 * np.pi), 1.0)


def nutation_angles(T):
    """IAU 2000A series in the Delaunay arguments (tables in microarcseconds)"""
    ts = timescale.time.Timescale(MJD=36525.0 * T + 51544.5)
    l, lp, F, D, Om = pyTMD.astro.delaunay_arguments(ts.tt - 2400000.5)
    X = np.c_[l, lp, F, D, Om].T
    out = []
    for table, s, c in ((pyTMD.astro._parse_table_5_3a(), 'As', 'Ac'), (pyTMD.astro._parse_table_5_3b(), 'Bs', 'Bc')):
        j0, j1 = table[0], table[1]
        a0 = np.dot(np.c_[j0['l'], j0['lp'], j0['F'], j0['D'], j0['Om']], X)
        a1 = np.dot(np.c_[j1['l'], j1['lp'], j1['F'], j1['D'], j1['Om']], X)
        out.append(ts.masec2rad * (np.dot(j0[s], np.sin(a0)) + np.dot(j0[c], np.cos(a0))
                                   + ts.T * (np.dot(j1[s], np.sin(a1)) + np.dot(j1[c], np.cos(a1)))))
    return out[0], out[1]


def planetary(T):
    """fourteen fundamental arguments (radians): IERS 2010 equations 5.43 and 5.44"""
    ts = timescale.time.Timescale(MJD=36525.0 * T + 51544.5)
    T = ts.T
    a = np.pi / 648000.0
    c = 2.0 * np.pi
    return [
        a * horner([485868.249036, 715923.2178, 31.8792, 0.051635, -2.447e-4], T) + c * np.mod(1325.0 * T, 1.0),
        a * horner([1287104.79305, 1292581.0481, -0.5532, 1.36e-4, -1.149e-5], T) + c * np.mod(99.0 * T, 1.0),
        a * horner([335779.526232, 295262.8478, -12.7512, -1.037e-3, 4.17e-6], T) + c * np.mod(1342.0 * T, 1.0),
        a * horner([1072260.70369, 1105601.2090, -6.3706, 6.593e-3, -3.169e-5], T) + c * np.mod(1236.0 * T, 1.0),
        a * horner([450160.398036, -482890.5431, 7.4722, 7.702e-3, -5.939e-5], T) + c * np.mod(-5.0 * T, 1.0),
        horner([4.402608842, 2608.7903141574], T), horner([3.176146697, 1021.3285546211], T), horner([1.753470314, 628.3075849991], T),
        horner([6.203480913, 334.0612426700], T), horner([0.599546497, 52.9690962641], T), horner([0.874016757, 21.3299104960], T),
        horner([5.481293872, 7.4781598567], T), horner([5.311886287, 3.8133035638], T), horner([0.0, 0.02438175, 0.00000538691], T)]


NAMES = ['l', 'lp', 'F', 'D', 'Om', 'L_Me', 'L_Ve', 'L_E', 'L_Ma', 'L_J', 'L_Sa', 'L_U', 'L_Ne', 'p_A']


def eqeq_complement(T):
    """complementary terms of the equation of the equinoxes: IERS 2010 table 5.2e"""
    ts = timescale.time.Timescale(MJD=36525.0 * T + 51544.5)
    F = planetary(T)
    fa = np.zeros((14, len(ts)))
    for k in range(14):
        fa[k, :] = F[k]
    fa = np.mod(fa, 2.0 * np.pi)
    j0, j1 = pyTMD.astro._parse_table_5_2e()
    n0 = np.c_[j0['l'], j0['lp'], j0['F'], j0['D'], j0['Om'], j0['L_Me'], j0['L_Ve'], j0['L_E'], j0['L_Ma'], j0['L_J'], j0['L_Sa'], j0['L_U'],
               j0['L_Ne'], j0['p_A']]
    n1 = np.c_[j1['l'], j1['lp'], j1['F'], j1['D'], j1['Om'], j1['L_Me'], j1['L_Ve'], j1['L_E'], j1['L_Ma'], j1['L_J'], j1['L_Sa'], j1['L_U'],
               j1['L_Ne'], j1['p_A']]
    a0, a1 = np.dot(n0, fa), np.dot(n1, fa)
    return ts.masec2rad * (np.dot(j0['Cs'], np.sin(a0)) + np.dot(j0['Cc'], np.cos(a0)) + ts.T * (np.dot(j1['Cs'], np.sin(a1)) + np.dot(j1['Cc'], np.cos(a1))))


def solar(MJD):
    """low-precision position of the sun (Montenbruck and Gill) in earth-fixed coordinates"""
    ts = timescale.time.Timescale(MJD=MJD)
    d = np.pi / 180.0
    T = ts.T
    M = d * horner([357.5256, 35999.049, -1.559e-4, -4.8e-7], T)
    r = 1e9 * (149.619 - 2.499 * np.cos(M) - 0.021 * np.cos(2.0 * M))
    L = d * (282.94 + 1.7192 * T) + M + d / 3600.0 * (6892.0 * np.sin(M) + 72.0 * np.sin(2.0 * M))
    e = d * 23.43929111
    x, y, z = r * np.cos(L), r * np.sin(L) * np.cos(e), r * np.sin(L) * np.sin(e)
    g = d * ts.gha
    return np.cos(g) * x + np.sin(g) * y, -np.sin(g) * x + np.cos(g) * y, z


def lunar(MJD):
    """low-precision position of the moon (Montenbruck and Gill) in earth-fixed coordinates"""
    ts = timescale.time.Timescale(MJD=MJD)
    d = np.pi / 180.0
    a = d / 3600.0
    T = ts.T
    s = d * horner([218.3164477, 481267.88123421, -0.0015786, 1.855835e-6, -1.53388e-8], T)
    D = d * horner([297.8501921, 445267.1114034, -0.0018819, 1.83195e-6, -8.8445e-9], T)
    N = d * horner([125.04452, -1934.136261, 0.0020708, 2.22222e-6], T)
    F = s - N
    M = d * (357.5256 + 35999.049 * T)
    l = d * (134.96292 + 477198.86753 * T)
    r = 1e3 * (385000.0 - 20905.0 * np.cos(l) - 3699.0 * np.cos(2 * D - l) - 2956.0 * np.cos(2 * D) - 570.0 * np.cos(2 * l)
               + 246.0 * np.cos(2 * l - 2 * D) - 205.0 * np.cos(M - 2 * D) - 171.0 * np.cos(l + 2 * D) - 152.0 * np.cos(l + M - 2 * D))
    L = s + a * (22640.0 * np.sin(l) + 769.0 * np.sin(2 * l) - 4586.0 * np.sin(l - 2 * D) + 2370.0 * np.sin(2 * D) - 668.0 * np.sin(M)
                 - 412.0 * np.sin(2 * F) - 212.0 * np.sin(2 * l - 2 * D) - 206.0 * np.sin(l + M - 2 * D) + 192.0 * np.sin(l + 2 * D)
                 - 165.0 * np.sin(M - 2 * D) + 148.0 * np.sin(l - M) - 125.0 * np.sin(D) - 110.0 * np.sin(l + M) - 55.0 * np.sin(2 * F - 2 * D))
    q = a * (412.0 * np.sin(2 * F) + 541.0 * np.sin(M))
    B = a * (18520.0 * np.sin(F + L - s + q) - 526.0 * np.sin(F - 2 * D) + 44.0 * np.sin(l + F - 2 * D) - 31.0 * np.sin(-l + F - 2 * D)
             - 25.0 * np.sin(-2 * l + F) - 23.0 * np.sin(M + F - 2 * D) + 21.0 * np.sin(-l + F) + 11.0 * np.sin(-M + F - 2 * D))
    x, y, z = r * np.cos(L) * np.cos(B), r * np.sin(L) * np.cos(B), r * np.sin(B)
    e = d * 23.43929111
    v, w = np.cos(e) * y - np.sin(e) * z, np.sin(e) * y + np.cos(e) * z
    g = d * ts.gha
    return np.cos(g) * x + np.sin(g) * v, -np.sin(g) * x + np.cos(g) * v, w


def ephemerides(MJD, kernel, body):
    """geocentric position (m) from the kernel, rotated with the earth"""
    ts = timescale.time.Timescale(MJD=MJD)
    SPK = pyTMD.astro.jplephem_spk.SPK.open(kernel)
    if body == 'sun':
        x, y, z = 1e3 * (SPK[0, 10].compute(ts.tt) - SPK[0, 3].compute(ts.tt) - SPK[3, 399].compute(ts.tt))
    else:
        x, y, z = 1e3 * (SPK[3, 301].compute(ts.tt) - SPK[3, 399].compute(ts.tt))
    R = pyTMD.astro.itrs((ts.ut1 - 2451545.0) / 36525.0)
    return (R[0, 0, :] * x + R[0, 1, :] * y + R[0, 2, :] * z, R[1, 0, :] * x + R[1, 1, :] * y + R[1, 2, :] * z,
            R[2, 0, :] * x + R[2, 1, :] * y + R[2, 2, :] * z)


def row(path, start, n, sine, cosine, k):
    """row k of a series table"""
    with path.open(mode='r', encoding='utf8') as f:
        lines = f.readlines()
    names = ('i', sine, cosine, 'l', 'lp', 'F', 'D', 'Om', 'L_Me', 'L_Ve', 'L_E', 'L_Ma', 'L_J', 'L_Sa', 'L_U', 'L_Ne', 'p_A')
    formats = ('i', 'f', 'f', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i', 'i')
    dtype = np.dtype({'names': names, 'formats': formats})
    return np.array(tuple(lines[start:start + n][k].split()), dtype=dtype)
