"""Reference definitions for tide prediction (read by the analysis, never executed)."""
import numpy as np
import timescale.time
import timescale.eop
import pyTMD.arguments
import pyTMD.astro
import pyTMD.predict

EPOCH = 48622.0     # MJD of 1992-01-01T00:00:00


def synthesis(t, constituents, deltat, corrections, re, im, row):
    """sum over constituents of f * Re( (re + i im) * exp(i*(V + u)) )"""
    u, f, V = pyTMD.arguments.arguments(t + EPOCH, constituents, deltat=deltat, corrections=corrections)
    total = 0.0
    for k, c in enumerate(constituents):
        if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
            # phase from the constituent frequency (radians per second)
            _, phase, omega, _, _ = pyTMD.arguments._constituent_parameters(c)
            angle = phase + 86400.0 * t * omega + (u[0, k] if row else u[:, k])
        else:
            angle = np.radians(V[0, k] if row else V[:, k]) + (u[0, k] if row else u[:, k])
        h = re(k) + 1j * im(k)
        total = total + (f[0, k] if row else f[:, k]) * np.real(h * np.exp(1j * angle))
    return total


def map(t, hc, constituents, deltat=0.0, corrections='OTIS'):
    return synthesis(t, constituents, deltat, corrections, lambda k: hc.real[:, k], lambda k: hc.imag[:, k], True)


def drift(t, hc, constituents, deltat=0.0, corrections='OTIS'):
    return synthesis(t, constituents, deltat, corrections, lambda k: hc.real[:, k], lambda k: hc.imag[:, k], False)


def time_series(t, hc, constituents, deltat=0.0, corrections='OTIS'):
    return synthesis(t, constituents, deltat, corrections, lambda k: hc.real[0, k], lambda k: hc.imag[0, k], False)


# ------------------------------------------------------------------ minor constituents
def infer(t, zmajor, constituents, minor, weights, deltat, corrections, table):
    """each requested minor that is not already a major: admittance-weighted sum of the majors"""
    names = [w[0] for w in weights]
    wanted = minor or names
    if table:
        u, f, V = pyTMD.arguments.minor_arguments(t + EPOCH, deltat=deltat, corrections=corrections)
    else:
        u, f, V = pyTMD.arguments.arguments(t + EPOCH, names, deltat=deltat, corrections=corrections)
    total = 0.0
    for k, (name, parts) in enumerate(weights):
        if name not in constituents and name in wanted:
            z = 0.0
            for major, w in parts:
                if major in constituents:
                    z = z + w * zmajor[:, constituents.index(major)]
            total = total + f[:, k] * np.real(z * np.exp(1j * (np.radians(V[:, k]) + u[:, k])))
    return total


def short_period(t, zmajor, constituents, minor, deltat, corrections):
    # response weights (R. D. Ray, perth3); columns follow the minor-constituent table
    w = [('2q1', [('q1', 0.263), ('o1', -0.0252)]),
         ('sigma1', [('q1', 0.297), ('o1', -0.0264)]),
         ('rho1', [('q1', 0.164), ('o1', 0.0048)]),
         ('m1b', [('o1', 0.0140), ('k1', 0.0101)]),
         ('m1', [('o1', 0.0389), ('k1', 0.0282)]),
         ('chi1', [('o1', 0.0064), ('k1', 0.0060)]),
         ('pi1', [('o1', 0.0030), ('k1', 0.0171)]),
         ('phi1', [('o1', -0.0015), ('k1', 0.0152)]),
         ('theta1', [('o1', -0.0065), ('k1', 0.0155)]),
         ('j1', [('o1', -0.0389), ('k1', 0.0836)]),
         ('oo1', [('o1', -0.0431), ('k1', 0.0613)]),
         ('2n2', [('n2', 0.264), ('m2', -0.0253)]),
         ('mu2', [('n2', 0.298), ('m2', -0.0264)]),
         ('nu2', [('n2', 0.165), ('m2', 0.00487)]),
         ('lambda2', [('m2', 0.0040), ('s2', 0.0074)]),
         ('l2', [('m2', 0.0131), ('s2', 0.0326)]),
         ('l2b', [('m2', 0.0033), ('s2', 0.0082)]),
         ('t2', [('s2', 0.0585)]),
         ('eps2', []),
         ('eta2', [])]
    if corrections == 'FES':
        # spline admittances of the FES models
        w[12] = ('mu2', [('k2', 0.069439968323), ('n2', 0.351535557706), ('m2', -0.046278307672)])
        w[13] = ('nu2', [('k2', -0.006104695053), ('n2', 0.156878802427), ('m2', 0.006755704028)])
        w[14] = ('lambda2', [('k2', 0.016503557465), ('n2', -0.013307812292), ('m2', 0.007753383202)])
        w[16] = ('l2b', [('k2', 0.077137765667), ('n2', -0.051653455134), ('m2', 0.027869916824)])
        w[17] = ('t2', [('k2', 0.180480173707), ('n2', -0.020101177502), ('m2', 0.008331518844)])
        w[18] = ('eps2', [('2n2', 0.53285), ('n2', -0.03304)])
        w[19] = ('eta2', [('m2', -0.0034925), ('k2', 0.0831707)])
    return infer(t, zmajor, constituents, minor, w, deltat, corrections, True)


def linear(omega, om, z):
    """admittance interpolated (or extrapolated) linearly in frequency between adjacent majors"""
    lower = om[0] < om[1] and omega < om[1]
    za, zb = (z[0], z[1]) if lower else (z[1], z[2])
    oa, ob = (om[0], om[1]) if lower else (om[1], om[2])
    return za + (zb - za) / (ob - oa) * (omega - oa)


def response(omega, matrix, z):
    """admittance as a constant plus cosine and sine of twice the frequency (2-day lag)"""
    a = matrix[0][0] * z[0] + matrix[0][1] * z[1] + matrix[0][2] * z[2]
    b = matrix[1][0] * z[0] + matrix[1][1] * z[1] + matrix[1][2] * z[2]
    c = matrix[2][0] * z[0] + matrix[2][1] * z[1] + matrix[2][2] * z[2]
    arg = 2.0 * 86400.0 * omega
    return a + b * np.cos(arg) + c * np.sin(arg)


def admittance(t, zmajor, constituents, minor, deltat, corrections, majors, minors, method, matrix, elastic, **kwargs):
    """minor amplitude = equilibrium amplitude * interpolated admittance of the majors"""
    names = [m for m, a in minors]
    wanted = minor or names
    om = pyTMD.arguments.frequency([m for m, a in majors], deltat=deltat, corrections=corrections, method=method,
                                   raise_exception=False, minor=minor)
    omega = pyTMD.arguments.frequency(names, deltat=deltat, corrections=corrections, method=method, raise_exception=False, minor=minor)
    z = []
    for i, (m, a) in enumerate(majors):
        zi = zmajor[:, constituents.index(m)] / a
        if elastic:
            h, k, l = pyTMD.arguments._love_numbers(om[i])
            zi = zi / (1.0 + k - h)
        z.append(zi)
    u, f, V = pyTMD.arguments.arguments(t + EPOCH, names, deltat=deltat, corrections=corrections)
    total = 0.0
    for j, (m, a) in enumerate(minors):
        if m not in constituents and m in wanted:
            if method == 'linear':
                y = linear(omega[j], om, z)
            else:
                y = response(omega[j], matrix, z)
            y = y * a
            if elastic:
                h, k, l = pyTMD.arguments._love_numbers(omega[j])
                y = y * (1.0 + k - h)
            total = total + f[:, j] * np.real(y * np.exp(1j * (np.radians(V[:, j]) + u[:, j])))
    return total


def semi_diurnal(t, zmajor, constituents, minor, deltat, corrections, method):
    majors = [('n2', 0.121006), ('m2', 0.631931), ('s2', 0.294019)]
    minors = [('eps2', 0.004669), ('2n2', 0.016011), ('mu2', 0.019316), ('nu2', 0.022983), ('gamma2', 0.001902), ('alpha2', 0.002178),
              ('beta2', 0.001921), ('delta2', 0.000714), ('lambda2', 0.004662), ('l2', 0.017862), ('t2', 0.017180), ('r2', 0.002463),
              ('k2', 0.079924), ('eta2', 0.004467)]
    matrix = [[3.3133, -4.2538, 1.9405], [-3.3133, 4.2538, -0.9405], [1.5018, -3.2579, 1.7561]]
    return admittance(t, zmajor, constituents, minor, deltat, corrections, majors, minors, method, matrix, False)


def diurnal(t, zmajor, constituents, minor, deltat, corrections, method):
    majors = [('q1', 0.050184), ('o1', 0.262163), ('k1', 0.368731)]
    minors = [('2q1', 0.006638), ('sigma1', 0.008023), ('rho1', 0.009540), ('tau1', 0.003430), ('beta1', 0.001941), ('m1a', 0.020604),
              ('m1b', 0.007420), ('chi1', 0.003925), ('pi1', 0.007125), ('p1', 0.122008), ('psi1', 0.002929), ('phi1', 0.005247),
              ('theta1', 0.003966), ('j1', 0.020618), ('so1', 0.003417), ('oo1', 0.011293), ('ups1', 0.002157)]
    matrix = [[3.1214, -3.8494, 1.728], [-3.1727, 3.9559, -0.7832], [1.438, -3.0297, 1.5917]]
    return admittance(t, zmajor, constituents, minor, deltat, corrections, majors, minors, method, matrix, True)


def long_period(t, zmajor, constituents, minor, deltat, corrections):
    majors = [('node', 0.027929), ('mm', 0.035184), ('mf', 0.066607)]
    minors = [('sa', 0.004922), ('ssa', 0.030988), ('sta', 0.001809), ('msm', 0.006728), ('msf', 0.005837), ('mst', 0.002422),
              ('mt', 0.012753), ('msqm', 0.002037), ('mq', 0.001687)]
    return admittance(t, zmajor, constituents, minor, deltat, corrections, majors, minors, 'linear', None, False)


# ------------------------------------------------------------------ equilibrium long-period tide
EQUILIBRIUM = [  # name, s, h, p, n, pp, amplitude (cm)
    ('node', 0, 0, 0, 1, 0, 2.7929), ('sa', 0, 1, 0, 0, -1, -0.4922), ('ssa', 0, 2, 0, 0, 0, -3.0988), ('msm', 1, -2, 1, 0, 0, -0.6728),
    ('065.445', 1, 0, -1, -1, 0, 0.231), ('mm', 1, 0, -1, 0, 0, -3.5184), ('065.465', 1, 0, -1, 1, 0, 0.228), ('msf', 2, -2, 0, 0, 0, -0.5837),
    ('075.355', 2, 0, -2, 0, 0, -0.288), ('mf', 2, 0, 0, 0, 0, -6.6607), ('mf+', 2, 0, 0, 1, 0, -2.763), ('075.575', 2, 0, 0, 2, 0, -0.258),
    ('mst', 3, -2, 1, 0, 0, -0.2422), ('mt', 3, 0, -1, 0, 0, -1.2753), ('085.465', 3, 0, -1, 1, 0, -0.528)]


def equilibrium_tide(t, lat, constituents, deltat, corrections):
    otis = corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
    s, h, p, N, pp = pyTMD.astro.mean_longitudes(t + EPOCH + deltat, ASTRO5=not otis)
    n = np.mod(360.0 - N, 360.0)
    Z = 0.0
    for (name, a, b, c, d, e, amp) in EQUILIBRIUM:
        if name in constituents:
            Z = Z + amp * np.cos(np.radians(a * s + b * h + c * p + d * n + e * pp))
    P20 = (3.0 * np.sin(np.radians(lat)) ** 2 - 1.0) / 2.0
    scale = (1.0 + 0.299 - 0.606) * np.sqrt(5.0 / (4.0 * np.pi)) / 100.0
    if len(np.atleast_1d(lat)) != len(np.atleast_1d(t)):
        return scale * np.outer(P20, Z)
    return scale * P20 * Z


# ------------------------------------------------------------------ pole tides
def wobble(t, deltat, convention):
    """pole coordinates relative to the mean pole (arcseconds); m2 is positive along -y"""
    tt = t + 2400000.5 + EPOCH + deltat
    Y, M, D, h, m, s = timescale.time.convert_julian(tt, format='tuple')
    year = timescale.time.convert_calendar_decimal(Y, M, day=D, hour=h, minute=m, second=s)
    mpx, mpy, fl = timescale.eop.iers_mean_pole(year, convention=convention)
    px, py = timescale.eop.iers_polar_motion(tt - 2400000.5, k=3, s=0)
    return px - mpx, mpy - py


def load_pole_tide(t, XYZ, deltat, gamma_0, omega, h2, l2, convention):
    m1, m2 = wobble(t, deltat, convention)
    x, y, z = XYZ[:, 0], XYZ[:, 1], XYZ[:, 2]
    rho = np.sqrt(x ** 2 + y ** 2)
    r2 = x ** 2 + y ** 2 + z ** 2
    colat = np.pi / 2.0 - np.arctan(z / rho)
    lon = np.arctan2(y, x)
    arcsec = np.pi / (180.0 * 3600.0)
    # potential height scale per radian of wobble
    H = arcsec * omega ** 2 * r2 / gamma_0
    along = m1 * np.cos(lon) + m2 * np.sin(lon)
    across = m1 * np.sin(lon) - m2 * np.cos(lon)
    s_theta = -l2 * H * np.cos(2.0 * colat) * along
    s_lambda = l2 * H * np.cos(colat) * across
    s_r = -h2 / 2.0 * H * np.sin(2.0 * colat) * along
    dx = s_theta * np.cos(colat) * np.cos(lon) - s_lambda * np.sin(lon) + s_r * np.sin(colat) * np.cos(lon)
    dy = s_theta * np.cos(colat) * np.sin(lon) + s_lambda * np.cos(lon) + s_r * np.sin(colat) * np.sin(lon)
    dz = -s_theta * np.sin(colat) + s_r * np.cos(colat)
    return dx, dy, dz


def ocean_pole_tide(t, XYZ, UXYZ, deltat, gamma_0, a_axis, GM, omega, rho_w, g2, convention):
    m1, m2 = wobble(t, deltat, convention)
    arcsec = np.pi / (180.0 * 3600.0)
    Hp = np.sqrt(8.0 * np.pi / 15.0) * omega ** 2 * a_axis ** 4 / GM
    K = 4.0 * np.pi * 6.67430e-11 * a_axis * rho_w * Hp / (3.0 * gamma_0)
    gR, gI = g2.real, g2.imag
    out = []
    for k in range(3):
        uR, uI = UXYZ.real[:, k], UXYZ.imag[:, k]
        out.append(K * arcsec * ((m1 * gR + m2 * gI) * uR + (m2 * gR - m1 * gI) * uI))
    return out[0], out[1], out[2]


# ------------------------------------------------------------------ solid earth tides (IERS Conventions 2010, chapter 7.1.1)
def geometry(XYZ):
    x, y, z = XYZ[:, 0], XYZ[:, 1], XYZ[:, 2]
    r = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    rho = np.sqrt(x ** 2 + y ** 2)
    return x, y, z, r, z / r, rho / r, y / rho, x / rho      # sinphi, cosphi, sinla, cosla


def to_xyz(dr, dn, de, sp, cp, sl, cl):
    """radial, north, east components to the cartesian frame"""
    return (dr * cl * cp - de * sl - dn * cl * sp, dr * sl * cp + de * cl - dn * sl * sp, dr * sp + dn * cp)


def in_phase(XYZ, BXYZ, mass_ratio, a_axis, h20, l20, h3, l3):
    """degree-2 and degree-3 displacement due to one body"""
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    bx, by, bz = BXYZ[:, 0], BXYZ[:, 1], BXYZ[:, 2]
    R = np.sqrt(bx ** 2 + by ** 2 + bz ** 2)
    c = (x * bx + y * by + z * bz) / (r * R)
    P2 = (3.0 * sp ** 2 - 1.0) / 2.0
    # h2 and l2 depend on latitude through P2(sin(phi)) (equation 7.2)
    h2 = h20 - 0.0006 * P2
    l2 = l20 + 0.0002 * P2
    # 1 - 3/2 cos^2 = P2(sin)
    F2 = mass_ratio * a_axis ** 4 / R ** 3
    F3 = mass_ratio * a_axis ** 5 / R ** 4
    out = []
    for e, b in ((x / r, bx / R), (y / r, by / R), (z / r, bz / R)):
        d2 = F2 * (h2 * e * (3.0 * c ** 2 - 1.0) / 2.0 + 3.0 * l2 * c * (b - c * e))
        d3 = F3 * (h3 * e * (5.0 * c ** 3 - 3.0 * c) / 2.0 + l3 * (15.0 * c ** 2 - 3.0) / 2.0 * (b - c * e))
        out.append(d2 + d3)
    return out, F2, h2, l2


def out_of_phase_diurnal(XYZ, BXYZ, F2):
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    bx, by, bz = BXYZ[:, 0], BXYZ[:, 1], BXYZ[:, 2]
    R2 = bx ** 2 + by ** 2 + bz ** 2
    dh, dl = -0.0025, -0.0007
    S = bz * (bx * sl - by * cl) / R2
    Q = bz * (bx * cl + by * sl) / R2
    return to_xyz(-3.0 * dh * sp * cp * F2 * S, -3.0 * dl * (cp ** 2 - sp ** 2) * F2 * S, -3.0 * dl * sp * F2 * Q, sp, cp, sl, cl)


def out_of_phase_semidiurnal(XYZ, BXYZ, F2):
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    bx, by, bz = BXYZ[:, 0], BXYZ[:, 1], BXYZ[:, 2]
    R2 = bx ** 2 + by ** 2 + bz ** 2
    dh, dl = -0.0022, -0.0007
    s2, c2 = 2.0 * sl * cl, cl ** 2 - sl ** 2
    S = ((bx ** 2 - by ** 2) * s2 - 2.0 * bx * by * c2) / R2
    Q = ((bx ** 2 - by ** 2) * c2 + 2.0 * bx * by * s2) / R2
    return to_xyz(-0.75 * dh * cp ** 2 * F2 * S, 1.5 * dl * sp * cp * F2 * S, -1.5 * dl * cp * F2 * Q, sp, cp, sl, cl)


def latitude_dependence(XYZ, BXYZ, F2):
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    bx, by, bz = BXYZ[:, 0], BXYZ[:, 1], BXYZ[:, 2]
    R2 = bx ** 2 + by ** 2 + bz ** 2
    l1d, l1s = 0.0012, 0.0024
    s2, c2 = 2.0 * sl * cl, cl ** 2 - sl ** 2
    dn = -l1d * sp ** 2 * F2 * bz * (bx * cl + by * sl) / R2
    de = l1d * sp * (cp ** 2 - sp ** 2) * F2 * bz * (bx * sl - by * cl) / R2
    dn = dn - l1s / 2.0 * sp * cp * F2 * ((bx ** 2 - by ** 2) * c2 + 2.0 * bx * by * s2) / R2
    de = de - l1s / 2.0 * sp ** 2 * cp * F2 * ((bx ** 2 - by ** 2) * s2 - 2.0 * bx * by * c2) / R2
    return to_xyz(0.0, 3.0 * dn, 3.0 * de, sp, cp, sl, cl)


DIURNAL = [  # s, h, p, n', ps, dR(ip), dR(op), dT(ip), dT(op) in mm (IERS table 7.3a)
    (-3, 0, 2, 0, 0, -0.01, 0.0, 0.0, 0.0), (-3, 2, 0, 0, 0, -0.01, 0.0, 0.0, 0.0), (-2, 0, 1, -1, 0, -0.02, 0.0, 0.0, 0.0),
    (-2, 0, 1, 0, 0, -0.08, 0.0, -0.01, 0.01), (-2, 2, -1, 0, 0, -0.02, 0.0, 0.0, 0.0), (-1, 0, 0, -1, 0, -0.10, 0.0, 0.0, 0.0),
    (-1, 0, 0, 0, 0, -0.51, 0.0, -0.02, 0.03), (-1, 2, 0, 0, 0, 0.01, 0.0, 0.0, 0.0), (0, -2, 1, 0, 0, 0.01, 0.0, 0.0, 0.0),
    (0, 0, -1, 0, 0, 0.02, 0.0, 0.0, 0.0), (0, 0, 1, 0, 0, 0.06, 0.0, 0.0, 0.0), (0, 0, 1, 1, 0, 0.01, 0.0, 0.0, 0.0),
    (0, 2, -1, 0, 0, 0.01, 0.0, 0.0, 0.0), (1, -3, 0, 0, 1, -0.06, 0.0, 0.0, 0.0), (1, -2, 0, -1, 0, 0.01, 0.0, 0.0, 0.0),
    (1, -2, 0, 0, 0, -1.23, -0.07, 0.06, 0.01), (1, -1, 0, 0, -1, 0.02, 0.0, 0.0, 0.0), (1, -1, 0, 0, 1, 0.04, 0.0, 0.0, 0.0),
    (1, 0, 0, -1, 0, -0.22, 0.01, 0.01, 0.0), (1, 0, 0, 0, 0, 12.00, -0.80, -0.67, -0.03), (1, 0, 0, 1, 0, 1.73, -0.12, -0.10, 0.0),
    (1, 0, 0, 2, 0, -0.04, 0.0, 0.0, 0.0), (1, 1, 0, 0, -1, -0.50, -0.01, 0.03, 0.0), (1, 1, 0, 0, 1, 0.01, 0.0, 0.0, 0.0),
    (0, 1, 0, 1, -1, -0.01, 0.0, 0.0, 0.0), (1, 2, -2, 0, 0, -0.01, 0.0, 0.0, 0.0), (1, 2, 0, 0, 0, -0.11, 0.01, 0.01, 0.0),
    (2, -2, 1, 0, 0, -0.01, 0.0, 0.0, 0.0), (2, 0, -1, 0, 0, -0.02, 0.0, 0.0, 0.0)]
LONG = [  # IERS table 7.3b
    (0, 0, 0, 1, 0, 0.47, 0.23, 0.16, 0.07), (0, 2, 0, 0, 0, -0.20, -0.12, -0.11, -0.05), (1, 0, -1, 0, 0, -0.11, -0.08, -0.09, -0.04),
    (2, 0, 0, 0, 0, -0.13, -0.11, -0.15, -0.07), (2, 0, 0, 1, 0, -0.05, -0.05, -0.06, -0.03)]


def frequency_dependence_diurnal(XYZ, MJD):
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    TAU, S, H, P, ZNS, PS = pyTMD.astro.doodson_arguments(MJD)
    lon = np.arctan2(y, x)
    dr, dn, de = 0.0, 0.0, 0.0
    for (a, b, c, d, e, rip, rop, tip, top) in DIURNAL:
        arg = TAU + a * S + b * H + c * P + d * ZNS + e * PS + lon
        sn, cs = np.sin(arg), np.cos(arg)
        dr = dr + 2.0 * sp * cp * (rip * sn + rop * cs)
        dn = dn + (cp ** 2 - sp ** 2) * (tip * sn + top * cs)
        de = de + sp * (tip * cs - top * sn)
    return to_xyz(dr / 1000.0, dn / 1000.0, de / 1000.0, sp, cp, sl, cl)


def frequency_dependence_long_period(XYZ, MJD):
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    TAU, S, H, P, ZNS, PS = pyTMD.astro.doodson_arguments(MJD)
    dr, dn = 0.0, 0.0
    for (a, b, c, d, e, rip, tip, rop, top) in LONG:
        arg = a * S + b * H + c * P + d * ZNS + e * PS
        dr = dr + (3.0 * sp ** 2 - 1.0) / 2.0 * (rip * np.cos(arg) + rop * np.sin(arg))
        dn = dn + 2.0 * cp * sp * (tip * np.cos(arg) + top * np.sin(arg))
    return to_xyz(dr / 1000.0, dn / 1000.0, 0.0, sp, cp, sl, cl)


def free_to_mean(XYZ, h2, l2):
    """restoration of the time-independent (permanent) deformation"""
    x, y, z, r, sp, cp, sl, cl = geometry(XYZ)
    H0 = -0.31460
    dr = np.sqrt(5.0 / (4.0 * np.pi)) * h2 * H0 * (3.0 * sp ** 2 - 1.0) / 2.0
    dn = np.sqrt(5.0 / (4.0 * np.pi)) * l2 * H0 * 3.0 * cp * sp
    return to_xyz(dr, dn, 0.0, sp, cp, sl, cl)


def add3(p, q):
    return (p[0] + q[0], p[1] + q[1], p[2] + q[2])


def solid_earth_tide(t, XYZ, SXYZ, LXYZ, a_axis, h2, l2, h3, l3, mass_ratio_solar, mass_ratio_lunar, mean):
    MJD = t + EPOCH
    sun, F2s, hh, ll = in_phase(XYZ, SXYZ, mass_ratio_solar, a_axis, h2, l2, h3, l3)
    moon, F2m, hh, ll = in_phase(XYZ, LXYZ, mass_ratio_lunar, a_axis, h2, l2, h3, l3)
    d = add3(sun, moon)
    for body, F2 in ((SXYZ, F2s), (LXYZ, F2m)):
        d = add3(d, out_of_phase_diurnal(XYZ, body, F2))
        d = add3(d, out_of_phase_semidiurnal(XYZ, body, F2))
        d = add3(d, latitude_dependence(XYZ, body, F2))
    d = add3(d, frequency_dependence_diurnal(XYZ, MJD))
    d = add3(d, frequency_dependence_long_period(XYZ, MJD))
    if mean:
        d = add3(d, free_to_mean(XYZ, hh, ll))
    return d


def infer_minor(t, zmajor, constituents, deltat, corrections, minor, raise_exception):
    options = dict(deltat=deltat, corrections=corrections, minor=minor, raise_exception=raise_exception)
    if corrections == 'GOT':
        dh = pyTMD.predict._infer_semi_diurnal(t, zmajor, constituents, **options)
        dh = dh + pyTMD.predict._infer_diurnal(t, zmajor, constituents, **options)
    else:
        dh = pyTMD.predict._infer_short_period(t, zmajor, constituents, **options)
    return dh + pyTMD.predict._infer_long_period(t, zmajor, constituents, **options)


# ------------------------------------------------------------------ harmonic analysis
def columns(t, constituents, deltat, corrections):
    """derivatives of the synthesis with respect to the real and imaginary part of each constant"""
    out = []
    for j in range(len(constituents)):
        out.append((synthesis(t, constituents, deltat, corrections, lambda k: 1.0*(k == j), lambda k: 0.0, False),
                    synthesis(t, constituents, deltat, corrections, lambda k: 0.0, lambda k: 1.0*(k == j), False)))
    return out


def polar(re, im):
    """amplitude and phase lag (degrees) of a complex constant re + i im = A exp(-i g)"""
    lag = np.degrees(np.arctan2(-im, re))
    return np.sqrt(re**2 + im**2), np.where(lag < 0, lag + 360.0, lag)


def polar_mod(re, im):
    """the same, with the phase reduced by the modulus"""
    return np.sqrt(re**2 + im**2), np.mod(np.degrees(np.arctan2(-im, re)), 360.0)
