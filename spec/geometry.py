"""Reference definitions of conversions between geographic, cartesian and local coordinates."""
import numpy as np
import pyTMD.spatial


def cartesian(lon, lat, h, a_axis, flat):
    e2 = 2.0 * flat - flat**2
    p, l = np.radians(lat), np.radians(lon)
    N = a_axis / np.sqrt(1.0 - e2 * np.sin(p)**2)
    return (N + h) * np.cos(p) * np.cos(l), (N + h) * np.cos(p) * np.sin(l), (N * (1.0 - e2) + h) * np.sin(p)


def sphere(x, y, z):
    r = np.sqrt(x * x + y * y + z * z)
    lon = np.degrees(np.arctan2(y, x))
    lon = np.where(lon < 0, lon + 360.0, lon)
    return lon, np.clip(90.0 - np.degrees(np.arccos(z / r)), -90, 90), r


def geodetic_moritz(x, y, z, a_axis, flat, eps):
    """one step of the iteration"""
    e2 = 2.0 * flat - flat**2
    p = np.sqrt(x * x + y * y)
    phi = np.arctan2(z, p * (1.0 - e2))
    h = 0.0
    if np.any(np.abs(h - np.inf * np.ones_like(x)) > eps):
        N = a_axis / np.sqrt(1.0 - e2 * np.sin(phi)**2)
        h = p * np.cos(phi) + z * np.sin(phi) - N * (1.0 - e2 * np.sin(phi)**2)
        phi = np.arctan2(z, p * (1.0 - e2 * N / (N + h)))
    return np.degrees(np.arctan2(y, x)), np.degrees(phi), h


def geodetic_bowring(x, y, z, a_axis, flat, eps):
    b = a_axis * (1.0 - flat)
    e2 = 2.0 * flat - flat**2
    ep2 = e2 * a_axis**2 / b**2
    p = np.sqrt(x * x + y * y)
    u = np.arctan2(a_axis * z, b * p)
    phi = np.arctan2(z + ep2 * b * np.sin(u)**3, p - e2 * a_axis * np.cos(u)**3)
    if np.any(np.abs(phi - np.inf * np.ones_like(x)) > eps):
        u = np.arctan(b * np.tan(phi) / a_axis)
        phi = np.arctan2(z + ep2 * b * np.sin(u)**3, p - e2 * a_axis * np.cos(u)**3)
    h = p * np.cos(phi) + z * np.sin(phi) - a_axis * np.sqrt(1.0 - e2 * np.sin(phi)**2)
    return np.degrees(np.arctan2(y, x)), np.degrees(phi), h


def geodetic_zhu(x, y, z, a_axis, flat):
    b = a_axis * (1.0 - flat)
    e2 = 2.0 * flat - flat**2
    w = np.sqrt(x * x + y * y)
    if w == 0:
        return np.degrees(np.arctan2(y, x)), 90.0 * np.sign(z), np.sign(z) * z - b
    l = e2 / 2.0
    m = (w / a_axis)**2.0
    n = ((1.0 - e2) * z / b)**2.0
    i = -(2.0 * l**2 + m + n) / 2.0
    k = l**2 * (l**2 - m - n)
    q = (m + n - 4.0 * l**2)**3.0 / 216.0 + m * n * l**2
    D = np.sqrt((2.0 * q - m * n * l**2) * m * n * l**2)
    B = i / 3.0 - (q + D)**(1.0 / 3.0) - (q - D)**(1.0 / 3.0)
    t = np.sqrt(np.sqrt(B**2 - k) - (B + i) / 2.0) - np.sign(m - n) * np.sqrt((B - i) / 2.0)
    we = w / (t + l)
    ze = (1.0 - e2) * z / (t - l)
    return (np.degrees(np.arctan2(y, x)), np.degrees(np.arctan2(ze, (1.0 - e2) * we)),
            np.sign(t - 1.0 + l) * np.sqrt((w - we)**2 + (z - ze)**2))


def enu(x, y, z, lon0, lat0, h0, a_axis, flat):
    X, Y, Z = pyTMD.spatial.to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
    dx, dy, dz = x - X, y - Y, z - Z
    l, p = np.radians(lon0), np.radians(lat0)
    return (-np.sin(l) * dx + np.cos(l) * dy,
            -np.sin(p) * np.cos(l) * dx - np.sin(p) * np.sin(l) * dy + np.cos(p) * dz,
            np.cos(p) * np.cos(l) * dx + np.cos(p) * np.sin(l) * dy + np.sin(p) * dz)


def xyz(E, N, U, lon0, lat0, h0, a_axis, flat):
    X, Y, Z = pyTMD.spatial.to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
    l, p = np.radians(lon0), np.radians(lat0)
    return (X - np.sin(l) * E - np.sin(p) * np.cos(l) * N + np.cos(p) * np.cos(l) * U,
            Y + np.cos(l) * E - np.sin(p) * np.sin(l) * N + np.cos(p) * np.sin(l) * U,
            Z + np.cos(p) * N + np.sin(p) * U)


def roundtrip(E, N, U, lon0, lat0, h0, a_axis, flat):
    x, y, z = pyTMD.spatial.from_ENU(E, N, U, lon0=lon0, lat0=lat0, h0=h0, a_axis=a_axis, flat=flat)
    return pyTMD.spatial.to_ENU(x, y, z, lon0=lon0, lat0=lat0, h0=h0, a_axis=a_axis, flat=flat)


def horizontal(E, N, U):
    D = np.sqrt(E * E + N * N + U * U)
    return np.degrees(np.arcsin(U / D)), np.mod(np.degrees(np.arctan2(E / D, N / D)), 360.0), D


def zenith(x, y, z, lon0, lat0, h0, a_axis, flat):
    E, N, U = pyTMD.spatial.to_ENU(x, y, z, lon0=lon0, lat0=lat0, h0=h0, a_axis=a_axis, flat=flat)
    return 90.0 - np.degrees(np.arcsin(U / np.sqrt(E * E + N * N + U * U)))


def delta_h(lat, a1, f1, a2, f2):
    p = np.radians(np.clip(lat, -90.0, 90.0))
    return -((a2 - a1) * np.cos(p)**2 + (a2 * (1.0 - f2) - a1 * (1.0 - f1)) * np.sin(p)**2)


def wrap(lon):
    return np.degrees(np.arctan2(np.sin(np.radians(lon)), np.cos(np.radians(lon))))


def dms(d):
    minutes, second = np.divmod(np.abs(d) * 3600.0, 60.0)
    degree, minute = np.divmod(minutes, 60.0)
    return np.sign(d) * degree, minute, second


def degrees_of(degree, minute, second):
    return np.copysign(1.0, degree) * (np.abs(degree) + minute / 60.0 + second / 3600.0)


def scale(lat, flat, reference_latitude, metric):
    """polar stereographic scale (Snyder 1982)"""
    e2 = 2.0 * flat - flat**2
    e = np.sqrt(e2)
    p, p0 = np.radians(np.abs(lat)), np.radians(np.abs(reference_latitude))
    m, m0 = np.cos(p) / np.sqrt(1.0 - e2 * np.sin(p)**2), np.cos(p0) / np.sqrt(1.0 - e2 * np.sin(p0)**2)
    t = np.tan(np.pi / 4.0 - p / 2.0) / ((1.0 - e * np.sin(p)) / (1.0 + e * np.sin(p)))**(e / 2.0)
    t0 = np.tan(np.pi / 4.0 - p0 / 2.0) / ((1.0 - e * np.sin(p0)) / (1.0 + e * np.sin(p0)))**(e / 2.0)
    k = np.where(np.isclose(p, np.pi / 2.0), m0 * np.sqrt((1.0 + e)**(1.0 + e) * (1.0 - e)**(1.0 - e)) / (2.0 * t0), m0 * t / (m * t0))
    if metric == 'distance':
        return 1.0 / k
    return 1.0 / k**2


def ellipsoid(phi, h, a1, f1, a2, f2, eps):
    """one step of the iteration from the reduced latitude on the first ellipsoid"""
    b1, b2 = (1.0 - f1) * a1, (1.0 - f2) * a2
    phi = np.where(np.abs(phi) > 90.0, np.sign(phi) * 90.0, phi)
    if np.abs(phi) < eps:
        return phi, h + a1 - a2
    if 90.0 - np.abs(phi) < eps:
        return phi, h + b1 - b2
    p = np.radians(phi)
    s = np.sin(p)
    c = np.cos(p)
    if c < eps:
        c = eps
    u = np.arctan(b1 / a1 * (s / c))
    zz = b1 * np.sin(u) + h * s
    rr = a1 * np.cos(u) + h * c
    if np.abs(phi) <= 45:
        f = (b2**2 - a2**2) * np.sin(u) + a2 * rr * np.tan(u) - b2 * zz
        fp = (b2**2 - a2**2) * np.cos(u) + a2 * rr / np.cos(u)**2
        if np.abs(fp) >= eps:
            u = u - f / fp
        q = np.arctan(a2 / b2 * np.tan(u))
        out = (rr - a2 * np.cos(u)) / np.cos(q)
    else:
        f = (a2**2 - b2**2) * np.cos(u) + b2 * zz / np.tan(u) - a2 * rr
        fp = -((a2**2 - b2**2) * np.sin(u) + b2 * zz / np.sin(u)**2)
        if np.abs(fp) >= eps:
            u = u - f / fp
        q = np.arctan(a2 / b2 * np.tan(u))
        out = (zz - b2 * np.sin(u)) / np.sin(q)
    d = np.degrees(q)
    return np.where(np.abs(d) > 90.0, np.sign(d) * 90.0, d), out
