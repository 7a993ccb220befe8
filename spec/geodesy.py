"""Reference definitions of the ellipsoids, their derived parameters and normal gravity."""
import numpy as np
import pyTMD

# semi-major axis (m), inverse flattening
ELLIPSOIDS = dict(
    CLK66=(6378206.4, 294.9786982), NAD27=(6378206.4, 294.9786982), GRS67=(6378160.0, 298.247167427), GRS80=(6378137.0, 298.257222101),
    NAD83=(6378137.0, 298.257222101), WGS72=(6378135.0, 298.26), WGS84=(6378137.0, 298.257223563), ATS77=(6378135.0, 298.257),
    INTER=(6378388.0, 297.0), KRASS=(6378245.0, 298.3), MAIRY=(6377340.189, 299.3249646), HGH80=(6378273.0, 298.279411123064),
    TOPEX=(6378136.3, 298.257), EGM96=(6378136.3, 298.256415099), IERS=(6378136.6, 298.25642))
GRAVITATION = dict(GRS80=3.986005e14, NAD83=3.986005e14, GRS67=3.98603e14, TOPEX=3.986004415e14, EGM96=3.986004415e14)
ROTATION = dict(GRS67=7292115.1467e-11)


def of_name(ellipsoid, units):
    """the constants found in the library"""
    d = pyTMD.datum(ellipsoid=ellipsoid, units=units)
    return d.a_axis, d.flat, d.GM, d.omega, d.G, d.gamma


def of_user(a, f, GM, omega):
    """derived parameters found in the library for a user-defined ellipsoid"""
    d = pyTMD.datum(a_axis=a, flat=f, GM=GM, omega=omega)
    return derived_of(d)


def derived_of(d):
    return (d.a_axis, d.flat, d.GM, d.omega, d.rad_e, d.b_axis, d.ratio, d.rad_p, d.ecc, d.ecc1, d.ecc2, d.m, d.f2, d.f4, d.q, d.q0, d.J2, d.C20,
            d.gamma_a, d.gamma_b, d.dk, d.U0, d.area, d.volume, d.rho_e)


NAMES = ('a_axis', 'flat', 'GM', 'omega', 'rad_e', 'b_axis', 'ratio', 'rad_p', 'ecc', 'ecc1', 'ecc2', 'm', 'f2', 'f4', 'q', 'q0', 'J2', 'C20', 'gamma_a', 'gamma_b',
         'dk', 'U0', 'area', 'volume', 'rho_e')


def gravity_of(a, f, GM, omega, theta, height):
    d = pyTMD.datum(a_axis=a, flat=f, GM=GM, omega=omega)
    return d.gamma_0(theta), d.gamma_h(theta, height)


def overridden(ellipsoid, GM, omega):
    d = pyTMD.datum(ellipsoid=ellipsoid, GM=GM, omega=omega)
    return d.GM, d.omega


def item_of(ellipsoid):
    d = pyTMD.datum(ellipsoid=ellipsoid)
    return d['a_axis'], d['flat']


def derived(a, f, GM, omega):
    G = 6.67430e-11
    b = a * (1.0 - f)
    E = a * np.sqrt(2.0 * f - f * f)
    e = E / a
    ep = E / b
    m = omega**2 * a**2 * b / GM
    f2 = -f + 5.0 * m / 2.0 + f * f / 2.0 - 26.0 * f * m / 7.0 + 15.0 * m * m / 4.0
    f4 = -f * f / 2.0 + 5.0 * f * m / 2.0
    q = ((1.0 + 3.0 / ep**2) * np.arctan(ep) - 3.0 / ep) / 2.0
    qp = 3.0 * (1.0 + 1.0 / ep**2) * (1.0 - np.arctan(ep) / ep) - 1.0
    J2 = e * e / 3.0 * (1.0 - 2.0 / 15.0 * m * ep / q)
    ga = GM / (a * b) * (1.0 - 3.0 / 2.0 * m - 3.0 / 14.0 * ep**2 * m)
    gb = GM / a**2 * (1.0 + m + 3.0 / 7.0 * ep**2 * m)
    volume = 4.0 / 3.0 * np.pi * a**3 * (1.0 - e * e)**0.5
    area = 2.0 * np.pi * a**2 * (1.0 + (1.0 - e * e) / (2.0 * e) * np.log((1.0 + e) / (1.0 - e)))
    return (a, f, GM, omega, a * (1.0 - f)**(1.0 / 3.0), b, 1.0 - f, a / (1.0 - f), E, e, ep, m, f2, f4, q, qp, J2, -J2 / np.sqrt(5.0), ga, gb,
            b * gb / (a * ga) - 1.0, GM / E * np.arctan(ep) + omega**2 * a**2 / 3.0, area, volume, GM / (G * volume))


def gravity(a, f, GM, omega, theta, height):
    v = derived(a, f, GM, omega)
    m, f2, f4, ga = v[11], v[12], v[13], v[18]
    s = np.cos(theta)
    g0 = ga * (1.0 + f2 * s**2 + f4 * s**4)
    return g0, g0 * (1.0 - 2.0 / a * (1.0 + f + m - 2.0 * f * s**2) * height + 3.0 / a**2 * height**2)
