"""Reference definitions of the astronomical arguments of the constituents (read by the analysis)."""
import json
import numpy as np
import pyTMD.arguments
import pyTMD.astro
import pyTMD.math


def fundamental(MJD, deltat, ASTRO5):
    """multiples of 15 degrees per hour of Universal Time and mean longitudes in dynamic time"""
    s, h, p, n, pp = pyTMD.astro.mean_longitudes(MJD + deltat, ASTRO5=ASTRO5)
    tau = 15.0 * (24.0 * np.mod(MJD, 1)) - s + h
    return tau, s, h, p, n, pp, 90.0


def equilibrium(MJD, constituents, corrections, deltat, ASTRO5, j):
    """equilibrium argument of constituent j"""
    F = fundamental(MJD, deltat, ASTRO5)
    A = pyTMD.arguments.coefficients_table(constituents, corrections=corrections)
    return F[0] * A[0, j] + F[1] * A[1, j] + F[2] * A[2, j] + F[3] * A[3, j] + F[4] * A[4, j] + F[5] * A[5, j] + F[6] * A[6, j]


def modulation(MJD, constituents, corrections, deltat, ASTRO5, M1, k):
    tau, s, h, p, n, pp, c = fundamental(MJD, deltat, ASTRO5)
    return pyTMD.arguments.nodal(n, p, constituents, corrections=corrections, M1=M1)[k]


def minor(MJD, corrections, deltat, ASTRO5, j):
    F = fundamental(MJD, deltat, ASTRO5)
    A = pyTMD.arguments._minor_table()
    return F[0] * A[0, j] + F[1] * A[1, j] + F[2] * A[2, j] + F[3] * A[3, j] + F[4] * A[4, j] + F[5] * A[5, j] + F[6] * A[6, j]


def node(MJD, deltat, ASTRO5):
    F = fundamental(MJD, deltat, ASTRO5)
    return F[4], F[3]


def rates(constituents, corrections, ASTRO5, j):
    """angular frequency (radians per second) from the rates of the fundamental arguments at J2000"""
    M = np.array([51544.5, 51544.55])
    dt = 86400.0 * (51544.55 - 51544.5)
    s, h, p, n, pp = pyTMD.astro.mean_longitudes(M, ASTRO5=ASTRO5)
    tau = 15.0 * (24.0 * np.mod(M, 1)) - s + h
    A = pyTMD.arguments.coefficients_table(constituents, corrections=corrections)
    r = (tau[1] - tau[0]) * A[0, j] + (s[1] - s[0]) * A[1, j] + (h[1] - h[0]) * A[2, j] + (p[1] - p[0]) * A[3, j] \
        + (n[1] - n[0]) * A[4, j] + (pp[1] - pp[0]) * A[5, j]
    return 2.0 * np.pi * r / dt / 360.0


def alias(constituents, sampling):
    f = pyTMD.arguments.frequency(constituents) / (2.0 * np.pi)
    fs = 1.0 / sampling
    return 1.0 / np.abs(f - fs * np.round(f / fs))


def entry(c, k, otis):
    """coefficient k of constituent c: S1 has a phase of 90 degrees in the OTIS family"""
    if otis and c == 's1':
        return [1.0, 1.0, -1.0, 0.0, 0.0, 0.0, 1.0][k]
    with pyTMD.arguments._coefficients_table.open(mode='r', encoding='utf8') as fid:
        table = json.load(fid)
    return table[c][k]
