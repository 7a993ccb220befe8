"""Reference definitions of tidal ellipses (Foreman and Henry 1989)."""
import numpy as np
import pyTMD.ellipse


def parameters(u, v):
    wp = (u + 1j * v) / 2.0
    wm = np.conj(u - 1j * v) / 2.0
    ep, em = np.degrees(np.arctan2(np.imag(wp), np.real(wp))), np.degrees(np.arctan2(np.imag(wm), np.real(wm)))
    inclination, phase = (em + ep) / 2.0, (em - ep) / 2.0
    # northern semi-axis: inclination between 0 and 180 degrees
    k = np.floor(inclination / 180.0)
    return np.abs(wp) + np.abs(wm), np.abs(wp) - np.abs(wm), inclination - 180.0 * k, np.mod(phase + 180.0 * k, 360.0)


def currents(umajor, uminor, uincl, uphase):
    """complex constants of the two components"""
    i, g = np.radians(uincl), np.radians(uphase)
    return ((umajor * np.cos(i) + 1j * uminor * np.sin(i)) * np.exp(-1j * g),
            (umajor * np.sin(i) - 1j * uminor * np.cos(i)) * np.exp(-1j * g))


def velocity(u, v, theta):
    """components of the current at a phase of the tide from the parameters of the ellipse"""
    umajor, uminor, uincl, uphase = pyTMD.ellipse.ellipse(u, v)
    # exp(1j*i)*(umajor*cos(t) + 1j*uminor*sin(t)) as a sum of two rotations
    i, t = np.radians(uincl), theta - np.radians(uphase)
    w = (umajor + uminor) / 2.0 * np.exp(1j * (i + t)) + (umajor - uminor) / 2.0 * np.exp(1j * (i - t))
    return np.real(w), np.imag(w)


def velocity_of(u, v, theta):
    return np.real(u * np.exp(1j * theta)), np.real(v * np.exp(1j * theta))


def back(u, v):
    umajor, uminor, uincl, uphase = pyTMD.ellipse.ellipse(u, v)
    return pyTMD.ellipse.inverse(umajor, uminor, uincl, uphase)


def semiaxes(u, v):
    """the product of the semi-axes and the sum of their squares (geometry of the ellipse without its angles)"""
    umajor, uminor, uincl, uphase = pyTMD.ellipse.ellipse(u, v)
    return umajor**2 + uminor**2, umajor * uminor


def semiaxes_of(u, v):
    return np.abs(u)**2 + np.abs(v)**2, np.imag(np.conj(v) * u) 
