"""Reference definitions of Legendre functions and spherical harmonics."""
import numpy as np


def polynomial(c0, c1, c2, c3, t):
    return c0 + c1 * t + c2 * t * t + c3 * t * t * t


def alias(f, fs):
    return np.abs(f - fs * np.round(f / fs))


def normalized(theta, circle):
    return np.mod(theta, circle)
