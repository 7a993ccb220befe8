"""Uses of the container of constituents."""
import pyTMD.io
import pyTMD.arguments
import numpy as np


def filled(A, B, D):
    c = pyTMD.io.constituents()
    c.append('m2', A)
    c.append('s2', B)
    c.append('n2', D)
    return c


def order(A, B, D):
    c = filled(A, B, D)
    return (c.fields, len(c), c.get('m2'), c.get('s2'), c.get('n2'), c['s2'])


def chained(A, B):
    c = pyTMD.io.constituents().append('m2', A).append('s2', B)
    return (c.fields, c.get('m2'), c.get('s2'))


def removed(A, B, D):
    c = filled(A, B, D)
    x = c.pop('s2')
    return (x, c.fields, len(c), c.get('m2'), c.get('n2'), hasattr(c, 's2'))


def returned(A, B, D):
    c = filled(A, B, D)
    x = c.pop('m2')
    c.append('m2', x)
    return (c.fields, c.get('m2'), c.get('s2'), c.get('n2'))


def updated(A, B, D, E):
    c = filled(A, B, D).update('s2', E)
    return (c.fields, len(c), c.get('m2'), c.get('s2'), c.get('n2'))


def missing(A, E):
    c = pyTMD.io.constituents().append('m2', A)
    c.update('k1', E)
    return True


def independent(A, B):
    """two containers do not share their fields"""
    c = pyTMD.io.constituents().append('m2', A)
    d = pyTMD.io.constituents().append('s2', B)
    return (c.fields, d.fields)


def copied(A, k, v):
    c = pyTMD.io.constituents().append('m2', np.array(A))
    x = c.get('m2')
    x[k] = v
    return c.get('m2')


def iterated(A, B, D):
    c = filled(A, B, D)
    out = []
    for name, value in (c.__next__(), c.__next__()):
        out.append((name, value))
    c.__iter__()
    out.append(c.__next__())
    return out


def ended(A):
    c = pyTMD.io.constituents().append('m2', A)
    c.__next__()
    c.__next__()
    return True


def restarted(A, B):
    c = pyTMD.io.constituents().append('m2', A).append('s2', B)
    it = c.__iter__()
    first = it.__next__()
    again = c.__iter__()
    return (first, again.__next__(), again.__next__())


def dimensions(A, B):
    return pyTMD.io.constituents().append('m2', A).append('s2', B).shape


def empty():
    c = pyTMD.io.constituents()
    return (c.fields, len(c), c.shape)


def given(A, v):
    c = pyTMD.io.constituents(bathymetry=A)
    c['mask'] = v
    return (c.bathymetry, c.mask, c['bathymetry'], c.fields)


def amplitude(A, B):
    return pyTMD.io.constituents().append('m2', A).append('s2', B).amplitude('s2')


def phase(A, B):
    return pyTMD.io.constituents().append('m2', A).append('s2', B).phase('s2')


def numbers(A, name):
    c = pyTMD.io.constituents()
    for f in ('m2', name, 'k1'):
        c.append(f, A)
    return (c.doodson_number, c.cartwright_number, c.extended_doodson)
