"""Uses of coordinate reference systems."""
import pyTMD
import pyproj
import pyproj.enums


def transformed(x, y, P, E):
    return pyTMD.crs().get(P).transform(x, y, EPSG=E)


def converted(x, y, P, BF, E):
    return pyTMD.crs().convert(x, y, P, BF, EPSG=E)


def geographic(P):
    return pyTMD.crs().get(P).is_geographic


def again(x, y, P, Q, first, then):
    c = pyTMD.crs()
    c.convert(x, y, Q, first)
    return c.convert(x, y, P, then)


def directed(x, y, P, E, D):
    return pyTMD.crs().get(P).transform(x, y, EPSG=E, direction=D)


def optional(x, y, P, R):
    return pyTMD.crs().get(P).transform(x, y, radians=R)


def default(x, y, P):
    return pyTMD.crs().get(P).transform(x, y)


def attributes(P):
    c = pyTMD.crs().get(P)
    return (c.name, c.crs, c['name'], c['crs'])


def assigned(P, v):
    c = pyTMD.crs()
    c['name'] = v
    return c.name


def read(P):
    return pyTMD.crs().from_input(P)


def got(P):
    return pyTMD.crs().get(P).crs


def held(P):
    pyTMD.crs().get(P)
    return True
