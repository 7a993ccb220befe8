"""Reference definitions for models: which files are read by which reader, with which options (read by the analysis, never executed)."""
import numpy as np
from pyTMD.io import OTIS, ATLAS, GOT, FES, constituents
from pyTMD.io.model import model
import pyTMD.io


def build(format, type, model_file, grid_file, projection, version, scale, compressed, names):
    m = model(compressed=compressed, verify=False)
    m.format = format
    m.type = type
    m.model_file = model_file
    m.grid_file = grid_file
    m.projection = projection
    m.version = version
    m.scale = scale
    m.constituents = names
    return m


def contents(c, names):
    """names of the constituents of a container and their constants"""
    return (c.fields, [c.get(f) for f in names])


def container(r, names, lat):
    """what a reader returns: constants on a grid (or along the rows of it)"""
    c = constituents(longitude=r[0], latitude=lat)
    for k, f in enumerate(names):
        hc = np.ma.zeros((4, 3), dtype=np.complex128)
        hc[:, :] = r[k]
        c.append(f, hc)
    return c


# the model called
def extracted(lon, lat, setup, options, **kw):
    return build(**setup).extract_constants(lon, lat, **options)


def extracted_function(lon, lat, setup, options, **kw):
    return pyTMD.io.extract_constants(lon, lat, build(**setup), **options)


def read(setup, options, names, **kw):
    return contents(build(**setup).read_constants(**options), names)


def read_function(setup, options, names, **kw):
    return contents(pyTMD.io.read_constants(build(**setup), **options), names)


def interpolated(lon, lat, setup, first, options, **kw):
    m = build(**setup)
    m.read_constants(**first)
    return m.interpolate_constants(lon, lat, **options)


def interpolated_function(lon, lat, setup, first, options, **kw):
    m = build(**setup)
    pyTMD.io.read_constants(m, **first)
    return pyTMD.io.interpolate_constants(lon, lat, m, **options)


def interpolated_unread(lon, lat, setup, options, **kw):
    return build(**setup).interpolate_constants(lon, lat, **options)


# the readers called directly
def ref_extracted(lon, lat, setup, grid, file, type, scale, options, names, node, **kw):
    f = setup['format']
    if f in ('OTIS', 'ATLAS-compact', 'TMD3'):
        amp, ph, D, c = OTIS.extract_constants(lon, lat, setup['grid_file'], file, setup['projection'], type=type, grid=grid, scale=scale, **options)
    elif f == 'ATLAS-netcdf':
        amp, ph, D, c = ATLAS.extract_constants(lon, lat, setup['grid_file'], file, type=type, compressed=setup['compressed'], scale=scale, **options)
    elif f in ('GOT-ascii', 'GOT-netcdf'):
        amp, ph, c = GOT.extract_constants(lon, lat, file, type=type, grid=grid, compressed=setup['compressed'], scale=scale, **options)
    else:
        amp, ph = FES.extract_constants(lon, lat, file, type=type, version=setup['version'], compressed=setup['compressed'], scale=scale, **options)
        c = setup['names']
    a = [amp[:, 0], amp[:, 1]]
    p = [ph[:, 0], ph[:, 1]]
    if node:
        h, g = equilibrium(lat)
        a.append(h)
        p.append(g)
        c = [*c, 'node']
    return (a, p, c)


def ref_read(setup, grid, file, type, options, names, node, **kw):
    f = setup['format']
    if f in ('OTIS', 'ATLAS-compact', 'TMD3'):
        c = OTIS.read_constants(setup['grid_file'], file, setup['projection'], type=type, grid=grid, **options)
    elif f == 'ATLAS-netcdf':
        c = ATLAS.read_constants(setup['grid_file'], file, type=type, compressed=setup['compressed'], **options)
    elif f in ('GOT-ascii', 'GOT-netcdf'):
        c = GOT.read_constants(file, type=type, grid=grid, compressed=setup['compressed'], **options)
    else:
        c = FES.read_constants(file, type=type, version=setup['version'], compressed=setup['compressed'], **options)
    if node:
        h, g = equilibrium(c.latitude)
        # constants of a container are in the units of the model
        u = 1.0 if f in ('OTIS', 'ATLAS-compact', 'TMD3') else setup['scale']
        c.append('node', h/u*np.exp(-1j*g*np.pi/180.0))
    return c


def ref_contents(setup, grid, file, type, options, names, node, **kw):
    return contents(ref_read(setup, grid, file, type, options, names, node), names)


def ref_interpolated(lon, lat, setup, grid, file, type, scale, options, first, names, node, **kw):
    c = ref_read(setup, grid, file, type, first, names, False)
    f = setup['format']
    if f in ('OTIS', 'ATLAS-compact', 'TMD3'):
        amp, ph, D = OTIS.interpolate_constants(lon, lat, c, type=type, scale=scale, **options)
    elif f == 'ATLAS-netcdf':
        amp, ph, D = ATLAS.interpolate_constants(lon, lat, c, type=type, scale=scale, **options)
    elif f in ('GOT-ascii', 'GOT-netcdf'):
        amp, ph = GOT.interpolate_constants(lon, lat, c, scale=scale, **options)
    else:
        amp, ph = FES.interpolate_constants(lon, lat, c, scale=scale, **options)
    return (amp, ph)


def equilibrium(lat):
    """equilibrium tide of the lunar node: Love numbers of the long-period tides, degree-two zonal harmonic"""
    P20 = 0.5*(3.0*np.sin(np.radians(lat))**2 - 1.0)
    return (0.027929*(1.0 + 0.299 - 0.606)*np.sqrt(5.0/(4.0*np.pi))*P20, 180.0)


# definition files
def defined(directory, **kw):
    m = model(directory=directory, verify=False)
    m.from_file('definition.json')
    return summary(m)


def summary(m):
    return [m.name, m.format, m.type, m.grid_file, m.model_file, m.projection, m.scale, m.version, m.variable, m.constituents]


def listed(directory, kind, name, extra, **kw):
    m = model(directory=directory, **kw)
    if kind == 'elevation':
        m.elevation(name, **extra)
    else:
        m.current(name, **extra)
    return summary(m)


def lists(**kw):
    return [model.formats(), model.ocean_elevation(), model.load_elevation(), model.ocean_current(), model.OTIS(), model.ATLAS_compact(), model.TMD3(),
            model.ATLAS(), model.GOT(), model.FES()]


def parsed(files, **kw):
    return [model.parse_file(f) for f in files]


def described(format, type, variable, compressed, **kw):
    m = model(compressed=compressed, verify=False)
    m.format = format
    m.type = type
    m.variable = variable
    return [m.gzip, m.corrections, m.file_format, m.long_name, m.atl03, m.atl06, m.atl07, m.atl10, m.atl11, m.atl12, m.gla12]


def copied(directory, serialize, **kw):
    """a model made from the contents of another one"""
    m = model(directory=directory, verify=False)
    m.from_file('definition.json')
    n = model(verify=False)
    n.from_dict(m.to_dict(serialize=serialize))
    return [summary(n), summary(m)]
