"""Reference definitions of the constants of gridded models (FES, GOT, ATLAS-netCDF): one constituent, read from one file, at a list of points."""
import copy
import numpy as np
import pyTMD.interpolate
import pyTMD.io.ATLAS
import pyTMD.io.FES
import pyTMD.io.GOT
import pyTMD.io.IERS
import scipy.interpolate


def wrapped(x, lon):
    """longitudes of points in the convention of the grid"""
    if (np.min(x) < 0.0) & (np.max(lon) > 180.0):
        x = np.copy(x)
        x[x < 0.0] += 360.0
        return x
    if (np.max(x) > 180.0) & (np.min(lon) < 0.0):
        x = np.copy(x)
        x[x > 180.0] -= 360.0
        return x
    return x


def is_global(lon, dlon):
    return np.isclose(lon[-1] - lon[0], 360.0 - dlon)


def outside(lon, lat, x, y):
    return (x < np.min(lon)) | (x > np.max(lon)) | (y < np.min(lat)) | (y > np.max(lat))


def at_points(method, lon, lat, grid, x, y, dtype=None, within=False):
    """data and mask of a grid at points (within: nodes without values are nodes without depth, whose points are masked separately)"""
    if method == 'bilinear':
        at = pyTMD.interpolate.bilinear(lon, lat, grid, x, y, dtype=dtype or grid.dtype)
        mask = at.mask if within else at.mask | np.isnan(at.data)
    elif method == 'spline':
        at = pyTMD.interpolate.spline(lon, lat, grid, x, y, dtype=dtype or grid.dtype, reducer=np.ceil, kx=1, ky=1)
        mask = at.mask
    else:
        at = pyTMD.interpolate.regulargrid(lon, lat, grid, x, y, dtype=dtype or grid.dtype, reducer=np.ceil, method=method, bounds_error=False)
        mask = at.mask
    return at.data, mask


def extended(lon, lat, grid, x, y, data, mask, extrapolate, cutoff, dtype=None):
    """values of points which are invalid, from valid nodes within the cutoff distance"""
    if extrapolate and np.any(mask):
        inv, = np.nonzero(mask)
        near = pyTMD.interpolate.extrapolate(lon, lat, grid, x[inv], y[inv], dtype=dtype or grid.dtype, cutoff=cutoff)
        data, mask = np.copy(data), np.copy(mask)
        data[inv] = near.data
        mask[inv] = near.mask
    return data, mask


def constants(data, mask, scale):
    """amplitude in the units of the scale and Greenwich phase lag in degrees at one point: nothing where it is invalid"""
    if mask:
        return 0.0, 0.0, True, True
    lag = np.arctan2(-data.imag, data.real) * 180.0 / np.pi
    if lag < 0.0:
        lag = lag + 360.0
    return np.abs(data) * scale, lag, False, False


def at_grid(module, grid, lon, lat, dlon, x, y, method, extrapolate, cutoff):
    """data and mask of a grid at points, across the seam of global grids"""
    if is_global(lon, dlon):
        lon, grid = module._extend_array(lon, dlon), module._extend_matrix(grid)
    data, mask = at_points(method, lon, lat, grid, x, y)
    data, mask = extended(lon, lat, grid, x, y, data, mask, extrapolate, cutoff)
    return data, mask | outside(lon, lat, x, y)


def FES(ilon, ilat, model_files, version, type, compressed, crop, bounds, buffer, method, extrapolate, cutoff, scale, i, p):
    x, y = np.atleast_1d(ilon), np.atleast_1d(ilat)
    region = bounds or [np.min(x), np.max(x), np.min(y), np.max(y)]
    for k in range(i + 1):
        if version in ('FES1999', 'FES2004'):
            grid, lon, lat = pyTMD.io.FES.read_ascii_file(model_files[k], compressed=compressed)
        else:
            grid, lon, lat = pyTMD.io.FES.read_netcdf_file(model_files[k], type=type, version=version, compressed=compressed)
        dlon = lon[1] - lon[0]
        if crop and np.any(region):
            grid, lon, lat = pyTMD.io.FES._crop(grid, lon, lat, bounds=region, buffer=buffer or 4 * dlon)
        else:
            x = wrapped(x, lon)
    data, mask = at_grid(pyTMD.io.FES, grid, lon, lat, dlon, x, y, method, extrapolate, cutoff)
    return constants(data[p], mask[p], scale)


def GOT(ilon, ilat, model_files, grid, compressed, crop, bounds, buffer, method, extrapolate, cutoff, scale, i, p):
    x, y = np.atleast_1d(ilon), np.atleast_1d(ilat)
    region = bounds or [np.min(x), np.max(x), np.min(y), np.max(y)]
    for k in range(i + 1):
        if grid == 'ascii':
            z, lon, lat, name = pyTMD.io.GOT.read_ascii_file(model_files[k], compressed=compressed)
        else:
            z, lon, lat, name = pyTMD.io.GOT.read_netcdf_file(model_files[k], compressed=compressed)
        dlon = np.abs(lon[1] - lon[0])
        if crop and np.any(region):
            z, lon, lat = pyTMD.io.GOT._crop(z, lon, lat, bounds=region, buffer=buffer or 4 * dlon)
        else:
            x = wrapped(x, lon)
    data, mask = at_grid(pyTMD.io.GOT, z, lon, lat, dlon, x, y, method, extrapolate, cutoff)
    return constants(data[p], mask[p], scale), name


def currents(type, lon, lat, depth, x, y, data, mask, extrapolate, cutoff):
    """divisor from transports to currents in centimetres per second: depth in metres over 100"""
    if type in ('u', 'v'):
        data, mask = extended(lon, lat, depth, x, y, data, mask, extrapolate, cutoff, dtype=np.float64)
        return data / 100.0
    return np.ones(len(x))


def ATLAS(ilon, ilat, grid_file, model_files, type, compressed, crop, bounds, buffer, method, extrapolate, cutoff, scale, i, p):
    x, y = np.atleast_1d(ilon), np.atleast_1d(ilat)
    region = bounds or [np.min(x), np.max(x), np.min(y), np.max(y)]
    glon, glat, depth = pyTMD.io.ATLAS.read_netcdf_grid(grid_file, type, compressed=compressed)
    lon, lat, dlon = glon, glat, glon[1] - glon[0]
    hc, name = pyTMD.io.ATLAS.read_netcdf_file(model_files[i], type, compressed=compressed)
    if crop and np.any(region):
        depth, lon, lat = pyTMD.io.ATLAS._crop(depth, glon, glat, bounds=region, buffer=buffer or 4 * dlon)
        hc, lon, lat = pyTMD.io.ATLAS._crop(hc, glon, glat, bounds=region, buffer=buffer or 4 * dlon)
    else:
        x = wrapped(x, lon)
    if is_global(lon, dlon):
        lon, depth, hc = pyTMD.io.ATLAS._extend_array(lon, dlon), pyTMD.io.ATLAS._extend_matrix(depth), pyTMD.io.ATLAS._extend_matrix(hc)
    land = depth.data == 0
    depth = np.ma.array(depth.data, mask=land)
    hc = np.ma.array(hc.data, mask=hc.mask | land)
    D, dry = at_points(method, lon, lat, depth, x, y, dtype=np.float64)
    data, mask = at_points(method, lon, lat, hc, x, y, within=True)
    data, mask = extended(lon, lat, hc, x, y, data, mask | dry, extrapolate, cutoff)
    divisor = currents(type, lon, lat, depth, x, y, D, dry, extrapolate, cutoff)
    return constants(data[p], mask[p] | outside(lon, lat, x, y)[p], scale / divisor[p]), (D[p], dry[p]), name


def read_grid(module, file, reader, crop, bounds, buffer, step, **options):
    """field of one file of a container, across the seam of global grids"""
    parts = reader(file, **options)
    grid, lon, lat = parts[0], parts[1], parts[2]
    if crop and np.any(bounds):
        grid, lon, lat = module._crop(grid, lon, lat, bounds=bounds, buffer=buffer)
    dlon = step(lon[1] - lon[0])
    if is_global(lon, dlon):
        lon, grid = module._extend_array(lon, dlon), module._extend_matrix(grid)
    return grid, lon, lat


def read_FES(model_file, version, type, compressed, crop, bounds, buffer):
    if version in ('FES1999', 'FES2004'):
        return read_grid(pyTMD.io.FES, model_file, pyTMD.io.FES.read_ascii_file, crop, bounds, buffer, np.copy, compressed=compressed)
    return read_grid(pyTMD.io.FES, model_file, pyTMD.io.FES.read_netcdf_file, crop, bounds, buffer, np.copy, type=type, version=version, compressed=compressed)


def read_GOT(model_file, grid, compressed, crop, bounds, buffer):
    reader = pyTMD.io.GOT.read_ascii_file if grid == 'ascii' else pyTMD.io.GOT.read_netcdf_file
    return read_grid(pyTMD.io.GOT, model_file, reader, crop, bounds, buffer, np.abs, compressed=compressed)


def read_ATLAS(grid_file, model_file, type, compressed, crop, bounds, buffer):
    lon, lat, depth = pyTMD.io.ATLAS.read_netcdf_grid(grid_file, type, compressed=compressed)
    hc, name = pyTMD.io.ATLAS.read_netcdf_file(model_file, type, compressed=compressed)
    if crop and np.any(bounds):
        hc, _, _ = pyTMD.io.ATLAS._crop(hc, lon, lat, bounds=bounds, buffer=buffer)
        depth, lon, lat = pyTMD.io.ATLAS._crop(depth, lon, lat, bounds=bounds, buffer=buffer)
    dlon = lon[1] - lon[0]
    if is_global(lon, dlon):
        lon, depth, hc = pyTMD.io.ATLAS._extend_array(lon, dlon), pyTMD.io.ATLAS._extend_matrix(depth), pyTMD.io.ATLAS._extend_matrix(hc)
    hc = np.ma.array(hc.data, mask=hc.mask | depth.mask)
    return hc, lon, lat, depth.data, depth.mask


def held_GOT(**options):
    c = pyTMD.io.GOT.read_constants(**options)
    return c.fields, c.longitude, c.latitude, c.m2, c.k1


def held_FES(**options):
    c = pyTMD.io.FES.read_constants(**options)
    return c.fields, c.longitude, c.latitude, c.m2, c.k1


def held_ATLAS(**options):
    c = pyTMD.io.ATLAS.read_constants(**options)
    return c.fields, c.longitude, c.latitude, c.m2, c.k1, c.bathymetry, c.mask


def array(x):
    """an array which is changed where any of its names is assigned to"""
    return x


def container(lon, lat, first, second, **fields):
    """a container of two constituents"""
    c = pyTMD.io.constituents(longitude=lon, latitude=lat, **fields)
    c.append('m2', array(first))
    c.append('k1', array(second))
    return c


def from_container(module, ilon, ilat, lon, lat, m2, k1, **options):
    """constants interpolated from a container and what the container holds afterwards"""
    c = container(array(lon), array(lat), m2, k1)
    amplitude, phase = module.interpolate_constants(ilon, ilat, c, **options)
    return amplitude, phase, c.fields, c.longitude, c.latitude, c.m2, c.k1


def from_GOT(**options):
    return from_container(pyTMD.io.GOT, **options)


def from_FES(**options):
    return from_container(pyTMD.io.FES, **options)


def from_ATLAS(ilon, ilat, lon, lat, m2, k1, depth, land, **options):
    c = container(array(lon), array(lat), m2, k1, bathymetry=array(depth), mask=array(land))
    amplitude, phase, D = pyTMD.io.ATLAS.interpolate_constants(ilon, ilat, c, **options)
    return amplitude, phase, D, c.fields, c.longitude, c.latitude, c.m2, c.k1, c.bathymetry, c.mask


def from_OTIS(ilon, ilat, lon, lat, m2, k1, depth, land, crs, **options):
    c = container(lon, lat, m2, k1, bathymetry=array(depth), mask=array(land), x=array(lon), y=array(lat), crs=crs)
    amplitude, phase, D = pyTMD.io.OTIS.interpolate_constants(ilon, ilat, c, **options)
    return amplitude, phase, D, c.fields, c.x, c.y, c.m2, c.k1, c.bathymetry, c.mask


def within_extended(x, lon):
    """longitudes of points in the convention of a grid which was extended across its seam"""
    if (np.min(x) < np.min(lon)) & (np.max(lon) > 180.0):
        x = np.copy(x)
        x[x < 0.0] += 360.0
        return x
    if (np.max(x) > np.max(lon)) & (np.min(lon) < 0.0):
        x = np.copy(x)
        x[x > 180.0] -= 360.0
        return x
    return x


def interpolated(ilon, ilat, lon, lat, hc, method, extrapolate, cutoff, scale, p):
    """constants of a field of a container at a point"""
    x, y = within_extended(np.atleast_1d(ilon), lon), np.atleast_1d(ilat)
    data, mask = at_points(method, lon, lat, hc, x, y)
    data, mask = extended(lon, lat, hc, x, y, data, mask, extrapolate, cutoff)
    return constants(data[p], mask[p] | outside(lon, lat, x, y)[p], scale)


def interpolated_ATLAS(ilon, ilat, lon, lat, hc, depth, land, type, method, extrapolate, cutoff, scale, p):
    x, y = within_extended(np.atleast_1d(ilon), lon), np.atleast_1d(ilat)
    depth = np.ma.array(depth, mask=land)
    D, dry = at_points(method, lon, lat, depth, x, y, dtype=np.float64)
    data, mask = at_points(method, lon, lat, hc, x, y, within=True)
    data, mask = extended(lon, lat, hc, x, y, data, mask | dry, extrapolate, cutoff)
    divisor = currents(type, lon, lat, depth, x, y, D, dry, extrapolate, cutoff)
    return constants(data[p], mask[p] | outside(lon, lat, x, y)[p], scale / divisor[p]), (D[p], dry[p])


def vacant(hc):
    """nodes of OTIS grids which carry no value"""
    hc = np.ma.array(np.copy(hc.data), mask=np.copy(hc.mask))
    hc.data[(hc.data == 0) | hc.mask] = np.nan
    return hc


def extended_OTIS(lon, lat, grid, x, y, data, mask, extrapolate, cutoff, is_geographic, dtype=None):
    if extrapolate and np.any(mask):
        inv, = np.nonzero(mask)
        near = pyTMD.interpolate.extrapolate(lon, lat, grid, x[inv], y[inv], dtype=dtype or grid.dtype, cutoff=cutoff, is_geographic=is_geographic)
        data, mask = np.copy(data), np.copy(mask)
        data[inv] = near.data
        mask[inv] = near.mask
    return data, mask


def interpolated_OTIS(ilon, ilat, lon, lat, hc, depth, land, crs, type, method, extrapolate, cutoff, p):
    x, y = crs.transform(np.atleast_1d(ilon), np.atleast_1d(ilat))
    if crs.is_geographic:
        x = within_extended(x, lon)
    depth = np.ma.array(depth, mask=land)
    D, dry = at_points(method, lon, lat, depth, x, y, dtype=np.float64, within=True)
    data, mask = at_points(method, lon, lat, vacant(hc) if method == 'bilinear' else hc, x, y, within=True)
    if method == 'bilinear':
        mask = np.isnan(data)
    data, mask = extended_OTIS(lon, lat, vacant(hc), x, y, data, mask | dry, extrapolate, cutoff, crs.is_geographic)
    if type in ('u', 'v'):
        depths, _ = extended_OTIS(lon, lat, depth, x, y, D, dry, extrapolate, cutoff, crs.is_geographic, dtype=np.float64)
        divisor = depths / 100.0
    else:
        divisor = np.ones(len(x))
    return constants(data[p], mask[p] | outside(lon, lat, x, y)[p], 1.0 / divisor[p]), (D[p], dry[p])


def cropped(g, x, y, bounds, buffer, geographic, west, east):
    """nodes within the bounds, whose longitudes may be those of the other convention"""
    if geographic & (np.min(bounds[:2]) < 0.0) & (np.max(x) > 180.0):
        g, x = west(g, x)
    elif geographic & (np.max(bounds[:2]) > 180.0) & (np.min(x) < 0.0):
        g, x = east(g, x)
    i = np.flatnonzero((x >= bounds[0] - buffer) & (x <= bounds[1] + buffer))
    j = np.flatnonzero((y >= bounds[2] - buffer) & (y <= bounds[3] + buffer))
    i, j = slice(i[0], i[-1] + 1), slice(j[0], j[-1] + 1)
    return g[j, i], x[i], y[j]


def cropped_FES(g, x, y, bounds, buffer):
    shift = pyTMD.io.FES._shift
    return cropped(g, x, y, bounds, buffer, True, lambda g, x: shift(g, x, lon0=180.0, cyclic=360.0, direction='west'), lambda g, x: shift(g, x, lon0=0.0, cyclic=360.0, direction='east'))


def cropped_GOT(g, x, y, bounds, buffer):
    shift = pyTMD.io.GOT._shift
    return cropped(g, x, y, bounds, buffer, True, lambda g, x: shift(g, x, lon0=180.0, cyclic=360.0, direction='west'), lambda g, x: shift(g, x, lon0=0.0, cyclic=360.0, direction='east'))


def cropped_ATLAS(g, x, y, bounds, buffer):
    shift = pyTMD.io.ATLAS._shift
    return cropped(g, x, y, bounds, buffer, True, lambda g, x: shift(g, x, lon0=180.0, cyclic=360.0, direction='west'), lambda g, x: shift(g, x, lon0=0.0, cyclic=360.0, direction='east'))


def cropped_OTIS(g, x, y, bounds, buffer, geographic):
    shift = pyTMD.io.OTIS._shift
    return cropped(g, x, y, bounds, buffer, geographic, lambda g, x: shift(g, x, x0=180.0, cyclic=360.0, direction='west'), lambda g, x: shift(g, x, x0=0.0, cyclic=360.0, direction='east'))


def pole_coefficients(lon, lat, method, model_file):
    """complex coefficients of the ocean pole tide at points (longitudes of either convention)"""
    ur, un, ue, x, y = pyTMD.io.IERS.read_binary_file(model_file=model_file)
    lon = np.where(np.asarray(lon) > 180.0, np.asarray(lon) - 360.0, lon)
    out = []
    for g in (ur, un, ue):
        if method == 'spline':
            re = scipy.interpolate.RectBivariateSpline(x, y[::-1], g[:, ::-1].real, kx=1, ky=1).ev(lon, lat)
            im = scipy.interpolate.RectBivariateSpline(x, y[::-1], g[:, ::-1].imag, kx=1, ky=1).ev(lon, lat)
            out.append(re + 1j*im)
        else:
            r = scipy.interpolate.RegularGridInterpolator((x, y[::-1]), g[:, ::-1], bounds_error=False, method=method)
            out.append(r(np.c_[lon, lat]))
    return tuple(out)
