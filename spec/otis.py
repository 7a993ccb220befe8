"""Reference definitions of the constants of OTIS, ATLAS-compact and TMD3 models at points and in containers."""
import numpy as np
import pyTMD.crs
import pyTMD.io.constituents
import pyTMD.io.OTIS as OTIS
from spec.models import array, at_points, constants, extended_OTIS, is_global, outside, vacant, wrapped


def source(grid, grid_file):
    """coordinates of the nodes of elevations, their depth, whether they are wet; what the fields of the constituents are made with"""
    if grid == 'ATLAS':
        x, y, hz, mz, iob, dt, pmask, local = OTIS.read_atlas_grid(grid_file)
        lon, lat, depth = OTIS.combine_atlas_model(x, y, hz, pmask, local, variable='depth')
        return lon, lat, depth, OTIS.create_atlas_mask(x, y, mz, local, variable='depth'), (x, y, pmask)
    if grid == 'TMD3':
        x, y, hz, mz, sf = OTIS.read_netcdf_grid(grid_file)
        return x, y, hz, mz, sf
    x, y, hz, mz, iob, dt = OTIS.read_otis_grid(grid_file)
    return x, y, hz, mz, None


def field(grid, model_file, i, name, type, with_, flexure):
    """one constituent of one component"""
    component = type.lower()
    if grid == 'ATLAS':
        x, y, pmask = with_
        if component == 'z':
            f, local = OTIS.read_atlas_elevation(model_file, i, name)
        else:
            u, v, local = OTIS.read_atlas_transport(model_file, i, name)
            f = u if component == 'u' else v
        return OTIS.combine_atlas_model(x, y, f, pmask, local, variable=component)[2]
    if grid == 'TMD3':
        hc = OTIS.read_netcdf_file(model_file, i, variable=component)
        if component == 'z' and flexure:
            return hc*with_
        return hc
    if isinstance(model_file, list):
        file, n = model_file[i], 0
    else:
        file, n = model_file, i
    if component == 'z':
        return OTIS.read_otis_elevation(file, n)
    u, v = OTIS.read_otis_transport(file, n)
    return u if component == 'u' else v


def nodes(type, x, y, hz, mz, dx, dy, seam):
    """nodes of a component: transports are half a cell west and south of elevations"""
    if type in ('u', 'U'):
        wet, _ = OTIS._mask_nodes(hz, is_global=seam)
        depth, _ = OTIS._interpolate_zeta(hz, is_global=seam)
        return x - dx/2.0, y, depth, wet
    if type in ('v', 'V'):
        _, wet = OTIS._mask_nodes(hz, is_global=seam)
        _, depth = OTIS._interpolate_zeta(hz, is_global=seam)
        return x, y - dy/2.0, depth, wet
    return x, y, hz, mz


def component(grid, grid_file, model_file, type, i, name, apply_flexure, crop, bounds, buffer, geographic):
    """coordinates, depth, land and field of the nodes of a constituent on the part of the grid within the bounds, across the seam of global grids"""
    x, y, hz, mz, with_ = source(grid, grid_file)
    dx, dy = x[1] - x[0], y[1] - y[0]
    hc = field(grid, model_file, i, name, type, with_, apply_flexure)
    if crop and np.any(bounds):
        hc, _, _ = OTIS._crop(hc, x, y, bounds=bounds, buffer=buffer(dx), is_geographic=geographic)
        mz, _, _ = OTIS._crop(mz, x, y, bounds=bounds, buffer=buffer(dx), is_geographic=geographic)
        hz, x, y = OTIS._crop(hz, x, y, bounds=bounds, buffer=buffer(dx), is_geographic=geographic)
    seam = is_global(x, dx) & geographic
    x0 = x
    xn, yn, depth, wet = nodes(type, OTIS._extend_array(x, dx) if seam else x, y, hz, mz, dx, dy, seam)
    if seam:
        depth, wet, hc = OTIS._extend_matrix(depth), OTIS._extend_matrix(wet), OTIS._extend_matrix(hc)
    land = (depth == 0) | np.logical_not(wet)
    return x0, xn, yn, np.ma.array(depth, mask=land), land, np.ma.array(hc.data, mask=hc.mask | land)


def extracted(ilon, ilat, grid_file, model_file, projection, grid, type, apply_flexure, crop, bounds, buffer, method, extrapolate, cutoff, i, name, p):
    crs = pyTMD.crs().get(projection)
    geographic = crs.is_geographic
    x, y = crs.transform(np.atleast_1d(ilon), np.atleast_1d(ilat), direction='FORWARD')
    region = bounds or [np.min(x), np.max(x), np.min(y), np.max(y)]
    x0, lon, lat, depth, land, hc = component(grid, grid_file, model_file, type, i, name, apply_flexure, crop, region, lambda dx: buffer or 4 * dx, geographic)
    if geographic:
        x = wrapped(x, x0)
    D, dry = at_points(method, lon, lat, depth, x, y, dtype=np.float64)
    data, mask = at_points(method, lon, lat, vacant(hc) if method == 'bilinear' else hc, x, y, within=True)
    if method == 'bilinear':
        mask = np.isnan(data)
    data, mask = extended_OTIS(lon, lat, vacant(hc), x, y, data, mask | dry, extrapolate, cutoff, geographic)
    if type in ('u', 'v'):
        depths, _ = extended_OTIS(lon, lat, depth, x, y, D, dry, extrapolate, cutoff, geographic, dtype=np.float64)
        divisor = depths / 100.0
    else:
        divisor = np.ones(len(x))
    return constants(data[p], mask[p] | outside(lon, lat, x, y)[p], 1.0 / divisor[p]), (D[p], dry[p])


def held(**options):
    c = OTIS.read_constants(**options)
    return c.fields, c.x, c.y, c.longitude, c.latitude, c.bathymetry, c.mask, c.crs, c.m2, c.k1


def read(grid_file, model_file, projection, grid, type, apply_flexure, crop, bounds, buffer, i, name):
    crs = pyTMD.crs().get(projection)
    x0, x, y, depth, land, hc = component(grid, grid_file, model_file, type, i, name, apply_flexure, crop, bounds, lambda dx: buffer, crs.is_geographic)
    gridx, gridy = np.meshgrid(x, y)
    lon, lat = crs.transform(gridx, gridy, direction='INVERSE')
    return x, y, lon, lat, depth.data, land, crs, hc
