"""Reference definitions of interpolation to points."""
import numpy as np
import scipy.interpolate
import scipy.spatial
import pyTMD.spatial


def inside(ilon, ilat, x, y):
    return (x >= np.min(ilon)) & (x <= np.max(ilon)) & (y > np.min(ilat)) & (y < np.max(ilat))


def cell(ilon, ilat, x, y):
    """indices of the lower corner of the grid cell"""
    ix = np.nonzero((ilon[0:-1] <= x) & ((ilon[1:] > x) | (ilon[1:] == np.max(ilon))))[0]
    iy = np.nonzero((ilat[0:-1] <= y) & (ilat[1:] > y))[0]
    return ix, iy




def bilinear_cell(ilon, ilat, values, invalid, x, y, fill_value):
    """value and mask at a point inside of the grid"""
    ix, iy = cell(ilon, ilat, x, y)
    x0, x1, y0, y1 = ilon[ix], ilon[ix + 1], ilat[iy], ilat[iy + 1]
    v00, v10, v01, v11 = values[iy, ix], values[iy, ix + 1], values[iy + 1, ix], values[iy + 1, ix + 1]
    m00, m10, m01, m11 = invalid[iy, ix], invalid[iy, ix + 1], invalid[iy + 1, ix], invalid[iy + 1, ix + 1]
    if np.isclose(y, y0) & np.isclose(x, x0):
        return v00, m00
    if np.isclose(y, y1) & np.isclose(x, x0):
        return v01, m01
    if np.isclose(y, y0) & np.isclose(x, x1):
        return v10, m10
    if np.isclose(y, y1) & np.isclose(x, x1):
        return v11, m11
    w00, w10 = np.abs(x1 - x) * np.abs(y1 - y), np.abs(x - x0) * np.abs(y1 - y)
    w01, w11 = np.abs(x1 - x) * np.abs(y - y0), np.abs(x - x0) * np.abs(y - y0)
    ok00, ok10 = np.isfinite(v00) & ~m00, np.isfinite(v10) & ~m10
    ok01, ok11 = np.isfinite(v01) & ~m01, np.isfinite(v11) & ~m11
    if ok00 | ok10 | ok01 | ok11:
        s = np.where(ok00, w00 * v00, 0.0) + np.where(ok10, w10 * v10, 0.0) + np.where(ok01, w01 * v01, 0.0) + np.where(ok11, w11 * v11, 0.0)
        w = np.where(ok00, w00, 0.0) + np.where(ok10, w10, 0.0) + np.where(ok01, w01, 0.0) + np.where(ok11, w11, 0.0)
        return s / w, False
    return fill_value, True


def bilinear_point(ilon, ilat, values, invalid, x, y, fill_value):
    if inside(ilon, ilat, x, y):
        return bilinear_cell(ilon, ilat, values, invalid, x, y, fill_value)
    return fill_value, True


def spline(ilon, ilat, values, invalid, lon, lat, reducer, **options):
    """value and mask: splines of the transposed grid"""
    data = scipy.interpolate.RectBivariateSpline(ilon, ilat, values.T, **options).ev(lon, lat)
    mask = reducer(scipy.interpolate.RectBivariateSpline(ilon, ilat, invalid.T, **options).ev(lon, lat))
    return data, mask


def regulargrid(ilon, ilat, values, invalid, lon, lat, fill_value, reducer, **options):
    """value and mask: everything outside of the grid is invalid"""
    points = np.c_[lat, lon]
    data = scipy.interpolate.RegularGridInterpolator((ilat, ilon), values, fill_value=fill_value, **options)(points)
    mask = reducer(scipy.interpolate.RegularGridInterpolator((ilat, ilon), invalid, fill_value=1, **options)(points))
    return data, mask


def cartesian_km(lon, lat):
    """Earth centered coordinates (kilometers) of points on the ellipsoid"""
    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat, a_axis=6378.137)
    return X, Y, Z

