"""Reference definitions of the high-level computations: what each program entry evaluates, at one epoch k (grid), over all samples (drift) or for one station k (time series)."""
import numpy as np
import pyproj
import pyTMD.astro
import pyTMD.crs
import pyTMD.interpolate
import pyTMD.io
import pyTMD.io.ATLAS
import pyTMD.io.FES
import pyTMD.io.GOT
import pyTMD.io.OTIS
import pyTMD.io.IERS
import pyTMD.io.model
import pyTMD.predict
import pyTMD.spatial
from spec.predict import wobble
import scipy.interpolate
import timescale.time


def points(x, y, TYPE, EPSG):
    """longitude and latitude of every point, and the shape of the grid"""
    if TYPE.lower() == 'grid':
        if np.size(x) != np.size(y):
            X, Y = np.meshgrid(x, y)
        else:
            X, Y = x, y
    else:
        X, Y = x, y
    source = pyTMD.crs().from_input(EPSG)
    geographic = pyproj.CRS.from_epsg(4326)
    transformer = pyproj.Transformer.from_crs(source, geographic, always_xy=True)
    lon, lat = transformer.transform(X, Y)
    return lon, lat, np.shape(X)


def times(delta_time, EPOCH, TIME):
    if TIME.lower() == 'datetime':
        return timescale.time.Timescale().from_datetime(delta_time)
    return timescale.time.Timescale().from_deltatime(delta_time, epoch=EPOCH, standard=TIME)


def family(CORRECTIONS, model):
    return CORRECTIONS or model.corrections


def offset(corrections, ts):
    """OTIS-type predictions take the time as is; the others add the difference of dynamic and universal time"""
    if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
        return np.zeros_like(ts.tt_ut1)
    return ts.tt_ut1


def synthesis(ts, lon, lat, shape, amp, ph, c, corrections, minor, TYPE, INFER_MINOR, FILL_VALUE, k):
    hc = amp * (np.cos(np.pi * ph / 180.0) - 1j * np.sin(np.pi * ph / 180.0))
    deltat = offset(corrections, ts)
    if TYPE.lower() == 'grid':
        t, z, dt = ts.tide[k], hc, deltat[k]
        major = pyTMD.predict.map(t, z, c, deltat=dt, corrections=corrections)
    elif TYPE.lower() == 'drift':
        t, z, dt = ts.tide, hc, deltat
        major = pyTMD.predict.drift(t, z, c, deltat=dt, corrections=corrections)
    else:
        t, z, dt = ts.tide, hc[k, None, :], deltat
        major = pyTMD.predict.time_series(t, z, c, deltat=dt, corrections=corrections)
    total = major
    if TYPE.lower() == 'drift':
        mask = np.any(hc.mask, axis=1)
    else:
        mask = major.mask
    if INFER_MINOR:
        inferred = pyTMD.predict.infer_minor(t, z, c, deltat=dt, corrections=corrections, minor=minor)
        total = total + inferred
        if TYPE.lower() != 'drift':
            mask = mask | inferred.mask
    if TYPE.lower() == 'grid':
        total = np.reshape(total, (shape[0], shape[1]))
        mask = np.reshape(mask, (shape[0], shape[1]))
    if mask:
        total = FILL_VALUE
    return total, mask


def tide_elevations(x, y, delta_time, DIRECTORY, MODEL, GZIP, DEFINITION_FILE, CROP, BOUNDS, BUFFER, EPSG, EPOCH, TYPE, TIME, METHOD,
                    EXTRAPOLATE, CUTOFF, CORRECTIONS, INFER_MINOR, MINOR_CONSTITUENTS, APPEND_NODE, APPLY_FLEXURE, FILL_VALUE, k):
    if DEFINITION_FILE is not None:
        model = pyTMD.io.model(DIRECTORY).from_file(DEFINITION_FILE)
    else:
        model = pyTMD.io.model(DIRECTORY, compressed=GZIP).elevation(MODEL)
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    amp, ph, c = model.extract_constants(lon, lat, type=model.type, crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
                                         extrapolate=EXTRAPOLATE, cutoff=CUTOFF, append_node=APPEND_NODE, apply_flexure=APPLY_FLEXURE)
    return synthesis(ts, lon, lat, shape, amp, ph, c, family(CORRECTIONS, model), MINOR_CONSTITUENTS or model.minor, TYPE,
                     INFER_MINOR, FILL_VALUE, k)


def tide_currents(x, y, delta_time, DIRECTORY, MODEL, GZIP, DEFINITION_FILE, CROP, BOUNDS, BUFFER, EPSG, EPOCH, TYPE, TIME, METHOD,
                  EXTRAPOLATE, CUTOFF, CORRECTIONS, INFER_MINOR, MINOR_CONSTITUENTS, FILL_VALUE, component, k):
    if DEFINITION_FILE is not None:
        model = pyTMD.io.model(DIRECTORY).from_file(DEFINITION_FILE)
    else:
        model = pyTMD.io.model(DIRECTORY, compressed=GZIP).current(MODEL)
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    amp, ph, c = model.extract_constants(lon, lat, type=component, crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
                                         extrapolate=EXTRAPOLATE, cutoff=CUTOFF)
    return synthesis(ts, lon, lat, shape, amp, ph, c, family(CORRECTIONS, model), MINOR_CONSTITUENTS or model.minor, TYPE,
                     INFER_MINOR, FILL_VALUE, k)


def on_grid(v, shape, TYPE):
    if TYPE.lower() == 'grid':
        return np.reshape(v, (shape[0], shape[1]))
    return v


def LPET_elevations(x, y, delta_time, EPSG, EPOCH, TYPE, TIME, k):
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    t = ts.tide + ts.tt_ut1
    if TYPE.lower() == 'grid':
        return on_grid(pyTMD.predict.equilibrium_tide(ts.tide[k] + ts.tt_ut1[k], lat), shape, TYPE)
    if TYPE.lower() == 'drift':
        return pyTMD.predict.equilibrium_tide(t, lat)
    return pyTMD.predict.equilibrium_tide(t, lat[k])


def radial(d, phi, theta):
    """component of cartesian displacements along the geocentric radius"""
    return np.cos(phi) * np.sin(theta) * d[:, 0] + np.sin(phi) * np.sin(theta) * d[:, 1] + np.cos(theta) * d[:, 2]


def SET_displacements(x, y, delta_time, EPSG, EPOCH, TYPE, TIME, ELLIPSOID, TIDE_SYSTEM, EPHEMERIDES, k):
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat, a_axis=units.a_axis, flat=units.flat)
    SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
    LX, LY, LZ = pyTMD.astro.lunar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
    theta = np.pi / 2.0 - np.arctan(Z / np.sqrt(X**2 + Y**2))
    phi = np.arctan2(Y, X)
    if TYPE.lower() == 'grid':
        n = shape[0] * shape[1]
        sun = np.repeat(np.c_[SX[k], SY[k], SZ[k]], n, axis=0)
        moon = np.repeat(np.c_[LX[k], LY[k], LZ[k]], n, axis=0)
        d = pyTMD.predict.solid_earth_tide(ts.tide[k] + ts.tt_ut1[k], np.c_[X, Y, Z], sun, moon, a_axis=units.a_axis, tide_system=TIDE_SYSTEM)
        return on_grid(radial(d, phi, theta), shape, TYPE)
    t = ts.tide + ts.tt_ut1
    sun, moon = np.c_[SX, SY, SZ], np.c_[LX, LY, LZ]
    if TYPE.lower() == 'drift':
        d = pyTMD.predict.solid_earth_tide(t, np.c_[X, Y, Z], sun, moon, a_axis=units.a_axis, tide_system=TIDE_SYSTEM)
        return radial(d, phi, theta)
    station = np.repeat(np.c_[X[k], Y[k], Z[k]], len(ts), axis=0)
    d = pyTMD.predict.solid_earth_tide(t, station, sun, moon, a_axis=units.a_axis, tide_system=TIDE_SYSTEM)
    return radial(d, phi[k], theta[k])


def masked(v, FILL_VALUE):
    if np.isnan(v):
        return FILL_VALUE, np.isnan(v)
    return v, np.isnan(v)


def LPT_displacements(x, y, delta_time, EPSG, EPOCH, TYPE, TIME, ELLIPSOID, CONVENTION, FILL_VALUE, k):
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat, a_axis=units.a_axis, flat=units.flat)
    theta = np.pi / 2.0 - np.arctan(Z / np.sqrt(X**2 + Y**2))
    phi = lon * np.pi / 180.0
    gravity = units.gamma_0(theta)
    h2, l2 = 0.6207, 0.0836
    if TYPE.lower() == 'grid':
        d = pyTMD.predict.load_pole_tide(ts.tide[k], np.c_[X, Y, Z], deltat=ts.tt_ut1[k], gamma_0=gravity, omega=units.omega, h2=h2, l2=l2,
                                         convention=CONVENTION)
        return masked(on_grid(radial(d, phi, theta), shape, TYPE), FILL_VALUE)
    if TYPE.lower() == 'drift':
        d = pyTMD.predict.load_pole_tide(ts.tide, np.c_[X, Y, Z], deltat=ts.tt_ut1, gamma_0=gravity, omega=units.omega, h2=h2, l2=l2,
                                         convention=CONVENTION)
        return masked(radial(d, phi, theta), FILL_VALUE)
    station = np.repeat(np.c_[X[k], Y[k], Z[k]], len(ts), axis=0)
    d = pyTMD.predict.load_pole_tide(ts.tide, station, deltat=ts.tt_ut1, gamma_0=gravity[k], omega=units.omega, h2=h2, l2=l2,
                                     convention=CONVENTION)
    return masked(radial(d, phi[k], theta[k]), FILL_VALUE)


def OPT_displacements(x, y, delta_time, EPSG, EPOCH, TYPE, TIME, ELLIPSOID, CONVENTION, METHOD, FILL_VALUE, k):
    lon, lat, shape = points(x, y, TYPE, EPSG)
    ts = times(delta_time, EPOCH, TIME)
    units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat, a_axis=units.a_axis, flat=units.flat)
    latitude = np.arctan(Z / np.sqrt(X**2 + Y**2)) * 180.0 / np.pi
    ur, un, ue = pyTMD.io.IERS.extract_coefficients(lon, latitude, method=METHOD)
    g2, gravity, density = 0.6870 + 0.0036j, 9.7803278, 1025.0
    if TYPE.lower() == 'grid':
        return masked(on_grid(ocean_radial(ts.tide[k], ts.tt_ut1[k], ur, g2, gravity, density, units, CONVENTION), shape, TYPE), FILL_VALUE)
    if TYPE.lower() == 'drift':
        return masked(ocean_radial(ts.tide, ts.tt_ut1, ur, g2, gravity, density, units, CONVENTION), FILL_VALUE)
    return masked(ocean_radial(ts.tide, ts.tt_ut1, ur[k], g2, gravity, density, units, CONVENTION), FILL_VALUE)


def ocean_radial(t, deltat, ur, g2, gravity, density, units, convention):
    """radial displacement of the ocean pole tide: the radial coefficients times the wobble parameters"""
    m1, m2 = wobble(t, deltat, convention)
    Hp = np.sqrt(8.0 * np.pi / 15.0) * units.omega ** 2 * units.a_axis ** 4 / units.GM
    K = 4.0 * np.pi * 6.67430e-11 * units.a_axis * density * Hp / (3.0 * gravity)
    arcsec = np.pi / (180.0 * 3600.0)
    return K * arcsec * ((m1 * g2.real + m2 * g2.imag) * ur.real + (m2 * g2.real - m1 * g2.imag) * ur.imag)


def tide_masks(x, y, DIRECTORY, MODEL, GZIP, DEFINITION_FILE, EPSG, METHOD):
    if DEFINITION_FILE is not None:
        model = pyTMD.io.model(DIRECTORY).from_file(DEFINITION_FILE)
    else:
        model = pyTMD.io.model(DIRECTORY, compressed=GZIP).elevation(MODEL)
    source = pyTMD.crs().from_input(EPSG)
    geographic = pyproj.CRS.from_epsg(4326)
    transformer = pyproj.Transformer.from_crs(source, geographic, always_xy=True)
    lon, lat = transformer.transform(x, y)
    if model.format in ('OTIS', 'ATLAS-compact', 'TMD3'):
        xi, yi, hz, wet, iob, dt = pyTMD.io.OTIS.read_otis_grid(model.grid_file)
        invalid = np.logical_not(wet)
        X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
    else:
        if model.format == 'ATLAS-netcdf':
            xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(model.grid_file, compressed=model.compressed, type=model.type)
            invalid = hz.mask
        elif model.format == 'GOT-ascii':
            hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(model.model_file[0], compressed=model.compressed)
            invalid = hc.mask
        elif model.format == 'GOT-netcdf':
            hc, xi, yi, c = pyTMD.io.GOT.read_netcdf_file(model.model_file[0], compressed=model.compressed)
            invalid = hc.mask
        elif model.format == 'FES-netcdf':
            hc, xi, yi = pyTMD.io.FES.read_netcdf_file(model.model_file[0], compressed=model.compressed, type=model.type, version=model.version)
            invalid = hc.mask
        X = np.where(lon < 0, lon + 360.0, lon)
        Y = lat
    if METHOD == 'bilinear':
        m = pyTMD.interpolate.bilinear(xi, yi, invalid, X, Y)
    elif METHOD == 'spline':
        m = scipy.interpolate.RectBivariateSpline(xi, yi, invalid.T, kx=1, ky=1).ev(X, Y)
    else:
        m = scipy.interpolate.RegularGridInterpolator((yi, xi), invalid, method=METHOD, bounds_error=False, fill_value=1).__call__(np.c_[Y, X])
    inside = (X >= xi.min()) & (X <= xi.max()) & (Y >= yi.min()) & (Y <= yi.max())
    valid = np.logical_not(np.floor(m).astype(invalid.dtype)).astype(invalid.dtype)
    return np.reshape(valid & inside, np.shape(x))
