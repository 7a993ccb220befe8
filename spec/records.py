"""Layout of the files of OTIS and ATLAS-compact models: sequential records of big-endian numbers, each between two counts of its bytes."""
import struct
import numpy as np


def integers(fid, *x):
    for v in x:
        fid.write(struct.pack('>i', v))


def header(fid, nx, ny, nc, xlim, ylim, names):
    integers(fid, 28 + 4*nc, nx, ny, nc)
    ylim.astype('>f4').tofile(fid)
    xlim.astype('>f4').tofile(fid)
    for i in range(nc):
        fid.write(names[i].ljust(4).encode('utf8'))
    integers(fid, 28 + 4*nc)


def elevation(nx, ny, nc, xlim, ylim, names, h):
    """a record for each constituent: real and imaginary part of each node, by rows"""
    fid = open('file', 'wb')
    header(fid, nx, ny, nc, xlim, ylim, names)
    for k in range(nc):
        integers(fid, 8*nx*ny)
        for j in range(ny):
            row = np.zeros(2*nx, dtype='>f4')
            row[0::2] = h.real[j, :, k]
            row[1::2] = h.imag[j, :, k]
            row.tofile(fid)
        integers(fid, 8*nx*ny)
    return fid


def transport(nx, ny, nc, xlim, ylim, names, u, v):
    """a record for each constituent: real and imaginary part of both components of each node, by rows"""
    fid = open('file', 'wb')
    header(fid, nx, ny, nc, xlim, ylim, names)
    for k in range(nc):
        integers(fid, 16*nx*ny)
        for j in range(ny):
            row = np.zeros(4*nx, dtype='>f4')
            row[0::4] = u.real[j, :, k]
            row[1::4] = u.imag[j, :, k]
            row[2::4] = v.real[j, :, k]
            row[3::4] = v.imag[j, :, k]
            row.tofile(fid)
        integers(fid, 16*nx*ny)
    return fid


def grid(nx, ny, nob, xlim, ylim, dt, iob, hz, mz):
    """records of the dimensions, of the open boundary, of the depths and of the masks"""
    fid = open('file', 'wb')
    integers(fid, 32, nx, ny)
    ylim.astype('>f4').tofile(fid)
    xlim.astype('>f4').tofile(fid)
    fid.write(struct.pack('>f', dt))
    integers(fid, nob, 32)
    if nob == 0:
        integers(fid, 4, 0, 4)
    else:
        integers(fid, 8*nob)
        iob.astype('>i4').tofile(fid)
        integers(fid, 8*nob)
    integers(fid, 4*nx*ny)
    hz.astype('>f4').tofile(fid)
    integers(fid, 4*nx*ny, 4*nx*ny)
    mz.astype('>i4').tofile(fid)
    integers(fid, 4*nx*ny)
    return fid


def atlas_grid(nx, ny, nob, xlim, ylim, dt, iob, hz, mz, pmask, models):
    """followed by the index of the local models and by a grid for each of them, at a list of its nodes"""
    fid = grid(nx, ny, nob, xlim, ylim, dt, iob, hz, mz)
    integers(fid, 4*nx*ny)
    pmask.astype('>i4').tofile(fid)
    integers(fid, 4*nx*ny)
    for nx1, ny1, nd, lat, lon, name, iz, jz, depth in models:
        integers(fid, 48, nx1, ny1, nd)
        lat.astype('>f4').tofile(fid)
        lon.astype('>f4').tofile(fid)
        fid.write(name)
        integers(fid, 48, 8*nd)
        iz.astype('>i4').tofile(fid)
        jz.astype('>i4').tofile(fid)
        integers(fid, 8*nd, 4*nd)
        depth.astype('>f4').tofile(fid)
        integers(fid, 4*nd)


def local_header(fid, lat, lon, names, name, count):
    lat.astype('>f4').tofile(fid)
    lon.astype('>f4').tofile(fid)
    for c in names:
        fid.write(c)
    fid.write(name)
    integers(fid, count)


def nodes(fid, n, i, j):
    integers(fid, 8*n)
    i.astype('>i4').tofile(fid)
    j.astype('>i4').tofile(fid)
    integers(fid, 8*n)


def values(fid, n, z):
    integers(fid, 8*n)
    row = np.zeros(2*n, dtype='>f4')
    row[0::2] = z.real
    row[1::2] = z.imag
    row.tofile(fid)
    integers(fid, 8*n)


def atlas_elevation(nx, ny, nc, xlim, ylim, names, h, models):
    """followed by each local model: its nodes, and a record of its values there for each of its constituents"""
    fid = elevation(nx, ny, nc, xlim, ylim, names, h)
    for nx1, ny1, nc1, nz, lat, lon, cons, name, iz, jz, z in models:
        integers(fid, 52 + 4*nc1, nx1, ny1, nc1, nz)
        local_header(fid, lat, lon, cons, name, 52 + 4*nc1)
        nodes(fid, nz, iz, jz)
        for k in range(nc1):
            values(fid, nz, z[k])


def atlas_transport(nx, ny, nc, xlim, ylim, names, u, v, models):
    """followed by each local model: nodes of both components, and a record of each of them for each constituent"""
    fid = transport(nx, ny, nc, xlim, ylim, names, u, v)
    for nx1, ny1, nc1, nu, nv, lat, lon, cons, name, iu, ju, iv, jv, u1, v1 in models:
        integers(fid, 56 + 4*nc1, nx1, ny1, nc1, nu, nv)
        local_header(fid, lat, lon, cons, name, 56 + 4*nc1)
        nodes(fid, nu, iu, ju)
        nodes(fid, nv, iv, jv)
        for k in range(nc1):
            values(fid, nu, u1[k])
            values(fid, nv, v1[k])


def coordinates(nx, ny, xlim, ylim, dt, west):
    """centres of the cells between the limits; limits which are all negative are of a grid given from -180 degrees"""
    if west and xlim[0] < 0 and xlim[1] < 0 and dt > 0:
        xlim = xlim + 360.0
    return centres(xlim, nx), centres(ylim, ny)


def centres(lim, n):
    d = (lim[1] - lim[0])/n
    return np.linspace(lim[0] + d/2.0, lim[1] - d/2.0, n)
