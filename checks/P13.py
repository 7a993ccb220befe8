"""P13 tide masks: points within the domain of a model"""
from .common import *
from .P11 import check_defaults

EXPLANATION = ('Static equivalence: the value number of the domain mask, per model format and interpolation method, is compared in canonical form with a '
               'reference composition (mask of the grid of the model, coordinates of the model, bounds).')

OPAQUE = ['pyTMD.io.model.model', 'pyTMD.crs.crs', 'pyTMD.interpolate.bilinear', 'pyTMD.io.OTIS.read_otis_grid', 'pyTMD.io.ATLAS.read_netcdf_grid',
          'pyTMD.io.GOT.read_ascii_file', 'pyTMD.io.GOT.read_netcdf_file', 'pyTMD.io.FES.read_netcdf_file']
FORMATS = ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-netcdf')
METHODS = ('bilinear', 'spline', 'linear', 'nearest')


def run(ctx):
    ctx.rule('mask', 'a point is valid where the interpolated mask of the model is not invalid at its model coordinates, within the bounds of the grid, in the input shape', 28)
    ctx.rule('defaults', 'documented defaults', 3)
    q = 'pyTMD.compute.tide_masks'
    for fmt in FORMATS:
        attr = lambda c, name: C(fmt) if name == 'format' and 'pyTMD.io.model' in show(c, 3) else None
        for m in METHODS:
            with ctx.case(f'{fmt}:{m}'):
                kw = dict(METHOD=C(m))
                a = value(ctx, q, kwargs=kw, opaque=OPAQUE, on_attr=attr)
                b = value(ctx, 'spec.compute.tide_masks', kwargs=kw, opaque=OPAQUE, on_attr=attr)
                compare(ctx, 'mask', f'{fmt}:{m}', a, b, NF(keep=['numpy.reshape']), where(ctx, q), 'mask')
    check_defaults(ctx, 'defaults', 'tide_masks', dict(EPSG=4326, METHOD='spline', GZIP=False))
