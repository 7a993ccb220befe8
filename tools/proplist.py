prop('P01', 'Harmonic synthesis sums every constituent with its argument and modulations',
     'For every set of constituents, position, time and correction family, the predicted tide is the sum over all given constituents of the '
     'nodal factor times the in-phase and quadrature harmonic constants times the cosine and sine of equilibrium argument plus nodal angle. '
     'The map, drift and time-series predictions are the same function of position and time, and a point is invalid exactly when the constants of some constituent are invalid there.',
     ['inputs', 'configurations'], 'all constituent lists, times, positions, correction families, the three prediction modes',
     'No baseline-stable test compares predicted heights with the defining sum; the predictions that exist need downloaded model data.',
     ['pyTMD/predict.py'], [('map', 'pyTMD/predict.py:map'), ('drift', 'pyTMD/predict.py:drift'), ('time_series', 'pyTMD/predict.py:time_series')],
     EQ, TRUST)
prop('P02', 'Minor constituents are inferred from the major constituents by frequency',
     'For every set of available major constituents, the inferred tide is the sum over the requested minor constituents absent from the model of the admittance '
     'interpolated between majors of the same band times the minor equilibrium argument and modulation. '
     'Minor constituents given as major are never inferred again, and too few majors give a zero tide or the stated error.',
     ['inputs', 'configurations'], 'all subsets of majors and requested minors, both inference families, all correction families',
     'The tests do not run the inference offline and sample a few constituent lists.',
     ['pyTMD/predict.py', 'pyTMD/arguments.py'], [('infer_minor', 'pyTMD/predict.py:infer_minor'), ('_infer_short_period', 'pyTMD/predict.py'),
      ('_infer_semi_diurnal', 'pyTMD/predict.py'), ('_infer_diurnal', 'pyTMD/predict.py'), ('_infer_long_period', 'pyTMD/predict.py')], EQ, TRUST)
prop('P03', 'Long-period equilibrium tide is the Cartwright-Tayler-Edden sum',
     'At every time and latitude the long-period equilibrium tide is the Love-number factor times the degree-two zonal harmonic times the sum of the tabulated spectral lines, '
     'with the requested constituents only.',
     ['inputs', 'configurations'], 'all times, latitudes and constituent selections',
     'One test compares with a reference series for the default selection only.',
     ['pyTMD/predict.py'], [('equilibrium_tide', 'pyTMD/predict.py:equilibrium_tide')], EQ, TRUST)
prop('P04', 'Solid Earth tide displacements follow the IERS conventional model',
     'For every station, time, ephemeris and tide system the displacement is the degree-two and degree-three in-phase tide of sun and moon plus the out-of-phase, '
     'latitude-dependent and frequency-dependent corrections with the conventional Love and Shida numbers, and the tide systems differ by the permanent deformation alone.',
     ['inputs', 'configurations'], 'all stations, times, positions of sun and moon, tide systems, Love number overrides',
     'Tests need the IERS sample cases only: four stations and four instants.',
     ['pyTMD/predict.py'], [('solid_earth_tide', 'pyTMD/predict.py:solid_earth_tide'), ('corrections', 'pyTMD/predict.py:_out_of_phase_diurnal, _frequency_dependence_diurnal, ...')], EQ, TRUST)
prop('P05', 'Load and ocean pole tides follow the IERS conventional model',
     'For every position and time the load pole tide is the response of the centrifugal potential to the wobble about the chosen secular pole, and the ocean pole tide applies the self-consistent '
     'equilibrium coefficients to the same wobble.',
     ['inputs', 'configurations'], 'all positions, times, pole conventions and constants',
     'The one offline test of displacements compares a derivation for a default set of constants and does not cover the ocean pole tide.',
     ['pyTMD/predict.py'], [('load_pole_tide', 'pyTMD/predict.py:load_pole_tide'), ('ocean_pole_tide', 'pyTMD/predict.py:ocean_pole_tide')], EQ, TRUST)
prop('P06', 'Nodal modulations of principal constituents follow the chosen correction family',
     'For every node and perigee longitude, the amplitude factor and phase angle of every principal constituent are those of the series of its correction family, '
     'the result for a constituent does not depend on the other constituents in the list, and unmodulated constituents have factor one and angle zero.',
     ['inputs', 'configurations'], 'all node and perigee longitudes, all constituents, eight correction families',
     'Tests compare vectorised forms with an older implementation at sampled dates; a shared error or a constituent not listed is missed.',
     ['pyTMD/arguments.py'], [('nodal', 'pyTMD/arguments.py:nodal')], EQ, TRUST)
prop('P07', 'Compound tides carry the product of the modulations of their components',
     'For every compound constituent the nodal factor is the product of the factors of its components raised to their multiplicity and the nodal angle is the signed sum of the '
     'angles of its components, in every correction family.',
     ['inputs', 'configurations'], 'all compound constituents, all node and perigee longitudes, eight correction families',
     'Tests evaluate compounds against nothing but an older copy of the same table at sampled dates.',
     ['pyTMD/arguments.py'], [('nodal compound branches', 'pyTMD/arguments.py:nodal')], EQ, TRUST)
prop('P09', 'Equilibrium arguments and frequencies are the Doodson combination of longitudes',
     'For every time and constituent list each equilibrium argument is the sum of the Doodson coefficients times the lunar hour angle (from Universal Time) and the mean longitudes (in dynamic time), '
     'returned with the modulations of the same instant, column by column in the order requested. Angular frequencies are the rates of the same combination.',
     ['inputs', 'configurations'], 'all times, time offsets, constituent lists, correction families',
     'Tests compare table layouts on sampled dates with the S1 convention of one family.',
     ['pyTMD/arguments.py'], [('arguments', 'pyTMD/arguments.py:arguments'), ('minor_arguments', 'pyTMD/arguments.py:minor_arguments'),
      ('coefficients_table', 'pyTMD/arguments.py:coefficients_table'), ('frequency', 'pyTMD/arguments.py:frequency')], EQ, TRUST)
prop('P08', 'Tables of tidal constituents agree with their definitions',
     'For every constituent the Doodson coefficients are those of the published expansion, a compound constituent has the combination of coefficients named by it, and the tabulated '
     'amplitude, phase, frequency, species and load factor are those of the same constituent. Doodson numbers encode and decode coefficients without loss, and Love numbers follow the requested Earth model with the free core nutation resonance. '
     'Published tide potential tables are distributed unchanged and agree with their Doodson numbers.',
     ['inputs', 'configurations'], 'all constituents of the coefficient, parameter and tide potential tables, all coefficient sets, all frequencies and Earth models',
     'Tests sample some rows; a wrong row of a rarely used constituent gives plausible tides.',
     ['pyTMD/arguments.py', 'pyTMD/data/doodson.json'], [('coefficient table', 'pyTMD/data/doodson.json, pyTMD/arguments.py:coefficients_table'),
      ('_constituent_parameters', 'pyTMD/arguments.py:_constituent_parameters'), ('_love_numbers', 'pyTMD/arguments.py:_love_numbers'),
      ('doodson_number', 'pyTMD/arguments.py:doodson_number, _from_doodson_number, _to_extended_doodson')], 
     'static table analysis: distributed and literal tables resolved by constant propagation, compared with a reference copy and with definitions; formulas by value equivalence', TRUST)
prop('P10', 'Astronomical longitudes, positions and rotations follow their series',
     'For every time the mean longitudes of moon, sun, lunar perigee, node and solar perigee, the Delaunay and Doodson arguments, the low-precision positions of sun and moon, the obliquity, nutation, equation of the equinoxes, '
     'sidereal time and the rotation matrices of precession, nutation, frame bias and polar motion are the conventional expressions; the positions use the requested ephemerides and are earth-fixed.',
     ['inputs', 'configurations'], 'all times, ephemerides, series selections',
     'Tests compare a few dates with tolerances above the size of most terms.',
     ['pyTMD/astro.py', 'pyTMD/math.py'], [('mean_longitudes', 'pyTMD/astro.py:mean_longitudes'), ('doodson_arguments', 'pyTMD/astro.py:doodson_arguments'),
      ('solar_ecef', 'pyTMD/astro.py:solar_ecef, solar_approximate'), ('lunar_ecef', 'pyTMD/astro.py:lunar_ecef, lunar_approximate'),
      ('rotations', 'pyTMD/astro.py:itrs, _precession_matrix, _nutation_matrix, _polar_motion_matrix')], EQ, TRUST)
prop('P11', 'Tide heights and currents at points are those of the model, time and place',
     'For every kind of data (grid, drift, time series) and time standard, tide_elevations and tide_currents return at each point and time the synthesis of the constants of the chosen model '
     'interpolated at the transformed coordinates, plus the inferred minor tides when asked, with the time offset of the correction family. A value is masked when a part of it is invalid; '
     'unknown time standards, kinds of data, methods and corrections are rejected, and each correction name computes that correction.',
     ['inputs', 'configurations'], 'all coordinates, times, kinds of data, time standards, options and models',
     'No offline test runs the point computations: all need downloaded model data.',
     ['pyTMD/compute.py'], [('tide_elevations', 'pyTMD/compute.py:tide_elevations'), ('tide_currents', 'pyTMD/compute.py:tide_currents'), ('corrections', 'pyTMD/compute.py:corrections')], EQ, TRUST)
prop('P12', 'Equilibrium, pole and solid Earth tides at points are those of time and place',
     'For every kind of data (grid, drift, time series, in any letter case) and time standard, the long-period equilibrium, load pole, ocean pole and solid Earth tide computations return at each point and time '
     'the displacement at that position and that time along the geocentric radius, on the chosen ellipsoid and with the chosen conventions, masked where it is not a number.',
     ['inputs', 'configurations'], 'all coordinates, times, kinds of data, time standards, ellipsoids, conventions, tide systems and ephemerides',
     'No offline test runs these computations on grids or with the capitalised spelling of the kind of data.',
     ['pyTMD/compute.py'], [('LPET_elevations', 'pyTMD/compute.py:LPET_elevations'), ('LPT_displacements', 'pyTMD/compute.py:LPT_displacements'),
      ('OPT_displacements', 'pyTMD/compute.py:OPT_displacements'), ('SET_displacements', 'pyTMD/compute.py:SET_displacements')], EQ, TRUST)
prop('P13', 'Tide masks tell whether a point lies in the valid domain of a model',
     'For every model format and interpolation method, a point is reported valid exactly when the mask of the model grid interpolated at the coordinates of the model has no invalid part and the point lies within the bounds of the grid; '
     'the mask has the shape of the input coordinates.',
     ['inputs', 'configurations'], 'all coordinates (scalars, tracks, grids), model formats and interpolation methods',
     'No offline test computes a mask.',
     ['pyTMD/compute.py'], [('tide_masks', 'pyTMD/compute.py:tide_masks')], EQ, TRUST)
prop('P14', 'Reference ellipsoids and their normal gravity field',
     'Every named ellipsoid has, in both systems of units and in any letter case, its published axis, flattening, gravitational constant and rotation rate; constants given by the user take precedence, and unknown names and units are rejected. '
     'All derived geometric and gravimetric parameters and normal gravity at and above the ellipsoid are their closed definitions for every choice of constants.',
     ['inputs', 'configurations'], 'all named ellipsoids and units, all user-defined constants, colatitudes and heights',
     'Tests compare a few parameters of three ellipsoids.',
     ['pyTMD/crs.py'], [('datum', 'pyTMD/crs.py:datum')], EQ, TRUST)
prop('P15', 'Conversions between geographic, cartesian and local coordinates',
     'For every point, alone or in an array and including poles and mixed arrays, each conversion between geographic, geocentric, spherical, local and horizontal coordinates, between ellipsoids, and between decimal degrees and minutes and seconds '
     'is its definition on the chosen ellipsoid (iterations step by step), conversions to local coordinates and back agree, inputs keep their values, and unknown methods are rejected.',
     ['inputs', 'configurations'], 'all points, ellipsoids, methods and origins',
     'Tests convert a handful of points away from poles; spatial tests need data and do not run offline.',
     ['pyTMD/spatial.py'], [('to_geodetic', 'pyTMD/spatial.py:to_geodetic'), ('to_cartesian', 'pyTMD/spatial.py:to_cartesian, to_sphere'), ('to_ENU', 'pyTMD/spatial.py:to_ENU, from_ENU, to_horizontal, to_zenith'),
      ('convert_ellipsoid', 'pyTMD/spatial.py:convert_ellipsoid, compute_delta_h'), ('scale_factors', 'pyTMD/spatial.py:scale_factors')], EQ,
     TRUST + ' Iterative conversions are compared by initial value, one step and result: convergence of the iteration is not decided.')
prop('P16', 'Tidal ellipses describe the motion of the current',
     'For all complex amplitudes of the zonal and meridional currents, the semi-major and semi-minor axes, inclination and phase are those of the ellipse that the current traces over a tidal cycle, '
     'in degrees and in their documented ranges, and converting the parameters back gives the currents again.',
     ['inputs'], 'all complex currents and all ellipse parameters',
     'Tests convert one data set.',
     ['pyTMD/ellipse.py'], [('ellipse', 'pyTMD/ellipse.py:ellipse'), ('inverse', 'pyTMD/ellipse.py:inverse'), ('xy', 'pyTMD/ellipse.py:_xy')], EQ, TRUST)
prop('P17', 'Interpolated constants come from valid neighbours and are masked elsewhere',
     'For every grid, mask and point: bilinear interpolation is the mean of the valid corners of the cell of the point weighted by opposite areas, is exact at a corner and masked outside of the grid; '
     'the spline and regular grid methods interpolate values (both parts of complex ones) and mask over the right axes with the options given, invalid outside; '
     'extrapolation takes the nearest valid grid point within the cutoff distance (kilometers on geographic grids) and masks the point when there is none.',
     ['inputs', 'configurations'], 'all grids, masks, points, methods, options and cutoff distances',
     'Tests of interpolation need downloaded data and do not run offline.',
     ['pyTMD/interpolate.py'], [('bilinear', 'pyTMD/interpolate.py:bilinear'), ('spline', 'pyTMD/interpolate.py:spline'), ('regulargrid', 'pyTMD/interpolate.py:regulargrid'),
      ('extrapolate', 'pyTMD/interpolate.py:extrapolate')], EQ, TRUST + ' The scipy interpolators and the nearest-neighbour search are taken by their documented meaning.')
prop('P18', 'Legendre functions and spherical harmonics of every degree and order',
     'The associated Legendre functions are (-1)^m (1-x^2)^(m/2) d^m P_l/dx^m for every degree and order at every argument; the fully normalized functions and the spherical harmonics built from them '
     'carry their scaling; degrees and orders out of range are rejected; polynomial sums, aliasing frequencies and normalized angles are their definitions.',
     ['inputs', 'configurations'], 'all arguments; degrees and orders up to a bound larger than any used',
     'Tests compare single degrees and orders at sampled arguments.',
     ['pyTMD/math.py'], [('legendre', 'pyTMD/math.py:legendre'), ('sph_harm', 'pyTMD/math.py:sph_harm'), ('polynomial_sum', 'pyTMD/math.py:polynomial_sum, normalize_angle, aliasing')], EQ, TRUST)
prop('P19', 'Harmonic constants of gridded models at points',
     'For every list of points and files, model format (GOT, FES and ATLAS netCDF, every version and reader), type, interpolation method and crop, amplitude and phase of each constituent at each point are those of the complex constant '
     'interpolated from the grid of its file (continued across the seam of global grids, points in the convention of the grid), scaled to the units of the type with the depth of the point for currents; points outside of the grid or without '
     'valid neighbours are masked unless extrapolated; names, depths and deprecated options agree.',
     ['inputs', 'configurations'], 'all points, files, grids and options',
     'Tests of model formats need downloaded data and do not run offline.',
     ['pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/io/ATLAS.py'], [('extract_constants', 'pyTMD/io/GOT.py, FES.py, ATLAS.py:extract_constants'), ('_crop', 'pyTMD/io/GOT.py, FES.py, ATLAS.py:_crop, _extend_array, _extend_matrix, _shift')], EQ,
     TRUST + ' Readers of files and the interpolation methods (P17) are uninterpreted here: their arguments are compared.')
prop('P20', 'Containers of constituents hold a model and are left unchanged',
     'Reading a model into a container gives each constituent the field of its file on the (cropped, globally continued) grid, with the masks of the grid; interpolating a container gives at each point the amplitude and phase of each held constituent '
     'by the same rules as direct extraction, for all methods, types and extrapolation; fields, coordinates, depths and masks of the container are afterwards what they were before, so containers can be used any number of times.',
     ['inputs', 'configurations', 'histories'], 'all grids, points and options, any sequence of interpolations',
     'Tests need downloaded data and do not run offline; none interpolates a container twice.',
     ['pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/OTIS.py', 'pyTMD/io/constituents.py'],
     [('read_constants', 'pyTMD/io/GOT.py, FES.py, ATLAS.py:read_constants'), ('interpolate_constants', 'pyTMD/io/GOT.py, FES.py, ATLAS.py, OTIS.py:interpolate_constants'), ('container', 'pyTMD/io/constituents.py:append, get')], EQ,
     TRUST + ' Readers of files and the interpolation methods (P17) are uninterpreted here: their arguments are compared.')
prop('P21', "Calls leave the objects of the caller and the package unchanged",
     'No public function or method changes the arrays, lists, dictionaries or other objects its caller passes in (other than the documented targets: the object to which dimensions are added, the file to be read or seeked), '
     'query methods leave their own object as it was, and no call changes the tables, default arguments or process state of the package: results depend on arguments alone and not on the calls made before, '
     'so inputs can be used again and calls can be made in any order and repeated.',
     ['inputs', 'histories', 'schedules'], 'every call of every function with every alias of its arguments, any sequence of calls',
     'Tests call each function once with fresh inputs and look at the result and not at the inputs.',
     ['pyTMD/'], [('arguments', 'all public functions and methods of pyTMD'), ('state', 'module-level tables, default arguments, decorators'), ('objects', 'query methods of io.model, io.constituents, OTIS/GOT/FES/ATLAS containers, ellipsoids')], EFF,
     'The aliasing rules of numpy, xarray-free python containers and copy are those of their documentation (view or copy per operation); calls of libraries not modelled are assumed not to change their arguments.')
prop('P22', 'Harmonic analysis solves for the constants which prediction uses',
     'For every series, list of constituents, family of corrections and solver: the linear system has, for each constituent, the two terms with which prediction synthesizes its tide (same phases, nodal corrections and dynamic time) '
     'and one mean; amplitude and phase are those of the complex constant solved for (amplitude not negative, phase lag within 0 to 360 degrees), so that constants solved from a predicted series are those it was predicted with; '
     'the named solver is called with the options given, series too short or of different lengths are rejected.',
     ['inputs', 'configurations'], 'all series of times and heights, constituents, corrections and solvers',
     'The test solves for one synthetic series with one solver and one family of corrections.',
     ['pyTMD/solve/constants.py', 'pyTMD/predict.py'], [('constants', 'pyTMD/solve/constants.py:constants'), ('time_series', 'pyTMD/predict.py:time_series')], EQ,
     TRUST + ' The least-squares solvers of numpy and scipy are uninterpreted: their system and options are compared, the accuracy of their solution is not decided.')
prop('P23', 'Models use the files and options of their definition with their reader',
     'For every format, type and arrangement of files: a model listed in the database or defined in a file uses the files it names (relative to its directory, patterns expanded in the order of names, compressed suffix appended), '
     'reports files which do not exist and rejects incomplete definitions; its constants come from the reader of its format, from the files of the component asked for, with the version, factor and options given, '
     'whether extracted, read into a container or interpolated from it; constituents are those the names of the files stand for, the node tide is appended once on request; '
     'additional databases add to the listed models, and a model made from the contents of another one is the same.',
     ['inputs', 'configurations', 'histories'], 'every listed model, format, component and arrangement of files; symbolic points and options; readings in any order',
     'Tests of models need downloaded data and do not run offline; those which run construct some models by name.',
     ['pyTMD/io/model.py', 'pyTMD/io/constituents.py', 'pyTMD/data/database.json'],
     [('construction', 'pyTMD/io/model.py:from_database, from_file, from_dict, pathfinder, _parse_json, to_dict, serialize'), ('constants', 'pyTMD/io/model.py:extract_constants, read_constants, interpolate_constants, node_equilibrium'),
      ('names', 'pyTMD/io/constituents.py:parse')], EQ,
     TRUST + ' Readers are uninterpreted here (their own properties are P19, P20): the reader called and its arguments are compared. Paths, patterns and regular expressions of known text follow the Python library.')
prop('P24', 'OTIS, ATLAS-compact and TMD3 constants come from the nodes of their component',
     'For elevations, transports and currents of every OTIS, ATLAS-compact and TMD3 model (one file or a file for each constituent; regional, global or projected grids; any convention of longitudes), '
     'amplitude and phase at each point are those the interpolation method asked for gives from the nodes of the component, which lie half a cell west (u) or south (v) of those of elevations and are valid where the two adjacent nodes of elevations are wet; '
     'currents are transports divided by the depth at the point (mean of the adjacent nodes); elevations of TMD3 models are scaled by flexure on request only; '
     'points outside of the nodes, or without a valid depth or constituent, are masked unless extrapolated within the cutoff; cropping selects nodes without changing values; '
     'global grids continue across the seam; a container holds the same nodes, depths, masks and constituents.',
     ['inputs', 'configurations'], 'symbolic grid, points, bounds and options; every source, component, method, convention of longitudes and combination of masks',
     'Tests of models need downloaded data and do not run offline.',
     ['pyTMD/io/OTIS.py'],
     [('points', 'pyTMD/io/OTIS.py:extract_constants'), ('containers', 'pyTMD/io/OTIS.py:read_constants'),
      ('nodes', 'pyTMD/io/OTIS.py:_mask_nodes, _interpolate_mask, _interpolate_zeta'), ('grid', 'pyTMD/io/OTIS.py:_extend_array, _extend_matrix, _shift, _crop')], EQ,
     TRUST + ' Readers of the binary and netCDF files, interpolation methods (P17) and projections are uninterpreted: which of them is called, and its arguments, are compared.')
prop('P25', 'Binary model files are read and written by the layout of their records',
     'For every size of grid, number of constituents, open boundary and local models: depths, masks, open boundary, coordinates and constants which are read from OTIS and ATLAS-compact files are those their records hold, '
     'for the constituent asked for, at the nodes of each local model (masked elsewhere, and where the record is not a number), whatever local models and constituents precede it in the file; '
     'names of constituents are the fields of the header; written files have the same records (numbers of their type in big-endian order, lengths of records on both sides), so that reading returns what was written.',
     ['inputs', 'configurations'], 'all sizes of grids, lists of nodes and open boundaries (symbolic); 0, 1 or 2 local models with the constituent at any place or absent',
     'Tests of models need downloaded data and do not run offline; nothing tests the writers.',
     ['pyTMD/io/OTIS.py'],
     [('readers', 'pyTMD/io/OTIS.py:read_otis_grid, read_atlas_grid, read_constituents, read_otis_elevation, read_atlas_elevation, read_otis_transport, read_atlas_transport'),
      ('writers', 'pyTMD/io/OTIS.py:output_otis_grid, output_otis_elevation, output_otis_transport')], EQ,
     TRUST + ' Programs are evaluated over files whose contents are a sequence of records of symbolic lengths; values keep their identity but not the rounding of their type.')
prop('P26', 'Text and netCDF model files hold the constants which are read from them',
     'For every size of grid: the readers of GOT and FES files in ascii and netCDF (compressed or not), of ATLAS-netCDF and TMD3 grids, elevations and transports return, at each node, the complex constant its amplitude and phase '
     '(or real and imaginary parts) in the file stand for, with the units and orientation of the format, masked exactly where the file has no value; coordinates increase in the order of the nodes; '
     'the constituent is the one the file names; what is written to GOT and FES netCDF files is what reading them returns.',
     ['inputs', 'configurations'], 'all sizes of grids (symbolic), every position; rows of text of any number of full lines with or without a last one',
     'Tests of models need downloaded data and do not run offline; nothing tests the writers.',
     ['pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/OTIS.py'],
     [('GOT', 'pyTMD/io/GOT.py:read_ascii_file, read_netcdf_file, output_netcdf_file'), ('FES', 'pyTMD/io/FES.py:read_ascii_file, read_netcdf_file, output_netcdf_file'),
      ('ATLAS', 'pyTMD/io/ATLAS.py:read_netcdf_grid, read_netcdf_elevation, read_netcdf_transport'), ('TMD3', 'pyTMD/io/OTIS.py:read_netcdf_grid, read_netcdf_file')], EQ,
     TRUST + ' Variables and attributes of netCDF files are named by the format; libraries that read them return masked arrays by their fill values.')
prop('P27', 'Options which are left out have their documented values',
     'An option of a function or method that is left out has the value its documentation gives, however it is handed on (signature, dictionary of keywords, functions the keywords are forwarded to, attributes of objects); '
     'every option that is read from a dictionary of keywords has a value there when it was left out; an option that is given is neither replaced nor dropped.',
     ['configurations'], 'every documented default of every public function and method, and every read of an option, of the package',
     'Tests give most options explicitly and cannot cover combinations of options which are left out.',
     ['pyTMD/'],
     [('documentation and values', 'pyTMD/: docstrings, signatures and kwargs.setdefault of all functions')],
     'Constant propagation over dictionaries of options and signatures, with documentation as the specification.',
     TRUST + ' Defaults that the documentation gives in prose are not compared.')
prop('P28', 'Ocean pole tide coefficients are those of the line with the coordinates',
     'Every node of the map of ocean pole tide loading coefficients has the coefficients of the line of the file whose longitude and latitude are those of the node, for every line of the file in any order; '
     'the axes of the map are those of its nodes, in increasing order, and cover the globe up to the antimeridian; '
     'coefficients at points are those of the map interpolated at the longitude (in either convention) and latitude of the point, for real and imaginary parts of all three components.',
     ['inputs', 'configurations'], 'every node of the half-degree map (enumerated); every longitude in -180..360 and interpolation method',
     'One test reads a few points far from the borders of the map.',
     ['pyTMD/io/IERS.py'],
     [('map', 'pyTMD/io/IERS.py:read_binary_file'), ('points', 'pyTMD/io/IERS.py:extract_coefficients')], EQ,
     TRUST + ' The file has a line for each node of a half-degree map, as its publishers describe; the interpolating splines themselves are uninterpreted.')
prop('P29', 'Functions and options under former names do what the current ones do',
     'A function that is kept under a former name results in the call of the current function with the arguments and options that are given, and returns what it returns; the wrapper for corrections computes the one asked for; '
     'an option under its former name has the effect of the current one, and is not passed on twice.',
     ['configurations'], 'every function that is kept under a former name, and every former option, with arguments given and left out',
     'Few former names are tested, and tests do not compare them with the current ones.',
     ['pyTMD/'],
     [('functions', 'pyTMD/: functions that warn of deprecation'), ('options', 'pyTMD/compute.py, pyTMD/io/: options of former versions')], EQ,
     TRUST + ' Text of warnings is not compared.')
prop('P30', 'Coordinates are transformed between the systems that are given',
     'For every form a reference system can be given in, and every sequence of uses of one object: coordinates are transformed between the geographic system and the one of the model (in that direction, or back), '
     'by longitude and easting first; the direction of an earlier conversion does not change a later one; every transformer made in the package has that order of axes.',
     ['inputs', 'configurations', 'history'], 'all coordinates (symbolic), all forms of systems (including those whose earlier readings fail), object in any earlier state',
     'Tests convert a few points with one object each, used once.',
     ['pyTMD/crs.py', 'pyTMD/compute.py', 'pyTMD/spatial.py'],
     [('class', 'pyTMD/crs.py:crs'), ('transformers', 'pyTMD/: pyproj.Transformer.from_crs')], EQ,
     TRUST + ' pyproj is uninterpreted: which systems it is asked for, the order of axes, the direction and the coordinates are compared.')
prop('P31', 'The container of constituents is an ordered mapping of names to fields',
     'After every sequence of appending, replacing, removing and merging: names, their order, their number, iteration and fields are those of an ordered mapping, former fields are not kept and other objects are not changed; '
     'numbers of each constituent are those of its name, or none; amplitude and phase of a field are the modulus and the argument of its constants, in 0..360 degrees, masked where the constants are.',
     ['inputs', 'history'], 'sequences of operations up to three, with symbolic fields; all values of constants by sign and mask',
     'Tests fill a container once from a file; few operations follow another.',
     ['pyTMD/io/constituents.py'],
     [('container', 'pyTMD/io/constituents.py:constituents')], EQ,
     TRUST + ' Mapping from names of files to those of constituents is decided for the names of the database only (P23).')
prop('P32', 'Command line programs write the tides of the library for the data they read',
     'For every kind of data (grid, drift, time series), file format, time standard and source of projection and units (attributes of the file, or options when the file has none or unreadable ones): '
     'what a program writes at each point and time are the tides the library defines there (P11, P12), with their mask, at the longitudes, latitudes and times of the data; '
     'data are read and written by the functions of the format, with the options for it; every option of the command line sets its parameter, has the documented value when it is left out, and times given as an option replace those of the file.',
     ['inputs', 'configurations'], 'the six programs that compute tides; all kinds of data, formats, time standards; every option',
     'No test runs the programs.',
     ['scripts/'],
     [('programs', 'scripts/compute_tidal_elevations.py, compute_tidal_currents.py, compute_LPET_elevations.py, compute_LPT_displacements.py, compute_OPT_displacements.py, compute_SET_displacements.py')], EQ,
     TRUST + ' Readers and writers of data files are uninterpreted: which is called, and with what, is compared.')
prop('P33', 'Files of spatial data are read and written with their values, geometry and masks',
     'For netCDF4, HDF5 and geotiff files, compressed or not, in groups, with any names of variables: the readers return for each variable the values in the file, the attributes in the file '
     '(those with exactly the name; the projection of a grid mapping), and mask the data exactly where they have the fill value (zero and NaN included); pixels of geotiff files are at their centers, in the window which is given. '
     'The writers leave every variable with its values, type, fill value, attributes and the dimensions it has, also in a file that exists, and the geometry, projection and bands of a raster. '
     'The kind of data, the mapping of names, the format and the name of a file in another case are recognised.',
     ['inputs', 'configurations'], 'all contents of files; arrangements of variables and attributes; sizes of dimensions, also equal ones; formats; compressions',
     'Tests read back a few small files they wrote.',
     ['pyTMD/spatial.py'],
     [('readers', 'pyTMD/spatial.py:from_netCDF4, from_HDF5, from_geotiff, from_file'), ('writers', 'pyTMD/spatial.py:to_netCDF4, to_HDF5, to_geotiff, to_file'),
      ('helpers', 'pyTMD/spatial.py:data_type, case_insensitive_filename, default_field_mapping, fill_mask')], EQ,
     TRUST + ' The libraries of the formats (netCDF4, h5py, gdal) are modelled by what a call leaves in a file.')

prop('P34', 'Ascii files are read and written by column and line, with their header',
     'Every element of a variable that is read from an ascii file (compressed, a file object of text or bytes, or plain) is the number, also with fortran exponents, or the date in its column of its line after the header; '
     'headers of lines are skipped, headers in YAML end at their last line and give the attributes of every variable, and the data are masked exactly where they have the fill value of the header. '
     'Files that are written have the columns in the order which is asked for, separated by the delimiter, all digits of each value, a line for every element, and a header with the dimension and attributes of each variable.',
     ['inputs', 'configurations'], 'all contents of lines; columns; delimiters; headers; compressions; numbers of lines',
     'Tests read back one file in one arrangement.',
     ['pyTMD/spatial.py'],
     [('reader', 'pyTMD/spatial.py:from_ascii'), ('writer', 'pyTMD/spatial.py:to_ascii'), ('masks', 'pyTMD/spatial.py:fill_mask')], EQ,
     TRUST + ' Parsing of YAML and of dates are uninterpreted; arrays have a few given numbers of lines with symbolic words.')
