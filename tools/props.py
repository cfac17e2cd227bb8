#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json. Source of both: the tables below and the rules registered in vg.rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

CU, DU, MU, CO, PU, CH = ('chaosmagpy/' + f + '.py' for f in (
    'config_utils', 'data_utils', 'model_utils', 'coordinate_utils', 'plot_utils', 'chaos'))

P = []


def p(pid, title, statement, over, qtext, why, files, mech, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(na=na, rec=dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))))


# ------------------------------------------------------------------ configuration
p('C01', 'Temporary configuration overrides are always undone',
  'After a temporary override of a configuration parameter ends, the whole configuration is exactly what it was before '
  'the override, however the block is left: normally, by return, break or continue, or by any exception, also when '
  'overrides are nested or the parameter is assigned again inside. Inside the block the parameter has the overriding value. '
  'An override with an invalid value or unknown parameter is refused, does not run the block and changes nothing.',
  ['programs', 'fault_sequences'], 'every parameter, every way of leaving the block, every previous value',
  'the tests enter one context per parameter and leave it normally only', [CU],
  [('context manager of the configuration', f'{CU}: BasicConfig.context')])
p('C02', 'Only known parameters with valid values ever enter the configuration',
  'Whatever public operation writes to the live configuration (item assignment, bulk update, in-place merge, set-default, '
  'loading a file, resetting, temporary override), an unknown parameter name raises a key error and a value that is not '
  'valid for its parameter raises an error, leaving the value of that parameter as it was. A valid value is stored in its '
  'documented type: numbers as numbers, vectors as float vectors of the required length, files only if they exist.',
  ['inputs', 'histories'], 'every parameter, every write operation, valid and invalid values of every class',
  'the tests assign a few values with one write operation', [CU],
  [('validation on assignment', f'{CU}: BasicConfig.__setitem__'), ('bulk writes', f'{CU}: BasicConfig.update, setdefault, load'),
   ('value checks', f'{CU}: check_*')])
p('C03', 'Built-in defaults cannot be corrupted and resetting restores them',
  'No use of the live configuration, including modifying in place the arrays it hands out, changes the built-in defaults. '
  'Resetting one parameter restores its original default and leaves the others alone; a full reset restores every '
  'parameter to its original default, whatever happened before.',
  ['histories'], 'every parameter and every history of assignments, in-place modifications, overrides and resets',
  'the tests reset after at most one assignment and never modify an array in place', [CU],
  [('defaults table', f'{CU}: DEFAULTS'), ('reset', f'{CU}: BasicConfig.reset, fullreset')])
p('C04', 'Configuration is read when a function is called',
  'Every computation that depends on a configuration parameter (reference radius, ellipsoid, dipole, file locations, '
  'figure width, coastline) uses the value in force when it is called, not one captured at import time, at construction, '
  'or in an earlier call. A dipole given explicitly takes precedence over the configured one.',
  ['configurations', 'histories'], 'every value of each parameter and every order of changes and calls',
  'the tests run with the default configuration', [MU, CO, PU, CH],
  [('reference radius', f'{MU}: synth_values, design_gauss, power_spectrum'), ('ellipsoid', f'{CO}: gg_to_geo, geo_to_gg'),
   ('dipole', f'{CO}: dipole_to_vec, transform_points, transform_vectors'),
   ('files', f'{CH}: CHAOS.synth_coeffs_gsm, synth_coeffs_sm'), ('plots', f'{PU}')])
p('C33', 'Saving and loading a configuration restores it',
  'Saving the configuration to a file and loading that file later gives back every parameter with the value and type it '
  'had when it was saved, whatever the configuration is in between. Saving does not change the configuration.',
  ['configurations', 'histories'], 'every configuration that validation accepts',
  'the tests save one configuration and load it back', [CU],
  [('save and load', f'{CU}: BasicConfig.save, load')])

# ------------------------------------------------------------------ purity
p('C05', 'Public functions never modify the arrays and containers passed in',
  'No public function, method or plotting routine modifies any array, list or dictionary that its caller passes in: '
  'coordinates, coefficients, break points, times, spectra, satellite lists, base vectors and frequency spectra are '
  'the same after the call as before, also when the call raises.',
  ['inputs', 'programs'], 'every public callable, every argument that is an array, list or dictionary, every option branch',
  'the tests never look at their inputs after a call', [MU, CO, DU, PU, CH],
  [('synthesis', f'{MU}'), ('transformations', f'{CO}'), ('plots', f'{PU}'), ('models', f'{CH}')])
p('C06', 'Querying, plotting or saving a model does not change it',
  'Evaluating, plotting, printing or saving a model, in any way, leaves the model, the configuration and the built-in '
  'defaults as they were. Arrays returned by evaluations, and the exported piecewise-polynomial form, are independent '
  'copies: modifying them does not change the model, the configuration or the result of a later call.',
  ['histories', 'programs'], 'every query and export of every model class, every sequence of such calls',
  'the tests never compare a model before and after a query', [CH, MU, CO],
  [('evaluation', f'{CH}: Base.synth_coeffs, CHAOS.synth_*'), ('export', f'{CH}: to_ppdict, to_shc, save_matfile, save_shcfile')])
p('C30', 'Results depend only on arguments, the model, configuration and files',
  'Evaluation functions are deterministic: they consult no clock, random source, environment variable or hidden state, so '
  'the same call gives the same result at any point of a program, whatever calls were made before. Time stamps written '
  'into text headers and screen output are the only exception.',
  ['histories', 'schedules'], 'every pair of equal calls separated by any other calls',
  'the tests call every function once per argument', [MU, CO, DU, CH],
  [('module level state', f'{CU}, {CO}, {MU}')])
p('C28', 'The package works without optional libraries and never uses the network unasked',
  'Importing the package succeeds without the plotting library and without the web libraries, and then everything but '
  'plotting works. The network is contacted only when the RC index is requested without giving a file.',
  ['configurations', 'programs'], 'every subset of optional libraries, every public function',
  'the tests run in one environment with every library', [PU, DU, CH],
  [('guarded imports', f'{PU}: module level'), ('lazy imports', f'{DU}: load_RC_datfile')])
p('C29', 'Files are written only where asked and every opened file is closed',
  'Functions that save write only to the path they are given, functions that do not save write no file at all, and no '
  'function reads or writes a file other than the given one and the configured ones. Every file a function opens is '
  'closed again when it returns, also when it raises.',
  ['fault_sequences', 'programs'], 'every function that touches files, every exit path',
  'the tests do not look at open files and the file system besides the written one', [CH, DU, CO, CU],
  [('file access', f'{DU}, {CH}, {CO}: rotate_gauss_fft, q_response; {CU}: save, load')])

# ------------------------------------------------------------------ errors
p('C07', 'Asking for a missing model component raises a value error',
  'When a model lacks a component (time-dependent, static, SM, GSM, RC offsets, Euler angles, or all its coefficients), '
  'every evaluation, plot or text export that needs this component raises a value error, whatever other components are '
  'present. Evaluations that do not need it work as if it was there.',
  ['inputs'], 'every subset of components and every evaluation, plot and export method',
  'the tests use complete models only', [CH], [('component guards', f'{CH}: CHAOS.synth_*, plot_*, save_shcfile; Base, BaseModel')])
p('C08', 'Unknown option values are rejected, documented ones accepted',
  'Every option that takes a name from a documented list (field source, reference frame, extrapolation method, model part, '
  'field model source list, conductivity kind, dipole epoch, satellite) raises a value error for any other (non-empty) name, before '
  'any result is returned, and works for every documented name; an error message that lists valid names lists all of them and no other. The extrapolation method counts once a time lies outside '
  'the model period.',
  ['inputs'], 'every enumerated option of every public function, every documented and any undocumented name',
  'the tests use documented names only', [CH, MU, CO],
  [('source', f'{MU}: synth_values, design_gauss, power_spectrum'), ('reference', f'{CO}: transform_points, transform_vectors'),
   ('method', f'{CH}: Base.synth_coeffs')])
p('C09', 'Colatitudes outside [0, 180] degrees are rejected, poles are handled',
  'Field synthesis and its design matrices raise a value error exactly when some colatitude is below 0 or above 180 degrees, '
  'also if other points of the same call lie at the poles. Points exactly at the poles give finite results equal to the '
  'limit along the given meridian, with a warning.',
  ['inputs'], 'every array of colatitudes mixing interior, pole and out-of-range values',
  'the tests use one grid with poles and never a mixed one', [MU],
  [('range check', f'{MU}: synth_values, design_gauss'), ('pole branch', f'{MU}: synth_values, design_gauss')])
p('C10', 'Evaluation outside the model period is never silent',
  'A spline model or external field evaluation warns if and only if at least one requested time is outside the model '
  'period, end points being inside. With extrapolation switched off, the out-of-period values are not-a-number and '
  'the others unaffected; times outside the period of the RC index raise a value error unless RC values are given.',
  ['inputs'], 'every time array: before, after, inside, on the break points and mixed; every extrapolation option',
  'the tests evaluate inside the period or at one outside time', [CH],
  [('period check', f'{CH}: Base.synth_coeffs, CHAOS.synth_coeffs_gsm, synth_coeffs_sm')])

# ------------------------------------------------------------------ synthesis
p('C11', 'Extrapolation continues the Taylor expansion of the chosen order',
  'Outside its period a spline model continues as the Taylor polynomial, about the nearest end point, of the requested '
  'order: constant, linear (also the default), quadratic, cubic, or the whole end polynomial for "spline", or an integer '
  'number of terms, never more terms than the spline has. Value and lower derivatives are continuous at the end '
  'points, derivatives are those of that polynomial, and values and derivatives inside the period, its end points '
  'included, depend neither on the method nor on the other times of the call.',
  ['inputs'], 'every spline, order, end point, derivative and extrapolation method',
  'the tests compare one extrapolation at one time', [CH], [('end-piece construction', f'{CH}: Base.synth_coeffs')])
p('C12', 'The maximum degree truncates exactly and never exceeds the model',
  'Evaluating with a maximum degree below the degree of the model equals evaluating a model whose higher-degree '
  'coefficients are zero, for coefficients, field values and power spectra. A maximum degree above that of the model gives '
  'the result at the degree of the model together with a notice to the user.',
  ['inputs'], 'every degree and model degree, every evaluation method taking a maximum degree',
  'the tests use few degrees', [CH, MU],
  [('clamping', f'{CH}: synth_coeffs, synth_values, synth_coeffs_gsm, synth_coeffs_sm, plot_maps; {MU}: synth_from_pp, power_spectrum')])
p('C13', 'Convenience methods forward their arguments faithfully',
  'Methods of the composite model that evaluate, plot or save one part give the same result as the same call on that part, '
  'with every option (maximum degree, derivative, grid, extrapolation, dimension) forwarded. Plotting methods draw the '
  'values that the evaluation method returns for the same arguments, in the order radial, colatitude, azimuth.',
  ['inputs'], 'every wrapper and every combination of its options',
  'the tests call wrappers with default options', [CH],
  [('wrappers', f'{CH}: CHAOS.synth_coeffs_tdep/static, synth_values_tdep/static, synth_euler_angles, plot_*')])
p('C14', 'The total field is the sum of the selected sources',
  'Calling the composite model returns the sum of the fields of exactly the selected sources, evaluated at the same '
  'points; the shorthands "internal" and "external" select the internal and the external parts; source "all" of the '
  'external parts is the sum of external and induced field. The two RC series are used for the external and the induced '
  'part respectively, and the maximum degree of the static part applies to this part only.',
  ['inputs'], 'every subset and order of sources, every option, every model',
  'the tests call the full sum or single sources', [CH],
  [('sum over sources', f'{CH}: CHAOS.__call__, synth_values_gsm, synth_values_sm')])
p('C15', 'Synthesis, design matrices and spline forms agree',
  'Field synthesis equals the design matrix of the same points times the coefficients, for every source, minimum and '
  'maximum degree and order; the time-dependent design matrix applied to B-spline coefficients equals synthesis '
  'from the corresponding piecewise polynomial, static terms of higher degree included; both spline forms are the same function of time.',
  ['inputs'], 'all points, coefficients, truncations, sources, knots and orders',
  'the tests compare one configuration at random points', [MU, CH],
  [('three copies of the expansion', f'{MU}: synth_values, design_gauss, design_matrix'),
   ('spline forms', f'{MU}: colloc_matrix, pp_from_bspline, synth_from_pp')])
p('C16', 'The synthesised field is the negative gradient of the stated potential',
  'Field components are minus the gradient of the internal or external Schmidt semi-normalised spherical harmonic '
  'potential with respect to the configured reference radius, coefficients ordered g10, g11, h11, g20, and so on. This '
  'fixes normalisation, sign, radial dependence and the theta derivative of the Legendre functions for every degree.',
  ['inputs'], 'all points, degrees, orders and both sources',
  'the tests compare against stored output of one model', [MU],
  [('Legendre recursion', f'{MU}: legendre_poly'), ('field expansion', f'{MU}: synth_values, design_gauss')])
p('C17', 'Time derivatives are per year of the coefficient series in days',
  'A derivative of order k of a spline model is the k-th derivative of its coefficient series with respect to time in '
  'days multiplied by 365.25 to the power k, for coefficients and field values alike, and zero beyond the polynomial '
  'degree. A model made with a lower order than its coefficients has their lowest-degree terms; without order, all.',
  ['inputs'], 'every derivative order, spline order and time', 'the tests check first derivatives of one model', [CH, MU],
  [('unit conversion', f'{CH}: Base.synth_coeffs; {MU}: synth_from_pp')])
p('C26', 'Spectra and correlations follow their definitions',
  'The spatial power spectrum, degree correlation and sensitivity have, per degree, the documented closed form for every '
  'source, radius, degree, coefficient-axis and leading shape. Model methods evaluate them with the coefficients at the requested time and '
  'at the configured reference radius by default.',
  ['inputs'], 'all coefficients, radii, sources, axes and maximum degrees',
  'the tests check one spectrum', [MU, CH],
  [('definitions', f'{MU}: power_spectrum, degree_correlation, sensitivity; {CH}: BaseModel.power_spectrum')])
p('C31', 'Broadcasting and grid evaluation equal point-wise evaluation',
  'For every broadcastable combination of shapes of time, radius, colatitude and longitude, each element of the result '
  'equals the evaluation at that single point, and the result has the broadcast shape. In grid mode the element in row i '
  'and column j is the evaluation at the i-th colatitude and j-th longitude, with leading dimensions for the times. '
  'Shapes that cannot be broadcast raise a value error.',
  ['inputs'], 'all broadcastable shapes incl. scalars, mixed poles, single-element and multi-dimensional arrays',
  'the tests use few shapes', [MU, CH, CO],
  [('shape handling', f'{MU}: synth_values, design_gauss; {CH}: Base.synth_coeffs, CHAOS.__call__')])

# ------------------------------------------------------------------ coordinates
p('C18', 'Elementary coordinate conversions follow the documented conventions',
  'Angles are in degrees, colatitude counted from north, azimuth from the prime meridian eastward: spherical and '
  'cartesian conversion, the zenith angle of the sun, magnetic local time and azimuth centring to (-180, 180] follow '
  'these conventions, and geodetic coordinates refer to the configured ellipsoid.',
  ['inputs'], 'all coordinates, signs and quadrants',
  'the tests use random points of one hemisphere pair', [CO],
  [('conversions', f'{CO}: spherical_to_cartesian, cartesian_to_spherical, zenith_angle, center_azimuth, local_time, gg_to_geo')])
p('C19', 'Reference frames are orthonormal, right-handed and oriented as defined',
  'The base vectors of the GSM, SM and MAG frames and of the local spherical frame are orthonormal and right-handed '
  'at every time and place and for every dipole; GSM has its first axis toward the sun with the dipole in the plane of axes one '
  'and three, SM has its third axis along the dipole with the sun in the plane of axes one and three, MAG its third along the dipole. '
  'The dipole may be given as coefficients or as angles, singly or packed, with equal result.',
  ['inputs', 'configurations'], 'all times, dipoles and dipole formats',
  'the tests compare against stored vectors for a few times', [CO],
  [('frames', f'{CO}: basevectors_gsm, basevectors_sm, basevectors_mag, basevectors_use, basevectors_gg, dipole_to_vec')])
p('C20', 'Forward and inverse coordinate transformations undo each other',
  'Transforming points or horizontal vectors to any reference frame and back returns the original ones, vector length is '
  'preserved, and the same holds for spherical and cartesian coordinates. Transformed points and vectors represent the '
  'same direction or vector in the base vectors of the frame. Geodetic and geocentric vector components '
  'convert back and forth unchanged when the positions do.',
  ['inputs', 'configurations'], 'all points, vectors, times, dipoles and frames',
  'the tests check selected round trips', [CO],
  [('inverses', f'{CO}: geo_to_base, matrix_geo_to_base, transform_points, transform_vectors, gg_to_geo, geo_to_gg')])
p('C21', 'Time conversions are mutually inverse and follow the calendar',
  'Converting modified Julian date to decimal year and back, with or without leap years, returns the original time, also '
  'before 2000 and across year boundaries; both directions use the same leap-year rule. Calendar dates and time stamps '
  'correspond to the modified Julian date counted from the first of January 2000, to sub-second precision. Time stamps hold '
  'for the years they can express (1708 to 2261), dates and decimal years for all years.',
  ['inputs'], 'all times of historical and modern models, both conventions, all date components and array shapes',
  'the tests use a few dates', [DU],
  [('conversions', f'{DU}: mjd2000, timestamp, is_leap_year, dyear_to_mjd, mjd_to_dyear')])

# ------------------------------------------------------------------ files
p('C22', 'Coefficient text files read back as written',
  'Writing coefficients to a text (SHC) file and reading it gives the same times and coefficients up to the decimals '
  'written, in the same order, for every minimum and maximum degree, and a file header describing them. A spline model '
  'written to such a file and read again is the same function of time inside its period.',
  ['inputs'], 'all coefficients, times, degrees, spline orders, numbers of pieces, both year conventions',
  'the tests write two models', [DU, CH],
  [('writer and reader', f'{DU}: save_shcfile, load_shcfile; {CH}: BaseModel.to_shc, from_shc, CHAOS.save_shcfile, load_CHAOS_shcfile')])
p('C23', 'A complete CHAOS model survives saving to and loading from a MAT-file',
  'Saving a CHAOS model with all parts to a MAT-file and loading it gives a model with the same coefficients, break '
  'points and satellites in every part, hence the same field, external coefficients and Euler angles at all times.',
  ['inputs'], 'all coefficients and break points',
  'the round-trip test needs data files that are absent', [CH, DU],
  [('writer and reader', f'{CH}: CHAOS.save_matfile, load_CHAOS_matfile, Base.to_ppdict; {DU}: load_matfile')])
p('C24', 'Rotation spectra are used consistently with how they were made',
  'Rotation matrices synthesised from a saved frequency spectrum equal those from the returned one, whether it was stored scaled or not: '
  'the zero frequency counts once and every other one twice, with phases referring to the same epoch whatever the start date of the series. The external field refuses a spectrum made for another dipole than the configured one.',
  ['inputs', 'configurations'], 'all spectra, scaled or not, all times, vector or element-wise frequencies',
  'the tests use one shipped spectrum', [CO, CH],
  [('spectrum producer and consumer', f'{CO}: rotate_gauss_fft, synth_rotate_gauss; {CH}: CHAOS.synth_coeffs_gsm, synth_coeffs_sm')])
p('C25', 'The RC index is read, converted and selected correctly',
  'The external field uses the external RC column and the induced field the induced RC column, linearly interpolated '
  'in time, the same from the text file as from the HDF5 file made from it. Converting the text file keeps every column, '
  'and a conversion whose input cannot be read leaves an existing file as it was. RC values given by the caller replace those of the file entirely.',
  ['inputs'], 'all RC series, times and both file formats',
  'the tests need an RC file that is absent', [DU, CH],
  [('columns', f'{DU}: load_RC_datfile, save_RC_h5file; {CH}: CHAOS.synth_coeffs_sm')])
p('C32', 'Text-model loaders build the spline the file describes',
  'Loading a COV-OBS, gufm1, CALS or IGRF text file gives a model whose coefficients at any time inside its period are '
  'those of the spline with the break points, order and coefficients listed in the file, degree and order in the listed sequence, '
  'years converted to modified Julian dates.',
  ['inputs'], 'all file contents with the documented layout',
  'the tests need data files that are absent', [CH],
  [('loaders', f'{CH}: load_CovObs_txtfile, load_gufm1_txtfile, load_CALS7K_txtfile, load_IGRF_txtfile')])

# ------------------------------------------------------------------ not in reach
p('C90', 'Legendre functions stay accurate to degree 200 in floating point',
  'The normalised associated Legendre functions returned for any colatitude agree with exact values to near machine '
  'precision up to degree 200.', ['inputs'], 'all colatitudes, all degrees up to 200',
  'tests compare low degrees', [MU], [('recursion', f'{MU}: legendre_poly')],
  na='error growth of a floating-point recursion over all colatitudes is a numerical quantity that no static argument '
     'in reach bounds; the exact-arithmetic recursion itself is decided under C16')
p('C91', 'The sun position is accurate to 0.01 degree between 1901 and 2099',
  'The computed colatitude and longitude of the sun give a direction within 0.01 degree of the astronomical one at every '
  'time between 1901 and 2099, angles lie in [0, 180] and (-180, 180] degrees, and the result has the shape of the times. '
  'Times before 1901 or after 2099 are refused.',
  ['inputs'], 'all times of the range, scalars and arrays',
  'tests compare a few dates', [CO], [('ephemeris', f'{CO}: sun_position')])
p('C92', 'The layered-Earth response solves the induction equation',
  'The response of a spherically layered conductor equals the layer-by-layer solution of the induction equation for both kinds of '
  'layers, every period (one number or a vector), degree and number of layers, apparent resistivity, phase and Q-response '
  'following from the C-response. The response used for induced fields takes the configured conductivity model, has one row for each '
  'degree and vanishes at zero frequency.', ['inputs', 'configurations'],
  'all periods, degrees and conductivity models', 'tests compare one model', [CO], [('response', f'{CO}: q_response_1D, q_response')])
p('C93', 'Rotation matrices of Gauss coefficients are exact for band-limited fields',
  'The matrix relating Gauss coefficients in a rotated frame to those in the geographic frame is exact: for every degree '
  'and every order of the axes, the potential expanded with the rotated coefficients equals the original potential at every '
  'point, rows and columns following the order of the coefficients. The spherical harmonic analysis behind it returns the '
  'coefficients of any band-limited function.',
  ['inputs'], 'all base vectors, degrees in both frames', 'tests compare one case', [CO],
  [('quadrature', f'{CO}: rotate_gauss, sh_analysis')])
p('C94', 'Fitting splines of order three and more to a text file is well conditioned',
  'The least-squares refit of a spline from its samples reproduces it to the printed precision for any break spacing.',
  ['inputs'], 'all break spacings', 'tests read two files', [CH], [('refit', f'{CH}: BaseModel.from_shc')],
  na='conditioning of a run-time least-squares problem; C22 decides that the samples determine the spline and that the '
     'fit is set up with the right knots, order and samples')

p('C95', 'Inputs of the wrong shape or size are refused',
  'Values for which there is no right answer raise an error instead of giving numbers, a file or a figure, however many of them '
  'there are and wherever in the input the odd one stands: correlation and sensitivity of arrays that are not both vectors of one '
  'length; degrees below one or above those of the coefficients in field synthesis, a minimum degree above the maximum in field '
  'synthesis, design matrices and SHC files; a static part of a design matrix below the degree of the time-dependent part; times and positions that '
  'do not pair up or broadcast; break points that are not a vector, and coefficients of another number of pieces or splines than the '
  'break points make; base vectors of different shapes, base vectors at a pole, a dipole of more than three numbers; periods and '
  'conductivities that are not vectors; plot layouts with another number of cells than there are plots; RC values of another number '
  'than the times; SHC rows with too few or too many numbers.',
  ['inputs'], 'all values of the inputs, at sizes, positions and options enumerated', 'tests call with inputs that fit',
  [MU, CO, DU, CH, PU],
  [('spectra', f'{MU}: degree_correlation, sensitivity'), ('degrees', f'{MU}: synth_values, design_gauss, design_matrix'),
   ('splines', f'{MU}: augment_breaks; {CH}: Base.synth_coeffs, BaseModel.from_bspline'),
   ('frames', f'{CO}: rotate_gauss, basevectors_use, q_response_1D'), ('plots', f'{PU}: plot_timeseries, plot_maps'),
   ('files', f'{DU}: save_shcfile, load_shcfile')])

p('C96', 'Whole numbers give the same results as floating-point numbers',
  'Every public function, method, constructor, text export and plot gives the same result (and raises for the same values) when its '
  'numeric inputs - coordinates, times, coefficients, break points, knots, spectra parameters, RC values, dipoles - are whole numbers '
  'stored as integers (a number or an array) as when the same numbers are stored in floating point: nothing is truncated to the '
  'type of an input and no documented input is refused for its type.',
  ['inputs'], 'all values of the inputs, over the catalogue of public calls with every option branch', 'tests use floating-point data',
  [MU, CO, DU, CH, PU],
  [('spectra', f'{MU}: power_spectrum, degree_correlation, sensitivity'), ('splines', f'{MU}: colloc_matrix, synth_from_pp'),
   ('models', f'{CH}: Base.__init__, Base.synth_coeffs, CHAOS.synth_coeffs_sm'), ('frames', f'{CO}: _dipole_to_unit, center_azimuth'),
   ('times', f'{DU}: mjd2000, dyear_to_mjd, save_shcfile')])

p('C97', 'Figures label and scale what they show',
  'In every figure each array has its own subplot, row by row in the order given, with the title of that array and the common label, '
  'for every layout with as many cells as arrays (any other layout is refused with ValueError). Options given by the user win over '
  'defaults and None means the default of: figure size, titles, label, layout, colormap, limiter, projection and shading; further options '
  'reach the matplotlib drawing call unchanged in every subplot (falsy values such as 0 included) and no other option does. The colour limits of a map default to plus '
  'and minus the value of the limiter, by default the largest absolute value (of a figure with one map); a given vmin or vmax is used as given. Zero values of a power spectrum are gaps and all '
  'others are drawn as they are, over whole degrees on a logarithmic axis. The coastlines of the configured file appear in every map with '
  'longitude and latitude in radians. Figures of models are labelled with the unit of the values they show (nT for the field, nT/yr, '
  'nT/yr^n for its derivatives, the square for spectra), and the titles name the component in that subplot, for maps the '
  'degree and derivative, for external maps the source and reference frame.',
  ['options', 'inputs'], 'all values drawn; layouts, options and derivatives enumerated', 'the stable tests draw nothing; nobody looks at a figure in a test',
  [PU, CH, DU],
  [('subplots', f'{PU}: plot_timeseries, plot_maps, plot_power_spectrum'), ('options', f'{PU}: defaultkeys'),
   ('units', f'{DU}: gauss_units'),
   ('models', f'{CH}: BaseModel.plot_maps, BaseModel.plot_timeseries, BaseModel.plot_power_spectrum, CHAOS.plot_maps_static, '
    'CHAOS.plot_maps_external')])

p('C98', 'Warnings state what was done',
  'The warning about an evaluation outside the period of a spline model gives the start and end of that period and names the '
  'extrapolation that is done, for every order of the spline and every way to ask for the method. A maximum degree (of the time-dependent, static, GSM or SM part) above that '
  'of the model is announced with the requested and the used degree (or number of coefficients), one within the model is not '
  'commented on. Euler angles are announced as lacking the pre-rotation, with its angles, exactly for satellites that have one. Reading the '
  'built-in RC-index is announced together with the CHAOS version it is for, and only when it is read. A MAT-file without the static, external, Euler '
  'or calibration part is loaded with a warning naming each missing part and no other. An empty configuration file gives a warning. '
  'With verbose, the composite model names each part it computes with its degree, and prints nothing otherwise. The comment lines of a saved '
  'coefficient file name the model and state the degrees, number of points, order, spacing of the break points and leap-year convention the file really has; '
  'a header given by the user stands first as it is, and the file announced as saved is the one written.',
  ['inputs', 'options'], 'all models and times; orders, methods, degrees, sources and missing parts enumerated',
  'tests ignore warnings', [CH, CU],
  [('extrapolation', f'{CH}: Base.synth_coeffs'), ('degrees', f'{CH}: BaseModel.synth_coeffs, BaseModel.synth_values, CHAOS.synth_coeffs_gsm, CHAOS.synth_coeffs_sm'),
   ('satellites', f'{CH}: CHAOS.synth_euler_angles'), ('RC-index', f'{CH}: CHAOS.synth_coeffs_sm'),
   ('files', f'{CH}: load_CHAOS_matfile; {CU}: BasicConfig.load'), ('progress', f'{CH}: CHAOS.__call__'),
   ('file comments', f'{CH}: CHAOS.save_shcfile, BaseModel.to_shc; {DU}: save_shcfile')])

p('C99', 'Optional arguments take their documented defaults',
  'For every public function, method and loader, leaving out an optional argument gives the same result (and the same files and '
  'drawings) as passing the default its documentation states: among them linear extrapolation, no derivative, the full degree of the '
  'coefficients (85 for the static field of the composite model), degree 1 as the lowest, internal sources (external for GSM and SM '
  'coefficients, all for their field values), no grid, the configured surface radius and dipole, decimal years of 365.25 days for '
  'models and of their true length for the file and time functions, order 1 files, one-hour samples over eight years from Jan 1, 2000 in '
  'GSM, the epoch 2015, the first of January at midnight. A loaded model is named after its file without the extension (CALS7K: the '
  'file name), and the Euler angles of a MAT-file after the documented list of satellites. A freshly imported package has the '
  'documented radii (6371.2 km, 3485 km, WGS84 6378.137 km and 6356.752 km), day number 730485, the IGRF-12 dipole of 2015 and '
  'the files of its own library folder.',
  ['inputs', 'options'], 'all values of the other arguments; one optional argument left out at a time',
  'tests pass a few options and leave out others, never compare the two', [CH, MU, CO, DU, CU],
  [('functions', f'{MU}, {CO}, {DU}: all functions with optional arguments'), ('models', f'{CH}: Base, BaseModel, CHAOS: all methods with optional arguments'),
   ('loaders', f'{CH}: load_CHAOS_matfile, load_CHAOS_shcfile, load_IGRF_txtfile, load_CovObs_txtfile, load_gufm1_txtfile, load_CALS7K_txtfile'),
   ('configuration', f'{CU}: DEFAULTS')])


p('C34', 'A model describes exactly the data it was constructed from',
  'Base and BaseModel objects keep the break points, coefficients, name, source (internal unless given) and meta data they are constructed '
  'with, given as arrays, lists or tuples: pieces is the number of break points minus one, order the smaller of the given order and the '
  'number of coefficient rows (the rows of lowest degree are kept; all rows without an order), dim and nmax follow from the number of '
  'coefficients, a single break point is repeated and gives a model of one piece, missing parts stay None. On each piece '
  'the coefficients are the polynomials with the highest power first in days since the break point of the piece, which belongs to the '
  'piece that starts there, the last one to the last piece. A model made from B-splines has the break points of their knots and equals the spline; '
  'to_ppdict gives the MATLAB pp-form. A CHAOS model has exactly the given parts (the others are None): the static field constant from the first to the '
  'last break point, external degrees from the number of coefficients, and each satellite its own Euler angles and calibration, with the pre-rotation '
  'at its position in the meta data. Construction never warns.',
  ['inputs', 'configurations'], 'all coefficients and break points, all combinations of parts',
  'tests construct a handful of models and look at few attributes', [CH],
  [('constructors', f'{CH}: Base.__init__, BaseModel.__init__, CHAOS.__init__, BaseModel.from_bspline'), ('pp-form', f'{CH}: Base.to_ppdict'),
   ('evaluation', f'{CH}: Base.synth_coeffs')])


p('C35', 'The documented interface is available under its documented names and arguments',
  'Every documented function, class and method exists in its module, and the package itself offers CHAOS, the loaders, basicConfig, synth_values, '
  'mjd2000, timestamp, dyear_to_mjd and mjd_to_dyear as the same objects, also to a star import. All arguments can be given by their documented names '
  'in any order, and those before the keyword-only ones in their documented positions, with the same results, files, drawings and refusals. '
  'A keyword the function does not have is refused with a TypeError, never dropped (plotting functions hand theirs to Matplotlib).',
  ['inputs', 'options'], 'all values of the arguments; arguments enumerated',
  'tests call each function in one form, a dropped or renamed argument shows only in another', [CH, MU, CO, DU, CU, PU, 'chaosmagpy/__init__.py'],
  [('functions', f'{MU}, {CO}, {DU}: all documented functions'), ('models', f'{CH}: Base, BaseModel, CHAOS: all methods'),
   ('configuration', f'{CU}: BasicConfig'), ('package', 'chaosmagpy/__init__.py: __all__')])


def main():
    sys.setrecursionlimit(20000)
    from vg import rules      # noqa
    from vg.harness import REG
    claimed = set(REG)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['rec']['id']):
            f.write(json.dumps(x['rec']) + '\n')
    checks, na = [], []
    for x in sorted(P, key=lambda x: x['rec']['id']):
        r = x['rec']
        if r['id'] in claimed:
            t, k, _ = REG[r['id']]
            assert t == r['title'], (r['id'], t, r['title'])
            checks.append(dict(
                property=r['id'], quick_cmd=f'python3-vt run.py {r["id"]} --tier quick',
                thorough_cmd=f'python3-vt run.py {r["id"]} --tier thorough', technique=k, level='other',
                level_note='Static: decided on the syntax trees of the current source; no code of the package is executed '
                           'or imported. Sound up to the library models (vg/npmodel.py, extmodel.py, extlibs.py), real '
                           'arithmetic instead of floating point, the finite list of contexts named in the evidence, and '
                           'the error probability of random interpretation where normal forms differ. A construct the '
                           'interpreter does not model makes its obligation undecided, never violated.'))
        else:
            na.append(dict(property=r['id'], reason=x['na'] or 'check under construction'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3-vt -c "import numpy"', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed;', [n['property'] for n in na])


main()
