"""Properties and how they are decided; bin/gen writes properties.jsonl and
MANIFEST.json from this."""

UVC = ['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/uvio.c',
       'aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/maskio.c', 'aipy/_miriad/mir/bug.c']

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, state=state, observe=observe))


REPLAY = 'TLA+ specification checked exhaustively with TLC; TLC-generated behaviours replayed into the code and recorded traces judged by the specification'
JUDGED = 'TLA+ specification checked exhaustively with TLC; traces recorded from the code judged event by event by the specification'
SMALL = ('The model is exhaustive only for the constants in its cfg; the code is bound by sampled behaviours (seeded), '
         'each judged in full. ')

prop('U01', 'Visibility records read back exactly, in order, and again after rewind',
     'Every record written to a Miriad UV data set - data, flags, uvw, time and baseline - is read back with the same '
     'values, in the order written, the same number of times, through masked-array and raw interfaces. The end of the data '
     'is reported exactly after the last record, and rewinding gives the same sequence again. Flagged samples keep their values and flags stay with their channel.',
     ['inputs', 'histories'],
     'for all sequences of writes (channel counts, flag patterns, times, baselines, preambles that repeat), reads and rewinds',
     'The tests write a handful of records with a fixed layout; run-length coded flags, block boundaries, delta-coded '
     'preambles and rewinding depend on the whole history of writes.',
     UVC, [('UV.write/UV.read/raw_write/raw_read', 'aipy/miriad.py, aipy/_miriad/miriad_wrap.cpp'),
           ('uvwrite_c, uvread_c, uv_scan', 'aipy/_miriad/mir/uvio.c'), ('mkwrite_c/mkread_c bit masks', 'aipy/_miriad/mir/maskio.c')],
     REPLAY, SMALL + 'Records of a data set are at most as wide as the first one, except in the known finding.',
     observe=['UV.read()', 'UV.all()', 'UV.rewind()'])

prop('U02', 'Variables follow their timeline; header items keep their values',
     'At every record read, each variable of a data set has the value that was last set before that record was written, '
     'with its type and length, whether it was set once, often, or to the same value again. Header items read back as last set. '
     'A value that does not fit its type is refused and leaves what was there.',
     ['inputs', 'histories'],
     'for all sequences of declaring and setting variables of every type, writing, reading and rewinding',
     'Variables are stored only when they change, so what a record shows depends on the history of all sets before it; '
     'the tests set a few variables once.',
     UVC, [('UV.__getitem__/__setitem__/add_var, _wrhd/_rdhd', 'aipy/miriad.py'),
           ('uvputvr_c, uvgetvr_c, uv_override, uv_scan', 'aipy/_miriad/mir/uvio.c')],
     REPLAY, SMALL + 'Text is compared up to trailing NUL characters; after rewind a variable that has no value yet may show an old one.',
     observe=['UV[...]', 'UV.vars()', 'UV.items()'])

prop('U03', 'Appending keeps what a data set already holds',
     'Opening a data set to append and writing to it leaves every record, variable value and header item that it held readable as before, '
     'followed by the new records with their own variable values. This holds for any number of append sessions.',
     ['histories', 'inputs'],
     'for all histories of create, write, close, append, write, close, with variables set, set again or new in any session',
     'Block-buffered items and bit masks that end anywhere within a word are continued on append; the tests append nothing.',
     UVC, [('uvopen_c append', 'aipy/_miriad/mir/uvio.c'), ('haccess_c append, hwriteb', 'aipy/_miriad/mir/hio.c'),
           ('mkopen_c, mkflush_c', 'aipy/_miriad/mir/maskio.c')],
     REPLAY, SMALL + 'Nothing else has the data set open during an append.', observe=['UV(filename, "append")', 'UV.read()'])

prop('U04', 'Open data sets are independent and survive errors on each other',
     'Operations on one open data set never change what another shows or stores, whichever order they are opened, used and closed in. '
     'An operation that fails raises and leaves every other open data set, and the files on disk, as they were. '
     'Refused operations (creating what exists, opening what does not, writing to a reader) do not damage what exists.',
     ['histories', 'fault_sequences'],
     'for all interleavings of operations on several readers and writers, with failing operations anywhere among them',
     'The library keeps all handles in global tables and recovers from errors with a jump; tests use one or two handles and no failing operation in between.',
     UVC, [('handle tables uvs[], item cache', 'aipy/_miriad/mir/uvio.c, aipy/_miriad/mir/hio.c'),
           ('bug_c / bugrecover_c', 'aipy/_miriad/mir/bug.c'), ('try/catch around miriad calls', 'aipy/_miriad/miriad_wrap.cpp')],
     REPLAY, SMALL + 'At most about six handles at a time, and hundreds of failing opens.', observe=['UV.read()', 'UV[...]'])

prop('U05', 'Selections give exactly the records that they describe',
     'Reading under a composition of selections (antennae, auto, time, polarization, uv range in nanoseconds or wavelengths, frequency, '
     'visibility number, pointing, pulsar bin, ranges on ra, dec, lst, ha, elevation, dazim and delev, decimation, include and exclude, '
     'and/or, clear) returns exactly the records of the data set that the composition describes, in order; spectral windows choose the '
     'channels of these and an amplitude range flags the channels outside of it. '
     'This holds also when the selection changes while reading and after rewind; an invalid selection raises and changes nothing.',
     ['inputs', 'histories'],
     'for all data sets and all sequences of select, clear, read and rewind',
     'The meaning of a selection depends on the whole sequence of calls; tests try a few single selections on one file.',
     UVC, [('UV.select', 'aipy/miriad.py'), ('uvselect_c, uvread_select, uvread_maxvis', 'aipy/_miriad/mir/uvio.c'),
           ('decimation in raw_read', 'aipy/_miriad/miriad_wrap.cpp')],
     REPLAY, SMALL + 'Ranges are on exactly representable values; antennas up to 2046; a selection by '
     'source or shadowing is not modelled, nor one that combines windows with or.', observe=['UV.select()', 'UV.read()'])

prop('U06', 'Cloning a data set through pipe changes only what is asked',
     'A data set initialised from another and filled through pipe holds, for every selected input record that the mapping function does '
     'not drop, the record that the function returned, with every variable at the value it had in the input at that record. '
     'Overridden variables and items keep the override, excluded ones are absent, all other items are copied, and the history is appended to.',
     ['inputs', 'histories', 'programs'],
     'for all input data sets, selections, overrides, exclusions and mapping functions (pass, change, drop, set variables)',
     'Variables are copied only when they change in the input, so dropping records and decimation interact with the history; tests pipe whole files unchanged.',
     UVC, [('UV.init_from_uv, UV.pipe', 'aipy/miriad.py'), ('uvcopyvr_c, uvtrack_c', 'aipy/_miriad/mir/uvio.c')],
     REPLAY, SMALL + 'The mapping function does not set variables that are copied from the input.',
     observe=['UV.pipe()', 'UV.init_from_uv()'])

prop('U07', 'Baseline numbers and polarization codes are one-to-one',
     'Packing two antenna numbers into a baseline number and unpacking it gives the same pair with the smaller first, for every pair '
     'up to 2046, in either order, and different pairs have different numbers; below 255 the number is the traditional Miriad one. '
     'Every polarization name maps to its standard code and back.',
     ['inputs'], 'for all antenna pairs up to 2046 (either order) and all polarization names',
     'Tests check a few pairs; the switch of coding at antenna 255 and the number range need all pairs.',
     ['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.cpp'],
     [('ij2bl, bl2ij, str2pol, pol2str', 'aipy/miriad.py')],
     JUDGED, 'The coding is proved one-to-one by TLC up to the cfg bound over all pairs; the code is compared on all small pairs, the edges and random ones.')

prop('U08', '16-bit data sets keep every sample within the scale of its record',
     'A data set written in 16-bit mode reads back with each real and imaginary part within half a unit of the record\'s own scale of what '
     'was written, where the largest part of the record spans the 16-bit range; zero stays zero, and flags, preambles and variables are exact. '
     'Each record is read with its own scale, also after selection and rewind.',
     ['inputs', 'histories'], 'for all sequences of records with different magnitudes, signs and widths',
     'The scale is a variable stored per record and only when it changes; tests write 16-bit data once.',
     UVC, [('uvwrite_c corr H_INT2, tscale', 'aipy/_miriad/mir/uvio.c')],
     JUDGED, SMALL + 'Data are integers below 2^24 times a power of two, so the bound is decided in integers.')

prop('U09', 'read_files gathers every selected record, once, under its keys',
     'Reading a list of files with antenna and polarization strings and decimation returns, per baseline and polarization, exactly the selected records, '
     'data and flags, in file and time order, and the time axis once per time, with the matching header values. '
     'A single file name means that one file.',
     ['inputs', 'configurations'], 'for all lists of files, antenna strings, polarization strings and decimations',
     'The result depends on the interplay of selection, decimation and file order; tests read one file.',
     ['aipy/miriad.py', 'aipy/scripting.py'], [('read_files', 'aipy/miriad.py'), ('uv_selector', 'aipy/scripting.py')],
     JUDGED, SMALL)

prop('S01', 'Antenna strings select the baselines they describe',
     'An antenna string (numbers, groups in parentheses, exclusions, per-antenna polarizations, all/auto/cross) parses to the baselines, '
     'signs and polarizations that it describes, and a data set selected with it and a polarization string yields exactly those records. '
     'Either order of two antennas means the same baseline, with its polarizations swapped accordingly.',
     ['inputs'], 'for all strings of the documented grammar, all numbers of antennas and all data sets',
     'Tests compare a dozen literal strings; the grammar is a product of groups, signs and polarizations.',
     ['aipy/scripting.py', 'aipy/miriad.py'],
     [('parse_ants, ant_re, bl_re, uv_selector', 'aipy/scripting.py')],
     JUDGED, SMALL + 'Exclusion terms with polarizations and parenthesised groups without a partner are not asserted.')

prop('S02', 'Channel and source strings select what they describe',
     'A channel string (all, numbers, comma lists, ranges with steps and their _ separators) parses to exactly the channels that it describes, in order. '
     'A source string parses to the named sources, or the flux cutoff and frequency, that it describes.',
     ['inputs'], 'for all strings of the documented grammar and all channel numbers',
     'Tests compare a few literal strings; ranges, lists and cutoffs combine freely.',
     ['aipy/scripting.py'], [('parse_chans, parse_srcs', 'aipy/scripting.py')],
     JUDGED, SMALL)

prop('S03', 'Parameter strings name exactly the parameters they describe',
     'A fitting parameter string (objects, parameters, groups in parentheses, starting values and sigmas) parses to exactly the '
     'object-parameter pairs it describes, each with its own value and sigma. Every object of a group has every parameter of the group.',
     ['inputs'], 'for all strings of the documented grammar',
     'Tests compare a few literal strings; the grammar is a product of groups, values and sigmas.',
     ['aipy/scripting.py'], [('parse_prms, name, grp, prm_rgx', 'aipy/scripting.py')],
     JUDGED, SMALL)

prop('P01', 'Flattened parameters go back to where they came from',
     'Flattening a dictionary of parameters, however deep, gives a list with every number exactly once; rebuilding from the list, or from a list of new numbers '
     'of the same order, puts each number back in its place, lists (also of one or no number) as lists and numbers as numbers. '
     'Getting parameters of an object, flattening, fitting and setting thus changes each parameter as the fit says and nothing else.',
     ['inputs'], 'for all parameter trees and all new values',
     'Tests flatten one fixed dictionary; mixtures of depth, lists and empty parts shift positions.',
     ['aipy/fit.py'], [('flatten_prms, reconstruct_prms', 'aipy/fit.py')],
     JUDGED, SMALL + 'Places are judged through values: old numbers that are equal are replaced by equal ones.')

prop('P02', 'Parameters show what was last set, on every object that has them',
     'After any sequence of set_params and get_params on sources, catalogues, beams, antennas and arrays (polarized or not), every parameter shows the value that was last set '
     'through any object that shares it, and as created otherwise. Names that an object does not have are ignored, queries return exactly what they name, '
     'setting what was returned restores it, and a returned dictionary never changes afterwards nor changes the object.',
     ['histories', 'inputs'], 'for all sequences of get and set on objects that share beams or belong to groups',
     'Tests set one parameter once; aliasing between objects, derived parameters (dly, off) and wildcards need histories.',
     ['aipy/fit.py', 'aipy/pol.py', 'aipy/_src/helm.py', 'aipy/phs.py', 'aipy/amp.py'],
     [('get_params/set_params of each class', 'aipy/fit.py, aipy/pol.py, aipy/_src/helm.py')],
     JUDGED, SMALL + 'Queries with both a wildcard and names, and sets that give both phsoff and dly/off with different values, are not asserted.',
     observe=['get_params()'])

prop('A01', 'Simulated visibilities follow the current sky, gains, positions and beams',
     'After sim_cache, sim(i,j) is the sum over the sources that are above the horizon of flux, beam response, passband, phase, refraction and resolution, '
     'in each active channel and the active polarization, for the current time and current antenna parameters, in whatever order these were set. '
     'Sources below the horizon contribute nothing; simulating before sim_cache at a new time, or without a polarization, is refused.',
     ['histories', 'inputs', 'configurations'],
     'for all arrays, skies, times, channel selections, polarizations and orders of setting them',
     'Results depend on caches of several objects that must be refreshed after each kind of change; tests simulate once.',
     ['aipy/amp.py', 'aipy/phs.py', 'aipy/pol.py', 'aipy/fit.py', 'aipy/coord.py'],
     [('sim_cache, sim, bm_response, passband', 'aipy/amp.py'), ('gen_phs, gen_uvw, refract, resolve_src', 'aipy/phs.py'), ('AntennaArray, Antenna', 'aipy/pol.py')],
     JUDGED, SMALL + 'Times, positions, gains and frequencies are chosen so that the exact result is a Gaussian integer; ephemerides themselves are not modelled. '
     'After select_chans, set_pointing or a beam parameter, sim_cache comes before sim.',
     observe=['AntennaArray.sim()'])

prop('A02', 'Baselines, phases and gains follow the current array',
     'Baselines (raw, equatorial, zenith, towards a source), uvw, phase factors, passbands, phase offsets (also of the Stokes parameters), active frequencies and baseline lists are those of the current '
     'antenna parameters, time, channels and polarization after any history of changes. Phasing to a source and back restores the data; a source below the horizon is refused.',
     ['histories', 'inputs', 'configurations'],
     'for all arrays, directions, times, channel selections and orders of setting them',
     'Tests check single values with fixed arrays; sign, order and refresh errors show only in other geometries and after changes.',
     ['aipy/phs.py', 'aipy/amp.py', 'aipy/pol.py', 'aipy/fit.py', 'aipy/coord.py'],
     [('get_baseline, gen_uvw, gen_phs, phs2src, bl_indices', 'aipy/phs.py'), ('eq2top_m, rot_m', 'aipy/coord.py')],
     JUDGED, SMALL + 'Directions are quarter turns in hour angle and 3-4-5 declinations and latitudes.',
     observe=['AntennaArray.gen_phs()', 'AntennaArray.gen_uvw()'])

prop('A03', 'Beams respond as their parameters, channels and pointing say',
     'The response of a flat, Gaussian or polynomial beam in every direction is that of its current parameters in each of its active channels, in the order selected, '
     'for one direction or many: one where it points, an even Gaussian of the angle whose widths are those given (infinite unless given), or whose width is the given polynomial in azimuth and frequency. '
     'An antenna shows its beam turned to where it points and by its twist, and by a quarter turn for polarization y; antennas that share a beam share its parameters and channels. '
     'Stokes responses are those of both polarizations combined, and get_params returns what was set.',
     ['inputs', 'histories', 'configurations'],
     'for all beams, parameters, channel selections, pointings, directions and orders of setting them',
     'The tests take a beam at the zenith, or compare shapes; azimuth and frequency terms, axes, twists and refreshes after changes show only in other directions and histories.',
     ['aipy/amp.py', 'aipy/fit.py', 'aipy/pol.py', 'aipy/phs.py', 'aipy/coord.py'],
     [('Beam, Beam2DGaussian, BeamPolynomial, Antenna.set_pointing, bm_response', 'aipy/amp.py'), ('Beam.select_chans', 'aipy/phs.py'), ('get_params, set_params', 'aipy/fit.py'), ('Antenna.bm_response', 'aipy/pol.py')],
     JUDGED, SMALL + 'Widths, zenith angles and arcsines are multiples of 15 degrees, azimuths of 30, pointings of 90. Beams of spherical harmonics are property M03.',
     observe=['response()', 'Antenna.bm_response()', 'get_params()'])

prop('C01', 'Catalogue queries return exactly the sources that were asked for',
     'A catalogue query returns the sources of the listed catalogues that are named, or whose flux at the given frequency is above the cutoff, or all of them; '
     'of two sources of a name the one of the later catalogue, and objects given in the query as themselves. Unknown names and catalogues are ignored. '
     'A catalogue whose file cannot be read is refused every time until the file is there; earlier queries never change later answers. '
     'Listing, adding to and reading attributes of the resulting catalogue agree with its sources.',
     ['inputs', 'histories', 'faults'],
     'for all catalogue contents, sequences of queries, cutoffs and orders of installing files',
     'Each process caches catalogues at first use; tests that need a catalogue file fail or are skipped when it is missing, and one name is looked up once.',
     ['aipy/src.py', 'aipy/cal.py', 'aipy/phs.py', 'aipy/_src/'],
     [('get_catalog', 'aipy/src.py, aipy/cal.py'), ('get_srcs of each catalogue module', 'aipy/_src/*.py'), ('SrcCatalog.add_srcs/get_srcs/get', 'aipy/phs.py'), ('update_jys', 'aipy/amp.py, aipy/_src/helm.py')],
     JUDGED, SMALL + 'Sources that several queries share are the same objects and are not changed between queries.',
     observe=['src.get_catalog()', 'cal.get_catalog()'])

prop('C02', 'Catalogue files are read as published',
     'From each of the 15 published file formats every row with a source gives one source with the position, name, flux in Jy, frequency of measurement and spectral index '
     'of that row; comments, headings, rules and truncated rows give none, and rows without usable flux do not take the flux of another column. The sources that come with the package are where, and as strong, as they are listed.',
     ['inputs'], 'for all files in the documented formats',
     'Published tables are not part of the repository, so that the tests of most formats cannot run at all.',
     ['aipy/_src/'], [('fromfile of each catalogue module', 'aipy/_src/*.py')],
     JUDGED, 'The files are written by the driver in the documented layouts (tab separated from Vizier, fixed width for Helmboldt et al., blanks for MRT). '
     'Culgoora rows without any usable flux are not asserted.',
     observe=['get_catalog()'])

prop('C03', 'Sources are listed and placed as asked',
     'srclist.py prints, in the order of their names and divided as asked, exactly the sources that are asked for (all, by name or place, or by flux), are not among those to exclude, are within the given separation of one of the given '
     'centres, and lie within the given ranges of right ascension (which may run over 24 h) and declination, at their places of the given date; bodies that move are left out without a date and are where they are on it with one. It prints '
     'exactly the asked parameters that a source has, with their values, and in the other format a string that fitmdl takes as those parameters of these sources. lst tells, for each given time in turn, the sidereal time of the '
     'place, where Sun and Moon are, and of each source asked for its altitude and its next transit.',
     ['inputs'], 'for all catalogues, selections, dates and places of observers',
     'No test runs a script, and the code of selections has a branch per kind of source and range.',
     ['scripts/srclist.py', 'scripts/lst', 'aipy/scripting.py', 'aipy/fit.py', 'aipy/src.py'],
     [('selections and output', 'scripts/srclist.py'), ('times and sources', 'scripts/lst'), ('parse_srcs, parse_prms', 'aipy/scripting.py'), ('SrcCatalog.get_params, print_params', 'aipy/fit.py')],
     JUDGED, 'A source within 0.2 degrees of the end of a range may be listed or not (precession over centuries is in the specification, nutation and aberration are not); the Moon is checked to ten degrees, the Sun and altitudes to one.', observe=['scripts/srclist.py', 'scripts/lst'])

prop('M01', 'Maps of the sphere keep each place its value',
     'A HEALPix map returns at each pixel, direction (angles or vectors, of any length) and in either ordering the value that was last assigned to that place; values given for one place in one '
     'assignment are summed and other places keep theirs. Changing the ordering, copying from a map of the other ordering, and writing and reading FITS files move no value to another place; '
     'lowering the resolution sums the pixels of each coarser one, raising it interpolates. No operation changes another map. Pixel numbers and positions are those of the HEALPix convention; '
     'impossible pixels and sizes are refused and change nothing.',
     ['histories', 'inputs'], 'for all resolutions, orderings, data types, sequences of operations and forms of coordinates',
     'Tests look at single conversions and assignments on a fresh map; a wrong ordering label or a flag that is left behind shows only in later operations.',
     ['aipy/healpix.py', 'aipy/utils/utils.cpp'],
     [('HealpixBase.crd2px/px2crd/nest_ring_conv', 'aipy/healpix.py'), ('HealpixMap.__setitem__/__getitem__/change_scheme/from_hpm/set_map/to_fits/from_fits', 'aipy/healpix.py'), ('add2array', 'aipy/utils/utils.cpp')],
     JUDGED, SMALL + 'Resolutions up to 8; positions are centres of pixels. Interpolated values are bounded, not computed.',
     observe=['HealpixMap[...]', 'HealpixMap.scheme()'])

prop('M02', 'Weighted maps average all that was added',
     'A Map gives at each place the average of all fluxes (and further indices) that were added there, weighted as they were added, however often a place occurs in one call or in several; '
     'put() replaces what is there, places with no weight are zero, resetting the weights keeps the averages, and neither copying from other maps (of either ordering, or finer) nor FITS files change any of this.',
     ['histories', 'inputs'], 'for all sequences of add, put, get, reset and copy on maps of all resolutions and orderings',
     'There are no tests of this module.',
     ['aipy/map.py', 'aipy/healpix.py'],
     [('Map.add/put/get/__getitem__/reset_wgt/set_nindices/from_map/to_fits/from_fits', 'aipy/map.py')],
     JUDGED, SMALL + 'Weights are not negative; reset_wgt() is called with its default.',
     observe=['Map[...]', 'Map.get()'])

prop('M03', 'Harmonic coefficients, maps and beams agree',
     'Alm holds one coefficient for each l and m in its range, listed in the order of lm_indices(); lists of another size are refused. A map made from coefficients has the value that they describe at each place, '
     'without smoothing and in whatever ordering the map was, and turns back into the same coefficients, zero where the original had none. '
     'A BeamAlm responds with the polynomial in frequency of the given terms, for the active channels.',
     ['histories', 'inputs'], 'for all ranges of coefficients, values, resolutions and sequences of operations',
     'Tests check single coefficients and sizes.',
     ['aipy/healpix.py', 'aipy/amp.py'],
     [('Alm', 'aipy/healpix.py'), ('HealpixMap.from_alm/to_alm', 'aipy/healpix.py'), ('BeamAlm', 'aipy/amp.py')],
     JUDGED, SMALL + 'Up to l=4; the transforms themselves are those of healpy, compared to 0.1; exact values for l<2, m=0; maps from double precision coefficients only.',
     observe=['Alm.get_data()', 'BeamAlm.response()'])

prop('D01', 'Deconvolution accounts for the image',
     'CLEAN takes components from where the residual is strongest within the area (with pos_def only where it is positive), each the given gain of that residual, and ends by the given rules: when the residual grows '
     '(with stop_if_div, returning what came before), when it changes less than tol, or after maxiter steps, with the best that was found; the returned information says which. '
     'The residual that any of the methods returns is the image without the model seen through the kernel; nothing is placed outside the area or beyond the given bounds, '
     'CLEAN with pos_def takes nothing away, and the fit is no worse than the start. Inputs are not changed, every run ends, and recenter() moves each pixel around by the given shift.',
     ['inputs', 'configurations'], 'for all images, kernels (one and two dimensions, real and complex), areas, gains, tolerances and start models',
     'Tests deconvolve one kernel of one point source and look at the peak; ends, areas, ties and negative or complex kernels occur nowhere.',
     ['aipy/deconv.py', 'aipy/_deconv/deconv.cpp', 'aipy/img.py'],
     [('clean, lsq, maxent, maxent_findvar, anneal, recenter', 'aipy/deconv.py'), ('Clean<T>::clean_2d_r, clean_1d_r, clean_2d_c, clean_1d_c', 'aipy/_deconv/deconv.cpp')],
     JUDGED, SMALL + 'Exact outcomes for images whose steps are exact in binary (others by the laws); with stop_if_div=False an end by tol may be worse than the best.',
     observe=['deconv.clean()', 'deconv.lsq()', 'deconv.recenter()'])

prop('I01', 'UV planes and images account for every sample',
     'Samples put onto a UV plane are each spread around their place with the same total weight, whatever else is put in the same call or before, however the plane wraps around and for planes of any shape; '
     'the weights of each term likewise. Nothing is put down with apply=False, which returns what would be. Values got back at a place are the weighted mean of what was put around it, for the plane as it now is; '
     'the image is the transform of the plane with sources at the coordinates that get_LM()/get_top()/get_eq() give, and W projection shows at w=0 what samples at any w are of. '
     'append_hermitian() adds exactly the conjugate points; add2array adds every datum at its index for all data types and layouts; impossible indices and lengths are refused.',
     ['histories', 'inputs', 'configurations'],
     'for all samples, weights, planes and sequences of putting, getting and imaging',
     'There are no tests of img.py; tests of gridding use one square plane and of add2array a few indices.',
     ['aipy/img.py', 'aipy/_dsp/', 'aipy/utils/utils.cpp'],
     [('Img.put/get/image/bm_image/get_LM/get_top/get_eq/get_uv/get_indices/append_hermitian', 'aipy/img.py'), ('ImgW.put/get/conv_invker', 'aipy/img.py'),
      ('grid1D_c, grid2D_c, degrid2D_c', 'aipy/_dsp/grid/grid.c'), ('add2array', 'aipy/utils/utils.cpp')],
     JUDGED, SMALL + 'Samples at quarters of a cell; W projection on planes of 1, 2 and 4 cells at the resolution where pixels are 4/5 from the centre; arrays handed directly to _dsp are contiguous; '
     'what a refused put() leaves is asserted only for wrong numbers of data or terms.',
     observe=['Img.uv', 'Img.get()', 'Img.image()', 'utils.add2array()'])

prop('I02', 'Images in FITS files read back as they were written',
     'An image written with img.to_fits() is read back by img.from_fits() as it was given: its values in their shape (sides of length one dropped), its axes in their order, the position and step of right ascension (never a positive step), '
     'declination and frequency, the object, telescope, instrument, observer, origin, epoch and dates; the file gives the middle point of each axis as its reference, position and step of galactic and Stokes axes, and the least and greatest '
     'value. Of files made by other programs, what they have is read, turned where TRANSPOS says so. An existing file is replaced only with clobber=True; as many axes as the data have sides are needed (TypeError); what is refused changes '
     'no file, and no call changes another file or the array it is given. from_fits_to_fits() makes a file of the data given with the header of the input but for what is overridden. All of a history given (also to Map.to_fits()) is in '
     'the file, in order, and word_wrap() keeps every word in order, in lines shorter than the width, each as full as possible, with the prefix and indents asked for.',
     ['inputs', 'histories'], 'for all images, axes, keywords and texts, and sequences of writing, reading and copying',
     'There are no tests of img.py; to_fits and from_fits_to_fits failed with every version of astropy that can be installed.',
     ['aipy/img.py', 'aipy/map.py'],
     [('to_fits, from_fits, from_fits_to_fits, word_wrap', 'aipy/img.py'), ('Map.to_fits', 'aipy/map.py')],
     JUDGED, 'Values, positions and steps are multiples of 1/64; data types that FITS images have. bscale and bzero, the dates of today that are given by default, and one-character lines of a history are not asserted. '
     'Of a copy, the reference points of axes are asserted to be the middle or those of the input.', observe=['aipy/img.py', 'aipy/map.py'])

prop('K01', 'Coordinates name the same direction in every representation',
     'However often and in whatever order a direction is converted between vectors, polar angles, right ascension and declination, latitude and longitude, azimuth and altitude, and between equatorial, ecliptic and galactic '
     'systems of any epoch, it remains the same direction, with angles in the documented ranges, for single places and arrays of any shape, masked places staying masked and no others. '
     'eq2top_m takes what is at the hour angle and declination to overhead, with east and north as the x and y axes, top2eq_m is its inverse, and rot_m turns by the right hand; convert_m is the matrix of convert. '
     'pack_sphere and facet_centers give exactly the given number of points, evenly around the sphere, the same for both. Julian dates pass through the observer unchanged.',
     ['inputs', 'histories'], 'for all directions, orders of conversions, shapes, masks, systems and numbers of points',
     'Tests check a few places per function; composition, branch cuts, masks and most sizes are not sampled.',
     ['aipy/coord.py', 'aipy/map.py', 'aipy/phs.py'],
     [('convert, convert_m, rot_m, xyz2thphi, thphi2xyz, eq2radec, radec2eq, latlong2xyz, top2azalt, azalt2top, eq2top_m, top2eq_m', 'aipy/coord.py'),
      ('pack_sphere, facet_centers', 'aipy/map.py'), ('juldate2ephem, ephem2juldate, ArrayLocation.set_jultime', 'aipy/phs.py')],
     JUDGED, 'Directions are rational (products of Pythagorean angles), compared to 2e-5; systems to 5e-4 against published matrices, epochs J2000 and B1950.',
     observe=['coord.*', 'map.facet_centers()'])

prop('X01', 'Scripts make the data sets they say and leave what exists as it is',
     'Running a data reduction script on files makes one new data set per file, named by the file and the suffix of the script, and changes nothing that is there: existing outputs are skipped, '
     'inputs stay as they are, and a file that is missing leaves the data sets made before it. What is made holds what the script is for: the records of the asked polarizations (pull_pol) or antennae (pull_ants), '
     'the mean of the unflagged channels of each group with its frequency axis (combine_freqs, also several files joined), bandpass and scale (apply_bp), sums and differences (uv_addsub), the data less their '
     'crosstalk, from the data themselves or from stored models, also reprocessed (xtalk3). Times, baselines, coordinates, flags and other variables stay with their records, and the history grows. uvlist shows the values the file has.',
     ['inputs', 'histories'], 'for all data sets, flags, options, orders of scripts and files, with outputs of scripts as inputs of others',
     'No test runs a script; outputs depend on the chain of scripts, on flags per channel and on which files exist.',
     ['scripts/pull_pol.py', 'scripts/pull_ants.py', 'scripts/combine_freqs.py', 'scripts/apply_bp.py', 'scripts/uv_addsub.py', 'scripts/xtalk3.py', 'scripts/uvlist.py', 'aipy/miriad.py', 'aipy/pol.py'],
     [('mfunc of each script', 'scripts/*.py'), ('UV.init_from_uv, UV.pipe', 'aipy/miriad.py'), ('ijp2blp, blp2ijp', 'aipy/pol.py')],
     JUDGED, 'apply_bp only without linearization; a tie of flagged and unflagged channels may go either way; crosstalk models fit the data they are applied to.',
     observe=['scripts/*.py'])

prop('X02', 'Flagging scripts flag exactly the outliers, and what they were asked to flag',
     'xrfi_simple flags, per baseline and polarization, the samples whose value or second difference in frequency or time exceeds the given number of deviations from the median, with the edges of differences, the '
     'channels asked for and what was flagged before; with --combine, the same flags hold for all baselines and polarizations of a time, where at least the threshold number agree; flags stored in a file and applied from it are '
     'the same, and times without flags are flagged. xrfi in its manual mode flags the channels asked for, zeros, and (unless told not to) what was flagged, and shares flags per time when asked. Flagged data are zero; '
     'all else of the data sets stays, and existing outputs and inputs are left as they are.',
     ['inputs', 'histories'], 'for all data, flags, channels, thresholds and orders of runs',
     'No test runs a script; the flags depend on medians over whole files, on the grouping of records by baseline, polarization and time, and on shared masks.',
     ['scripts/xrfi.py', 'scripts/xrfi_simple.py', 'aipy/scripting.py'], [('masks by polarization, baseline and time; share_mask', 'scripts/xrfi.py, scripts/xrfi_simple.py'), ('parse_chans, uv_selector', 'aipy/scripting.py')],
     JUDGED, 'The statistical modes of xrfi are not asserted. A time, baseline and polarization occurs once per file.', observe=['scripts/xrfi*.py'])

prop('X03', 'Calibration and model scripts apply what the array model gives',
     'apply_cal, phs2src, flux_cal and mdlvis give for every record the factor or model visibility that the calibrated array gives for its time, polarization and antennae, whatever records came before it: divided by the passband, phased to '
     'the zenith, to no source or to a source (zero when it is down), or given its phase; divided by passband, beam and flux of a source; replaced by, lessened by or added to the simulated sky, with the flags asked for. Autocorrelations '
     'that a script does not touch, flags, coordinates and variables stay, inputs and existing outputs too. A simulation from nothing holds every time, baseline and polarization once.',
     ['inputs', 'histories'], 'for all data sets of several times, polarizations and baselines, all options and sources',
     'No test runs a script; time, polarization and position caches go wrong only in sequences of records.',
     ['scripts/apply_cal.py', 'scripts/phs2src.py', 'scripts/flux_cal.py', 'scripts/mdlvis.py', 'aipy/cal.py'],
     [('mfunc with curtime', 'scripts/phs2src.py, scripts/flux_cal.py, scripts/mdlvis.py'), ('get_aa, get_catalog', 'aipy/cal.py')],
     JUDGED, 'The factors are those of a new array per record (properties A01, A02 and P02 are about the array itself); products are compared to 14/64.', observe=['scripts/*.py'])

prop('X04', 'Imaging scripts put all data into the images and maps they say',
     'mk_img makes for each source (or zenith, or facet), or for each given number of integrations, one image and beam, numbered on from the given number, which together hold every selected sample (of the asked antennae, polarization, '
     'channels, altitude and length of baseline, unflagged) exactly once, phased to the source, with the passband removed and the weight of the beam, however the data are spread over files and buffered; sources without any data make none. '
     'cl_img makes the asked images of each pair that lacks them, of the same place and time, reweighted and deconvolved as asked, and leaves what is there. mk_map adds to a map every pixel of the given images that is above the horizon, at its '
     'place on the sky of J2000 with the weight of its distance from the middle, whatever images came before; modmap makes a new map of an old one (or none), its averages scaled, with the fluxes of the asked sources at the given frequency added '
     'where they are and their indices put there; existing maps are not replaced. A file that is missing ends a script with an error and takes away nothing; inputs and other files stay as they are.',
     ['inputs', 'histories'], 'for all data sets, options, sources and sequences of making images, cleaning and mapping',
     'No test runs a script; the image depends on buffers, integrations and sources that come before it, the map on earlier images.',
     ['scripts/mk_img.py', 'scripts/cl_img.py', 'scripts/mk_map.py', 'scripts/modmap.py', 'aipy/img.py', 'aipy/map.py'],
     [('loop over sources, files and integrations; grid_it, img_it, to_fits', 'scripts/mk_img.py'), ('rewgt, deconvolution, outputs', 'scripts/cl_img.py'), ('pixels of the image on the sky', 'scripts/mk_map.py'), ('fluxes and indices', 'scripts/modmap.py')],
     JUDGED, 'Without W projection, one polarization at a time; the parts that samples add are those of a new plane and array each (properties I01, A01 and A02 are about these); uvs and bms images are only asserted to be made; of cl_img, positivity '
     '(pos_def) and the anneal and maxent methods are not asserted; values to 2^-11 of images, 2^-10 of maps.', observe=['scripts/*.py'])

prop('X05', 'Fits score parameters by all the data they say and return the best',
     'fitmdl fits exactly the asked parameters of the asked sources and antennae that the calibration has, starting from the given values or those of the calibration; objects that share a parameter have one value throughout. Each score is '
     'the root of the power that the model of the printed parameters leaves over the power of the data, both summed over every selected sample (antennae, polarizations, channels, length of baseline, decimated integrations, unflagged; '
     'autocorrelations if asked) of all files exactly once, whatever parameters were tried before; percentages are relative to the first. The result is among what was tried, no worse than the start, and at most the given number of '
     'iterations goes by. In snapshot mode each integration of each file is fitted by itself, from the start or, if asked, from the last result. A master with daemons that share the files gives what one process gives. Data '
     'without samples have score zero; missing files are an error; data stay as they are.',
     ['inputs', 'histories', 'schedules'], 'for all data sets, options, parameters and divisions among daemons',
     'No test runs the script; what the score misses of the data shows in no output but the score itself, and states left by earlier evaluations and integrations show only in later ones.',
     ['scripts/fitmdl.py', 'aipy/fit.py', 'aipy/scripting.py', 'aipy/optimize.py', 'aipy/amp.py'],
     [('fit_func, snapshot mode, master and daemons', 'scripts/fitmdl.py'), ('flatten_prms, reconstruct_prms, get_params, set_params, print_params', 'aipy/fit.py'), ('parse_prms', 'aipy/scripting.py'), ('fmin', 'aipy/optimize.py'), ('sim_cache, sim', 'aipy/amp.py')],
     JUDGED, 'The model of the data for each set of parameters comes from a new array and catalogue per integration (properties A01, A02 and C01 are about these); scores to about 1 %, parameters to 10^-4. Which parameters the optimizer tries '
     'is its own affair. Daemons: the first file of each has selected data.', observe=['scripts/fitmdl.py'])

prop('X06', 'Filtering takes the delays and rates that are asked, and leaves the rest',
     'filter_src makes of each file one whose cross-correlations of the asked polarizations have lost (or, extracting, are only) what, phased to the source (or not, without one), has delays within the given number of bins (-dw to below dw) '
     'and, if asked, delay rates below the given number of bins, the times padded with a tenth (at least one) of their mirror image at either end, for each baseline and polarization by itself, whichever times it has; with the passband '
     'divided out before, and put back after, if asked. While the source is down, and where all is flagged, nothing is taken. Where samples are flagged in part, flagged values do not matter, what is extracted and what remains add up to the '
     'data, and a source that is steady over the band (and in time) is extracted. Autocorrelations, other polarizations, flags, coordinates and variables stay, the history grows, what exists is neither changed nor made again, and a missing file ends the '
     'run with an error after what came before it.',
     ['inputs', 'histories'], 'for all data sets, sources, widths, flags and sequences of runs',
     'No test runs the script; what is taken of a sample depends on all channels and times of its baseline, and on where the source is at each.',
     ['scripts/filter_src.py', 'aipy/deconv.py', 'aipy/phs.py'],
     [('delay and delay-rate transforms, rm_mfunc', 'scripts/filter_src.py'), ('clean', 'aipy/deconv.py'), ('phs2src, unphs2src, gen_phs', 'aipy/phs.py')],
     JUDGED, 'Factors of phase and passband come from a new array each (properties A01 and A02 are about these). Exact (to 1/10, or 3/4 with passbands, of data up to 99) where nothing is flagged in part and, with delay rates, no integration is '
     'missing; else by the laws. Widths from the lengths of baselines (--dw=-1) and --drw=0 are not asserted.', observe=['scripts/filter_src.py'])

NA = []
